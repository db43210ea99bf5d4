"""C09: KLAP handshake: mutual proof of the credentials, session life time, recovery."""
import asyncio
import base64
import secrets

from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import AuthenticationError, KasaException, TimeoutError as KasaTimeoutError, _ConnectionError, _RetryableError
from kasa.transports.klaptransport import KlapTransport, KlapTransportV2
from pyvc.registry import contract, prop

from .c08_klapsession import Spec
from .common import Clock, Http, digest, int_text, json_text

prop("C09", assumptions=(
    "hashes are uninterpreted functions; different candidate credentials do not collide on a challenge",
    "HttpClient.post returns a status and a body or raises (its own contract: C12)", "secrets.token_bytes(16) returns 16 bytes",
    "the device's TIMEOUT cookie, when present, is a number"))

# the factory credentials a device that was never set up answers to (public knowledge, independent of the code's table)
FACTORY = [("kasa@tp-link.net", "kasaSetup"), ("admin", "21232f297a57a5a743894a0e4a801fc3"), ("test@tp-link.net", "test"), ("admin", "admin")]


def auth(c, v2, un, pw):
    if v2:
        return digest(c, "sha256", digest(c, "sha1", un.encode()) + digest(c, "sha1", pw.encode()))
    return digest(c, "md5", digest(c, "md5", un.encode()) + digest(c, "md5", pw.encode()))


def hs1(c, v2, ls, rs, a):
    return digest(c, "sha256", ls + rs + a if v2 else ls + a)


def hs2(c, v2, ls, rs, a):
    return digest(c, "sha256", rs + ls + a if v2 else rs + a)


class Boom(Exception):
    pass


FAULTS = [KasaTimeoutError, _ConnectionError, KasaException, asyncio.CancelledError, Boom]


class World:
    def __init__(self, c, fixed_login=None, vary_url=False, vary_cookies=True):
        self.c = c
        self.v2 = c.maybe("v2")
        self.vary_cookies = vary_cookies
        login = fixed_login or c.pick("login", ["given", "blank", "none", "hash"])
        https = vary_url and c.maybe("https")
        port = c.pick("http_port", [None, 8080]) if vary_url else None
        conn = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Klap, https=https, http_port=port)
        cfg = DeviceConfig("127.0.0.9", connection_type=conn)
        blank = auth(c, self.v2, "", "")
        if login == "given":
            un, pw = c.str("user"), c.str("password")
            c.assume(c.not_(c.and_(un == "", pw == "")))
            cfg.credentials = Credentials(un, pw)
            own = auth(c, self.v2, un, pw)
        elif login in ("blank", "none"):
            cfg.credentials = Credentials() if login == "blank" else None
            own = blank
        else:
            own = c.bytes("own hash", 32 if self.v2 else 16)
            cfg.credentials_hash = self.b64(own)
        self.cands = [own] + [auth(c, self.v2, *f) for f in FACTORY]
        if login in ("given", "hash"):
            self.cands.append(blank)
        self.clock = Clock(c)
        self.http = Http(c, self.post)
        self.n_seed = self.used_seeds = 0
        c.patch(secrets, "token_bytes", self.token)
        self.base = f"http{'s' if https else ''}://127.0.0.9:{port or (4433 if https else 80)}/app".replace(":80/", "/")
        self.make(cfg)
        self.established = None  # (Spec, expiry)

    def make(self, cfg):
        o = self.c.call(KlapTransportV2 if self.v2 else KlapTransport, config=cfg)
        self.c.check("a transport can be made", o.ok)
        self.t = o.value

    def b64(self, b):
        if self.c.symbolic:
            return self.c.S.interp.call(base64.b64encode, (b,), {}).decode()
        return base64.b64encode(b).decode()

    def token(self, n=None):
        self.c.check("the challenge has 16 bytes", n == 16)
        self.seed = self.c.bytes("seed", 16)
        self.n_seed += 1
        return self.seed

    def post(self, p):
        c = self.c
        if p.url == self.base + "/handshake1":
            return self.on1(p)
        if p.url == self.base + "/handshake2":
            return self.on2(p)
        c.check("only the three KLAP endpoints of this device are used", p.url == self.base + "/request")
        return self.onr(p)

    def script(self, hs1="good", hs2="good", req="good", match=0):
        self.plan = {"hs1": hs1, "hs2": hs2, "req": req}
        self.match = match
        self.order = []

    def fault(self):
        e = self.raised = self.c.pick("fault", FAULTS)("x")
        raise e

    def on1(self, p):
        c = self.c
        self.order.append("hs1")
        self.established = None
        c.check("handshake 1 sends the fresh challenge", c.and_(self.n_seed > self.used_seeds, c.eq(p.data, self.seed)))
        self.used_seeds = self.n_seed
        c.check("handshake 1 sends no old session cookie", not p.cookies)
        k = self.plan["hs1"]
        if k == "fault":
            self.fault()
        self.t1 = self.clock.now
        if k == "status":
            s = c.int("status1", 100, 599)
            c.assume(s != 200)
            return s, c.bytes("body1", lo=0, hi=64)
        if k == "length":
            b = c.bytes("body1", lo=0, hi=100)
            c.assume((b.s_len() if c.symbolic else len(b)) != 48)
            return 200, b
        self.rs = c.bytes("remote seed", 16)
        ch = [hs1(c, self.v2, self.seed, self.rs, a) for a in self.cands]
        if k == "wrong":
            h = c.bytes("proof", 32)
            for x in ch:
                c.assume(c.not_(c.eq(h, x)))
        else:
            h = ch[self.match]
            for x in ch[: self.match]:
                c.assume(c.not_(c.eq(h, x)))
        self.http.cookies = {}
        self.cookie = None
        if not self.vary_cookies or c.maybe("session cookie"):
            self.cookie = c.str("cookie", nonempty=True)
            self.http.cookies["TP_SESSIONID"] = self.cookie
        self.life = 86400
        if not self.vary_cookies or c.maybe("timeout cookie"):
            self.http.cookies["TIMEOUT"], self.life = int_text(c, "life time", pool=(1200, 1300, 86400))
        return 200, self.rs + h

    def cookies_ok(self, p):
        c = self.c
        if self.cookie is None:
            return not p.cookies
        return p.cookies is not None and list(p.cookies) == ["TP_SESSIONID"] and c.eq(p.cookies["TP_SESSIONID"], self.cookie)

    def on2(self, p):
        c = self.c
        self.order.append("hs2")
        c.check("handshake 2 only follows a proven handshake 1", self.plan["hs1"] == "good" and self.order[-2:] == ["hs1", "hs2"])
        c.check("handshake 2 proves the same credentials to the device", c.eq(p.data, hs2(c, self.v2, self.seed, self.rs, self.cands[self.match])))
        c.check("handshake 2 carries the session cookie", self.cookies_ok(p))
        k = self.plan["hs2"]
        if k == "fault":
            self.fault()
        if k == "status":
            s = c.int("status2", 100, 599)
            c.assume(s != 200)
            return s, b""
        self.established = (Spec(c, self.seed, self.rs, self.cands[self.match]), self.t1 + self.life - 1200)
        return 200, b""

    def onr(self, p):
        c = self.c
        self.order.append("req")
        c.check("no request without an established session", self.established is not None)
        spec, exp = self.established
        if "hs1" not in self.order:
            c.check("no request on an expired session", exp > self.clock.now)
        seq = spec.step()
        c.check("the request is the encrypted message", c.eq(p.data, spec.frame(self.text.encode(), seq)))
        c.check("the request names its sequence number", list(p.params) == ["seq"] and c.eq(p.params["seq"], seq))
        c.check("the request carries the session cookie", self.cookies_ok(p))
        k = self.plan["req"]
        if k == "fault":
            self.fault()
        if k == "forbidden":
            self.established = None
            return 403, b""
        if k == "status":
            s = c.int("status", 100, 599)
            c.assume(c.and_(s != 200, s != 403))
            return s, b""
        if k == "garbage":
            return 200, c.bytes("garbage", 33)
        self.reply = {"error_code": 0, "result": {"x": c.int("reply")}}
        return 200, spec.answer(c.bytes("signature", 32), json_text(c, self.reply).encode(), seq)

    def send(self):
        self.text = self.c.str("request")
        return self.c.call(self.t.send, self.text)

    def good(self, label, handshake):
        self.script()
        o = self.send()
        want = (["hs1", "hs2"] if handshake else []) + ["req"]
        self.c.check(label, self.order == want)
        self.c.check("an undisturbed send returns the device's answer", o.ok and self.c.eq(o.value, self.reply))


OPT = {"abstract": True, "time_limit": 400}


@contract("C09", funcs=("KlapTransport.perform_handshake1", "KlapTransport.perform_handshake2", "KlapTransport.send", "KlapTransport.generate_auth_hash",
                        "KlapTransportV2.generate_auth_hash"), covers=("0", "5"), opts=OPT)
def authentic_device(c):
    w = World(c, vary_cookies=False)
    i = c.pick("matching", list(range(len(w.cands))))
    w.script(match=i)
    o = w.send()
    c.check("a device that knows accepted credentials gets a session and answers", o.ok and c.eq(o.value, w.reply))
    c.check("two handshake steps, then the request", w.order == ["hs1", "hs2", "req"])
    c.cover(str(i))


@contract("C09", "set_up_meanwhile", funcs=("KlapTransport.perform_handshake1", "KlapTransport.perform_handshake2", "KlapTransport.send", "KlapTransport.reset"), covers=("0", "5"), opts=OPT)
def set_up_meanwhile(c):
    """A device which knows other accepted credentials at a later handshake: they are tried in the same order again."""
    w = World(c, "given", vary_cookies=False)
    for when in ("first", "later"):
        i = c.pick(when, list(range(len(w.cands))))
        w.script(match=i)
        o = w.send()
        c.check("a device that knows accepted credentials gets a session and answers", o.ok and c.eq(o.value, w.reply))
        c.check("two handshake steps, then the request", w.order == ["hs1", "hs2", "req"])
        c.call(w.t.reset)
        w.established = None
    c.cover(str(i))


@contract("C09", funcs=("KlapTransport.send", "KlapTransport.default_port"), covers=("ok", "again"), opts=OPT)
def addresses_and_cookies(c):
    w = World(c, "given", vary_url=True)
    w.good("two handshake steps, then the request", True)
    c.cover("ok")
    if c.maybe("session over"):
        # what the device gave for the first session is not used in the next
        c.assume(w.established[1] <= w.clock.now + 10**6)
        w.clock.advance()
        c.assume(w.clock.now >= w.established[1])
        w.good("an expired session is made anew", True)
        c.cover("again")


@contract("C09", funcs=("KlapTransport.perform_handshake",), covers=("wrong", "length", "status1", "status2", "fault"), opts=OPT)
def failing_handshake(c):
    w = World(c, c.pick("login kind", ["given", "blank"]), vary_cookies=False)
    if c.maybe("had a session"):
        w.good("handshake first", True)
        c.assume(w.established[1] <= w.clock.now + 10**6)
        w.clock.advance()
        c.assume(w.clock.now >= w.established[1])
    k = c.pick("what", ["wrong", "length", "status1", "status2", "fault1", "fault2"])
    if k in ("wrong", "length"):
        w.script(hs1=k)
        o = w.send()
        c.check("an unknown proof is an authentication error, a malformed one a library error",
                o.exactly(AuthenticationError) if k == "wrong" else o.exactly(KasaException))
        c.cover(k)
    elif k == "status1":
        w.script(hs1="status")
        o = w.send()
        c.check("a refused handshake 1 is a library error", o.exactly(KasaException))
        c.cover(k)
    elif k == "status2":
        w.script(hs2="status")
        o = w.send()
        c.check("a refused handshake 2 is a library error but not an authentication error", o.exactly(KasaException))
        c.cover(k)
    else:
        w.script(**{"hs" + k[-1]: "fault"})
        o = w.send()
        c.check("an error of the HTTP client passes through", not o.ok and o.exc is w.raised)
        c.cover("fault")
    c.check("nothing is sent after a failed handshake", "req" not in w.order)
    w.clock.advance()
    w.good("the next send starts a new handshake", True)


@contract("C09", funcs=("KlapTransport.send", "KlapTransport._handshake_session_expired", "KlapTransport.reset", "KlapTransport.close"),
          covers=("good", "forbidden", "status", "garbage", "fault", "reset", "reused", "expired"), opts=OPT)
def session_life(c):
    w = World(c, "given", vary_cookies=False)
    w.good("handshake first", True)
    c.assume(w.established[1] > w.clock.now)
    k = c.pick("then", ["good", "forbidden", "status", "garbage", "fault", "reset", "close"])
    if k in ("reset", "close"):
        o = c.call(getattr(w.t, k))
        c.check("resetting succeeds", o.ok)
        w.established = None
        c.cover("reset")
    else:
        w.script(req=k)
        o = w.send()
        c.check("a live session is used without a new handshake", w.order == ["req"])
        if k == "forbidden":
            c.check("a security error is retryable", o.exactly(_RetryableError))
        elif k == "fault":
            c.check("an error of the HTTP client passes through", o.exc is w.raised)
        elif k == "good":
            c.check("the answer is returned", o.ok and c.eq(o.value, w.reply))
        elif k == "status":
            c.check("any other status is a library error", o.exactly(KasaException))
        else:
            c.check("an undecipherable answer is a library error", o.exactly(KasaException))
        c.cover(k)
    w.clock.advance()
    if w.established is None:
        w.good("after a reset or a security error a new session is made", True)
    elif w.established[1] > w.clock.now:
        w.good("a live session is reused", False)
        c.cover("reused")
    else:
        w.good("an expired session is replaced", True)
        c.cover("expired")


@contract("C09", funcs=("KlapTransport.credentials_hash",), covers=("roundtrip", "blank"), opts=OPT)
def credentials_hash_roundtrip(c):
    w = World(c, vary_cookies=False)
    h = c.get(w.t, "credentials_hash")
    c.check("the hash can be read", h.ok)
    if h.value is None:
        c.check("only blank credentials have no hash", len(w.cands) == 5)
        c.cover("blank")
        return
    cfg = DeviceConfig("127.0.0.9", credentials_hash=h.value, connection_type=w.t._config.connection_type)
    w.make(cfg)
    w.good("a transport made from the hash authenticates with the same credentials", True)
    c.cover("roundtrip")


@contract("C09", "tls_context", funcs=("KlapTransport._get_ssl_context", "KlapTransport._create_ssl_context"), covers=("made",))
def tls_context(c):
    from .common import tls

    Http(c, None)
    tls(c, c.call(KlapTransportV2, config=DeviceConfig("127.0.0.9")).value)
