"""C11: the camera (SSL AES) transport: two step login, tagged and numbered messages, plain fallback."""
import asyncio
import base64
import json
import secrets

from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import AuthenticationError, DeviceError, KasaException, SmartErrorCode, TimeoutError as KasaTimeoutError, _ConnectionError, _RetryableError
from kasa.transports.sslaestransport import SslAesTransport
from pyvc.registry import contract, prop

from .c02_errorcodes import check_outcome, draw_code, with_code
from .common import Http, crypto, digest, json_text, unjson

prop("C11", assumptions=(
    "hashes, AES-CBC and base64 are uninterpreted functions with their inverse and length laws; the two password hashes do not collide on a challenge",
    "HttpClient.post returns a status and parsed JSON or raises (C12)", "answers to the login steps carry an error code; nonces and tokens are texts",
    "the SSL context is created by the standard library"))


class Boom(Exception):
    pass


FAULTS = [KasaTimeoutError, _ConnectionError, asyncio.CancelledError, Boom]
NONCE, EXPIRED, BAD_USER, BLOCKED = -40413, -40401, -40411, -40404


def H(c, name, b):
    return digest(c, name, b).hex().upper()


class World:
    def __init__(self, c, login=None):
        self.c = c
        login = login or c.pick("login", ["given", "none", "hash"])
        conn = DeviceConnectionParameters(DeviceFamily.SmartIpCamera, DeviceEncryptionType.Aes, https=True, login_version=2,
                                          http_port=8443 if login == "none" else None)
        cfg = DeviceConfig("127.0.0.9", connection_type=conn)
        self.base = "https://127.0.0.9" + (":8443" if login == "none" else "")
        self.user, self.pw = "dora", "s3cret"
        if login == "given":
            self.pw = c.str("password")
            cfg.credentials = Credentials(self.user, self.pw)
        elif login == "hash":
            cfg.credentials_hash = base64.b64encode(json.dumps({"un": self.user, "pwd": self.pw}).encode()).decode()
        else:
            self.user, self.pw = None, "admin"
        self.http = Http(c, self.post)
        c.patch(secrets, "token_bytes", self.token)
        c.patch(SslAesTransport, "_create_ssl_context", lambda t: "context")
        self.sha, self.md5 = H(c, "sha256", self.pw.encode()), H(c, "md5", self.pw.encode())
        o = c.call(SslAesTransport, config=cfg)
        c.check("a transport can be made", o.ok)
        self.t = o.value
        self.session, self.n, self.nonces, self.order, self.plan, self.used = None, 0, [], [], {}, 0

    def token(self, n=None):
        self.c.check("the challenge has 8 bytes", n == 8)
        v = self.c.bytes("challenge", 8)
        self.nonces.append(v.hex().upper())
        return v

    # the device
    def post(self, p):
        c = self.c
        self.n += 1
        c.check("camera requests go over TLS with the library's context", p.ssl == "context" and p.url.startswith("https://"))
        if p.url != self.base:
            return self.request(p)
        c.check("logins go to the base URL as JSON objects", p.json["method"] == "login" and p.data is None)
        q = p.json["params"]
        if "digest_passwd" in q:
            return self.step2(q)
        if "hashed" in q:
            return self.weak(q)
        return self.step1(q)

    def bad(self, k):
        c = self.c
        if k == "fault":
            self.raised = c.pick("fault", FAULTS)("x")
            raise self.raised
        s = c.int("status", 100, 599)
        c.assume(s != 200)
        if k == "request status":
            c.assume(s != 500)
        return s, {}

    def step1(self, q):
        c = self.c
        who = "default" if q["username"] == "admin" else "own"
        first = not any(x[0] == "1" for x in self.order)
        self.order.append("1" + who)
        self.session = None
        c.check("a login's challenge is not that of an earlier one", len(self.nonces) > self.used or not first)
        self.used = len(self.nonces)
        c.check("step 1 offers a fresh challenge", c.and_(len(self.nonces) > 0, c.eq(q["cnonce"], self.nonces[-1]), sorted(q) == ["cnonce", "encrypt_type", "username"],
                q["encrypt_type"] == "3"))
        c.check("step 1 names the configured user, or the factory user", q["username"] in ("admin", self.user))
        if who == "default" and self.user and not self.remembered:
            c.check("the factory user is only tried after the configured one", "1own" in self.order)
        k = self.plan.get(who, "other")
        self.last = k
        if k in ("fault", "status"):
            return self.bad(k)
        if k in ("sha", "md5", "wrong"):
            return 200, self.challenge(k)
        if k in ("less", "less baduser"):
            d = {"encrypt_type": c.pick("encrypt types", [["1", "2"], ["1"]])}
            if k == "less baduser":
                d["code"] = BAD_USER
            return 200, {"error_code": EXPIRED, "result": {"data": d}}
        if k == "blocked":
            return 200, {"error_code": EXPIRED, "data": {"code": BLOCKED, **({"sec_left": c.int("seconds left", 0, 10**5)} if c.maybe("has seconds") else {})}}
        code = c.int("code", pool=(-40401, -40413, -1, 0, 7))
        inner = c.int("inner", pool=(-40411, -40401, 0, 7))
        c.assume(inner != BLOCKED)
        return 200, {"error_code": code, "result": {"data": {"code": inner}}}

    def challenge(self, k):
        c = self.c
        self.server = c.str("server nonce")
        good = {k: H(c, "sha256", self.nonces[-1].encode() + getattr(self, k).encode() + self.server.encode()) + self.server + self.nonces[-1]
                for k in ("sha", "md5")}
        c.assume(c.not_(c.eq(good["sha"], good["md5"])))
        if k == "wrong":
            confirm = c.str("device confirm")
            c.assume(c.not_(c.eq(confirm, good['sha'])))
            c.assume(c.not_(c.eq(confirm, good['md5'])))
        else:
            confirm = good[k]
            self.pwd = getattr(self, k)
        return {"error_code": NONCE, "result": {"data": {"nonce": self.server, "device_confirm": confirm, "code": EXPIRED, "encrypt_type": ["3"]}}}

    def step2(self, q):
        c = self.c
        self.order.append("2")
        c.check("step 2 only follows a device that proved the password", self.last in ("sha", "md5"))
        want = H(c, "sha256", self.pwd.encode() + self.nonces[-1].encode() + self.server.encode()) + self.nonces[-1] + self.server
        c.check("step 2 proves the same password back", c.and_(c.eq(q["digest_passwd"], want), c.eq(q["cnonce"], self.nonces[-1]), q["encrypt_type"] == "3"))
        c.check("step 2 names the user step 1 succeeded for", self.order[-2] == ("1default" if q["username"] == "admin" else "1own"))
        k = self.plan.get("2", "good")
        if k in ("fault", "status"):
            return self.bad(k)
        if k == "code":
            v, self.code = draw_code(c)
            c.assume(self.code != 0)
            return 200, with_code(v)
        self.seq = c.int("first number")
        key = lambda kind: digest(c, "sha256", kind + self.nonces[-1].encode() + self.server.encode() + H(  # noqa: E731
            c, "sha256", self.nonces[-1].encode() + self.pwd.encode() + self.server.encode()).encode())[:16]
        self.session = ("secure", key(b"lsk"), key(b"ivb"), f"{self.base}/stok=tok{self.n}/ds", self.nonces[-1])
        return 200, {"error_code": 0, "result": {"stok": f"tok{self.n}", "start_seq": self.seq}}

    def weak(self, q):
        c = self.c
        self.order.append("weak")
        c.check("the plain login is only used when the device offers no better one", self.last in ("less", "less baduser"))
        c.check("the plain login carries the MD5 password", q["hashed"] is True and c.eq(q["password"], self.md5)
                and self.order[-2] == ("1default" if q["username"] == "admin" else "1own"))
        k = self.plan.get("weak", "good")
        if k in ("fault", "status"):
            return self.bad(k)
        if k == "code":
            code = c.int("login code")
            c.assume(code != 0)
            return 200, c.pick("refusal", [{"error_code": code, "result": {}}, {"error_code": code}, {"error_code": 0}, {"error_code": 0, "result": {}}])
        self.session = ("plain", f"{self.base}/stok=tok{self.n}/ds")
        return 200, {"error_code": 0, "result": {"stok": f"tok{self.n}"}}

    def request(self, p):
        c = self.c
        self.order.append("request")
        c.check("requests need a session", self.session is not None)
        k = self.plan.get("request", "good")
        if self.session[0] == "plain":
            c.check("a plain session sends the request as it is", p.url == self.session[1] and c.eq(p.json, self.text))
            if k == "unlucky":
                return 500, {}
        else:
            _, key, iv, url, nonce = self.session
            c.check("requests go to the token URL of this login", p.url == url)
            tag = H(c, "sha256", H(c, "sha256", self.pwd.encode() + nonce.encode()).encode() + p.json.encode() + str_of(c, self.seq).encode())
            c.check("requests carry the next sequence number and their tag", c.and_(c.eq(p.headers["Seq"], str_of(c, self.seq)), c.eq(p.headers["Tapo_tag"], tag)))
            self.seq = self.seq + 1
            K = crypto(c)
            body = unjson(p.json)
            c.check("requests are wrapped and encrypted with the session key", body["method"] == "securePassthrough" and c.eq(
                body["params"]["request"], b64(c, K.enc(key, iv, K.pad(self.text.encode())))))
            if k == "unlucky":
                return 500, c.pick("500 body", [{}, {"result": {"response": "AAAA"}}, b"oops", {"result": {"response": b64(c, K.enc(key, iv, K.pad(b'{"error_code": 0}')))}}])
        if k in ("fault", "status"):
            return self.bad("request status" if k == "status" else k)
        if k == "code":
            v, self.code = draw_code(c)
            c.assume(self.code != 0)
            return 200, with_code(v)
        self.reply = {"error_code": 0, "result": {"x": c.int("reply")}}
        if self.session[0] == "plain" or k == "plain":
            return 200, self.reply
        if k == "in clear":
            self.reply = {"error_code": 0, "result": {"x": 5}}
            return 200, {"error_code": 0, "result": {"response": '{"error_code": 0, "result": {"x": 5}}'}}
        return 200, {"error_code": 0, "result": {"response": b64(c, K.enc(key, iv, K.pad(json_text(c, self.reply).encode())))}}

    remembered = False

    def send(self, **plan):
        self.plan, self.order, self.asked = plan, [], {"method": "get", "n": self.c.int("n")}
        self.text = json_text(self.c, self.asked)
        return self.c.call(self.t.send, self.text)

    def good(self, label, *order, **plan):
        o = self.send(**plan)
        self.c.check(label, self.order == [*order])
        self.c.check("an undisturbed send returns the device's answer", o.ok and self.c.eq(o.value, self.reply))


def b64(c, b):
    if c.symbolic:
        return c.S.interp.call(base64.b64encode, (b,), {}).decode()
    return base64.b64encode(b).decode()


def str_of(c, i):
    return c.S.interp.int_to_str(i) if c.symbolic and hasattr(i, "e") else str(i)


OPT = {"abstract": True, "time_limit": 300}
FUNCS = ("SslAesTransport.perform_handshake1", "SslAesTransport.perform_handshake2", "SslAesTransport.try_perform_less_secure_login",
         "SslAesTransport.try_send_handshake1", "SslAesTransport._pwd_to_hash")


def login_paths(login):
    def driver(c):
        w = World(c, login)
        own = c.pick("own", ["sha", "md5", "wrong", "less", "less baduser", "other", "blocked"]) if w.user else None
        secure = ("sha", "md5")
        if own in secure:
            w.good("the configured user logs in in two steps", "1own", "2", "request", own=own)
            c.cover("own secure")
        elif own == "wrong":
            o = w.send(own=own)
            c.check("a device that cannot prove the password is an authentication error, and nothing more is sent",
                    o.exactly(AuthenticationError) and w.order == ["1own"])
        else:
            pre = ["1own"] if own else []
            if own == "less":
                k = c.pick("weak", ["good", "code", "status", "fault"])
                if k == "good":
                    w.good("a device without secure login is logged in plainly", "1own", "weak", "request", own=own)
                    c.cover("own plain")
                    return
                if k in ("status", "fault"):
                    o = w.send(own=own, weak=k)
                    c.check("a failed plain login ends the send", w.order == ["1own", "weak"] and (o.exc is w.raised if k == "fault" else o.exactly(KasaException)))
                    return
                pre = ["1own", "weak"]
            d = c.pick("default", ["sha", "md5", "wrong", "less", "other"])
            weak = "code" if own == "less" else "good"
            if d in secure:
                w.good("the factory user logs in in two steps", *pre, "1default", "2", "request", own=own, default=d, weak=weak)
                c.cover("default secure")
            elif d == "less" and weak == "good":
                w.good("the factory user logs in plainly", *pre, "1default", "weak", "request", own=own, default=d)
                c.cover("default plain")
            else:
                o = w.send(own=own, default=d, weak=weak)
                c.check("no request without a login", "request" not in w.order and "2" not in w.order)
                if own == "blocked" and d != "wrong":
                    c.check("a blocked device is reported as blocked", o.exactly(DeviceError) and o.exc.error_code is SmartErrorCode.DEVICE_BLOCKED)
                    c.cover("blocked")
                else:
                    c.check("a refused login is an authentication error", o.exactly(AuthenticationError))
                    c.cover("refused")

    return driver


for _login in ("given", "none", "hash"):
    contract("C11", f"login_paths_{_login}", funcs=FUNCS, opts=OPT, covers=("default secure", "default plain", "refused") + (
        () if _login == "none" else ("own secure", "own plain", "blocked")))(login_paths(_login))


@contract("C11", funcs=("SslAesTransport.perform_handshake",), covers=("retryable", "auth", "device", "nonce", "fault", "status"), opts=OPT)
def failing_steps(c):
    w = World(c, "given")
    at = c.pick("failing", ["own", "2"])
    k = c.pick("what", ["fault", "status"] + (["code"] if at == "2" else []))
    o = w.send(**{"own": "sha", at: k})
    c.check("a failed step ends the send", w.order == (["1own"] if at == "own" else ["1own", "2"]))
    if k == "fault":
        c.check("an error of the HTTP client passes through", o.exc is w.raised)
        c.cover(k)
    elif k == "status":
        c.check("a refused step is a library error", o.exactly(KasaException))
        c.cover(k)
    elif w.code == NONCE:
        c.check("a rejected proof is an authentication error", o.exactly(AuthenticationError))
        c.cover("nonce")
    else:
        check_outcome(c, o, w.code, None)
    w.good("the next send logs in from the start", "1own", "2", "request", own="md5")


@contract("C11", funcs=("SslAesTransport.send_secure_passthrough", "SslAesTransport.send_unencrypted", "SslAesTransport.generate_tag", "SslAesTransport.reset",
          "SslAesTransport.close"), covers=("retryable", "auth", "device", "500", "status", "fault", "plain", "in clear", "reset"), opts=OPT)
def session_use(c):
    w = World(c, "given")
    weak = c.maybe("plain session")
    how = {"own": "less" if weak else c.pick("hash", ["sha", "md5"])}
    login = ["1own", "weak", "request"] if weak else ["1own", "2", "request"]
    w.good("login first", *login, **how)
    k = c.pick("then", ["good", "plain", "in clear", "code", "status", "unlucky", "fault", "reset", "close"])
    again = ["request"]
    if k in ("reset", "close"):
        o = c.call(getattr(w.t, k))
        c.check("resetting succeeds", o.ok)
        w.session, again = None, login
        c.cover("reset")
    else:
        o = w.send(request=k)
        c.check("the session is used without a new login", w.order == ["request"])
        if k in ("good", "plain", "in clear"):
            c.check("the answer is returned", o.ok and c.eq(o.value, w.reply))
            c.cover(k)
        elif k == "code":
            check_outcome(c, o, w.code, None)
            if o.exactly(AuthenticationError):
                w.session, again = None, login
        elif k == "fault":
            c.check("an error of the HTTP client passes through", o.exc is w.raised)
            c.cover(k)
        elif k == "unlucky" and not weak:
            c.check("status 500 in a session is retryable", o.exactly(_RetryableError))
            c.cover("500")
        else:
            c.check("any other status is a library error", o.exactly(KasaException))
            c.cover("status")
    w.good("the session is kept, or made anew after a reset or an authentication error", *again, **how)


@contract("C11", funcs=("SslAesTransport.perform_handshake2", "SslAesTransport.try_perform_less_secure_login"), covers=("upgraded", "downgraded"), opts=OPT)
def changed_device(c):
    """A device that changes its login scheme between two sessions (a firmware update, say)."""
    w = World(c, "given")
    plain, secure = ("less", ["1own", "weak", "request"]), ("sha", ["1own", "2", "request"])
    up = c.maybe("upgraded")
    for own, order in ([plain, secure] if up else [secure, plain]):
        w.good("each session follows the scheme the device offers then", *order, own=own)
        w.session = None
        o = c.call(w.t.reset)
        c.check("resetting succeeds", o.ok)
    c.cover("upgraded" if up else "downgraded")


@contract("C11", funcs=("SslAesTransport.credentials_hash",), covers=("roundtrip", "none"), opts=OPT)
def credentials_hash(c):
    Http(c, None)
    un, pw = c.str("user"), c.str("password")
    o = c.call(SslAesTransport, config=DeviceConfig("127.0.0.9", credentials=Credentials(un, pw)))
    h = c.get(o.value, "credentials_hash")
    c.check("the hash can be read", h.ok)
    if h.value is None:
        c.check("only incomplete credentials have no hash", c.or_(un == "", pw == ""))
        c.cover("none")
        return
    t = c.call(SslAesTransport, config=DeviceConfig("127.0.0.9", credentials_hash=h.value))
    c.check("a transport made from the hash uses the same user and password", t.ok and c.and_(c.eq(t.value._username, un), c.eq(t.value._password, pw)))
    h2 = c.get(t.value, "credentials_hash")
    c.check("and hands out the same hash", h2.ok and c.eq(h2.value, h.value))
    c.cover("roundtrip")


@contract("C11", "tls_context", funcs=("SslAesTransport._get_ssl_context", "SslAesTransport._create_ssl_context"), covers=("made",))
def tls_context(c):
    from .common import tls

    Http(c, None)
    tls(c, c.call(SslAesTransport, config=DeviceConfig("127.0.0.9")).value)
