"""C13: the clear-text HTTPS (robot vacuum) and Linkie (Kasa camera) transports."""
import asyncio
import base64
import json
from urllib.parse import unquote

from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import AuthenticationError, KasaException, TimeoutError as KasaTimeoutError, _ConnectionError, _RetryableError
from kasa.transports.linkietransport import LinkieTransportV2
from kasa.transports.ssltransport import SslTransport
from pyvc.registry import contract, prop

from .c02_errorcodes import AUTH, check_outcome, draw_code, with_code
from .common import Clock, Http, digest, json_text, patch_sleep, unjson

prop("C13", assumptions=("MD5 and base64 are uninterpreted functions", "HttpClient.post returns a status and parsed JSON or raises (C12)",
                         "session tokens are URL-safe texts", "the legacy cipher is the one of C06"))


class Boom(Exception):
    pass


FAULTS = [KasaTimeoutError, _ConnectionError, asyncio.CancelledError, Boom]


class World:
    def __init__(self, c, login=None):
        self.c = c
        login = login or c.pick("login", ["given", "none", "hash"])
        conn = DeviceConnectionParameters(DeviceFamily.SmartTapoRobovac, DeviceEncryptionType.Aes, https=True,
                                          http_port=8443 if login == "none" else None)
        cfg = DeviceConfig("127.0.0.9", connection_type=conn)
        self.base = f"https://127.0.0.9:{8443 if login == 'none' else 4433}/app"
        if login == "given":
            un, pw = c.str("user"), c.str("password")
            cfg.credentials = Credentials(un, pw)
            self.own = self.params(un, pw)
        elif login == "none":
            self.own = self.params("", "")
        else:
            self.own = {"password": "ABCD", "username": "dora"}
            cfg.credentials_hash = base64.b64encode(json.dumps(self.own).encode()).decode()
        self.factory = self.params("test@tp-link.net", "test")
        self.clock = Clock(c)
        self.http = Http(c, self.post)
        patch_sleep(c, lambda s: c.check("a pause is a second at most", s <= 1))
        self.token, self.plan, self.order, self.n = None, {}, [], 0
        o = c.call(SslTransport, config=cfg)
        c.check("a transport can be made", o.ok)
        self.t = o.value

    def params(self, un, pw):
        return {"password": digest(self.c, "md5", pw.encode()).hex().upper(), "username": un}

    def post(self, p):
        c = self.c
        self.n += 1
        msg = unjson(p.json)
        c.check("only this device's application URL is used", p.url.split("?")[0] == self.base)
        if msg.get("method") != "login":
            return self.request(p, msg)
        self.order.append("login")
        first = self.order == ["login"]
        c.check("the configured credentials are tried first, the factory ones only after they were rejected", c.eq(msg["params"], self.own if first else self.factory))
        if self.token is None:
            c.check("a first login carries no token", p.url == self.base)
        k = self.plan.get("login" if first else "login2", "good")
        self.token = None
        if k in ("fault", "status"):
            return self.bad(k)
        if k == "rejected":
            return 200, {"error_code": -1501}
        if k == "code":
            return self.coded(c.not_)
        self.token = f"tok{self.n}"
        self.expiry = self.clock.now + 86400 - 1200
        return 200, {"error_code": 0, "result": {"token": self.token}}

    def coded(self, _):
        c = self.c
        v, self.code = draw_code(c)
        c.assume(c.and_(self.code != 0, self.code != -1501))
        return 200, with_code(v)

    def bad(self, k):
        c = self.c
        if k == "fault":
            self.raised = c.pick("fault", FAULTS)("x")
            raise self.raised
        s = c.int("status", 100, 599)
        c.assume(s != 200)
        return s, {}

    def request(self, p, msg):
        c = self.c
        self.order.append("request")
        c.check("requests need a login and go to its token URL", self.token is not None and p.url == f"{self.base}?token={self.token}")
        if "login" not in self.order:
            c.check("no request on an expired session", self.expiry > self.clock.now)
        c.check("the request reaches the device unchanged", c.eq(msg, self.asked))
        k = self.plan.get("request", "good")
        if k in ("fault", "status"):
            return self.bad(k)
        if k == "code":
            return self.coded(None)
        self.reply = {"error_code": 0, "result": {"x": c.int("reply")}}
        return 200, self.reply

    def send(self, **plan):
        self.plan, self.order, self.asked = plan, [], {"method": "get", "n": self.c.int("n")}
        return self.c.call(self.t.send, json_text(self.c, self.asked))

    def good(self, label, *order):
        o = self.send()
        self.c.check(label, self.order == [*order])
        self.c.check("an undisturbed send returns the device's answer", o.ok and self.c.eq(o.value, self.reply))


OPT = {"abstract": True, "time_limit": 200}


@contract("C13", funcs=("SslTransport.send", "SslTransport.perform_login", "SslTransport.try_login", "SslTransport.send_request", "SslTransport._get_login_params",
          "SslTransport.hash_credentials"), covers=("reused", "expired", "reset"), opts=OPT)
def session_life(c):
    w = World(c)
    w.good("a login, then the request", "login", "request")
    if c.maybe("reset"):
        o = c.call(c.pick("how", [w.t.reset, w.t.close]))
        c.check("resetting succeeds", o.ok)
        w.token = None
        w.good("a login, then the request", "login", "request")
        c.cover("reset")
        return
    w.clock.advance()
    if w.expiry > w.clock.now:
        w.good("a live session is reused", "request")
        c.cover("reused")
    else:
        w.good("an expired session is replaced", "login", "request")
        c.cover("expired")


@contract("C13", funcs=("SslTransport.perform_login", "SslTransport._handle_response_error_code"), covers=("factory", "rejected", "status", "fault", "retryable", "auth", "device"), opts=OPT)
def failing_login(c):
    w = World(c, c.pick("login kind", ["given", "hash"]))
    k = c.pick("what", ["rejected", "status", "fault", "code"])
    if k == "rejected":
        second = c.pick("second", ["good", "rejected", "status"])
        o = w.send(login=k, login2=second)
        if second == "good":
            c.check("the factory credentials are used once the configured ones are rejected", o.ok and w.order == ["login", "login", "request"])
            c.cover("factory")
            w.good("the session is kept", "request")
            o = c.call(w.t.reset)
            w.token = None
            o = w.send(login="rejected", login2="good")
            c.check("and again once the session is lost", o.ok and w.order == ["login", "login", "request"])
            return
        c.check("two logins, no request", w.order == ["login", "login"])
        c.check("a rejected login is an authentication error, other failures are library errors", o.exactly(AuthenticationError if second == "rejected" else KasaException))
        c.cover("rejected")
    else:
        o = w.send(login=k)
        c.check("no request without a login", w.order == ["login"])
        if k == "code":
            check_outcome(c, o, w.code, None)
        elif k == "status":
            c.check("a refused login is a library error", o.exactly(KasaException))
            c.cover(k)
        else:
            c.check("an error of the HTTP client passes through", o.exc is w.raised)
            c.cover(k)
    w.good("the next send logs in again", "login", "request")


@contract("C13", funcs=("SslTransport.send_request", "SslTransport._handle_response_error_code", "SslTransport.reset"), covers=("status", "fault", "retryable", "auth", "device"), opts=OPT)
def failing_request(c):
    w = World(c, "given")
    w.good("a login, then the request", "login", "request")
    k = c.pick("what", ["status", "fault", "code"])
    o = w.send(request=k)
    c.check("the session is used", w.order == ["request"])
    again = ["request"]
    if k == "code":
        check_outcome(c, o, w.code, None)
        if o.exactly(AuthenticationError):
            w.token, again = None, ["login", "request"]
    elif k == "status":
        c.check("an unexpected status is a library error", o.exactly(KasaException))
        c.cover(k)
    else:
        c.check("an error of the HTTP client passes through", o.exc is w.raised)
        c.cover(k)
    w.good("an authentication error ends the session, nothing else does", *again)


@contract("C13", funcs=("SslTransport.credentials_hash",), covers=("ok",), opts=OPT)
def credentials_hash(c):
    w = World(c)
    h = c.get(w.t, "credentials_hash")
    c.check("the hash can be read", h.ok)
    o = c.call(SslTransport, config=DeviceConfig("127.0.0.9", credentials_hash=h.value, connection_type=w.t._config.connection_type))
    c.check("a transport can be made from it", o.ok)
    w.t = o.value
    w.good("and logs in with the same credentials", "login", "request")
    c.cover("ok")


@contract("C13", funcs=("LinkieTransportV2.send", "LinkieTransportV2._execute_send"), covers=("good", "status", "fault", "garbage", "cancel"), opts={"abstract": True},
          bounded="three request texts and three answers")
def linkie(c):
    from .c06_xor import ref_decrypt, ref_encrypt

    req = c.pick("request", ['{"system":{"get_sysinfo":{}}}', '{"x":"é+/=& "}', "{}"])
    reply = c.pick("reply", [{"system": {"get_sysinfo": {"err_code": 0}}}, {}, {"x": "é" * 40}])
    k = c.pick("what", ["good", "status", "fault", "garbage", "json", "cancel"])

    def post(p):
        c.check("the Linkie endpoint is used over TLS", p.url == "https://127.0.0.9:10443/data/LINKIE2.json" and p.ssl == "context")
        c.check("the camera credentials are sent", p.headers["Authorization"] == "Basic " + base64.b64encode(b"admin:21232f297a57a5a743894a0e4a801fc3").decode())
        body = p.data.decode()
        c.check("the form holds the encrypted request", body.startswith("content=") and "+" not in body and "/" not in body and "=" not in body[8:]
                and ref_decrypt(base64.b64decode(unquote(body[8:]))) == req.encode())
        if k == "status":
            return c.pick("status", [500, 401, 204]), c.pick("status body", [b"", base64.b64encode(ref_encrypt(json.dumps(reply).encode()))])
        if k == "fault":
            raise c.pick("fault", [KasaTimeoutError, _ConnectionError, Boom])("x")
        if k == "cancel":
            raise asyncio.CancelledError
        if k == "garbage":
            return 200, b"%%%"
        if k == "json":
            return 200, b'{"err_code": -1}'
        return 200, base64.b64encode(ref_encrypt(json.dumps(reply).encode()))

    Http(c, post)
    c.patch(LinkieTransportV2, "_create_ssl_context", lambda t: "context")
    t = c.call(LinkieTransportV2, config=DeviceConfig("127.0.0.9")).value
    o = c.call(t.send, req)
    if k == "good":
        c.check("the device's answer is returned", o.ok and o.value == reply)
    elif k == "cancel":
        c.check("a cancellation passes through", o.exactly(asyncio.CancelledError))
    else:
        c.check("every failure is retryable", o.exactly(_RetryableError))
    c.cover(k)


@contract("C13", "tls_context", funcs=("LinkieTransportV2._get_ssl_context", "LinkieTransportV2._create_ssl_context"), covers=("made",))
def tls_context(c):
    from .common import tls

    Http(c, None)
    tls(c, c.call(LinkieTransportV2, config=DeviceConfig("127.0.0.9")).value)
