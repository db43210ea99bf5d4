"""C10: the AES (securePassthrough) transport: handshake, login, session use."""
import asyncio
import base64
import json

from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
from kasa.exceptions import AuthenticationError, KasaException, TimeoutError as KasaTimeoutError, _ConnectionError
from kasa.transports.aestransport import AesEncyptionSession, AesTransport, KeyPair
from pyvc.registry import contract, prop

from .c02_errorcodes import AUTH, check_outcome, draw_code, with_code
from .common import Clock, Http, crypto, digest, int_text, json_text

prop("C10", assumptions=(
    "AES-CBC, PKCS#7, SHA-1 and base64 are uninterpreted functions with their inverse and length laws; RSA key generation and decryption are replaced by stand-ins",
    "HttpClient.post returns a status and parsed JSON or raises (C12)", "session tokens are URL-safe and differ from login to login"))


class Boom(Exception):
    pass


FAULTS = [KasaTimeoutError, _ConnectionError, asyncio.CancelledError, Boom]


def b64(c, b):
    if c.symbolic:
        return c.S.interp.call(base64.b64encode, (b,), {})
    return base64.b64encode(b)


def b64text(c, b):
    return b64(c, b).decode()


class Keys:
    public_key_der_b64 = "UFVCTElD"
    private_key_der_b64 = "UFJJVkFURQ=="

    def __init__(self, w):
        self.w = w

    def decrypt_handshake_key(self, blob):
        self.w.c.check("the key to decrypt is the one the device sent", blob == b"wrapped")
        return self.w.key + self.w.iv


class World:
    def __init__(self, c, login=None, cookies=True):
        self.c = c
        self.version = c.pick("login version", [None, 1, 2])
        login = login or c.pick("login", ["given", "none", "hash"])
        conn = DeviceConnectionParameters(DeviceFamily.SmartTapoPlug, DeviceEncryptionType.Aes, login_version=self.version,
                                          http_port=8080 if login == "none" else None)
        cfg = DeviceConfig("127.0.0.9", connection_type=conn)
        self.base = "http://127.0.0.9" + (":8080" if login == "none" else "") + "/app"
        self.cookies = cookies
        if login == "given":
            un, pw = c.str("user"), c.str("password")
            c.assume(c.not_(c.and_(un == "", pw == "")))
            cfg.credentials = Credentials(un, pw)
            self.own = self.params(un, pw)
        elif login == "none":
            self.own = self.params("", "")
        else:
            self.own = {"password": "cGFzcw==", "username": "dXNlcg=="}
            cfg.credentials_hash = base64.b64encode(json.dumps(self.own).encode()).decode()
        self.default = self.params("test@tp-link.net", "test")
        self.clock = Clock(c)
        self.http = Http(c, self.post)
        c.patch(KeyPair, "create_key_pair", staticmethod(lambda *a, **k: Keys(self)))
        self.session = None
        self.logged_in = None
        self.n = 0
        o = c.call(AesTransport, config=cfg)
        c.check("a transport can be made", o.ok)
        self.t = o.value
        self.plan, self.order = {}, []

    def params(self, un, pw):
        c = self.c

        def hexsha(x):
            d = digest(c, "sha1", x.encode())
            return d.hex()

        user = b64text(c, hexsha(un).encode())
        if self.version == 2:
            return {"password2": b64text(c, hexsha(pw).encode()), "username": user}
        return {"password": b64text(c, pw.encode()), "username": user}

    def fault(self, k, where):
        self.raised = self.c.pick("fault", FAULTS)("x")
        raise self.raised

    async def post(self, p):
        c = self.c
        self.n += 1
        if not isinstance(p.json, dict):
            body = [x async for x in p.json]
            c.check("the handshake is one JSON document", len(body) == 1)
            return self.handshake(p, json.loads(body[0].decode()))
        c.check("everything else is a secure passthrough", p.json["method"] == "securePassthrough" and list(p.json["params"]) == ["request"])
        c.check("nothing encrypted is sent before a handshake", self.session is not None)
        o = c.call(self.session.decrypt, p.json["params"]["request"].encode())
        c.check("the device can read the message with the handshake's key", o.ok)
        o = c.call(self.loads, o.value)
        msg = o.value
        c.check("the session cookie of the handshake is sent", self.cookie_ok(p))
        if msg.get("method") == "login_device":
            return self.login(p, msg)
        return self.request(p, msg)

    def loads(self, s):
        if self.c.symbolic:
            import kasa.json

            return self.c.S.interp.call(kasa.json.loads, (s,), {})
        return json.loads(s)

    def cookie_ok(self, p):
        if self.cookie is None:
            return not p.cookies
        return p.cookies is not None and list(p.cookies) == ["TP_SESSIONID"] and self.c.eq(p.cookies["TP_SESSIONID"], self.cookie)

    def handshake(self, p, body):
        c = self.c
        self.order.append("handshake")
        self.session = self.logged_in = None
        c.check("the handshake goes to the application URL without an old token or cookie", p.url == self.base and not p.cookies)
        c.check("the handshake offers the public key", body == {"method": "handshake", "params": {
            "key": "-----BEGIN PUBLIC KEY-----\nUFVCTElD\n-----END PUBLIC KEY-----\n"}})
        k = self.plan.get("handshake", "good")
        if k == "fault":
            self.fault(k, "handshake")
        if k == "status":
            return self.bad_status(), {}
        if k == "code":
            return 200, self.coded()
        self.key, self.iv = c.bytes("key", 16), c.bytes("iv", 16)
        o = c.call(AesEncyptionSession, self.key, self.iv)
        self.session = o.value
        self.http.cookies, self.cookie = {}, None
        which = c.pick("cookie", ["TP_SESSIONID", "SESSIONID", None]) if self.cookies else "TP_SESSIONID"
        if which:
            self.cookie = self.http.cookies[which] = c.str("cookie value", nonempty=True)
        self.life = 86400
        if not self.cookies or c.maybe("timeout cookie"):
            self.http.cookies["TIMEOUT"], self.life = int_text(c, "life time", pool=(1200, 1300, 86400))
        self.expiry = self.clock.now + self.life - 1200
        return 200, {"error_code": 0, "result": {"key": base64.b64encode(b"wrapped").decode()}}

    def bad_status(self):
        s = self.c.int("status", 100, 599)
        self.c.assume(s != 200)
        return s

    def coded(self, code=None, **rest):
        if code is None:
            v, self.code = draw_code(self.c)
            self.c.assume(self.code != 0)
        else:
            v = self.code = code
        return with_code(v, **rest)

    def sealed(self, obj):
        o = self.c.call(self.session.encrypt, json_text(self.c, obj).encode())
        return 200, {"error_code": 0, "result": {"response": o.value.decode()}}

    def login(self, p, msg):
        c = self.c
        self.order.append("login")
        first = self.order.count("login") == 1
        c.check("a login uses the application URL and carries only the login fields", p.url == self.base and
                sorted(msg) == ["method", "params", "request_time_milis"])
        c.check("the configured credentials are tried first, the factory ones only after they were rejected",
                c.eq(msg["params"], self.own if first else self.default))
        if not first:
            c.check("the second login follows a new handshake", self.order[-2] == "handshake")
        k = self.plan.get("login" if first else "login2", "good")
        if k == "fault":
            self.fault(k, "login")
        if k == "status":
            return self.bad_status(), {}
        if k == "outer":
            return 200, self.coded()
        if k == "rejected":
            return self.sealed({"error_code": -1501})
        if k == "code":
            code = self.coded()
            c.assume(self.code != -1501)
            return self.sealed(code)
        self.logged_in = f"tok{self.n}"
        return self.sealed({"error_code": 0, "result": {"token": self.logged_in}})

    def request(self, p, msg):
        c = self.c
        self.order.append("request")
        c.check("requests need a login in the current session", self.logged_in is not None and p.url == self.base + "?token=" + self.logged_in)
        c.check("the request reaches the device unchanged", c.eq(msg, self.asked))
        if "handshake" not in self.order:
            c.check("no request on an expired session", self.expiry > self.clock.now)
        k = self.plan.get("request", "good")
        if k == "fault":
            self.fault(k, "request")
        if k == "status":
            return self.bad_status(), {}
        if k == "code":
            return 200, self.coded()
        self.reply = {"error_code": c.int("inner code"), "result": {"x": c.int("reply")}}
        if k == "plain":
            t = json_text(c, self.reply)
            if c.symbolic:  # the text is neither base64 nor a ciphertext
                c.patch(self, "plain", t)
            return 200, {"error_code": 0, "result": {"response": t}}
        if k == "garbage":
            return 200, {"error_code": 0, "result": {"response": "AAAA"}}
        return self.sealed(self.reply)

    plain = None

    def send(self, **plan):
        self.plan, self.order = plan, []
        self.asked = {"method": "get_info", "n": self.c.int("n")}
        return self.c.call(self.t.send, json_text(self.c, self.asked))

    def good(self, *order):
        o = self.send()
        self.c.check("handshake and login happen exactly when needed: " + (" ".join(order)), self.order == [*order])
        self.c.check("an undisturbed send returns the device's answer", o.ok and self.c.eq(o.value, self.reply))


OPT = {"abstract": True, "time_limit": 300}
FULL = ("handshake", "login", "request")


def session_life(login):
    def driver(c):
        w = World(c, login)
        w.good(*FULL)
        c.assume(w.expiry > w.clock.now)
        w.clock.advance()
        if w.expiry > w.clock.now:
            w.good("request")
            c.cover("reused")
        else:
            w.good(*FULL)
            c.cover("expired")

    return driver


for _login in ("given", "none", "hash"):
    contract("C10", f"session_life_{_login}", funcs=("AesTransport.send", "AesTransport.perform_handshake", "AesTransport.perform_login",
             "AesTransport.try_login", "AesTransport.send_secure_passthrough", "AesTransport._get_login_params"),
             covers=("reused", "expired"), opts=OPT)(session_life(_login))


@contract("C10", funcs=("AesTransport.reset", "AesTransport.close"), covers=("reset",), opts=OPT)
def session_reset(c):
    w = World(c, cookies=False)
    w.good(*FULL)
    o = c.call(c.pick("how", [w.t.reset, w.t.close]))
    c.check("resetting succeeds", o.ok)
    w.good(*FULL)
    c.cover("reset")


def codes_outcome(c, w, o):
    check_outcome(c, o, w.code, lambda v: None)


COV = ("retryable", "auth", "device")


@contract("C10", funcs=("AesTransport.perform_handshake",), covers=COV + ("fault", "status"), opts=OPT)
def failing_handshake(c):
    w = World(c, c.pick("login kind", ["given", "none"]), cookies=False)
    if c.maybe("had a session"):
        w.good(*FULL)
        c.assume(w.expiry > w.clock.now)
        w.clock.advance()
        c.assume(w.clock.now >= w.expiry)
    k = c.pick("what", ["fault", "status", "code"])
    o = w.send(handshake=k)
    c.check("a failed handshake ends the send", w.order == ["handshake"])
    if k == "code":
        codes_outcome(c, w, o)
    elif k == "fault":
        c.check("an error of the HTTP client passes through", o.exc is w.raised)
        c.cover(k)
    else:
        c.check("a refused handshake is a library error", o.exactly(KasaException))
        c.cover(k)
    w.good(*FULL)


@contract("C10", funcs=("AesTransport.perform_login", "AesTransport.try_login"), covers=COV + ("fault", "status"), opts=OPT)
def failing_login(c):
    w = World(c, c.pick("login kind", ["given", "hash"]), cookies=False)
    k = c.pick("what", ["fault", "status", "code"])
    o = w.send(login=k)
    c.check("no request is sent without a login", w.order == ["handshake", "login"])
    again = ["login", "request"]
    if k == "code":
        codes_outcome(c, w, o)
        if o.exactly(AuthenticationError):
            again = FULL
    elif k == "fault":
        c.check("an error of the HTTP client passes through", o.exc is w.raised)
        c.cover(k)
    else:
        c.check("a refused login is a library error", o.exactly(KasaException))
        c.cover(k)
    w.clock.advance()
    if w.clock.now >= w.expiry:
        again = FULL
    w.good(*again)


@contract("C10", funcs=("AesTransport.perform_login",), covers=("factory", "both rejected", "other"), opts=OPT)
def rejected_login(c):
    """Rejected credentials: the factory credentials are tried once, after a new handshake."""
    w = World(c, c.pick("login kind", ["given", "hash"]), cookies=False)
    k = c.pick("what", ["good", "rejected", "fault", "status", "code"])
    o = w.send(login="rejected", login2=k)
    both = ["handshake", "login", "handshake", "login"]
    if k == "good":
        c.check("a device with factory credentials answers", o.ok and c.eq(o.value, w.reply) and w.order == both + ["request"])
        c.cover("factory")
        w.clock.advance()
        c.assume(w.expiry > w.clock.now)
        w.good("request")
        return
    c.check("two login attempts, no request", w.order == both)
    if k == "rejected":
        c.check("doubly rejected credentials are an authentication error", o.exactly(AuthenticationError))
        c.cover("both rejected")
        w.good(*FULL)
    elif k == "code":
        auth = c.or_(*[w.code == x for x in AUTH])
        if auth:
            c.check("an authentication code is an authentication error", o.exactly(AuthenticationError))
        else:
            c.check("other errors of the second login are library errors", o.exactly(KasaException))
        c.cover("other")
    elif k == "fault":
        if isinstance(w.raised, (KasaTimeoutError, _ConnectionError, asyncio.CancelledError)):
            c.check("connection errors, timeouts and cancellation pass through", o.exc is w.raised)
        else:
            c.check("anything else becomes a library error", o.exactly(KasaException))
    else:
        c.check("a refused login is a library error", o.exactly(KasaException))


@contract("C10", funcs=("AesTransport.send_secure_passthrough", "AesTransport._handle_response_error_code"), covers=COV + ("fault", "status"), opts=OPT)
def failing_request(c):
    w = World(c, "given", cookies=False)
    w.good(*FULL)
    c.assume(w.expiry > w.clock.now)
    k = c.pick("what", ["fault", "status", "code"])
    o = w.send(request=k)
    c.check("one request", w.order == ["request"])
    again = ["request"]
    if k == "code":
        codes_outcome(c, w, o)
        if o.exactly(AuthenticationError):
            again = FULL
    elif k == "fault":
        c.check("an error of the HTTP client passes through", o.exc is w.raised)
        c.cover(k)
    else:
        c.check("an unexpected status is a library error", o.exactly(KasaException))
        c.cover(k)
    w.good(*again)


@contract("C10", funcs=("AesTransport.send_secure_passthrough",), covers=("plain", "garbage"), opts=OPT,
          bounded="one unencrypted and one undecipherable response text" )
def unreadable_answers(c):
    w = World(c, "hash", cookies=False)
    w.good(*FULL)
    c.assume(w.expiry > w.clock.now)
    k = c.pick("what", ["plain", "garbage"])
    if k == "plain" and c.symbolic:
        c.cover("plain")
        return
    o = w.send(request=k)
    if k == "plain":
        c.check("an unencrypted JSON answer is accepted", o.ok and o.value == w.reply)
    else:
        c.check("an undecipherable answer is a library error", o.exactly(KasaException))
    c.cover(k)


@contract("C10", funcs=("AesEncyptionSession.encrypt", "AesEncyptionSession.decrypt"), covers=("ok",), opts=OPT)
def message_cipher(c):
    key, iv, text = c.bytes("key", 16), c.bytes("iv", 16), c.str("text")
    s = c.call(AesEncyptionSession, key, iv).value
    k = crypto(c)
    for _ in range(2):
        want = b64(c, k.enc(key, iv, k.pad(text.encode())))
        o = c.call(s.encrypt, text.encode())
        c.check("messages are base64 of AES-CBC of the padded text", o.ok and c.eq(o.value, want))
        o = c.call(s.decrypt, want)
        c.check("decryption inverts it", o.ok and c.eq(o.value, text))
    c.cover("ok")


PAIRS = {}


@contract("C10", funcs=("KeyPair.create_key_pair", "KeyPair.create_from_der_keys", "KeyPair.get_public_pem", "KeyPair.decrypt_handshake_key", "KeyPair.decrypt_discovery_key"), covers=("made", "read back"),
          bounded="one key of each size, made once; one message", runs=4)
def key_pairs(c):
    """What a device encrypts with the public key the library sends is what the library reads, also with the key kept in a file."""
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import padding

    n = c.pick("bits", [1024, 2048])
    if n not in PAIRS:
        o = c.call(KeyPair.create_key_pair, *(() if n == 1024 else (n,)))
        c.check("a pair can be made", o.ok)
        PAIRS[n] = o.value
    k = PAIRS[n]
    c.check("it is of the size asked for", k.private_key.key_size == n and k.private_key.private_numbers().public_numbers.e == 65537)
    c.cover("made")
    if c.maybe("read back"):
        o = c.call(KeyPair.create_from_der_keys, k.private_key_der_b64, k.public_key_der_b64)
        c.check("a pair can be read back", o.ok and o.value.private_key.private_numbers() == k.private_key.private_numbers(), lambda: f"{o}")
        k = o.value
        c.cover("read back")
    pem = c.call(k.get_public_pem)
    pub = serialization.load_pem_public_key(pem.value)
    der = serialization.load_der_public_key(base64.b64decode(k.public_key_der_b64))
    c.check("both texts are the public key", pub.public_numbers() == k.private_key.public_key().public_numbers() == der.public_numbers() and pem.value.startswith(b"-----BEGIN PUBLIC KEY-----"))
    msg = bytes(range(32))
    o = c.call(k.decrypt_handshake_key, pub.encrypt(msg, padding.PKCS1v15()))
    c.check("the handshake's answer is read", o.ok and o.value == msg, lambda: f"{o}")
    o = c.call(k.decrypt_discovery_key, pub.encrypt(msg, padding.OAEP(mgf=padding.MGF1(algorithm=hashes.SHA1()), algorithm=hashes.SHA1(), label=None)))
    c.check("the discovery answer's key is read", o.ok and o.value == msg, lambda: f"{o}")
