"""C12: the HTTP client: answers, error classes, pacing after connection trouble, ownership of the session."""
import asyncio

import aiohttp

from kasa.deviceconfig import DeviceConfig
from kasa.exceptions import KasaException, TimeoutError as KasaTimeoutError, _ConnectionError
from kasa.httpclient import HttpClient
from pyvc.registry import contract, prop

from .common import Clock, Jar, json_text, patch_sleep

prop("C12", assumptions=("aiohttp's session returns a response or raises one of its documented errors, a built-in timeout, or anything else",
                         "asyncio.sleep(t) lets at least t seconds pass"))


class Weird(Exception):
    pass


FAULTS = {
    "disconnected": (lambda: aiohttp.ServerDisconnectedError(), _ConnectionError), "os": (lambda: aiohttp.ClientOSError(104, "x"), _ConnectionError),
    "connector": (lambda: aiohttp.ClientConnectorError(ConnKey, OSError(111, "x")), _ConnectionError),
    "sock timeout": (lambda: aiohttp.ServerTimeoutError("x"), KasaTimeoutError), "total timeout": (lambda: TimeoutError(), KasaTimeoutError),
    "connect timeout": (lambda: aiohttp.ConnectionTimeoutError("x"), KasaTimeoutError),
    "payload": (lambda: aiohttp.ClientPayloadError("x"), KasaException), "other": (Weird, KasaException), "value": (ValueError, KasaException),
    "cancelled": (asyncio.CancelledError, asyncio.CancelledError),
}
LINK = ("disconnected", "os", "connector")


class ConnKey:
    ssl = None
    host, port = "h", 1


class Session:
    made = None

    def __init__(self, *a, **k):
        self.closed = False
        self.cookie_jar = JarLog()
        if Session.made is not None:
            Session.made.append(self)

    async def post(self, url, *, params=None, data=None, json=None, timeout=None, cookies=None, headers=None, ssl=None):
        return self.world.post(self, url, params, data, json, timeout, cookies, headers, ssl)

    cancelled = False

    async def close(self):
        self.closed = True
        if self.cancelled:
            raise asyncio.CancelledError


class JarLog(Jar):
    def __init__(self):
        self.cleared = 0

    def clear(self):
        self.cleared += 1


class Resp:
    def __init__(self, world, status, body):
        self.world, self.status, self.body = world, status, body
        self.released = False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.released = True

    async def read(self):
        self.world.maybe_fault("read")
        return self.body


class World:
    def __init__(self, c, own=True):
        self.c = c
        self.made = []
        this = self

        class S(Session):
            world = this

        S.made = None
        Session.made = self.made
        c.patch(aiohttp, "ClientSession", S)
        c.patch(aiohttp, "CookieJar", Jar)
        self.cfg = DeviceConfig("127.0.0.9", timeout=c.int("timeout", 1, None if c.symbolic else 9))
        self.given = None
        if not own:
            self.given = self.cfg.http_client = S()
            self.made.clear()
        self.clock = Clock(c)
        self.slow = False
        self.last = self.clock.now
        self.fault = None
        self.resp = None
        patch_sleep(c, self.slept)
        o = c.call(HttpClient, self.cfg)
        c.check("a client can be made", o.ok)
        self.h = o.value

    def slept(self, s):
        self.c.check("no waiting before the device ever dropped a connection", self.slow)
        self.c.check("the wait is as long as needed and no longer than the pause", self.c.and_(s > 0, s <= 0.25))
        self.clock.now = self.clock.now + s

    def maybe_fault(self, where):
        if self.fault and self.fault[0] == where:
            e = self.raised = self.fault[1]()
            raise e

    def post(self, s, url, params, data, json, timeout, cookies, headers, ssl):
        c = self.c
        if self.slow:
            c.check("after a dropped connection requests keep a quarter second apart", self.clock.now - self.last >= (0.25 if c.symbolic else 0.2499))
        c.check("requests go through the given session, or the client's own", s is (self.given or self.made[-1]) and not s.closed)
        c.check("the whole request is limited by the configured timeout", c.eq(timeout.total, self.cfg.timeout))
        c.check("old cookies are dropped before each request", s.cookie_jar.cleared == self.n + 1)
        c.check("the request goes out as given", url == "http://127.0.0.9/x" and params == {"seq": 1} and cookies == self.cookies and headers == {"h": "v"} and ssl is False)
        self.n += 1
        self.got = (data, json)
        self.maybe_fault("post")
        return self.resp

    n = 0
    cookies = {"a": "b"}

    def ask(self, how="json", payload=None):
        kw = {"json": payload or {"method": "x"}} if how == "json" else {"data": b"payload"}
        return self.c.call(self.h.post, "http://127.0.0.9/x", params={"seq": 1}, headers={"h": "v"}, cookies_dict=self.cookies, **kw)


@contract("C12", funcs=("HttpClient.post",), covers=("json", "text", "broken", "bytes", "empty"))
def answers(c):
    w = World(c)
    how = c.pick("how", ["json", "data", "generator"])
    ok = c.maybe("ok")
    status = 200 if ok else c.int("status", 100, 599)
    if not ok:
        c.assume(status != 200)
    reply = {"result": {"x": c.int("reply")}}
    kind = c.pick("body", ["json", "notjson", "notutf8", "empty"])
    body = {"json": lambda: json_text(c, reply).encode(), "notjson": lambda: b"<html>", "notutf8": lambda: b"\xff\xfe", "empty": lambda: b""}[kind]()
    w.resp = Resp(w, status, body)
    stream = object()
    w.cookies = c.pick("cookies", [{"a": "b"}, None])
    if how == "generator":
        o = w.ask("json", stream)
        c.check("a streamed body is sent as data", w.got[0] is stream and w.got[1] is None)
    else:
        o = w.ask(how)
        c.check("the payload is sent", w.got == ((None, {"method": "x"}) if how == "json" else (b"payload", None)))
    c.check("the response is released", w.resp.released)
    if how == "data":
        c.check("raw answers come back as bytes with their status", o.ok and c.and_(c.eq(o.value[0], status), c.eq(o.value[1], body)))
        c.cover("bytes")
    elif kind == "json":
        c.check("JSON answers come back parsed with their status", o.ok and c.and_(c.eq(o.value[0], status), c.eq(o.value[1], reply)))
        c.cover("json")
    elif ok:
        c.check("a success that is not JSON is a library error", o.exactly(KasaException))
        c.cover("broken")
    else:
        c.check("an error page comes back raw with its status", o.ok and c.and_(c.eq(o.value[0], status), o.value[1] == body))
        c.cover("empty" if kind == "empty" else "text")


@contract("C12", funcs=("HttpClient.post",), covers=tuple(FAULTS) + ("paced", "unpaced"))
def failures_and_pacing(c):
    w = World(c)
    w.resp = Resp(w, 200, b'{"a": 1}')
    o = w.ask()
    c.check("an undisturbed request is answered", o.ok and o.value == (200, {"a": 1}))
    w.last = w.clock.now
    w.clock.advance()
    for i in range(2):
        k = c.pick("fault", list(FAULTS)) if i == 0 else c.pick("fault 2", ["os", "other", "total timeout"])
        mk, want = FAULTS[k]
        w.fault = (c.pick("where", ["post", "read"]), mk)
        o = w.ask()
        c.check("the failure becomes its documented error", o.exactly(want))
        if k != "cancelled":
            c.check("the cause is kept", o.exc.__cause__ is w.raised)
        c.cover(k)
        if k in LINK:
            w.slow = True
            w.last = w.clock.now
        w.clock.now = w.clock.now + c.real("gap", 0, 1, pool=(0.25, 0.1))
    w.fault = None
    w.resp = Resp(w, c.pick("status", [200, 403, 500]), b'{"a": 1}')
    o = w.ask()
    c.check("the next request is answered", o.ok and o.value == (w.resp.status, {"a": 1}))
    c.cover("paced" if w.slow else "unpaced")
    w.last = w.clock.now
    w.clock.now = w.clock.now + c.real("gap", 0, 1, pool=(0.25, 0.1))
    o = w.ask()
    c.check("and the one after it", o.ok)


@contract("C12", funcs=("HttpClient.close", "HttpClient.client"), covers=("own", "given"))
def session_ownership(c):
    own = c.maybe("own")
    w = World(c, own)
    w.resp = Resp(w, 200, b'{"a": 1}')
    if c.maybe("used"):
        w.cookies = c.pick("cookies", [{"a": "b"}, None])
        for _ in range(2):
            o = w.ask()
            c.check("answered", o.ok)
        c.check("one session serves all requests", len(w.made) == (1 if own else 0))
    cut = own and w.made and c.maybe("closing is cancelled")
    if cut:
        w.made[0].cancelled = True
    o = c.call(w.h.close)
    c.check("closing succeeds unless it is cancelled", o.exactly(asyncio.CancelledError) if cut else o.ok)
    c.check("own sessions are closed, given ones are not", all(s.closed for s in w.made) and not (w.given and w.given.closed))
    w.n = 0 if own else w.n
    o = w.ask()
    c.check("a closed client can be used again", o.ok)
    c.cover("own" if own else "given")


class Kept:
    """A cookie jar that records how it was made and what it was asked for."""

    def __init__(self, **kw):
        self.how, self.asked, self.cookies, self.cleared = kw, [], {}, 0

    def clear(self):
        self.cookies = {}
        self.cleared += 1

    def filter_cookies(self, url):
        self.asked.append(str(url))
        return self.cookies


class Cookie:
    def __init__(self, value):
        self.value = value


@contract("C12", funcs=("HttpClient.get_cookie", "httpclient.get_cookie_jar", "HttpClient.client"), covers=("set", "not set"))
def cookies(c):
    """The cookies the device set for its address, by name."""
    w = World(c)
    c.patch(aiohttp, "CookieJar", Kept)
    jars = []

    class S(Session):
        world = w

        def __init__(self, *a, cookie_jar=None, **k):
            super().__init__()
            self.cookie_jar = cookie_jar
            jars.append(cookie_jar)

    S.made = None
    c.patch(aiohttp, "ClientSession", S)
    name = c.pick("name", ["TP_SESSIONID", "TIMEOUT"])
    value = c.str("value")
    there = c.maybe("set by the device")
    o = c.call(getattr, w.h, "client")
    c.check("the client has a session with a cookie jar of its own", o.ok and len(jars) == 1 and isinstance(jars[0], Kept))
    c.check("which keeps cookies of addresses, as they are", jars[0].how.get("unsafe") is True and jars[0].how.get("quote_cookie") is False, lambda: f"{jars[0].how}")
    asked = c.maybe("after a request")
    if asked:
        w.made.append(w.h.client)
        w.resp = Resp(w, 200, b'{"a": 1}')
        o = w.ask()
        c.check("the request is answered", o.ok)
    jars[0].cookies = {"OTHER": Cookie("other"), **({name: Cookie(value)} if there else {})}
    o = c.call(w.h.get_cookie, name)
    c.cover("set" if there else "not set")
    c.check("the cookie's value, or nothing", o.ok and (c.same(o.value, value) if there else o.value is None), lambda: f"{o}")
    c.check("of the device's address", len(jars[0].asked) == 1 and jars[0].asked[0].startswith("http://127.0.0.9/x" if asked else "http://127.0.0.9"), lambda: f"{jars[0].asked}")
