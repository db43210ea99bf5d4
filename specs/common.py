"""Stand-ins for the boundaries the contracts cut at (transports, HTTP client, clock, device queries)."""
from __future__ import annotations

import asyncio
import inspect

from kasa.deviceconfig import DeviceConfig


class StubTransport:
    """A transport whose send() outcome is decided by the contract."""

    def __init__(self, send, reset=None, batch_size=None, host="127.0.0.1"):
        self._host = host
        self._port = 80
        self._config = DeviceConfig(host, batch_size=batch_size) if not hasattr(batch_size, "e") else None
        if self._config is None:
            self._config = DeviceConfig(host)
            self._config.batch_size = batch_size
        self._send, self._reset = send, reset
        self.credentials_hash = None
        self.default_port = 80

    async def send(self, request):
        return self._send(request)

    async def reset(self):
        if self._reset:
            self._reset()

    async def close(self):
        pass


def patch_sleep(c, fn):
    async def sleep(s, *a):
        fn(s)

    c.patch(asyncio, "sleep", sleep)


def raiser(exc):
    raise exc


def unjson(s):
    """The object a request string was serialised from (both modes)."""
    if hasattr(s, "obj"):
        return s.obj
    import json

    return json.loads(s)


def deadlines(c):
    """The stack of time limits the code is running under (asyncio.timeout / wait_for)."""
    st = c.notes.setdefault("deadlines", [])
    if not c.symbolic:
        T = asyncio.timeouts.Timeout
        enter, leave = T.__aenter__, T.__aexit__

        async def aenter(self):
            r = await enter(self)
            w = self.when()
            st.append(None if w is None else w - asyncio.get_running_loop().time())
            return r

        async def aexit(self, *a):
            st.pop()
            return await leave(self, *a)

        c.patch(T, "__aenter__", aenter)
        c.patch(T, "__aexit__", aexit)
    return st


def limited(c, st, t):
    """Some enclosing time limit is (no longer than) t."""
    if c.symbolic:
        return c.or_(*[x is not None and c.and_(c.not_(c.eq(x, None)), x <= t) for x in st]) if st else False
    return any(x is not None and x <= t + 0.001 for x in st)


def digest(c, name, data):
    if c.symbolic:
        from pyvc.models import SHash
        from pyvc.values import SVal

        if isinstance(data, SVal):
            return SHash(name, {"md5": 16, "sha1": 20, "sha256": 32}[name], data).digest()
    import hashlib

    return getattr(hashlib, name)(data).digest()


def crypto(c):
    """enc/dec/pad/unpad as specification functions."""
    from pyvc import models

    class K:
        enc, dec, pad, unpad = map(staticmethod, (models.cbc_enc, models.cbc_dec, models.pkcs_pad, models.pkcs_unpad))

    return K


def json_text(c, obj):
    """A JSON text that parses to obj."""
    if c.symbolic:
        from pyvc.models import SJson

        return SJson(obj)
    import json

    return json.dumps(obj)


def pack_signed(c, v):
    import struct

    if c.symbolic:
        from pyvc.values import SVal

        if isinstance(v, SVal):
            return c.S.interp.pack_be(v, 4, True, struct.error)
    return struct.pack(">l", v)


def from_be_signed(c, b):
    if c.symbolic:
        return c.S.interp.models[int.from_bytes](c.S.interp, b, "big", signed=True)
    return int.from_bytes(b, "big", signed=True)


def int_text(c, name, pool=()):
    """A string that int() accepts, and the number it stands for."""
    if c.symbolic:
        import z3
        from pyvc.values import SInt

        s = c.str(name)
        c.add(c.uf("int_parsable", z3.StringSort(), z3.BoolSort())(s.e))
        c.add(z3.Length(s.e) > 0)
        return s, SInt(c.uf("int_of_str", z3.StringSort(), z3.IntSort())(s.e))
    i = c.int(name + ".int", 0, 10**7, pool=pool)
    return str(i), i


class Clock:
    """time.monotonic and time.time under the contract's control; each advance is arbitrary."""

    def __init__(self, c):
        import time

        self.c = c
        self.now = c.real("now", 0, 10**9)
        c.patch(time, "monotonic", lambda: self.now)
        c.patch(time, "time", lambda: self.now)

    def advance(self):
        self.now = self.now + self.c.real("elapsed", 0, 10**6, pool=(86400.0 - 1200, 100.0))


class Http:
    """HttpClient.post and get_cookie replaced by a contract-controlled device."""

    def __init__(self, c, on_post):
        from kasa.httpclient import HttpClient

        import aiohttp

        c.patch(aiohttp, "CookieJar", Jar)
        self.c, self.on_post, self.posts = c, on_post, []
        self.cookies = {}
        this = self

        async def post(client, url, *, params=None, data=None, json=None, headers=None, cookies_dict=None, ssl=False):
            p = Post(str(url), params, data, json, headers, cookies_dict, ssl)
            this.posts.append(p)
            r = this.on_post(p)
            return await r if inspect.isawaitable(r) else r

        async def close(client):
            this.closed = True

        c.patch(HttpClient, "post", post)
        c.patch(HttpClient, "get_cookie", lambda client, name: this.cookies.get(name))
        c.patch(HttpClient, "close", close)


class Jar:
    def __init__(self, **kw):
        pass

    def clear(self):
        pass


class Post:
    def __init__(self, url, params, data, json, headers, cookies, ssl):
        self.url, self.params, self.data, self.json = url, params, data, json
        self.headers, self.cookies, self.ssl = headers, cookies, ssl


def tls(c, t):
    """The TLS context of a transport: made once, with the old cipher suites devices need and, as they sign their own, without judging certificates."""
    import ssl

    made = []

    class Context:
        def __init__(self, protocol):
            made.append(self)
            self.protocol, self.verify_mode, self.check_hostname, self.ciphers = protocol, ssl.CERT_REQUIRED, True, None

        def set_ciphers(self, text):
            self.ciphers = text

    c.patch(ssl, "SSLContext", Context)
    a, b = c.call(t._get_ssl_context), c.call(t._get_ssl_context)
    c.check("the TLS context is made once", a.ok and b.ok and len(made) == 1 and a.value is made[0] and b.value is made[0], lambda: f"{a} {b}")
    k = made[0]
    c.check("it is a client's and accepts the device's own certificate", k.protocol is ssl.PROTOCOL_TLS_CLIENT and k.verify_mode is ssl.CERT_NONE and k.check_hostname is False)
    c.check("it offers the cipher suites of devices", k.ciphers is not None and set(k.ciphers.split(":")) >= {"AES256-GCM-SHA384", "AES256-SHA256", "AES128-GCM-SHA256", "AES128-SHA256", "AES256-SHA"})
    c.cover("made")
