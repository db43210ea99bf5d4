"""C01: retry discipline of the request protocols."""
import asyncio
import json

from kasa.exceptions import (
    AuthenticationError, DeviceError, KasaException, TimeoutError, UnsupportedDeviceError, _ConnectionError,
    _RetryableError,
)
from kasa.protocols.iotprotocol import IotProtocol
from kasa.protocols.smartprotocol import SmartProtocol
from pyvc.registry import contract, prop
from pyvc.values import SVal

from .common import StubTransport, patch_sleep, unjson

prop("C01", assumptions=(
    "the transport's send() either returns a response or raises; reset() returns",
))

FINAL = [AuthenticationError, DeviceError, KasaException, UnsupportedDeviceError]


class Boom(Exception):
    pass


def retry(proto, request, ok_response):
    def driver(c):
        for g in ("sends", "reset_due", "sleep_due", "other"):
            c.ghost(g)
        st = {"order": []}

        def send(req):
            c.check("a reset separates a failed session from the next attempt", c.ghosts["reset_due"] == 0)
            c.check("no attempt after a non-retryable error", c.ghosts["other"] == 0)
            c.check("back-off precedes the next attempt", c.ghosts["sleep_due"] == 0)
            if proto is IotProtocol:
                same = isinstance(req, str) and json.loads(req) == (json.loads(request) if isinstance(request, str) else request) if not isinstance(req, SVal) else c.same(unjson(req), request)
            else:
                d = unjson(req)
                same = (d["method"], d.get("params")) == ((request, None) if isinstance(request, str) else next(iter(request.items())))
            c.check("each attempt sends the request as it is", same)
            c.bump("sends")
            k = c.pick("outcome", ["ok", _ConnectionError, _RetryableError, TimeoutError, Boom, asyncio.CancelledError, *FINAL])
            if k == "ok":
                st["r"] = ok_response(c)
                return st["r"]
            st["e"] = e = k("x")
            if k in (Boom, asyncio.CancelledError):
                c.bump("other")
            else:
                if k is not _ConnectionError:
                    c.bump("reset_due")
                if k in FINAL:
                    c.bump("other")
                elif k is TimeoutError or (k is _RetryableError and proto is not IotProtocol):
                    c.bump("sleep_due")
            raise e

        def reset():
            c.bump("reset_due", -1)

        def slept(s):
            c.check("back-off is the protocol's constant", s == proto.BACKOFF_SECONDS_AFTER_TIMEOUT and s > 0)
            c.bump("sleep_due", -1)

        patch_sleep(c, slept)
        n = c.int("retry_count", 0, None if c.symbolic else 40)
        p = proto(transport=StubTransport(send, reset))
        o = c.call(p.query, request, n)
        sends = c.ghosts["sends"]
        c.check("at least one and at most retry_count + 1 attempts", c.and_(sends >= 1, sends <= n + 1))
        if o.ok:
            c.cover("ok")
            good = o.value is st["r"] if proto is IotProtocol else (
                list(o.value) == [request if isinstance(request, str) else next(iter(request))]
                and next(iter(o.value.values())) is st["r"]["result"])
            c.check("the first successful response is what query returns", good)
            c.check("one reset per failed attempt that was not a connection error", c.ghosts["reset_due"] == 0)
            return
        c.check("the error raised is the last attempt's own error", o.exc is st["e"])
        if o.exactly(Boom, asyncio.CancelledError):
            c.cover("foreign")
            return
        c.check("one reset per failed attempt that was not a connection error", c.ghosts["reset_due"] == 0)
        if o.exactly(*FINAL):
            c.cover("final")
        else:
            c.cover("gave up")
            c.check("a retryable error is raised only after retry_count + 1 attempts", sends == n + 1)
            c.check("no back-off after the last attempt", c.ghosts["sleep_due"] == (0 if o.exactly(_ConnectionError) or (proto is IotProtocol and o.exactly(_RetryableError)) else 1))

    return driver


COV = ("ok", "foreign", "final", "gave up")
contract("C01", "iot_query_str", funcs=("IotProtocol.query", "IotProtocol._query"), covers=COV)(
    retry(IotProtocol, '{"system":{"get_sysinfo":{}}}', lambda c: c.opendict("resp")))
contract("C01", "iot_query_dict", funcs=("IotProtocol.query", "IotProtocol._query"), covers=COV)(
    retry(IotProtocol, {"system": {"get_sysinfo": {}}}, lambda c: c.opendict("resp")))
contract("C01", "smart_query_str", funcs=("SmartProtocol.query", "SmartProtocol._query"), covers=COV)(
    retry(SmartProtocol, "get_device_info", lambda c: {"error_code": 0, "result": c.opendict("result")}))
contract("C01", "smart_query_dict", funcs=("SmartProtocol.query", "SmartProtocol._query"), covers=COV)(
    retry(SmartProtocol, {"set_device_info": {"device_on": True}}, lambda c: {"error_code": 0, "result": c.opendict("result")}))
