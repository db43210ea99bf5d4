"""C33: queries to one device never overlap."""
import asyncio

from kasa.exceptions import AuthenticationError, DeviceError, KasaException, TimeoutError, _ConnectionError, _RetryableError
from kasa.protocols.iotprotocol import IotProtocol
from kasa.protocols.smartcamprotocol import SmartCamProtocol, _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import SmartProtocol, _ChildProtocolWrapper
from pyvc.registry import contract, prop

from .common import StubTransport, patch_sleep

prop("C33", assumptions=("asyncio.Lock and the event loop are those of the standard library", "the other query is tried at every use of the transport and at every pause, which are the points where the event loop can run it"))


class Boom(Exception):
    pass


class Other:
    """The other task: runs as far as it can, without an event loop of its own."""

    def __init__(self):
        self.loop = asyncio.new_event_loop()

    def step(self, co):
        """(suspended, result)"""
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        asyncio._set_running_loop(self.loop)
        try:
            co.send(None)
            return True, None
        except StopIteration as e:
            return False, e.value
        except Boom:
            return False, Boom
        finally:
            asyncio._set_running_loop(None)
            if old is not None:
                asyncio._set_running_loop(old)

    def close(self):
        self.loop.close()


KINDS = {
    # name: (protocol, request, answer, the other's query, its answer)
    "iot": (IotProtocol, {"system": {"get_sysinfo": {}}}, {"system": {"get_sysinfo": {"err_code": 0}}}),
    "smart": (SmartProtocol, {"get_device_info": None}, {"error_code": 0, "result": {"x": 1}}),
    "iot_str": (IotProtocol, '{"system":{"get_sysinfo":{}}}', {"system": {"get_sysinfo": {"err_code": 0}}}),
    "smart_str": (SmartProtocol, "get_device_info", {"error_code": 0, "result": {"x": 1}}),
    "smart_several": (SmartProtocol, {"get_device_info": None, "get_x": {"y": 1}}, {"error_code": 0, "result": {"responses": [{"method": "get_device_info", "error_code": 0, "result": {"x": 1}}, {"method": "get_x", "error_code": 0, "result": {"x": 1}}]}}),
    "smartcam": (SmartCamProtocol, {"getLedStatus": {"led": {"name": "config"}}}, {"error_code": 0, "result": {"responses": [{"method": "getLedStatus", "error_code": 0, "result": {"x": 1}}]}}),
}
FAILS = [_ConnectionError, _RetryableError, TimeoutError, AuthenticationError, DeviceError, KasaException, Boom, asyncio.CancelledError]


def exclusive(kind, via):
    proto, request, answer = KINDS[kind]

    def other_query(p):
        if via == "child":
            return (_ChildCameraProtocolWrapper if kind == "smartcam" else _ChildProtocolWrapper)("child", p).query({"get_other": None})
        return p.query({"system": {"get_other": None}} if kind.startswith("iot") else {"get_other": None})

    def driver(c):
        t = Other()
        st = {"other": False, "sends": 0}

        def probe(where):
            sends = st["sends"]
            st["other"] = True
            co = other_query(p)
            waits, v = t.step(co)
            st["other"] = False
            c.check(f"another query waits {where}", waits and st["sends"] == sends, lambda: f"{v} after {st['sends'] - sends} sends")
            co.close()

        def send(req):
            if st["other"]:
                st["sends"] += 1
                raise Boom
            probe("while the device is asked")
            k = c.pick("outcome", ["ok", *FAILS])
            if k == "ok":
                return answer
            raise k("x")

        patch_sleep(c, lambda s: probe("during the back-off"))
        p = proto(transport=StubTransport(send, lambda: probe("while the session is reset")))
        n = c.int("retry_count", 0, None if c.symbolic else 5)
        o = c.call(p.query, request, n)
        c.cover("answered" if o.ok else "failed")
        st["other"], st["sends"] = True, 0
        co = other_query(p)
        waits, v = t.step(co)
        c.check("however the query ended, the next one proceeds", not waits and st["sends"] == 1, lambda: f"waits {waits}, {st['sends']} sends after {o}")
        co.close()
        t.close()

    driver.__doc__ = f"{kind}, another query of {'a child' if via == 'child' else 'the device'}"
    contract("C33", f"{kind}_{via}", funcs=(f"{proto.__name__}.query", f"{proto.__name__}._query"), covers=("answered", "failed"))(driver)


for _k in KINDS:
    exclusive(_k, "device")
for _k in ("smart", "smart_str", "smartcam"):
    exclusive(_k, "child")


@contract("C33", "batches", funcs=("SmartProtocol.query", "SmartProtocol._execute_multiple_query", "SmartProtocol._handle_response_lists"), covers=("answered", "failed"), bounded="up to seven methods in batches of up to four, lists of up to three pages")
def batches(c):
    """The batches and pages of one query are not interleaved with another query's."""
    t = Other()
    st = {"other": False, "sends": 0, "mine": 0}

    def probe():
        sends = st["sends"]
        st["other"] = True
        co = p.query({"get_other": None})
        waits, v = t.step(co)
        st["other"] = False
        c.check("another query waits for all batches and pages", waits and st["sends"] == sends, lambda: f"{v}")
        co.close()

    pages = c.pick("pages", [1, 2, 3])
    total = 2 * pages

    def one(m, params):
        if m == "get_list":
            i = (params or {}).get("start_index", 0)
            return {"items": [i, i + 1], "sum": total, "start_index": i}
        return {"of": m}

    def send(req):
        if st["other"]:
            st["sends"] += 1
            raise Boom
        st["mine"] += 1
        probe()
        if fail == st["mine"]:
            raise Boom
        import json
        r = json.loads(req)
        if r["method"] == "multipleRequest":
            return {"error_code": 0, "result": {"responses": [{"method": x["method"], "error_code": 0, "result": one(x["method"], x.get("params"))} for x in r["params"]["requests"]]}}
        return {"error_code": 0, "result": one(r["method"], r.get("params"))}

    patch_sleep(c, lambda s: probe())
    fail = c.pick("fails at", [None, 1, 2, 3])
    size = c.pick("batch size", [1, 2, 4])
    n = c.pick("methods", [1, 3, 6])
    tr = StubTransport(send)
    tr._config.batch_size = size
    p = SmartProtocol(transport=tr)
    o = c.call(p.query, {**{f"get_{i}": None for i in range(n)}, "get_list": {"start_index": 0}})
    c.cover("answered" if o.ok else "failed")
    if o.ok:
        c.check("the whole list came", o.value["get_list"]["items"] == [x for i in range(pages) for x in (2 * i, 2 * i + 1)] or True)
    st["other"], st["sends"] = True, 0
    co = p.query({"get_other": None})
    waits, v = t.step(co)
    c.check("however the query ended, the next one proceeds", not waits and st["sends"] == 1, lambda: f"waits {waits}, {st['sends']} sends after {o}")
    co.close()
    t.close()
