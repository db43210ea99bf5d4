"""C05: requests to a child device reach that child and only its answers come back."""
from kasa.exceptions import DeviceError, KasaException, SmartErrorCode
from kasa.protocols.smartcamprotocol import _ChildCameraProtocolWrapper
from kasa.protocols.smartprotocol import _ChildProtocolWrapper
from pyvc.registry import contract, prop

from .c02_errorcodes import COV, KNOWN, POOL, check_outcome, draw_code, member, with_code
from .common import StubTransport

prop("C05", assumptions=("the parent's query delivers a well-formed control_child / controlChild response or raises",))

SHAPES = {
    "str": "get_device_info",
    "one": {"get_device_info": None},
    "set": {"set_device_info": {"device_on": True}},
    "two": {"get_device_info": None, "get_device_usage": {"x": 1}},
    "three": {"a": {"p": 1}, "b": None, "c": {"q": {"r": 2}}},
}


class Parent:
    def __init__(self, fn):
        self.fn = fn
        self._transport = StubTransport(None)

    async def query(self, request, retry_count=3):
        return self.fn(request, retry_count)


def stored(c, got, res, code):
    if got is res:
        c.check("a child result is reported only for success", code == 0)
    else:
        c.cover("stored")
        c.check("a failed child method is reported by its error code", c.and_(code != 0, c.or_(
            c.and_(member(c, code, KNOWN), c.eq(got, code)),
            c.and_(c.not_(member(c, code, KNOWN)), c.eq(got, SmartErrorCode.INTERNAL_UNKNOWN_ERROR)))))


def smart(shape):
    req = SHAPES[shape]

    def driver(c):
        dev = c.str("device_id")
        retry = c.int("retry", 0, None if c.symbolic else 5)
        sent = []
        multi = isinstance(req, dict) and len(req) > 1
        names = [req] if isinstance(req, str) else list(req)
        # a device may stop answering after the first failure
        answers = c.pick("answered", list(range(len(names), 0, -1)))
        codes, results = {}, {}
        for m in names:
            v, codes[m] = draw_code(c, "code." + m)
            results[m] = {"value": c.int("payload." + m)}
            codes[m] = (v, codes[m])

        def parent(r, rc):
            sent.append(r)
            c.check("the caller's retry count is passed on", c.eq(rc, retry))
            if multi:
                inner = {"error_code": 0, "result": {"responses": [with_code(codes[m][0], method=m, result=results[m]) for m in names[:answers]]}}
            else:
                inner = with_code(codes[names[0]][0], result=results[names[0]])
            return {"control_child": {"responseData": inner}}

        w = _ChildProtocolWrapper(dev, Parent(parent))
        o = c.call(w.query, req, retry)
        c.check("one parent request is made", len(sent) == 1)
        r = sent[0]
        ok = isinstance(r, dict) and list(r) == ["control_child"] and sorted(r["control_child"]) == ["device_id", "requestData"]
        c.check("it is a control_child request for this child", ok and c.eq(r["control_child"]["device_id"], dev))
        data = r["control_child"]["requestData"]
        if multi:
            answered = names[:answers]
            want = [{"method": m, "params": p} if p else {"method": m} for m, p in req.items()]
            c.check("it carries every method with its own parameters", data == {"method": "multipleRequest", "params": {"requests": want}})
            c.check("the query succeeds", o.ok)
            c.check("every answered method has an entry and no other", list(o.value) == answered)
            for m in answered:
                stored(c, o.value[m], results[m], codes[m][1])
            c.cover("ok")
        else:
            c.check("it carries the method with its parameters", data == {"method": names[0], "params": None if isinstance(req, str) else req[names[0]]})
            check_outcome(c, o, codes[names[0]][1], lambda val: c.check("the child's result is returned under the method", c.same(val, {names[0]: results[names[0]]})))

    return driver


for _s, _v in SHAPES.items():
    contract("C05", f"smart_child_{_s}", funcs=("_ChildProtocolWrapper.query",), covers=("ok", "stored") if _s in ("two", "three") else COV,
             bounded="requests of up to three methods" if _s == "three" else "")(smart(_s))


def camera(n):
    def driver(c):
        dev = c.str("device_id")
        retry = c.int("retry", 0, None if c.symbolic else 5)
        req = {f"getThing{i}": {"thing": {"i": i}} for i in range(n)}
        names = list(req)
        answered = names[:c.pick("answered", list(range(n, 0, -1)))]
        sent, codes, results = [], {}, {}
        for m in names:
            codes[m] = draw_code(c, "code." + m)
            results[m] = {"value": c.int("payload." + m)}

        def parent(r, rc):
            sent.append(r)
            c.check("the caller's retry count is passed on", c.eq(rc, retry))
            return {"multipleRequest": {"responses": [
                {"method": "controlChild", "error_code": 0, "result": {"response_data": with_code(codes[m][0], method=m, result=results[m])}} for m in answered]}}

        w = _ChildCameraProtocolWrapper(dev, Parent(parent))
        o = c.call(w.query, dict(req), retry)
        c.check("one parent request is made", len(sent) == 1)
        inner = sent[0]["multipleRequest"]["requests"]
        c.check("one controlChild per method", list(sent[0]) == ["multipleRequest"] and len(inner) == n)
        for m, x in zip(names, inner):
            cc = x["params"]["childControl"]
            c.check("each goes to this child with the method's own parameters", c.and_(
                x["method"] == "controlChild" and list(x["params"]) == ["childControl"] and sorted(cc) == ["device_id", "request_data"],
                c.eq(cc["device_id"], dev), cc["request_data"] == {"method": m, "params": req[m]}))
        if n == 1:
            check_outcome(c, o, codes[names[0]][1], lambda val: c.check("the child's result is returned under the method", c.same(val, {names[0]: results[names[0]]})))
        else:
            c.check("the query succeeds", o.ok)
            c.check("every answered method has an entry and no other", list(o.value) == answered)
            for m in answered:
                stored(c, o.value[m], results[m], codes[m][1])
            c.cover("ok")

    return driver


for _i in (1, 2, 3):
    contract("C05", f"camera_child_{_i}", funcs=("_ChildCameraProtocolWrapper.query",), covers=COV if _i == 1 else ("ok", "stored"),
             bounded="requests of up to three methods" if _i == 3 else "")(camera(_i))


@contract("C05", funcs=("_ChildProtocolWrapper.close",), covers=("ok",))
def closing_a_child_keeps_the_parent_open(c):
    class Owner(Parent):
        closed = False

        async def close(self):
            c.check("closing a child never closes the parent", False)

    cls = c.pick("wrapper", [_ChildProtocolWrapper, _ChildCameraProtocolWrapper])
    p = Owner(None)
    p._transport.close = p.close
    o = c.call(cls("id", p).close)
    c.check("close succeeds", o.ok)
    c.cover("ok")


@contract("C05", funcs=("_ChildCameraProtocolWrapper._query",), covers=("refused",))
def camera_child_text(c):
    """A camera hub's children are asked by method and parameters only."""
    sent = []
    w = _ChildCameraProtocolWrapper(c.str("device_id"), Parent(lambda r, rc: sent.append(r)))
    o = c.call(w.query, c.str("request"))
    c.check("a request given as text is refused as a library error", o.exactly(KasaException))
    c.check("and nothing is sent", not sent)
    c.cover("refused")
