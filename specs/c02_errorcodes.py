"""C02: device error codes become the right outcome, whatever the number."""
from kasa.exceptions import AuthenticationError, DeviceError, SmartErrorCode, _RetryableError
from kasa.protocols.smartcamprotocol import SmartCamProtocol
from kasa.protocols.smartprotocol import SmartProtocol
from pyvc.registry import contract, prop

from .common import StubTransport, patch_sleep, unjson

prop("C02", assumptions=("error codes in responses are integers or absent",))

RETRYABLE = (1002, 1112, -1001, 9999, -40401, -40413)
AUTH = (-1501, 1111, -1005, 1100, 1003, -40412)
KNOWN = tuple(int(m) for m in SmartErrorCode)
POOL = (*RETRYABLE, *AUTH, 0, -1003, -40106, -100000, 77, *KNOWN)


def draw_code(c, name="code"):
    """(value to put in the response or None for no error_code key, integer to reason about)."""
    if c.maybe(name + ".absent"):
        return None, -100000
    v = c.int(name, pool=POOL)
    return v, v


def member(c, v, s):
    return c.or_(*[v == x for x in s])


def check_outcome(c, o, code, ok_check):
    if o.ok:
        c.check("only success is reported as success", code == 0)
        c.cover("ok")
        ok_check(o.value)
        return
    c.check("a code is reported as a device error", o.raised(DeviceError))
    if o.exactly(_RetryableError):
        c.cover("retryable")
        c.check("retryable errors are exactly the retryable codes", member(c, code, RETRYABLE))
    elif o.exactly(AuthenticationError):
        c.cover("auth")
        c.check("authentication errors are exactly the authentication codes", member(c, code, AUTH))
    else:
        c.cover("device")
        c.check("every other code is a plain device error", c.and_(o.exactly(DeviceError), code != 0, c.not_(member(c, code, RETRYABLE + AUTH))))
    c.check("the error carries its code, or the unknown-error code", c.and_(
        c.implies(member(c, code, KNOWN), c.eq(o.exc.error_code, code)),
        c.implies(c.not_(member(c, code, KNOWN)), c.eq(o.exc.error_code, SmartErrorCode.INTERNAL_UNKNOWN_ERROR))))


def with_code(v, **rest):
    return dict(rest) if v is None else {**rest, "error_code": v}


COV = ("ok", "retryable", "auth", "device")


@contract("C02", funcs=("SmartProtocol._handle_response_error_code",), covers=COV)
def smart_single(c):
    v, code = draw_code(c)
    res = {"a": c.int("payload")}
    req = c.pick("request", [{"get_device_info": None}, {"set_device_info": {"device_on": True}}, "get_device_info"])
    m = req if isinstance(req, str) else next(iter(req))
    p = SmartProtocol(transport=StubTransport(lambda r: with_code(v, result=res)))
    o = c.call(p.query, req, 0)
    check_outcome(c, o, code, lambda val: c.check("the result of a successful request is returned", c.same(val, {m: res})))


@contract("C02", funcs=("SmartCamProtocol._handle_response_error_code",), covers=COV)
def smartcam_single(c):
    v, code = draw_code(c)
    c.assume(v is not None)
    kind = c.pick("kind", ["get", "set", "do", "str"])
    res = {"info": {"a": c.int("payload")}}
    req = {"getx": "str"}
    req = "getInfo" if kind == "str" else {kind: {"info": {}}}
    p = SmartCamProtocol(transport=StubTransport(lambda r: {**res, "error_code": v}))
    o = c.call(p.query, req, 0)

    def good(val):
        exp = {"get": {"get": res}, "str": {"getInfo": res}, "set": {}, "do": {"do": {**res, "error_code": 0}}}[kind]
        c.check("the result of a successful request is returned", c.same(val, exp))

    check_outcome(c, o, code, good)


def multi(proto):
    def driver(c):
        bv, bcode = draw_code(c, "batch")
        v1, c1 = draw_code(c, "one")
        v2, c2 = draw_code(c, "two")
        r1, r2 = {"x": c.int("p1")}, {"y": c.int("p2")}

        def send(req):
            return with_code(bv, result={"responses": [with_code(v1, method="get_one", result=r1), with_code(v2, method="get_two", result=r2)]})

        p = proto(transport=StubTransport(send))
        p._multi_request_batch_size = 5
        o = c.call(p.query, {"get_one": {"n": 1}, "get_two": {"m": 2}}, 0)

        def good(val):
            c.check("every request has an entry and no other", list(val) == ["get_one", "get_two"])
            for got, code, res in ((val["get_one"], c1, r1), (val["get_two"], c2, r2)):
                if got is res:
                    c.check("a result is reported only for success", code == 0)
                else:
                    c.cover("stored")
                    c.check("a failed request is reported by its error code", c.and_(code != 0, c.or_(
                        c.and_(member(c, code, KNOWN), c.eq(got, code)),
                        c.and_(c.not_(member(c, code, KNOWN)), c.eq(got, SmartErrorCode.INTERNAL_UNKNOWN_ERROR)))))

        # JSON decode failures and unknown errors of a whole batch switch batching off and are retried
        if not o.ok and o.exactly(_RetryableError) and o.exc.error_code is None:
            c.cover("nobatch")
            c.check("only JSON decode and unknown batch errors disable batching", c.or_(bcode == -1003, bcode == -100000, c.not_(member(c, bcode, KNOWN))))
        else:
            check_outcome(c, o, bcode, good)

    return driver


for _n, _p in (("smart", SmartProtocol), ("smartcam", SmartCamProtocol)):
    contract("C02", f"{_n}_multi", funcs=(f"{_p.__name__}._execute_multiple_query",), covers=(*COV, "stored", "nobatch"))(multi(_p))


def single(proto, how):
    """The methods of a query that are asked for one by one: after batching was switched off, or because the batch's answer lacks them."""
    def driver(c):
        v, code = draw_code(c)
        good = {"x": c.int("p")}
        sent = []

        def send(req):
            q = unjson(req)
            if q["method"] == "multipleRequest" and how == "disabled":
                return {"error_code": -1003}
            if q["method"] == "multipleRequest" and len(q["params"]["requests"]) > 1:
                return {"error_code": 0, "result": {"responses": [{"method": "get_one", "error_code": 0, "result": good}]}}
            m = q["params"]["requests"][0]["method"] if q["method"] == "multipleRequest" else q["method"]
            sent.append(m)
            a = {"error_code": 0, "result": good} if m == "get_one" else with_code(v, result={"y": 1})
            return {"error_code": 0, "result": {"responses": [{"method": m, **a}]}} if q["method"] == "multipleRequest" else a

        patch_sleep(c, lambda t: None)
        p = proto(transport=StubTransport(send))
        o = c.call(p.query, {"get_one": {"n": 1}, "get_two": {"m": 2}}, 1)
        c.check("the error of one method does not fail the query", o.ok and list(o.value) == ["get_one", "get_two"] and o.value["get_one"] == good, lambda: f"{o}")
        got = o.value["get_two"]
        if got == {"y": 1}:
            c.cover("success")
            c.check("a result is reported only for success", code == 0)
        else:
            c.cover("stored")
            c.check("a failed request is reported by its error code", c.and_(code != 0, c.or_(
                c.and_(member(c, code, KNOWN), c.eq(got, code)), c.and_(c.not_(member(c, code, KNOWN)), c.eq(got, SmartErrorCode.INTERNAL_UNKNOWN_ERROR)))))

    return driver


for _n, _p in (("smart", SmartProtocol), ("smartcam", SmartCamProtocol)):
    for _h in ("disabled", "left out"):
        contract("C02", f"{_n}_one_by_one_{_h.replace(' ', '_')}", funcs=(f"{_p.__name__}._execute_multiple_query",), covers=("success", "stored"))(single(_p, _h))


@contract("C02", funcs=("SmartCamProtocol._handle_response_error_code",), covers=COV)
def smartcam_named_single(c):
    v, code = draw_code(c)
    res = {"info": {"a": c.int("payload")}}
    p = SmartCamProtocol(transport=StubTransport(lambda r: {"error_code": 0, "result": {"responses": [with_code(v, method="getInfo", result=res)]}}))
    o = c.call(p.query, {"getInfo": {"info": {}}}, 0)
    check_outcome(c, o, code, lambda val: c.check("the result of a successful request is returned", c.same(val, {"getInfo": res})))


@contract("C02", "shown_codes", funcs=("DeviceError.__str__", "DeviceError.__repr__", "DeviceError.__init__", "SmartErrorCode.__str__", "SmartErrorCode.from_int", "TimeoutError.__str__", "TimeoutError.__repr__", "UnsupportedDeviceError.__init__"), covers=("code", "no code", "timeout", "unsupported"))
def shown_codes(c):
    """Errors carry and show their code, whatever it is."""
    from kasa.exceptions import KasaException, TimeoutError as KasaTimeout, UnsupportedDeviceError

    kind = c.pick("kind", ["code", "no code", "timeout", "unsupported"])
    c.cover(kind)
    if kind == "timeout":
        o = c.call(KasaTimeout, "too late")
        c.check("a timeout is an error of the library and of the system", o.ok and isinstance(o.value, KasaException) and isinstance(o.value, TimeoutError) and c.call(o.value.__str__).value == "too late" and "too late" in c.call(o.value.__repr__).value, lambda: f"{o}")
        return
    if kind == "unsupported":
        info = {"device_type": "X"}
        o = c.call(UnsupportedDeviceError, "new", discovery_result=info, host="127.0.0.3")
        c.check("an unsupported device comes with what it told", o.ok and o.value.discovery_result is info and o.value.host == "127.0.0.3" and str(o.value) == "new", lambda: f"{o}")
        o = c.call(UnsupportedDeviceError, "new")
        c.check("if it told something", o.ok and o.value.discovery_result is None and o.value.host is None)
        return
    cls = c.pick("class", [DeviceError, AuthenticationError, _RetryableError])
    code = c.pick("error code", [m for m in SmartErrorCode if m]) if kind == "code" else None
    o = c.call(cls, "failed", error_code=code) if code is not None else c.call(cls, "failed")
    e = o.value
    c.check("the code is kept", o.ok and e.error_code is code)
    o = c.call(e.__str__)
    c.check("and shown with the message", o.ok and o.value == "failed" + (f" (error_code={code.name})" if code is not None else ""), lambda: f"{o}")
    o = c.call(e.__repr__)
    c.check("and with the class", o.ok and o.value.startswith(cls.__name__ + "(") and (code is None or code.name in o.value and str(code.value) in o.value), lambda: f"{o}")
    if code is not None:
        o = c.call(SmartErrorCode.from_int, int(code))
        c.check("a code is known by its number", o.ok and o.value is code)
        o = c.call(code.__str__)
        c.check("and shown with it", o.ok and o.value == f"{code.name}({int(code)})", lambda: f"{o}")
