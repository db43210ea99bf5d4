"""C03: a multi-method request is answered method for method, however it is cut into batches."""
from kasa.exceptions import DeviceError, SmartErrorCode, _RetryableError
from kasa.protocols.smartcamprotocol import SmartCamProtocol
from kasa.protocols.smartprotocol import FORCE_SINGLE_REQUEST, SmartProtocol
from pyvc.registry import contract, prop

from .common import StubTransport, patch_sleep, unjson

prop("C03", assumptions=("the device answers the methods of a batch in order and stops anywhere, possibly leaving out the method key",))

SINGLE = ["getConnectStatus", "scanApList"]
SETS = {
    "two": ["a", "b"], "three": ["a", "b", "c"], "four": ["a", "b", "c", "d"],
    "single first": [SINGLE[0], "a", "b"], "single last": ["a", "b", SINGLE[1]], "all single": SINGLE,
    "mixed": ["a", SINGLE[1], "b", "c"],
}


def batching(proto, methods, codes):
    def driver(c):
        step = c.int("batch_size", 1, None if c.symbolic else 6)
        params = {m: {"p": m} if i % 2 == 0 else None for i, m in enumerate(methods)}
        state = {"batched": [], "single": [], "settled": [], "answer": {}, "n": 0, "nobatch": False}

        def answer(m):
            state["n"] += 1
            if codes and c.maybe("fails"):
                state["answer"][m] = SmartErrorCode.UNKNOWN_METHOD_ERROR
                return {"error_code": -1002}
            r = {"payload": state["n"], "of": m}
            if m.startswith("a"):
                # a set-like method: no result at all
                state["answer"][m] = None
                return {"error_code": 0}
            state["answer"][m] = r
            return {"error_code": 0, "result": r}

        def send(req):
            d = unjson(req)
            if d["method"] == "multipleRequest":
                reqs = d["params"]["requests"]
                c.check("no empty batch is sent", len(reqs) > 0)
                c.check("no batch is longer than the batch size", len(reqs) <= step)
                c.check("batching stays off once it was switched off", not state["nobatch"])
                for r in reqs:
                    c.check("only batchable requested methods are batched", r["method"] in methods and r["method"] not in SINGLE)
                    c.check("a method's parameters are its own", r.get("params") == params[r["method"]])
                    c.check("a method is batched at most once", r["method"] not in state["batched"])
                    state["batched"].append(r["method"])
                k = c.choose_index("answered", len(reqs) + 1)
                out = []
                for r in reqs[:k]:
                    if c.maybe("method key left out"):
                        out.append({"error_code": 0, "result": {"junk": 1}})
                    else:
                        out.append({"method": r["method"], **answer(r["method"])})
                        state["settled"].append(r["method"])
                return {"error_code": 0, "result": {"responses": out}}
            m = d["method"]
            c.check("a single request is for a requested method with its parameters", m in methods and d.get("params") == params[m])
            c.check("a method is asked for singly at most once", m not in state["single"])
            c.check("a method answered in a batch is not asked for again", m not in state["settled"])
            state["single"].append(m)
            return answer(m)

        p = proto(transport=StubTransport(send, batch_size=step))
        o = c.call(p.query, params, 0)
        c.check("the query succeeds", o.ok)
        c.cover("ok")
        c.check("every requested method is answered and nothing else", sorted(o.value) == sorted(methods))
        for m in methods:
            got, exp = o.value[m], state["answer"][m]
            c.check("each method's entry is the device's own answer to it", got is exp or (exp is None and got is None))

    return driver


for _k, _m in SETS.items():
    for _n, _p in (("smart", SmartProtocol), ("smartcam", SmartCamProtocol)):
        contract("C03", f"{_n} {_k}".replace(" ", "_"), funcs=(f"{_p.__name__}._execute_multiple_query",), covers=("ok",),
                 bounded="request sets of up to 4 methods; every batch size, every device truncation point")(batching(_p, _m, len(_m) <= 3))


def fallback(proto):
    def driver(c):
        """A batch the device cannot decode: every method is asked for singly on the next attempt, and batching stays off."""
        patch_sleep(c, lambda s: None)
        step = c.int("batch_size", 2, None if c.symbolic else 8)
        bad = c.pick("error", [-1003, -100000, 4711])
        methods = ["a", "b", SINGLE[0], "c"]
        params = {m: {"p": m} for m in methods}
        st = {"batches": 0, "asked": []}

        def send(req):
            d = unjson(req)
            if d["method"] == "multipleRequest":
                st["batches"] += 1
                return {"error_code": bad}
            c.check("a single request keeps its parameters", d["params"] == params[d["method"]])
            st["asked"].append(d["method"])
            return {"error_code": 0, "result": {"of": d["method"]}}

        p = proto(transport=StubTransport(send, batch_size=step))
        for _ in range(2):
            st["asked"] = []
            o = c.call(p.query, dict(params), 1)
            c.check("the query succeeds once batching is off", o.ok and o.value == {m: {"of": m} for m in methods})
            c.check("every method is asked for exactly once", sorted(st["asked"]) == sorted(methods))
        c.check("one batch is tried, then batching is off for good", st["batches"] == 1)
        c.cover("ok")

    return driver


for _n, _p in (("smart", SmartProtocol), ("smartcam", SmartCamProtocol)):
    contract("C03", f"{_n}_batching_off", funcs=(f"{_p.__name__}._execute_multiple_query",), covers=("ok",),
             bounded="four methods; every batch size")(fallback(_p))


@contract("C03", "envelope", funcs=("SmartProtocol.get_smart_request", "SmartProtocol.__init__"), covers=("single", "batch"))
def envelope(c):
    """Every request says its method, the time in milliseconds, the protocol's terminal and, if any, the parameters."""
    import kasa.protocols.smartprotocol as module

    now = c.real("now", 0, 4_000_000_000)
    c.patch(module.time, "time", lambda: now)
    proto = c.pick("protocol", [SmartProtocol, SmartCamProtocol])
    size = c.pick("batch size", [None, 1, 7])
    params = c.pick("params", [None, {"p": 1}])
    seen, terminals = [], set()

    def send(req):
        d = unjson(req)
        seen.append(len(d["params"]["requests"]) if d["method"] == "multipleRequest" else 1)
        terminals.add(d["terminal_uuid"] if isinstance(d["terminal_uuid"], str) else id(d["terminal_uuid"]))
        c.check("a request is exactly method, time, terminal and parameters", set(d) == {"method", "request_time_milis", "terminal_uuid"} | ({"params"} if params or d["method"] == "multipleRequest" else set()))
        ms = d["request_time_milis"]
        c.check("the time is in milliseconds", c.and_(2 * (ms - now * 1000) <= 1.01, 2 * (now * 1000 - ms) <= 1.01))
        if d["method"] == "multipleRequest":
            c.cover("batch")
            return {"error_code": 0, "result": {"responses": [{"method": r["method"], "error_code": 0, "result": {"of": r["method"]}} for r in d["params"]["requests"]]}}
        c.cover("single")
        return {"error_code": 0, "result": {"of": d["method"]}}

    t = StubTransport(send)
    t._config.batch_size = size
    p = proto(transport=t)
    names = [f"get_{i}" for i in range(12)]
    for _ in range(2):
        o = c.call(p.query, dict.fromkeys(names, params), 0)
        c.check("each method is answered", o.ok and o.value == {n: {"of": n} for n in names})
    n = size or 5
    c.check("batches are as long as configured, five if not", seen == 2 * [min(n, 12 - i) for i in range(0, 12, n)], lambda: f"{seen}")
    c.check("the terminal stays the same", len(terminals) == 1)


CAMERA = {
    "get": ({"get": {"device_info": {"name": ["basic_info"]}}}, {"method": "get", "device_info": {"name": ["basic_info"]}}),
    "set": ({"set": {"led": {"config": {"enabled": "on"}}}}, {"method": "set", "led": {"config": {"enabled": "on"}}}),
    "do": ({"do": {"motor": {"move": 1}}}, {"method": "do", "motor": {"move": 1}}),
    "several": ({"multipleRequest": {"requests": [{"method": "getX"}]}}, {"method": "multipleRequest", "params": {"requests": [{"method": "getX"}]}}),
    "getDeviceInfo": ("getDeviceInfo", {"method": "get", "device_info": {}}),
    "getLedStatus": ("getLedStatus", {"method": "get", "led_status": {}}),
    "setLedStatus": ("setLedStatus", {"method": "set", "led_status": {}}),
    "motorMoveToPreset": ("motorMoveToPreset", {"method": "do", "motor_move_to_preset": {}}),
    **{m: (m, {"method": "do", s: {}}) for m, s in (("getSdCardFormatStatus", "get_sd_card_format_status"), ("getConnectionType", "get_connection_type"), ("getFirmwareAFResult", "get_firmware_a_f_result"), ("getWhitelampStatus", "get_whitelamp_status"))},
}


@contract("C03", "camera_single", funcs=("SmartCamProtocol._execute_query", "SmartCamProtocol._get_smart_camera_single_request", "SmartCamProtocol._make_smart_camera_single_request"), covers=("answered", "nothing", "error"))
def camera_single(c):
    """A camera's own kinds of request are sent in the camera's form, and its answer is that method's entry."""
    name = c.pick("request", list(CAMERA))
    request, sent = CAMERA[name]
    kind = sent["method"]
    param = next(k for k in sent if k != "method")
    code = c.pick("error code", [None, 0, -40106])
    nothing = kind == "get" and c.pick("nothing", [False, True])
    body = {"requests": 1} if kind == "multipleRequest" else {"state": c.int("state")}
    asked = []

    def send(req):
        asked.append(unjson(req))
        r = {"result": body} if kind == "multipleRequest" else {param: {} if nothing else body}
        return {**r, **({} if code is None else {"error_code": code})}

    p = SmartCamProtocol(transport=StubTransport(send))
    o = c.call(p.query, request, 0)
    c.check("one request in the camera's form is sent", asked == [sent], lambda: f"{asked}")
    if code == -40106:
        c.cover("error")
        return c.check("an error code raises", o.exactly(DeviceError) and o.exc.error_code.value == code, lambda: f"{o}")
    if nothing:
        c.cover("nothing")
        return c.check("an empty answer to a get is an error", o.exactly(DeviceError), lambda: f"{o}")
    c.cover("answered")
    method = request if isinstance(request, str) else next(iter(request))
    if kind == "set":
        return c.check("setting returns nothing", o.ok and o.value == {}, lambda: f"{o}")
    if kind == "do":
        return c.check("the answer is the method's", o.ok and list(o.value) == [method] and c.same(o.value[method][param], body), lambda: f"{o}")
    if kind == "multipleRequest":
        return c.check("the result is the method's", o.ok and c.same(o.value, {method: body}), lambda: f"{o}")
    c.check("the answered section is the method's", o.ok and c.same(o.value, {method: {param: body}}), lambda: f"{o}")


@contract("C03", "camera_kinds_among_others", funcs=("SmartCamProtocol._execute_query",), covers=("ok",))
def camera_mixed(c):
    """A method that happens to be called get, set or do among several is batched like any other."""
    names = c.pick("methods", [["get", "other"], ["set", "do"], ["getX", "setY"], ["multipleRequest", "x"], ["getX"], ["setX"]])
    seen = []

    def send(req):
        d = unjson(req)
        seen.append(d["method"])
        return {"error_code": 0, "result": {"responses": [{"method": r["method"], "error_code": 0, "result": {"of": r["method"]}} for r in d["params"]["requests"]]}}

    p = SmartCamProtocol(transport=StubTransport(send))
    o = c.call(p.query, {n: {"m": {"p": n}} for n in names}, 0)
    c.cover("ok")
    c.check("all are sent in one batch and answered", o.ok and o.value == {n: {"of": n} for n in names} and seen == ["multipleRequest"], lambda: f"{o} {seen}")
