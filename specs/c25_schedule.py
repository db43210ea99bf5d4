"""C25: when a SMART module is asked for its state, how failures back it off, and what its data is."""
from kasa.device_type import DeviceType
from kasa.exceptions import DeviceError, KasaException, SmartErrorCode
from kasa.smart.smartmodule import SmartModule, allow_update_after, raise_if_update_error
from pyvc.registry import contract, prop

from .devices import smart

prop("C25")


class ModA(SmartModule):
    NAME = "A"
    QUERY_GETTER_NAME = "get_a"

    @allow_update_after
    async def change(self):
        return await self.call("set_a", {"x": 1})

    @property
    @raise_if_update_error
    def guarded(self):
        return "value"


class ModB(SmartModule):
    """Two queries, one of them optional on some devices."""

    NAME = "B"

    def query(self):
        return {"get_b1": None, "get_b2": {"p": 1}}

    @property
    def optional_response_keys(self):
        return self.optional


class ModN(SmartModule):
    NAME = "N"


def module(c, cls=ModA, hub=None, answer=None, **last):
    d, p = smart(on_query=answer, **last)
    if hub is not None:
        d._parent, _ = smart()
        d._parent._device_type = DeviceType.Hub if hub else DeviceType.Strip
    o = c.call(cls, d, cls.NAME)
    assert o.ok, o
    return d, p, o.value


def failed(c, m, k):
    """k failures in a row."""
    for i in range(k):
        m._set_error(ValueError(f"failure {i}"))


@contract("C25", "due", funcs=("SmartModule._should_update", "SmartModule.update_interval", "SmartModule.disabled", "SmartModule._set_error"), covers=("due", "not due", "backing off", "disabled"))
def due(c):
    """Asked in every update, or after its own interval; hub children daily; after k failures in a row 30*k seconds; never after ten."""
    parent = c.pick("parent", [None, "hub", "strip"])
    d, p, m = module(c, ModA, None if parent is None else parent == "hub")
    own = c.int("interval", 0, 10**6, pool=(0, 60, 3600))
    c.set(m, "MINIMUM_UPDATE_INTERVAL_SECS", own)
    k = c.pick("failures in a row", [0, 1, 2, 9, 10])
    for i in range(k):
        c.check("recorded", c.call(m._set_error, ValueError(str(i))).ok)
    c.check("disabled after ten failures in a row, not earlier", c.call(getattr, m, "disabled").value is (k >= 10))
    if k >= 10:
        c.cover("disabled")
        return
    want = 30 * k if k else 86400 if parent == "hub" else own
    if k:
        c.cover("backing off")
    c.check("the interval", c.eq(c.call(getattr, m, "update_interval").value, want))
    never = c.maybe("never asked")
    last = None if never else c.real("last asked", 1, 10**9)
    m._last_update_time = last
    now = c.real("now", 1, 2 * 10**9)
    o = c.call(m._should_update, now)
    exp = True if never else c.or_(c.eq(want, 0), now - last >= want)
    got = o.ok and bool(o.value)
    c.cover("due" if got else "not due")
    c.check("due exactly when the interval has passed", exp if got else c.not_(exp))
    o = c.call(m._set_error, None)
    c.check("a success ends the failures", c.call(getattr, m, "disabled").value is False and c.eq(c.call(getattr, m, "update_interval").value, 86400 if parent == "hub" else own))
    assert c.call(m._set_error, ValueError("again")).ok
    c.check("and the next failure is the first of a new row", c.eq(c.call(getattr, m, "update_interval").value, 30) and c.call(getattr, m, "disabled").value is False)


@contract("C25", "after_change", funcs=("allow_update_after", "SmartModule.call"), covers=("ok", "failed"))
def after_change(c):
    """After a setter, whether it worked or not, the module is asked in the next update."""
    f = c.pick("outcome", ["ok", "error", "cancelled"])
    exc = {"error": DeviceError("no", error_code=SmartErrorCode.PARAMS_ERROR), "cancelled": __import__("asyncio").CancelledError()}.get(f)

    def answer(r):
        if exc:
            raise exc
        return {"set_a": {"ok": 1}}

    d, p, m = module(c, answer=answer)
    c.set(m, "MINIMUM_UPDATE_INTERVAL_SECS", 3600)
    m._last_update_time = 1000.0
    o = c.call(m.change)
    c.cover("ok" if f == "ok" else "failed")
    c.check("the outcome is the setter's", o.ok and o.value == {"set_a": {"ok": 1}} if f == "ok" else o.exc is exc)
    c.check("sent as given", p.sent == [{"set_a": {"x": 1}}])
    o = c.call(m._should_update, 1001.0)
    c.check("due at once", o.ok and bool(o.value))


@contract("C25", "guarded_values", funcs=("raise_if_update_error",), covers=("raised", "given"))
def guarded(c):
    d, p, m = module(c, get_a={"v": 1})
    n = c.pick("failures", [0, 1, 3])
    failed(c, m, n)
    o = c.call(getattr, m, "guarded")
    c.cover("raised" if n else "given")
    c.check("values of a failed module are not given out", isinstance(o.exc, KasaException) if n else o.ok and o.value == "value")


@contract("C25", "data_single", funcs=("SmartModule.data", "SmartModule._has_data_error"), covers=("own", "parent", "missing", "error"))
def data_single(c):
    """The answer to the module's own query, from the device itself if it has one, else from its parent."""
    E = SmartErrorCode
    own = c.pick("own", [None, "answer", "error"])
    par = c.pick("parent", [None, "no answer", "answer", "error"])
    vals = {"answer": {"v": c.int("own value")}, "error": c.pick("code", [E.UNSPECIFIC_ERROR, E.INTERNAL_QUERY_ERROR, E.PARAMS_ERROR])}
    pvals = {"answer": {"v": c.int("parent value")}, "error": E.UNKNOWN_METHOD_ERROR}
    d, p, m = module(c, other={"w": 1}, **({} if own is None else {"get_a": vals[own]}))
    if par:
        d._parent, _ = smart(**({"get_a": pvals[par]} if par != "no answer" else {}))
    o = c.call(getattr, m, "data")
    h = c.call(m._has_data_error)
    src, v = ("own", vals[own]) if own else ("parent", pvals[par]) if par in pvals else ("missing", None)
    kind = own or (par if par in pvals else None)
    c.cover(src)
    if src == "missing":
        c.check("no data before an update", o.exactly(KasaException))
    elif kind == "error":
        c.cover("error")
        c.check("an error of the device is raised with its code", isinstance(o.exc, DeviceError) and o.exc.error_code is v and h.ok and h.value is True)
    else:
        c.check("the answer itself", o.ok and c.same(o.value, v) and h.ok and h.value is False)


@contract("C25", "data_multiple", funcs=("SmartModule.data",), covers=("all", "error", "dropped"))
def data_multiple(c):
    """Several queries: the answers by name; optional ones that failed are left out, others raise."""
    E = SmartErrorCode
    vals = {k: E.UNKNOWN_METHOD_ERROR if c.maybe(k + " failed") else {"v": c.int(k)} for k in ("get_b1", "get_b2")}
    opt = [k for k in vals if c.maybe(k + " optional")]
    d, p, m = module(c, ModB, other={"w": 1}, **vals)
    m.optional = opt
    o = c.call(getattr, m, "data")
    bad = [k for k, v in vals.items() if isinstance(v, E)]
    if any(k not in opt for k in bad):
        c.cover("error")
        c.check("a failed query is raised", isinstance(o.exc, DeviceError) and o.exc.error_code is E.UNKNOWN_METHOD_ERROR)
    else:
        c.cover("dropped" if bad else "all")
        c.check("the other answers by name", o.ok and c.same(o.value, {k: v for k, v in vals.items() if k not in bad}))
    c.check("the device's data is not changed", c.same({k: v for k, v in d._last_update.items() if k in vals}, vals))


@contract("C25", "data_of_device", funcs=("SmartModule.data", "SmartModule.query"))
def data_device(c):
    """A module without a query reads the device info."""
    d, p, m = module(c, ModN)
    d._info = {"x": c.int("x")}
    o = c.call(getattr, m, "data")
    c.check("the device info", o.ok and o.value is d._info and c.call(m.query).value == {})
