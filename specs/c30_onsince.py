"""C30: since when a device or socket is on: the reported on time before the device's time, without its jitter."""
from datetime import timedelta, timezone

from kasa import Module
from kasa.iot import IotPlug, IotStrip
from kasa.iot.iotstrip import IotStripPlug
from kasa.iot.modules import Time as IotTime
from kasa.smart import SmartDevice
from kasa.smart.modules import Time
from pyvc.registry import contract, prop

from .devices import AnySocket, Kids, iot, smart, socket_of_any_strip

prop("C30")
TZ = timezone(timedelta(hours=1))


class FixedTime(IotTime):
    """The module with the time the contract decides (its own reading is C29's)."""

    now = None
    time = property(lambda self: self.now)


def plug(c):
    d, p = iot(IotPlug)
    t = object.__new__(FixedTime)
    d._modules[Module.Time] = t
    d._supported_modules = d._modules

    def report(now, on, on_time):
        t.now = now
        d._sys_info["relay_state"] = int(on)
        d._sys_info.pop("on_time", None)
        if on_time is not None:
            d._sys_info["on_time"] = on_time

    return d, report


def smart_plug(c):
    d, p = smart(SmartDevice)
    t = object.__new__(Time)
    d._modules[Module.Time] = t
    holder = {}
    c.patch(Time, "time", property(lambda self: holder["now"]))

    def report(now, on, on_time):
        holder["now"] = now
        d._info["device_on"] = on
        d._info.pop("on_time", None)
        if on_time is not None:
            d._info["on_time"] = on_time

    return d, report


def smart_child(c):
    """A child without time of its own uses its parent's."""
    parent, report0 = smart_plug(c)
    from kasa.smart import SmartChildDevice

    d, p = smart(SmartDevice)
    t = parent._modules[Module.Time]
    d._parent = parent

    def report(now, on, on_time):
        report0(now, True, 7)
        d._info["device_on"] = on
        d._info.pop("on_time", None)
        if on_time is not None:
            d._info["on_time"] = on_time

    return d, report


def socket(c):
    d, ps, t = strip(c, 2)

    def report(now, on, on_time):
        t.now = now
        kids = d._sys_info["children"]
        kids[0].update(state=1, on_time=3)
        kids[1].update(state=int(on), on_time=99 if on_time is None else on_time)

    return ps[1], report


def strip(c, n):
    d, p = iot(IotStrip, None, {"children": [{"id": f"{i:02}", "alias": "x", "state": 1, "on_time": 1, "next_action": {"type": -1}} for i in range(n)]})
    t = object.__new__(FixedTime)
    d._modules[Module.Time] = t
    d._supported_modules = d._modules
    d._children = {f"{i:02}": IotStripPlug("127.0.0.1", parent=d, child_id=f"{i:02}") for i in range(n)}
    ps = list(d._children.values())
    for x in ps:
        x._last_update = d._last_update
        x._set_sys_info(d._sys_info["children"][ps.index(x)])
    return d, ps, t


KINDS = {"iot": plug, "smart": smart_plug, "smart_child": smart_child, "socket": socket}
FUNCS = {"iot": ("IotDevice.on_since",), "smart": ("SmartDevice.on_since", "SmartDevice.time"), "smart_child": ("SmartDevice.on_since", "SmartDevice.time"), "socket": ("IotStripPlug.on_since", "IotStripPlug.is_on")}

for kind, make in KINDS.items():
    def driver(c, kind=kind, make=make):
        """Three readings in a row: any times, on times and switches between them."""
        d, report = make(c)
        held = None
        for k in ("first", "second", "third"):
            on = c.pick(k + " on", [True, False])
            now, secs = c.moment(k + " time", TZ), c.int(k + " on_time", 0, 10**8)
            missing = kind not in ("socket",) and on and c.maybe(k + " without on time")
            report(now, on, None if missing else secs)
            o = c.call(getattr, d, "on_since")
            if not on or missing:
                c.cover("off")
                c.check("nothing when off or not reported", o.ok and o.value is None, lambda: f"{o}")
                held = None
                continue
            c.cover("on")
            fresh = now - c.call(timedelta, seconds=secs).value
            if held is not None:
                moved = c.force(abs(fresh - held) > timedelta(seconds=5))
                c.cover("moved" if moved else "steady")
                fresh = fresh if moved else held
            c.check("the on time before the device's time; differences of up to five seconds do not move it", o.ok and c.same(o.value, fresh), lambda: f"{o} instead of {fresh}")
            held = fresh

    contract("C30", kind, funcs=FUNCS[kind], covers=("off", "on", "moved", "steady"), opts={"max_paths": 20000})(driver)


@contract("C30", "socket_of_any_strip", funcs=("IotStripPlug.on_since", "IotStripPlug.is_on", "IotStripPlug._get_child_info"), covers=("off", "on", "moved", "steady"))
def any_socket(c):
    """Two readings in a row of a socket of a strip with any number of them."""
    d, k, report = socket_of_any_strip(c, on_time=(0, 10**8))
    t = object.__new__(FixedTime)
    d._modules[Module.Time] = t
    d._supported_modules = d._modules
    held = None
    for tag in ("first", "second"):
        mine = report(tag)
        t.now = c.moment(f"{tag} time", TZ)
        o = c.call(getattr, k, "on_since")
        if c.force(mine["state"] == 0):
            c.cover("off")
            c.check("nothing when off", o.ok and o.value is None, lambda: f"{o}")
            held = None
            continue
        c.cover("on")
        fresh = t.now - c.call(timedelta, seconds=mine["on_time"]).value
        if held is not None:
            moved = c.force(abs(fresh - held) > timedelta(seconds=5))
            c.cover("moved" if moved else "steady")
            fresh = fresh if moved else held
        c.check("its own on time before the strip's time; differences of up to five seconds do not move it", o.ok and c.same(o.value, fresh), lambda: f"{o} instead of {fresh}")
        held = fresh


@contract("C30", "strip", funcs=("IotStrip.on_since", "IotStrip.is_on", "IotStripPlug.on_since"), covers=("off", "on"), bounded="strips of at most three sockets")
def strip_on_since(c):
    """The strip is on since its first socket of those that are on."""
    n = 1 + c.choose_index("sockets", 3)
    d, ps, t = strip(c, n)
    t.now = c.moment("time", TZ)
    since = []
    for i, kid in enumerate(d._sys_info["children"]):
        on, s = c.pick(f"{i} on", [0, 1]), c.int(f"{i} on_time", 0, 10**8)
        kid.update(state=on, on_time=s)
        if on:
            since.append(s)
    o = c.call(getattr, d, "on_since")
    if not since:
        c.cover("off")
        c.check("nothing when all are off", o.ok and o.value is None)
        return
    c.cover("on")
    s = since[0]
    for x in since[1:]:
        s = c.ite(x > s, x, s)
    c.check("since the first one of those that are on", o.ok and c.same(o.value, t.now - c.call(timedelta, seconds=s).value), lambda: f"{o}")


@contract("C30", "strip_again", funcs=("IotStrip.on_since", "IotStripPlug.on_since"), covers=("later",), bounded="strips of two sockets", opts={"max_paths": 20000})
def strip_again(c):
    """Read again, it is of the sockets that are on then."""
    d, ps, t = strip(c, 2)
    for n in (1, 2):
        t.now = c.moment(f"time {n}", TZ)
        since = []
        for i, kid in enumerate(d._sys_info["children"]):
            on, s = c.pick(f"{n}: {i} on", [0, 1] if i else [1]), c.int(f"{n}: {i} on_time", 0, 10**8)
            kid.update(state=on, on_time=s)
            if on:
                since.append(c.call(getattr, ps[i], "on_since").value)
        o = c.call(getattr, d, "on_since")
        exp = since[0] if len(since) == 1 or c.force(since[0] <= since[1]) else since[1]
        c.check("since the first one of those that are on", o.ok and c.same(o.value, exp), lambda: f"{o}")
    c.cover("later")


@contract("C30", "strip_of_any_size", funcs=("IotStrip.on_since", "IotStrip.is_on"), covers=("off", "on"))
def strip_of_any_size(c):
    """A strip with any number of sockets is on since the first of those that are on (sockets by their own contract)."""
    n = c.int("sockets", 1, None if c.symbolic else 8)
    w = c.int("any socket", 0, None if c.symbolic else n - 1)
    c.assume(w < n)
    if c.symbolic:
        import z3

        from pyvc.values import SBool, SInt, SSeq, zi

        state, since = c.uf("state", z3.IntSort(), z3.BoolSort()), c.uf("since", z3.IntSort(), z3.IntSort())
        start = c.moment("some time", TZ)

        def socket(k):
            i = zi(k)
            c.add(z3.And(since(i) >= 0, since(i) <= 10**8))
            on = SBool(state(i))
            return AnySocket(k, is_on=on, is_off=c.not_(on), on_since=start + c.call(timedelta, seconds=SInt(since(i))).value if c.force(on) else None)

        d, p = iot(IotStrip, sys_info={"children": []})
        d._children = Kids(SSeq("sockets", n, socket))
        on, when = d._children.seq.at(w).is_on, d._children.seq.at(w).on_since
    else:
        d, ps, t = strip(c, n)
        t.now = c.moment("time", TZ)
        for i, kid in enumerate(d._sys_info["children"]):
            kid.update(state=c.int(f"{i} on", 0, 1), on_time=c.int(f"{i} on_time", 0, 10**6))
        on, when = ps[w].is_on, ps[w].on_since
    o = c.call(getattr, d, "on_since")
    if o.ok and o.value is None:
        c.cover("off")
        return c.check("nothing when all are off", c.not_(on))
    c.cover("on")
    c.check("not later than any socket that is on", o.ok and c.implies(on, when is None or o.value <= when), lambda: f"{o}")
    each = [d._children.seq.at(SInt(e)) for e in d._children.seq.places()] if c.symbolic else ps
    c.check("since one of those that are on", c.or_(*[c.same(o.value, x.on_since) for x in each if x.on_since is not None]))
