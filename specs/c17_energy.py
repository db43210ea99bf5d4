"""C17: energy readings come in the stated unit, whichever generation of firmware reported them."""
from kasa import EmeterStatus
from kasa.iot import IotPlug
from kasa.iot.modules.emeter import Emeter
from kasa.iot.modules.usage import Usage
from pyvc.registry import contract, prop

from .devices import iot, smart

prop("C17")

UNIT = {"voltage": "voltage_mv", "power": "power_mw", "current": "current_ma", "total": "total_wh", "energy": "energy_wh"}
FORMS = ["plain", "scaled", "both", "absent"]


def draw_reading(c, only=None):
    """A get_realtime answer; the value of each quantity in base units, or None."""
    raw, exp = {}, {}
    if c.maybe("err_code first"):
        raw["err_code"] = 0
    for q in only or UNIT:
        f = c.pick("form." + q, FORMS)
        exp[q] = None
        if f in ("plain", "both"):
            raw[q] = exp[q] = c.real(q, 0, 100000)
        if f in ("scaled", "both"):
            v = raw[UNIT[q]] = c.int(UNIT[q], 0, 10**8)
            if f == "scaled":
                exp[q] = v / 1000
    raw["slot_id"] = 0
    return raw, exp


def near(c, a, b):
    if b is None or a is None:
        return a is b
    if c.symbolic:
        return c.eq(a, b)
    return abs(a - b) <= 1e-6 * (1 + abs(b))


for quantity in UNIT:
    def driver(c, q=quantity):
        others = [x for x in UNIT if x != q][:2]
        raw, exp = draw_reading(c, [others[0], q, others[1]])
        before = dict(raw)
        st = EmeterStatus(raw)
        if q != "energy":
            o = c.call(getattr, st, q)
            c.check("the property gives the reading in base units", o.ok and near(c, o.value, exp[q]))
        o = c.call(lambda s: s[q], st)
        c.check("the unitless key gives base units", o.ok and near(c, o.value, exp[q]))
        if exp[q] is not None:
            c.cover("present")
            o = c.call(lambda s: s[UNIT[q]], st)
            c.check("the suffixed key gives the small unit", o.ok and near(c, o.value, raw[UNIT[q]] if UNIT[q] in raw else raw[q] * 1000))
        o = c.call(lambda s: s["power_factor"], st)
        c.check("an unknown key is an error", o.exactly(KeyError))
        c.check("reading changes nothing", c.same(dict(st), before))

    contract("C17", "status_" + quantity, funcs=("EmeterStatus.__getitem__", "EmeterStatus." + quantity), covers=("present",))(driver)


@contract("C17", "realtime_properties", funcs=("Emeter.status", "Emeter.current_consumption", "Emeter.voltage", "Emeter.current", "Emeter.consumption_total", "Emeter.get_status", "Emeter._post_update_hook"))
def realtime(c):
    raw, exp = draw_reading(c, ["voltage", "power", "current", "total"])
    d, p = iot(IotPlug, lambda r: {"emeter": {"get_realtime": dict(raw)}}, emeter={"get_realtime": raw})
    e = c.call(Emeter, d, "emeter").value
    for name, q in (("current_consumption", "power"), ("voltage", "voltage"), ("current", "current"), ("consumption_total", "total")):
        o = c.call(getattr, e, name)
        c.check(f"{name} is the device's reading in base units", o.ok and near(c, o.value, exp[q]))
    o = c.call(e._post_update_hook)
    F = Emeter.ModuleFeature
    c.check("support follows the readings", o.ok and c.call(e.supports, F.VOLTAGE_CURRENT).value == (exp["voltage"] is not None)
            and c.call(e.supports, F.CONSUMPTION_TOTAL).value == (exp["total"] is not None) and c.call(e.supports, F.PERIODIC_STATS).value is True)
    o = c.call(e.get_status)
    c.check("a fresh reading is asked for", o.ok and p.sent == [{"emeter": {"get_realtime": {}}}])
    c.check("and returned in the same units", all(near(c, c.call(getattr, o.value, q).value, exp[q]) for q in ("power", "voltage", "current", "total")))


def table(c, name, unit, most):
    """A list of any length with an entry per day or month, in any order, each with its own amount.

    Returns (list, wanted, index, day, amount): wanted is an arbitrary day or month, index its place or None, day(i) and
    amount(i) are those of the i-th entry."""
    real = unit == "energy"
    has = c.maybe(name + " has the wanted entry")
    if c.symbolic:
        import z3

        from pyvc.values import SFloat, SInt, zi
        day, place, amt = (c.uf(f"{name}.{unit}.{k}", z3.IntSort(), z3.RealSort() if real and k == "amount" else z3.IntSort()) for k in ("day", "place", "amount"))
        wanted = c.int(name + " wanted", 1, most)

        def entry(k):
            i = zi(k)
            c.add(z3.And(place(day(i)) == i, day(i) >= 1, day(i) <= most, amt(i) >= 0))  # one entry per day
            if not has:
                c.add(day(i) != zi(wanted))
            return {"year": 2024, "day": SInt(day(i)), "month": SInt(day(i)), unit: (SFloat if real else SInt)(amt(i))}

        lst = c.seq(name, entry)
        at = c.int(name + " place", 0) if has else None
        if has:
            c.add(zi(at) < zi(lst.n))
            e = lst.at(at)
            c.add(zi(e["day"]) == zi(wanted))
            c.try_invariant("", name + " not passed, from the end", lambda L: L.k <= lst.n - 1 - at)
            c.try_invariant("", name + " not passed", lambda L: L.k <= at)
        return lst, wanted, at, lambda i: lst.at(i)["day"], lambda i: lst.at(i)[unit]
    n = c.pick(name + " entries", [0, 1, 2, 3, 9, most])
    n = max(n, 1) if has else min(n, most - 1)
    days = list(range(1, most + 1))
    order = [days.pop(c.int(f"{name}.{i}", 0, most) % len(days)) for i in range(n)]
    amounts = [(c.real if real else c.int)(f"{name}.amount.{i}", 0, 10**7) for i in range(n)]
    lst = [{"year": 2024, "day": d, "month": d, unit: a} for d, a in zip(order, amounts)]
    at = c.int(name + " place", 0, most) % n if has else None
    return lst, order[at] if has else days[0], at, lambda i: order[i], lambda i: amounts[i]


def all_entries(c, label, got, lst, day, amount):
    """The dict got has exactly the entries of the list."""
    es = c.entries(got)
    if c.symbolic:
        i = c.int("any entry", 0)
        n = len(es) if isinstance(es, list) else es.n
        c.check(label + ": as many", n == lst.n)
        if c.force(c.implies(lst.n > 0, i < lst.n)) and c.force(lst.n > 0):
            k, v = es.at(i)
            c.check(label + ": every entry", c.and_(c.eq(k, day(i)), near(c, v, amount(i))))
    else:
        c.check(label + ": as many", len(es) == len(lst))
        c.check(label + ": every entry", all(k == day(i) and near(c, v, amount(i)) for i, (k, v) in enumerate(es)), lambda: f"{es} {lst}")


class Now:
    """datetime.now() fixed by the contract."""

    def __init__(self, year, month, day):
        self.year, self.month, self.day = year, month, day

    def now(self, tz=None):
        return self


def at(c, day, month):
    import kasa.iot.modules.emeter as em
    import kasa.iot.modules.usage as us

    for m in (em, us):
        if hasattr(m, "datetime"):
            c.patch(m, "datetime", Now(2024, month, day))


for kind in ("daily", "monthly"):
    def driver(c, kind=kind):
        key, most = ("day", 31) if kind == "daily" else ("month", 12)
        unit = c.pick("unit", ["energy_wh", "energy"])
        lst, wanted, place, day, amount = table(c, "stats", unit, most)
        cmd, name = ("get_daystat", "day_list") if kind == "daily" else ("get_monthstat", "month_list")
        d, p = iot(IotPlug, lambda r: {"emeter": {cmd: {name: lst, "err_code": 0}}}, emeter={cmd: {name: lst}})
        today = wanted if kind == "daily" else c.int("today", 1, 31)
        this_month = wanted if kind == "monthly" else c.int("this month", 1, 12)
        at(c, today, this_month)
        e = c.call(Emeter, d, "emeter").value
        cur = c.pick("read", ["statistics", "current"])
        c.cover(cur)
        if cur == "current":
            o = c.call(getattr, e, "consumption_today" if kind == "daily" else "consumption_this_month")
            c.check("the current period is in kWh, 0 if it has no entry", o.ok and near(c, o.value, 0 if place is None else amount(place) * (1 / 1000 if unit == "energy_wh" else 1)), lambda: f"{o}")
            return
        kwh = c.pick("kwh", [None, True, False])
        args = {} if kwh is None else {"kwh": kwh}
        year = c.pick("year", [None, 2020, 1])
        month = c.pick("month", [None, 11, 1]) if kind == "daily" else None
        args.update({} if year is None else {"year": year}, **({} if month is None else {"month": month}))
        o = c.call(e.get_daily_stats if kind == "daily" else e.get_monthly_stats, **args)
        want = {"year": year or 2024, **({"month": month or this_month} if kind == "daily" else {})}
        c.check("the period asked for is queried", o.ok and c.same(p.sent, [{"emeter": {cmd: want}}]), lambda: f"{o} {p.sent}")
        f = {("energy_wh", True): 1 / 1000, ("energy_wh", False): 1, ("energy", True): 1, ("energy", False): 1000}[unit, kwh is not False]
        all_entries(c, "in the unit asked for, once", o.value, lst, day, lambda i: amount(i) * f)

    contract("C17", kind + "_statistics", funcs=(f"Emeter.get_{kind}_stats", "Emeter._convert_stat_data", "Usage.get_raw_daystat", "Usage.get_raw_monthstat", "Emeter.consumption_today", "Emeter.consumption_this_month"),
             covers=("statistics", "current"))(driver)


@contract("C17", "usage_minutes", funcs=("Usage.usage_today", "Usage.usage_this_month", "Usage.get_daystat", "Usage.get_monthstat", "Usage.query"), covers=("days", "months"))
def usage(c):
    what = c.pick("what", ["days", "months"])
    c.cover(what)
    lst, wanted, place, day, amount = table(c, "usage", "time", 31 if what == "days" else 12)
    other = c.int("other", 1, 12 if what == "days" else 31)
    today, month = (wanted, other) if what == "days" else (other, wanted)
    at(c, today, month)
    cmd, name = ("get_daystat", "day_list") if what == "days" else ("get_monthstat", "month_list")
    data = {cmd: {name: lst}}
    d, p = iot(IotPlug, lambda r: {"schedule": {k: dict(data[k]) for k in r["schedule"]}}, schedule=data)
    u = c.call(Usage, d, "schedule").value
    o = c.call(getattr, u, "usage_today" if what == "days" else "usage_this_month")
    c.check("the usage is the minutes of the current period", o.ok and (o.value is None if place is None else o.value is not None and c.eq(o.value, amount(place))), lambda: f"{o}")
    year = c.pick("year", [None, 2019, 1])
    of = {} if year is None else {"year": year}
    if what == "days" and (m := c.pick("month asked for", [None, 11, 1])):
        of["month"] = m
    o = c.call(u.get_daystat if what == "days" else u.get_monthstat, **of)
    c.check("statistics ask for the period given, else the current one", c.same(p.sent, [{"schedule": {cmd: {"year": 2024, **({"month": month} if what == "days" else {}), **of}}}]), lambda: f"{p.sent}")
    all_entries(c, "statistics give the minutes", o.value, lst, day, amount)
    o = c.call(u.query)
    c.check("the update asks for the current month and year", o.ok and c.same(o.value, {"schedule": {"get_realtime": {}, "get_daystat": {"year": 2024, "month": month}, "get_monthstat": {"year": 2024}}}), lambda: f"{o}")


@contract("C17", "erasing", funcs=("Emeter.erase_stats", "Usage.erase_stats", "StripEmeter.erase_stats", "Energy.erase_stats", "Energy.get_daily_stats", "Energy.get_monthly_stats"), covers=("meter", "usage", "strip", "smart"))
def erasing(c):
    from kasa import Module
    from kasa.exceptions import KasaException
    from kasa.iot import IotStrip
    from kasa.iot.iotstrip import IotStripPlug, StripEmeter
    from kasa.smart.modules.energy import Energy

    kind = c.pick("kind", ["meter", "usage", "strip", "smart"])
    c.cover(kind)
    ok = lambda r: {k: {n: {"err_code": 0} for n in v} for k, v in r.items() if k != "context"}
    if kind in ("meter", "usage"):
        service, cmd = ("emeter", "erase_emeter_stat") if kind == "meter" else ("schedule", "erase_runtime_stat")
        d, p = iot(IotPlug, ok)
        e = c.call(Emeter if kind == "meter" else Usage, d, service).value
        o = c.call(e.erase_stats)
        c.check("the meter's own statistics are erased", o.ok and (p.sent == [{service: {cmd: {}}}] or p.sent == [{service: {cmd: None}}]), lambda: f"{o} {p.sent}")
    elif kind == "strip":
        ids = ["00", "01"]
        d, p = iot(IotStrip, ok, sys_info={"children": [{"id": i, "state": 1, "alias": i} for i in ids]})
        for i in ids:
            k = IotStripPlug("127.0.0.1", parent=d, child_id=i)
            k._last_update = d._last_update
            k.add_module(Module.Energy, Emeter(k, "emeter"))
            k._supported_modules = k._modules
            k._set_sys_info(d._sys_info["children"][int(i)])
            d._children[i] = k
        e = c.call(StripEmeter, d, "emeter").value
        o = c.call(e.erase_stats)
        got = sorted((r["context"]["child_ids"], list(r["emeter"])) for r in p.sent)
        c.check("those of every socket are erased, once", o.ok and got == [([i], ["erase_emeter_stat"]) for i in ids], lambda: f"{o} {p.sent}")
    else:
        d, p = smart(components={"energy_monitoring": 2})
        e = c.call(Energy, d, "energy").value
        for fn in (e.erase_stats, e.get_daily_stats, e.get_monthly_stats):
            o = c.call(fn)
            c.check("statistics a device does not keep are refused with nothing sent", o.exactly(KasaException) and not p.sent, lambda: f"{o} {p.sent}")


@contract("C17", "smart_energy", funcs=("Energy._post_update_hook", "Energy.status", "Energy.current_consumption", "Energy.consumption_today", "Energy.consumption_this_month", "Energy.current", "Energy.voltage", "Energy.get_status", "Energy.query"))
def smart_energy(c):
    from kasa.exceptions import DeviceError, SmartErrorCode
    from kasa.smart.modules.energy import Energy

    version = c.pick("energy_monitoring version", [1, 2])
    usage, exp = {}, {}
    fail = version > 1 and c.maybe("get_energy_usage fails")
    for k in ("today_energy", "month_energy"):
        exp[k] = None if fail or not c.maybe("has " + k) else usage.setdefault(k, c.int(k, 0, 10**6))
    pw = None
    if not fail and c.maybe("has current_power"):
        usage["current_power"] = pw = c.int("current_power", 0, 10**7)
    last = {"get_energy_usage": SmartErrorCode.INTERNAL_QUERY_ERROR if fail else usage}
    em = {}
    if version > 1:
        for k in ("power_mw", "voltage_mv", "current_ma"):
            if c.maybe("has " + k):
                em[k] = c.int(k, 0, 10**7)
        last["get_emeter_data"] = em
        last["get_emeter_vgain_igain"] = {"igain": 1}
        gcp = {"current_power": c.int("get_current_power", 0, 10**4)} if c.maybe("has get_current_power") else {}
        last["get_current_power"] = gcp
    d, p = smart(components={"energy_monitoring": version}, **last)
    p.on_query = lambda r: {k: last[k] for k in r}
    e = c.call(Energy, d, "energy").value
    q = c.call(e.query)
    c.check("the update queries what the version offers", list(q.value) == (["get_energy_usage"] if version == 1 else ["get_energy_usage", "get_current_power", "get_emeter_data", "get_emeter_vgain_igain"]))
    o = c.call(e._post_update_hook)
    c.check("the readings are accepted", o.ok)
    w = pw / 1000 if pw is not None else em["power_mw"] / 1000 if "power_mw" in em else gcp["current_power"] if version > 1 and gcp else None
    o = c.call(getattr, e, "current_consumption")
    c.check("the current consumption is in W", o.ok and near(c, o.value, w))
    for attr, k in (("consumption_today", "today_energy"), ("consumption_this_month", "month_energy")):
        o = c.call(getattr, e, attr)
        c.check(f"{attr} is in kWh", o.ok and near(c, o.value, None if exp[k] is None else exp[k] / 1000))
    for attr, k in (("voltage", "voltage_mv"), ("current", "current_ma")):
        o = c.call(getattr, e, attr)
        c.check(f"{attr} is in base units, None if the device does not measure it", o.ok and near(c, o.value, em[k] / 1000 if k in em else None))
    c.check("voltage and current are offered exactly when measured", c.call(e.supports, Energy.ModuleFeature.VOLTAGE_CURRENT).value == ("voltage_mv" in em))
    for how in ("status", "get_status"):
        if how == "get_status":  # is asked of the device, which has something new to say
            last = dict(last)
            em = {k: c.int("new " + k, 0, 10**7) for k in em}
            if version > 1:
                last["get_emeter_data"] = em
            elif pw is not None:
                pw = c.int("new power", 0, 10**7)
                last["get_energy_usage"] = {**usage, "current_power": pw}
        o = c.call(getattr, e, "status") if how == "status" else c.call(e.get_status)
        c.check(f"{how} gives a reading", o.ok)
        s = o.value
        if version > 1:
            c.cover("v2")
            for attr, k in (("power", "power_mw"), ("voltage", "voltage_mv"), ("current", "current_ma")):
                v = c.call(getattr, s, attr)
                c.check(f"{how}.{attr} is the device's reading in base units", v.ok and near(c, v.value, em[k] / 1000 if k in em else None))
        else:
            c.cover("v1")
            v = c.call(getattr, s, "power")
            c.check(f"{how}.power is in W", v.ok and near(c, v.value, (pw if pw is not None else 0) / 1000))
            v = c.call(getattr, s, "total")
            c.check(f"{how}.total is today's energy in kWh", v.ok and near(c, v.value, (exp["today_energy"] if exp["today_energy"] is not None else 0) / 1000))


for n in (1, 2, 3):
    def driver(c, n=n):
        from kasa import Module
        from kasa.iot import IotStrip
        from kasa.iot.iotstrip import IotStripPlug, StripEmeter

        ids = [f"{i:02d}" for i in range(n)]
        d, p = iot(IotStrip, sys_info={"children": [{"id": i, "state": int(i != "01"), "alias": i} for i in ids]})
        kids, reads, today = [], [], []
        for i in ids:
            k = IotStripPlug("127.0.0.1", parent=d, child_id=i)
            r = {u: c.int(f"{u}.{i}", 0 if n < 3 else 1, 10**6) for u in ("voltage_mv", "current_ma", "power_mw", "total_wh")}
            t = c.int("today." + i, 0 if n < 3 else 1, 10**6)
            k._last_update = {**d._last_update, "emeter": {"get_realtime": r, "get_daystat": {"day_list": [{"day": 5, "energy_wh": t}]}, "get_monthstat": {"month_list": [{"month": 5, "energy_wh": t}]}}}
            k.add_module(Module.Energy, Emeter(k, "emeter"))
            k._supported_modules = k._modules
            k._set_sys_info(d._sys_info["children"][int(i)])
            d._children[i] = k
            reads.append(r)
            today.append(t)
        at(c, 5, 5)
        e = c.call(StripEmeter, d, "emeter").value
        tot = lambda u: sum(r[u] for r in reads)
        avg = tot("voltage_mv") / n

        def volts(v):
            return c.and_(v * 1000 <= avg + 0.001, v * 1000 > avg - 1.001)

        for a, w in (("current_consumption", tot("power_mw") / 1000), ("consumption_total", tot("total_wh") / 1000), ("current", tot("current_ma") / 1000),
                     ("consumption_today", sum(today) / 1000), ("consumption_this_month", sum(today) / 1000)):
            o = c.call(getattr, e, a)
            c.check(f"{a} of a strip is the sum of its sockets", o.ok and near(c, o.value, w))
        o = c.call(getattr, e, "voltage")
        c.check("the voltage of a strip is the average of its sockets", o.ok and volts(o.value))

        answers = {}

        asked = []

        def answer(r):
            i, = r["context"]["child_ids"]
            k = ids.index(i)
            answers[i] = answers.get(i, 0) + 1
            cmd = list(r["emeter"])[0]
            asked.append(r["emeter"][cmd])
            return {"emeter": {cmd: dict(reads[k]) if cmd == "get_realtime" else {"day_list" if cmd == "get_daystat" else "month_list": [{"day": 5, "month": 5, "energy_wh": today[k]}, {"day": k + 10, "month": k + 10, "energy_wh": today[k]}]}}}

        p.on_query = answer
        o = c.call(e.get_status)
        c.check("a fresh reading asks every socket once", o.ok and answers == {i: 1 for i in ids})
        c.check("and adds them up", near(c, c.call(getattr, o.value, "power").value, tot("power_mw") / 1000) and near(c, c.call(getattr, o.value, "total").value, tot("total_wh") / 1000))
        c.check("averaging the voltage", volts(c.call(getattr, o.value, "voltage").value))
        for fn in (e.get_daily_stats, e.get_monthly_stats):
            kwh = c.pick("kwh." + fn.__name__, [True, False])
            of = c.pick("period." + fn.__name__, [{}, {"year": 2020, "month": 3} if fn.__name__ == "get_daily_stats" else {"year": 2020}])
            asked.clear()
            o = c.call(fn, kwh=kwh, **of)
            c.check("of the period asked for", len(asked) == n and all(v == (of or ({"year": 2024, "month": 5} if fn.__name__ == "get_daily_stats" else {"year": 2024})) for v in asked))
            f = 1 / 1000 if kwh else 1
            c.check("statistics add up per day or month", o.ok and sorted(o.value) == sorted([5] + [k + 10 for k in range(n)]) and near(c, o.value[5], sum(today) * f)
                    and all(near(c, o.value[k + 10], today[k] * f) for k in range(n)))

    contract("C17", f"strip_of_{n}", funcs=("StripEmeter.status", "StripEmeter.get_status", "StripEmeter.get_daily_stats", "StripEmeter.get_monthly_stats", "merge_sums"), bounded=f"{n} sockets; the readings are arbitrary")(driver)


@contract("C17", "strip_of_any_size", funcs=("StripEmeter.current_consumption", "StripEmeter.consumption_total", "StripEmeter.consumption_today", "StripEmeter.consumption_this_month"), covers=("summed",))
def any_strip(c):
    """A strip with any number of sockets reports the sum of theirs (sockets by their own contracts); one that has no value adds nothing."""
    from kasa import Module
    from kasa.iot import IotStrip
    from kasa.iot.iotstrip import StripEmeter

    from .devices import AnySocket, Kids

    what = c.pick("what", ["current_consumption", "consumption_total", "consumption_today", "consumption_this_month"])
    n = c.int("sockets", 1, None if c.symbolic else 8)
    d, p = iot(IotStrip, sys_info={"children": []})
    if c.symbolic:
        import z3

        from pyvc.values import SBool, SFloat, SSeq, zi

        w = c.int("any socket", 0)
        c.assume(w < n)
        amount, there = c.uf("amount", z3.IntSort(), z3.RealSort()), c.uf("there", z3.IntSort(), z3.BoolSort())

        def socket(k):
            i = zi(k)
            c.add(amount(i) >= 0)
            m = AnySocket(k, **{what: SFloat(amount(i)) if c.force(SBool(there(i))) else None})
            return AnySocket(k, modules={Module.Energy: m})

        d._children = Kids(SSeq("sockets", n, socket))
        mine = getattr(d._children.seq.at(w).modules[Module.Energy], what)
    else:
        all_ = [None if c.maybe(f"{i} has no value") else c.real(f"amount.{i}", 0, 10**6) for i in range(n)]
        d._children = {f"{i:02}": AnySocket(i, modules={Module.Energy: AnySocket(i, **{what: x})}) for i, x in enumerate(all_)}
    e = c.call(StripEmeter, d, "emeter").value
    o = c.call(getattr, e, what)
    if c.symbolic:
        v = c.sum_of(o.value)(w)
        c.check("every socket's value is added once", o.ok and (c.eq(v, mine) if mine is not None else c.eq(v, 0)), lambda: f"{o}")
    else:
        c.check("the sum of the sockets", o.ok and near(c, o.value, sum(x or 0 for x in all_)), lambda: f"{o} {all_}")
    c.cover("summed")


@contract("C17", "smart_energy_lost", funcs=("Energy._post_update_hook", "Energy.query", "Energy.optional_response_keys", "SmartModule.data"), covers=("one query", "several"))
def smart_energy_lost(c):
    from kasa.exceptions import DeviceError, SmartErrorCode
    from kasa.smart.modules.energy import Energy

    version = c.pick("energy_monitoring version", [1, 2])
    usage = {k: c.int(k, 0, 10**6) for k in ("today_energy", "month_energy", "current_power")}
    last = {"get_energy_usage": usage}
    if version > 1:
        last.update(get_emeter_data={"power_mw": c.int("power_mw", 0, 10**7)}, get_emeter_vgain_igain={"igain": 1}, get_current_power={"current_power": 1})
    d, p = smart(components={"energy_monitoring": version}, **last)
    e = c.call(Energy, d, "energy").value
    c.check("readings are accepted", c.call(e._post_update_hook).ok)
    bad = "get_energy_usage" if version == 1 else c.pick("failing", ["get_current_power", "get_emeter_data", "get_emeter_vgain_igain"])
    c.cover("one query" if version == 1 else "several")
    d._last_update = {**d._last_update, bad: c.pick("error", [SmartErrorCode.INTERNAL_QUERY_ERROR, SmartErrorCode.PARAMS_ERROR])}
    o = c.call(e._post_update_hook)
    c.check("a failed reading is an error of the module", o.raised(DeviceError))
    for a in ("current_consumption", "consumption_today", "consumption_this_month"):
        r = c.call(getattr, e, a)
        c.check(f"and {a} is not the one before", r.ok and r.value is None)
    d._last_update = {**d._last_update, **last}
    o = c.call(e._post_update_hook)
    c.check("until it is read again", o.ok and near(c, c.call(getattr, e, "current_consumption").value, usage["current_power"] / 1000) and near(c, c.call(getattr, e, "consumption_today").value, usage["today_energy"] / 1000))
