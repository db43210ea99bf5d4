"""C24: updating a legacy device asks for everything it supports and keeps every answer where it belongs."""
from kasa import Module
from kasa.iot import IotBulb, IotDevice, IotDimmer, IotLightStrip, IotPlug, IotStrip, IotWallSwitch
from kasa.iot.iotmodule import IotModule, merge
from kasa.iot.iotstrip import IotStripPlug
from kasa.iot.modules.usage import Usage
from kasa.iot.modules import Countdown, Schedule
from pyvc.registry import contract, prop

from .devices import IOT_SYS, iot

prop("C24")


class Mod(IotModule):
    """A module with a query and an estimated answer size chosen by the contract."""

    q: dict = {}
    size = 256
    hooks = 0

    def query(self):
        return {k: dict(v) for k, v in self.q.items()}

    @property
    def estimated_query_response_size(self):
        return self.size

    async def _post_update_hook(self):
        self.hooks += 1
        self.seen = self._device.sys_info


QUERIES = [("sched", {"sched": {"get_rules": {}}}), ("usage", {"sched": {"get_realtime": {}, "get_daystat": {"year": 1}}}), ("emeter", {"emeter": {"get_realtime": {}}}), ("silent", {})]


def device(c, cls=IotPlug):
    d, p = iot(cls)
    mods = {}
    for n, q in QUERIES:
        m = Mod(d, next(iter(q), n))
        m.q, m.size = q, c.int("size." + n, 0, 20000, pool=(256, 2048, 16384))
        mods[n] = m
        d._modules[n] = m
    return d, p, mods


@contract("C24", "queries", funcs=("IotDevice._modular_update", "merge", "IotModule.is_supported"), covers=("split", "together"), opts={"max_paths": 20000})
def queries(c):
    kind = c.pick("device", [IotPlug, IotBulb])
    d, p, mods = device(c, kind)
    limit = 4096 if kind is IotBulb else 16384
    unsupported = c.pick("module not supported", [None, "sched", "emeter", "both"])
    old = {"system": {"get_sysinfo": dict(IOT_SYS)}}
    first = c.maybe("first update")
    known_bad = set() if first else {"sched": {"sched"}, "emeter": {"emeter"}, "both": {"sched", "emeter"}}.get(unsupported, set())
    bad = {"sched": {"sched"}, "emeter": {"emeter"}, "both": {"sched", "emeter"}}.get(unsupported, set())
    stale = {"value": 0}
    if not first:
        for t in ("sched", "emeter"):
            old[t] = {"err_code": -1, "err_msg": "module not support"} if t in bad else {m: stale for _, q in QUERIES for m in q.get(t, {})}
    d._last_update = old
    fresh = {}

    def on(r):
        out = {}
        for t, x in r.items():
            if t in bad:
                out[t] = {"err_code": -1, "err_msg": "module not support"}
                continue
            out[t] = {}
            for m in x:
                c.check("nothing is asked for twice", (t, m) not in fresh)
                out[t][m] = fresh[t, m] = {"value": c.int(f"{t}.{m}")}
        return out

    p.on_query = on
    req = {"system": {"get_sysinfo": {}}}
    o = c.call(d._modular_update, req)
    c.check("the update succeeds", o.ok)
    asked = [(t, m, a) for r in p.sent for t, x in r.items() for m, a in x.items()]
    want = [("system", "get_sysinfo", {})] + [(t, m, a) for _, q in QUERIES for t, x in q.items() if t not in known_bad for m, a in x.items()]
    c.check("every supported module's query and the sysinfo are asked for, once, and nothing else", len(asked) == len(want) and all(x in asked for x in want))
    c.check("no empty request is sent", all(r and all(x for x in r.values()) for r in p.sent))
    c.cover("together" if len(p.sent) == 1 else "split")
    # each request stays within the size the device can answer, unless one module alone exceeds it
    size = {n: m.size for n, m in mods.items()}
    for r in p.sent:
        mine = [n for n, q in QUERIES if q and all(t in r and m in r[t] for t, x in q.items() for m in x)]
        total = sum([size[n] for n in mine], 1024 if "system" in r else 0)
        c.check("a request fits the device unless it is for one module alone", c.or_(len(mine) <= 1, total <= limit))
    lu = d._last_update
    c.check("the sysinfo is kept", c.same(lu["system"]["get_sysinfo"], fresh["system", "get_sysinfo"]))
    for n, q in QUERIES:
        for t, x in q.items():
            if t in bad:
                c.check("an unsupported module is remembered", lu[t].get("err_code") == -1)
            else:
                c.check("every answer is the module's data", all(c.same(lu[t][m], fresh[t, m]) for m in x))
    sup = c.call(getattr, d, "modules")
    c.check("exactly the supported modules are offered", sup.ok and list(sup.value) == [n for n, q in QUERIES if not (set(q) & bad)])


@contract("C24", "second_update", funcs=("IotDevice.update", "IotDevice._modular_update"))
def second(c):
    d, p, mods = device(c)
    vals = {}

    def on(r):
        return {t: {m: ({**IOT_SYS, "rssi": vals["rssi"]} if m == "get_sysinfo" else {"value": vals["v"]}) for m in x} for t, x in r.items()}

    p.on_query = on
    d._last_update = {}
    d._sys_info = None
    for k in range(2):
        vals = {"rssi": c.int(f"rssi{k}"), "v": c.int(f"v{k}")}
        before = dict(d._last_update)
        kept = {t: dict(x) for t, x in before.items()}
        n = len(p.sent)
        o = c.call(d.update)
        c.check("the update succeeds", o.ok)
        c.check("a new device is asked for its sysinfo alone first", k == 1 or p.sent[0] == {"system": {"get_sysinfo": {}}})
        c.check("an update's data is complete and new", c.and_(c.eq(d.sys_info["rssi"], vals["rssi"]), *[c.eq(d._last_update[t][m]["value"], vals["v"]) for _, q in QUERIES for t, x in q.items() for m in x]))
        c.check("earlier results handed out are not changed", c.same({t: before[t] for t in kept}, kept))
        c.check("every module is told, once", all(m.hooks == k + 1 for m in mods.values()))
        c.check("when the device's new state is there", all(c.eq(m.seen["rssi"], vals["rssi"]) for m in mods.values()))
        f = c.call(getattr, d, "features")
        c.check("the features are there from the first update on", f.ok and {"state", "rssi", "reboot"} <= set(f.value) and f.value["rssi"].device is d)


KINDS = {IotPlug: 16384, IotWallSwitch: 16384, IotDimmer: 16384, IotStrip: 16384, IotBulb: 4096, IotLightStrip: 4096}


@contract("C24", "fresh", funcs=("IotDevice.update", "IotDevice._initialize_modules", "IotDevice._initialize_features", "IotDevice.max_device_response_size"), covers=("energy", "no energy"))
def fresh(c):
    """The first update of a device of each kind, with its own modules, each answered."""
    cls = c.pick("kind", list(KINDS))
    ene = c.maybe("measures energy") or cls in (IotBulb, IotLightStrip)
    c.cover("energy" if ene else "no energy")
    light = {"light_state": {"on_off": 1, "hue": 0, "saturation": 0, "color_temp": 0, "brightness": 5}, "is_dimmable": 1, "is_color": 1, "is_variable_color_temp": 0, "length": 16, "preferred_state": [], "lighting_effect_state": {"enable": 0, "name": "x", "id": "x", "brightness": 5, "custom": 0}} if cls in (IotBulb, IotLightStrip) else {"brightness": 5} if cls is IotDimmer else {}
    si = {**IOT_SYS, "feature": "TIM:ENE" if ene else "TIM", "dev_name": "x", **light, **({"child_num": 1, "children": [{"id": "00", "state": c.pick("socket is on", [0, 1]), "alias": "a"}]} if cls is IotStrip else {})}
    d, p = iot(cls)
    d._last_update, d._sys_info = {}, None
    rssi = c.int("rssi", -100, 0)
    p.on_query = lambda r: {t: {m: ({**si, "rssi": rssi} if m == "get_sysinfo" else {"err_code": 0, "index": 39}) for m in x} for t, x in r.items()}
    o = c.call(d.update)
    c.check("the first update succeeds", o.ok, lambda: f"{o}")
    meter = "smartlife.iot.common.emeter" if cls in (IotBulb, IotLightStrip) else "emeter"
    c.check("the meter is asked exactly if there is one", cls is IotStrip or any(meter in r for r in p.sent) == ene)
    c.check("and offered", (Module.Energy in c.call(getattr, d, "modules").value) == ene)
    c.check("the sysinfo is the device's", c.eq(c.call(getattr, d, "sys_info").value["rssi"], rssi))
    f = c.call(getattr, d, "features").value
    c.check("the features are there", {"state", "rssi", "reboot"} <= set(f) and ("current_consumption" in f) == ene)
    c.check("no answer outgrows the device", d.max_device_response_size == KINDS[cls])


@contract("C24", "sockets", funcs=("IotStrip.update", "IotStripPlug._update", "IotDevice._modular_update"), bounded="two sockets, two updates; their data is arbitrary")
def sockets(c):
    ids = ["00", "01"]
    d, p = iot(IotStrip, sys_info={"feature": "TIM", "children": [{"id": i, "state": c.pick(i + " is on", [0, 1]), "alias": i, "on_time": 1} for i in ids]})
    if c.maybe("new device"):
        sysi = d._sys_info
        d._last_update, d._sys_info = {}, None
    else:
        sysi = d._sys_info
    vals = {}

    def on(r):
        who = (r.get("context") or {"child_ids": ["strip"]})["child_ids"]
        c.check("at most one socket is addressed", len(who) == 1)
        r = {t: x for t, x in r.items() if t != "context"}
        return {t: {m: sysi if m == "get_sysinfo" else {"value": vals[who[0]]} for m in x} for t, x in r.items()}

    p.on_query = on
    d._modules["usage"] = u = Mod(d, "schedule")
    u.q, u.size = {"schedule": {"get_realtime": {}}}, 100
    for k in range(2):
        vals.update({w: c.int(f"{w}.{k}") for w in ["strip", *ids]})
        o = c.call(d.update)
        c.check("the update succeeds", o.ok)
        c.check("there is one child per socket", [x.child_id for x in d.children] == ids)
        c.check("each socket's data is its own", c.and_(*[c.eq(x._last_update["schedule"]["get_realtime"]["value"], vals[x.child_id]) for x in d.children]))
        c.check("each has its modules", all({"schedule", "usage", "anti_theft", "countdown"} <= set(map(str, c.call(getattr, x, "modules").value)) for x in d.children), lambda: f"{[list(x.modules) for x in d.children]}")
        c.check("and so is the strip's", c.eq(d._last_update["schedule"]["get_realtime"]["value"], vals["strip"]))


ENERGY = {"consumption_this_month", "consumption_today", "consumption_total", "current", "current_consumption", "voltage"}


@contract("C24", "socket_features", funcs=("IotStrip.update", "IotStrip._initialize_features", "IotStripPlug._initialize_features", "IotStripPlug._initialize_modules", "IotStripPlug._update"), covers=("energy", "plain", "sockets not asked"), bounded="two sockets; their data is arbitrary")
def socket_features(c):
    """The first update of a strip: the strip and each of its sockets have their features, those of the meter included."""
    ene = c.maybe("measures energy")
    ids = ["00", "01"]
    d, p = iot(IotStrip, sys_info={"feature": "TIM:ENE" if ene else "TIM", "children": [{"id": i, "state": c.pick(i + " is on", [0, 1]), "alias": i, "on_time": 1} for i in ids]})
    sysi = d._sys_info
    d._last_update, d._sys_info = {}, None
    rt = {w: c.int(f"total of {w}", 0, 10**6) for w in ["strip", *ids]}
    whole = {"index": 1, "year": 2024, "month": 1, "mday": 1, "hour": 1, "min": 1, "sec": 1, "day_list": [], "month_list": [], "err_code": 0}

    def on(r):
        who = (r.get("context") or {"child_ids": ["strip"]})["child_ids"][0]
        return {t: {m: sysi if m == "get_sysinfo" else {"voltage_mv": 230000, "current_ma": 100, "power_mw": 1000, "total_wh": rt[who]} if m == "get_realtime" else whole for m in x} for t, x in r.items() if t != "context"}

    p.on_query = on
    kids = c.maybe("sockets are asked")
    c.cover("sockets not asked" if not kids else "energy" if ene else "plain")
    o = c.call(d.update) if kids else c.call(d.update, update_children=False)
    c.check("the first update succeeds", o.ok, lambda: f"{o}")
    if not kids:
        c.check("no socket is asked", not any("context" in r for r in p.sent), lambda: f"{p.sent}")
        o = c.call(d.update)
        c.check("a later update that asks them succeeds", o.ok, lambda: f"{o}")
    f = c.call(getattr, d, "features").value
    c.check("the strip has its features", {"state", "rssi", "on_since", "reboot", "led", "cloud_connection"} | (ENERGY if ene else set()) == set(f), lambda: f"{sorted(f)}")
    for x, i in zip(d.children, ids):
        f = c.call(getattr, x, "features").value
        c.check("so has each socket", {"state", "on_since"} | (ENERGY if ene else set()) == set(f), lambda: f"{sorted(f)}")
        if ene:
            c.check("with its own values", c.same(c.call(getattr, f["consumption_total"], "value").value, rt[i] / 1000), lambda: f"{f['consumption_total'].value} {rt}")
