"""C39: a command of the command line tool acts on the device or child named, and does what its arguments ask."""
import asyncio
import datetime as dt
import inspect
import json
import os
import re

import asyncclick as click

import kasa.cli.common as common
import kasa.cli.device as device
import kasa.cli.discover as discover
import kasa.cli.feature as feature
import kasa.cli.hub as hub
import kasa.cli.light as light
import kasa.cli.main as main
import kasa.cli.schedule as schedule
import kasa.cli.time as time
import kasa.cli.usage as usage
import kasa.cli.vacuum as vacuum
import kasa.cli.wifi as wifi
from kasa import Device, DeviceType, Feature, Module
from pyvc.registry import contract, prop

from .cli import Ctx, Dev, Mod, at, failed, run, tell

prop("C39", assumptions=("click parses the command line and calls the command with the declared arguments",))


def strip(log, n):
    ch = [Dev(f"child{i}", log) for i in range(n)]
    return Dev("parent", log, ch), ch


@contract("C39", "target", funcs=("pass_dev_or_child", "_get_child_device"), covers=("parent", "child", "refused", "prompted"))
def target(c):
    log = []
    d, ch = strip(log, c.pick("children", [0, 1, 3]))
    kw = {"transition": c.pick("transition", [None, 5])}
    name = c.pick("name", [None, "Name child1", "id-child0", "unknown", "", common.OPTIONAL_VALUE_FLAG])
    index = c.int("index", pool=(-1, 0, 1, 2, 3)) if c.pick("index given", [False, True]) else None
    cmd_name = c.pick("command", ["on", "command", "raw-command"])
    asked = []

    def prompt(text, type=None, **k):
        asked.append((type.min, type.max))
        asked.append(c.int("prompted", 0, type.max))
        return asked[-1]

    c.patch(click, "prompt", prompt)
    fails = c.pick("fails", [False, True])
    seen = []
    for x in [d, *ch]:
        async def turn_on(x=x, **k):
            before = len(log)
            await x.update()
            seen.append((x.name, k, log[before:]))
            del log[before:]
            if fails:
                raise ValueError("turn_on")
            return "result"
        x.turn_on = turn_on
    ctx = Ctx(d, info_name=cmd_name)
    o, _ = run(c, device.on, ctx, child=name, child_index=index, **kw)
    ctx.leave(o.exc)
    want = None
    if name is None and index is None:
        want = d
    elif not ch or (name is not None and index is not None):
        pass
    elif name == common.OPTIONAL_VALUE_FLAG:
        c.cover("prompted")
        c.check("the children are offered by their index", len(asked) == 2 and asked[0] == (0, len(ch) - 1))
        want = next(x for i, x in enumerate(ch) if c.force(c.eq(asked[1], i)))
    elif name is not None:
        want = {x.alias: x for x in ch}.get(name) or {x.device_id: x for x in ch}.get(name)
    else:
        for i in range(len(ch)):
            if c.force(c.eq(index, i)):
                want = ch[i]
    updates = [("update", "parent")] if cmd_name != "on" and not (name is None and index is None) else []
    c.check("only commands that skip the update ask for one, to find the children", log == updates, lambda: f"{log} {updates}")
    if want is None:
        c.cover("refused")
        c.check("what is no child is refused, with nothing done", failed(o) and not seen, lambda: f"{o} {seen}")
        return
    c.cover("parent" if want is d else "child")
    c.check("exactly the named device gets the command, with its arguments", [s[:2] for s in seen] == [(want.name, kw)], lambda: f"{seen}")
    c.check("an update during the command is one of the parent", seen[0][2] == [("update", "parent")], lambda: f"{seen}")
    c.check("its result is that of the command", o.exactly(ValueError) if fails else o.ok and o.value == "result", lambda: f"{o}")
    del log[:]
    c.call(want.update)
    c.check("afterwards the child updates itself again", log == [("update", want.name)], lambda: f"{log}")


def refused(c, o, log):
    c.cover("refused")
    c.check("it is refused, with nothing done", failed(o) and not log, lambda: f"{o} {log}")


def did(c, o, log, *want):
    """Exactly this was done, and the result is that of the last call of a module or device."""
    c.cover("done")
    c.check("it succeeds", o.ok, lambda: f"{o}")
    c.check("exactly what was asked is done", c.same(log, list(want)), lambda: f"{log} {want}")
    if want:
        c.check("its answer is the result", c.same(o.value, {"done": want[0][0]}), lambda: f"{o}")


def shows(c, o, log, value):
    c.cover("shown")
    c.check("reading does nothing", not log, lambda: f"{log}")
    c.check("and gives the value", o.ok and c.same(o.value, value), lambda: f"{o}")


class Feat:
    def __init__(self, name, log, type=Feature.Type.Number, value=5, unit=None, category=Feature.Category.Primary, range=(0, 100)):
        self.id, self.name, self.log, self.type, self.value, self.unit, self.category, self.icon, self.range = name, name, log, type, value, unit, category, None, range

    async def set_value(self, v):
        self.log.append(("set_value", self.id, v))
        return {"done": "set_value"}


class Light(Mod):
    def has_feature(self, n):
        return n in self.feats

    def get_feature(self, n):
        return self.feats.get(n)


@contract("C39", "lights", funcs=("light.brightness", "light.temperature", "light.hsv", "light.effect"), covers=("done", "shown", "refused"))
def lights(c):
    log = []
    has = c.pick("has", ["no light", "light", "all"])
    bri, temp, hue = c.int("brightness", 0, 100), c.int("color_temp", 0, 9000), (c.int("hue", 0, 360), 50, 60)
    rng = c.pick("range", [(2500, 9000), (0, 0)])
    lt = Light(log, "set_brightness", "set_color_temp", "set_hsv", brightness=bri, color_temp=temp, hsv=hue, feats={} if has == "light" else {"brightness": Feat("brightness", log), "color_temp": Feat("color_temp", log, range=rng), "hsv": Feat("hsv", log)})
    fx = Light(log, "set_effect", effect="Off", effect_list=["Off", "One", "Two"])
    mods = {} if has == "no light" else {Module.Light: lt, **({Module.LightEffect: fx} if has == "all" else {})}
    d = Dev("d", log)
    d.modules = mods
    what = c.pick("command", ["brightness", "temperature", "hsv", "effect"])
    tr = c.pick("transition", [None, 7])
    ctx = Ctx(d)
    if what == "brightness":
        v = c.pick("given", [False, True]) and c.int("value", 0, 100)
        o, _ = run(c, light.brightness, ctx, brightness=None if v is False else v, transition=tr)
        want, now = ("set_brightness", (v,), {"transition": tr}), bri
    elif what == "temperature":
        v = c.pick("given", [False, True]) and c.int("value", 2500, 9000)
        o, _ = run(c, light.temperature, ctx, temperature=None if v is False else v, transition=tr)
        want, now = ("set_color_temp", (v,), {"transition": tr}), rng
    elif what == "hsv":
        n = c.pick("values", [0, 1, 2, 3])
        v = [c.int("value0", 0, 360), c.int("value1", 0, 100), c.int("value2", 0, 100)][:n]
        o, _ = run(c, light.hsv, ctx, **dict(zip("hsv", v)), transition=tr)
        want, now = ("set_hsv", tuple(v), {"transition": tr}), hue
        if has == "all" and n in (1, 2):
            return refused(c, o, log)
        v = bool(v)
    else:
        v = c.pick("effect", [False, "One", "Two", "Three", "one"])
        o, _ = run(c, light.effect, ctx, effect=v or None)
        want, now = ("set_effect", (v,), {}), "Off"
        if v in ("Three", "one"):
            return refused(c, o, log)
    if has != "all":
        return refused(c, o, log)
    if v is False:
        return shows(c, o, log, now)
    did(c, o, log, want)


class Preset:
    """A preset; what the device has no value for stays without."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


@contract("C39", "presets", funcs=("light.presets_list", "light.presets_modify", "light.presets"), covers=("done", "shown", "refused"))
def presets(c):
    log = []
    n = c.pick("presets", [0, 2])
    keys = ("brightness", "hue", "saturation", "color_temp")
    color = c.pick("has color", [True, False])
    ps = [Preset(**{k: (c.int(f"{k}{i}", 0, 9000) if color or k == "brightness" else None) for k in keys}) for i in range(n)]
    old = [dict(vars(x)) for x in ps]
    d = Dev("d", log)
    has = c.pick("module", [True, False])
    if has:
        d.modules = {Module.LightPreset: Mod(log, "save_preset", preset_states_list=ps, preset_list=["Not set", *[f"Preset {i}" for i in range(n)]])}
    what = c.pick("command", ["list", "group", "modify"])
    if what != "modify":
        o, _ = run(c, light.presets_list if what == "list" else light.presets, Ctx(d, sub=None))
        if not has:
            return refused(c, o, log)
        c.check("the presets are given", o.ok and o.value is ps, lambda: f"{o}")
        return shows(c, o, log, ps)
    i = c.int("index", pool=(-2, -1, 0, 1, 2))
    new = {k: v for k, v in c.pick("values", [(("brightness", 0), ("hue", 240), ("saturation", 11), ("temperature", 4500)), (("brightness", 1), ("hue", 0), ("saturation", 0), ("temperature", 0))]) if c.pick(k + " given", [False, True])}
    o, _ = run(c, light.presets_modify, Ctx(d), index=i, **new)
    k = next((k for k in range(n) if c.force(c.eq(i, k))), None)
    if not has or k is None or not new:
        return refused(c, o, log)
    exp = dict(old[k])
    for name, v in new.items():
        name = {"temperature": "color_temp"}.get(name, name)
        if exp[name] is not None:
            exp[name] = v
    c.check("exactly the given values change", all(c.same(dict(vars(x)), exp if j == k else old[j]) for j, x in enumerate(ps)), lambda: f"{[vars(x) for x in ps]}")
    did(c, o, log, ("save_preset", (f"Preset {k}", ps[k]), {}))


@contract("C39", "turn_on_behavior", funcs=("light.turn_on_behavior",), covers=("done", "shown", "refused"))
def turn_on_behavior(c):
    from kasa.iot import IotBulb, IotPlug
    from kasa.iot.iotbulb import BehaviorMode, TurnOnBehavior, TurnOnBehaviors

    from .devices import iot

    cls = c.pick("class", [IotBulb, IotPlug])
    d, p = iot(cls)
    mode = c.pick("mode", ["last_status", "customize_preset"])
    b = {"mode": mode, **({"index": 1} if mode == "customize_preset" else {})}
    svc = "smartlife.iot.smartbulb.lightingservice"
    p.on_query = lambda r: {svc: {k: {"err_code": 0, **({"soft_on": dict(b), "hard_on": dict(b)} if k.startswith("get") else {})} for k in r[svc]}}
    typ, last, preset = c.pick("type", [None, "soft", "hard"]), c.pick("last", [False, True]), c.pick("preset", [None, 0, 3])
    o, _ = run(c, light.turn_on_behavior, Ctx(d), type=typ, last=last, preset=preset)
    if cls is IotPlug:
        return refused(c, o, p.sent)
    sets = p.sent[1:]
    if typ is None:
        c.cover("shown")
        return c.check("without the kind of turning on nothing is set", o.ok and not sets, lambda: f"{o} {sets}")
    if not last and preset is None:
        c.check("the same behavior is set", o.ok and sets in ([], [{svc: {"set_default_behavior": {"soft_on": b, "hard_on": b}}}]))
        return
    c.cover("done")
    exp = {"soft_on": b, "hard_on": b, typ + "_on": {"mode": "last_status"} if last else {"mode": "customize_preset", "index": preset}}
    c.check("exactly the asked behavior is set", o.ok and sets == [{svc: {"set_default_behavior": exp}}], lambda: f"{o} {sets}")


@contract("C39", "features", funcs=("feature.feature",), covers=("done", "shown", "refused", "listed"))
def features(c):
    log = []
    d = Dev("d", log)
    ch = Dev("child", log)
    d.children = [ch]
    val = c.int("value now", 0, 100)
    typ = c.pick("type", [Feature.Type.Number, Feature.Type.Action, Feature.Type.Switch])
    d.features = {"one": Feat("one", log, type=typ, value=val, unit=c.pick("unit", [None, "W"])), "two": Feat("two", log, value=1)}
    ch.features = {"one": Feat("child one", log, value=2)}
    texts = {"5": 5, "1.5": 1.5, "-3": -3, "'a'": "a", "True": True, "[1, 2]": [1, 2], "None": None, "abc": ValueError, "'x": SyntaxError, "1+": SyntaxError}
    name = c.pick("name", [None, "one", "two", "three", "One"])
    text = c.pick("value", [None, *texts])
    verbose = c.pick("verbose", [True, False])
    o, _ = run(c, feature.feature, Ctx(d, parent=Ctx(params={"verbose": verbose})), name=name, value=text)
    if name is None:
        c.cover("listed")
        return c.check("listing the features does nothing", o.ok and not log, lambda: f"{o} {log}")
    if name not in d.features:
        return refused(c, o, log)
    if text is None and name == "one" and typ is Feature.Type.Action:
        return did(c, o, log, ("set_value", "one", None))
    if text is None:
        return shows(c, o, log, val if name == "one" else 1)
    v = texts[text]
    if v in (ValueError, SyntaxError):
        return refused(c, o, log)
    did(c, o, log, ("set_value", name, v), ("update", "d"))


@contract("C39", "devices", funcs=("device.on", "device.off", "device.toggle", "device.led", "device.alias", "device.reboot", "device.factory_reset", "device.update_credentials", "device.state", "device.sysinfo", "device.child_logs"),
          covers=("done", "shown", "refused"))
def devices(c):
    log = []
    d = Dev("d", log)
    what = c.pick("command", ["on", "off", "toggle", "led", "alias", "reboot", "factory_reset", "update_credentials", "state", "sysinfo", "logs"])
    ctx = Ctx(d, parent=Ctx(params={"verbose": False}))
    if what in ("on", "off", "toggle"):
        tr = c.int("transition", 0, 10**6) if c.pick("transition given", [False, True]) else None
        d.is_on = c.pick("is on", [False, True])
        o, _ = run(c, {"on": device.on, "off": device.off, "toggle": device.toggle}[what], ctx, transition=tr)
        on = what == "on" or what == "toggle" and not d.is_on
        return did(c, o, log, ("turn_on" if on else "turn_off", "d", (), {"transition": tr}))
    if what == "led":
        if c.pick("has led", [True, False]):
            d.modules = {Module.Led: Mod(log, "set_led", led=c.pick("led", [True, False]))}
        v = c.pick("state", [None, True, False])
        o, _ = run(c, device.led, ctx, state=v)
        if not d.modules:
            return refused(c, o, log)
        return shows(c, o, log, d.modules[Module.Led].led) if v is None else did(c, o, log, ("set_led", (v,), {}))
    if what == "alias":
        v = c.pick("alias", [None, "new", "", " two words "])
        d.children = c.pick("children", [[], [Dev("ch", log)]])
        o, _ = run(c, device.alias, ctx, new_alias=v)
        return shows(c, o, log, "Name d") if v is None else did(c, o, log, ("set_alias", "d", (v,), {}), ("update", "d"))
    if what == "reboot":
        v = c.int("delay", 0, 100) if c.pick("delay given", [True, False]) else None
        o, _ = run(c, device.reboot, ctx, **({} if v is None else {"delay": v}))
        return did(c, o, log, ("reboot", "d", (1 if v is None else v,), {}))
    if what in ("factory_reset", "update_credentials"):
        ok = c.pick("confirmed", [True, False])

        def confirm(text, abort=False, **k):
            if not ok and abort:
                raise click.exceptions.Abort()
            return ok

        c.patch(click, "confirm", confirm)
        if what == "factory_reset":
            o, _ = run(c, device.factory_reset, ctx)
            want = ("factory_reset", "d", (), {})
        else:
            from kasa.smart import SmartDevice

            from .devices import smart

            if c.pick("smart", [True, False]):
                d, p = smart()

                async def update_credentials(*a, **k):
                    log.append(("update_credentials", "d", a, k))
                    return {"done": "update_credentials"}

                d.update_credentials = update_credentials
            o, _ = run(c, device.update_credentials, Ctx(d), username="u", password="p")
            if not isinstance(d, SmartDevice):
                return refused(c, o, log)
            want = ("update_credentials", "d", ("u", "p"), {})
        if ok:
            return did(c, o, log, want)
        c.cover("refused")
        return c.check("without confirmation nothing is done", not o.ok and not log, lambda: f"{o} {log}")
    if what == "logs":
        entries = ["log entry 1", "log entry 2"]
        d.modules = c.pick("has logs", [{}, {Module.TriggerLogs: Mod(log, logs=entries)}])
        o, out = run(c, device.child_logs, ctx)
        if d.modules:
            c.check("the logs are asked for anew", log == [("update", "d", {"update_children": True})], lambda: f"{log}")
            c.check("every entry is printed", o.ok and out.split("\n")[:-1] == entries, lambda: f"{o} {out!r}")
        else:
            c.check("without logs nothing is done", o.ok and not log and not out)
        return
    if what == "state":
        from .devices import smart

        d, p = smart(component_nego={"component_list": []}, get_device_time={"timestamp": 1})
        ch = Dev("child", log)
        del log[:]
        o, _ = run(c, device.state, Ctx(d, parent=Ctx(params={"verbose": c.pick("verbose", [True, False])})))
        log += p.sent
        return shows(c, o, log, d.internal_state)
    o, _ = run(c, device.sysinfo, ctx)
    shows(c, o, log, {"sys": "d"})


@contract("C39", "consumption", funcs=("usage.energy", "usage.usage"), covers=("done", "shown", "refused"))
def consumption(c):
    log = []
    d = Dev("d", log)
    what = c.pick("command", ["energy", "usage"])
    status = {"current": 1, "voltage": 2, "power": 3, "total": 4}
    stats = c.pick("statistics", [True, False]) if what == "energy" else True
    from kasa.interfaces import Energy

    class E(Mod):
        def supports(self, f):
            return stats and f is Energy.ModuleFeature.PERIODIC_STATS

    data = {1: 0.5, 2: 0.25}
    m = E(log, "erase_stats", "get_monthly_stats", "get_daily_stats", "get_monthstat", "get_daystat", answers={k: data for k in ("get_monthly_stats", "get_daily_stats", "get_monthstat", "get_daystat")},
          status=status, consumption_today=1, consumption_this_month=2, usage_today=5, usage_this_month=6)
    if c.pick("module", [True, False]) or what == "usage":
        d.modules = {Module.Energy if what == "energy" else "usage": m}
    y, mo = c.pick("year", [None, 2023]), c.pick("month", [None, (2024, 2)])
    erase = c.pick("erase", [False, True])
    o, out = run(c, usage.energy if what == "energy" else usage.usage, Ctx(d), year=y and dt.datetime(y, 1, 1), month=mo and dt.datetime(*mo, 1), erase=erase)
    if not d.modules or not stats and (y or mo or erase):
        return refused(c, o, log)
    if erase:
        return did(c, o, log, ("erase_stats", (), {}))
    if y or mo:
        c.cover("done")
        q = ("get_monthly_stats" if what == "energy" else "get_monthstat", (), {"year": y}) if y else ("get_daily_stats" if what == "energy" else "get_daystat", (), {"year": mo[0], "month": mo[1]})
        c.check("exactly the data of that time is asked for", log == [q], lambda: f"{log}")
        return c.check("and given", o.ok and o.value is data, lambda: f"{o}")
    shows(c, o, log, status) if what == "energy" else shows(c, o, log, m)


class Rule:
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"<Rule {self.id}>"


@contract("C39", "rules", funcs=("schedule._schedule_list", "schedule.delete_rule"), covers=("done", "shown", "refused"))
def rules(c):
    log = []
    d = Dev("d", log)
    rs = {k: [Rule(f"{k}{i}") for i in range(c.pick("rules of " + k, [0, 1, 2]))] for k in ("schedule", "countdown")}
    d.modules = {k: Mod(log, "delete_rule", rules=v) for k, v in rs.items()}
    if c.pick("command", ["list", "delete"]) == "list":
        t = c.pick("type", [None, "schedule", "countdown"])
        o, out = run(c, schedule._schedule_list, Ctx(d), **({"type": t} if t else {}))
        want = rs[t or "schedule"]
        if not want:
            return refused(c, o, log)
        c.check("every rule is printed", out.split("\n")[:-1] == [repr(r) for r in want], lambda: f"{out!r}")
        return shows(c, o, log, want)
    i = c.pick("id", ["schedule0", "schedule1", "schedule2", "countdown0", "schedule"])
    o, _ = run(c, schedule.delete_rule, Ctx(d), id=i)
    r = next((r for r in rs["schedule"] if r.id == i), None)
    if r is None:
        return refused(c, o, log)
    did(c, o, log, ("delete_rule", (r,), {}))


@contract("C39", "networks", funcs=("wifi.scan", "wifi.join"), covers=("done",))
def networks(c):
    log = []
    d = Dev("d", log)
    if c.pick("command", ["scan", "join"]) == "scan":
        nets = c.pick("networks", [[], ["n1"], ["n1", "n2"]])

        async def wifi_scan():
            log.append("scan")
            return nets

        d.wifi_scan = wifi_scan
        o, _ = run(c, wifi.scan, Ctx(d))
        return c.check("the networks found are given", o.ok and o.value is nets and log == ["scan"], lambda: f"{o} {log}")
    o, _ = run(c, wifi.join, Ctx(d), ssid="net", password="pass", keytype="3")
    did(c, o, log, ("wifi_join", "d", ("net", "pass"), {"keytype": "3"}))


@contract("C39", "hubs", funcs=("hub.hub", "hub.hub_list", "hub.hub_supported", "hub.hub_pair", "hub.hub_unpair"), covers=("done", "shown", "refused"))
def hubs(c):
    log = []
    a, b = Dev("a", log), Dev("b", log)
    d = Dev("d", log, [a, b])
    d.device_type = c.pick("kind", [DeviceType.Hub, DeviceType.Plug])
    d._children = {"A": a, "B": b}
    paired = c.pick("paired", [[], [{"name": "N", "device_model": "T100", "category": "subg.trigger.motion-sensor", "device_id": "X"}]])
    cs = Mod(log, "pair", answers={"pair": paired}, supported_categories=["c1", "c2"])
    gone = c.pick("unpairing works", [True, False])

    async def unpair(**k):
        log.append(("unpair", (), k))
        return {"done": "unpair"}

    async def upd(**k):
        log.append(("update", "d"))
        if gone:
            d._children.pop("B", None)

    async def sleep(s, *x):
        pass

    c.patch(asyncio, "sleep", sleep)
    cs.unpair, d.update = unpair, upd
    if c.pick("has pairing", [True, False]):
        d.modules = {Module.ChildSetup: cs}
    what = c.pick("command", ["hub", "list", "supported", "pair", "unpair"])
    if what == "hub":
        o, _ = run(c, hub.hub, Ctx(d))
        if d.device_type is not DeviceType.Hub or not d.modules:
            return refused(c, o, log)
        return c.check("a hub that pairs is accepted", o.ok and not log, lambda: f"{o}")
    if not d.modules:
        return
    if what in ("list", "supported"):
        o, out = run(c, hub.hub_list if what == "list" else hub.hub_supported, Ctx(d, {"json": False}))
        c.cover("shown")
        c.check("reading does nothing", o.ok and not log)
        words = ["id-a", "id-b"] if what == "list" else ["c1", "c2"]
        return c.check("everything is listed", [w in line for w, line in zip(words, out.split("\n"))] == [True, True], lambda: f"{out!r}")
    if what == "pair":
        t = c.int("timeout", 1, 100) if c.pick("timeout given", [True, False]) else None
        o, _ = run(c, hub.hub_pair, Ctx(d), **({} if t is None else {"timeout": t}))
        c.cover("done")
        return c.check("pairing runs for the given time", o.ok and c.same(log, [("pair", (), {"timeout": 10 if t is None else t})]), lambda: f"{o} {log}")
    i = c.pick("child", ["B", "X"])
    o, _ = run(c, hub.hub_unpair, Ctx(d), device_id=i)
    if i == "X":
        return refused(c, o, log)
    want = [("unpair", (), {"device_id": "B"}), ("update", "d")]
    c.cover("done")
    c.check("exactly this child is unpaired and the children are read again", log == want, lambda: f"{log}")
    c.check("it fails if the child stays", o.ok if gone else failed(o), lambda: f"{o}")


class Consumable:
    def __init__(self, id):
        self.id, self.name, self.used, self.remaining = id, id.title(), dt.timedelta(hours=1), dt.timedelta(hours=2)


class Record:
    timestamp, clean_area, clean_time = "then", 5, dt.timedelta(minutes=5)


class Records:
    records = [Record(), Record()]
    last_clean = Record()


@contract("C39", "vacuums", funcs=("vacuum.records_group", "vacuum.records_list", "vacuum.consumables", "vacuum.reset_consumable"), covers=("done", "shown", "refused"))
def vacuums(c):
    log = []
    d = Dev("d", log)
    echoed = []
    c.patch(click, "echo", lambda text=None, **k: echoed.append(str(text)))
    has = c.pick("module", [True, False])
    what = c.pick("command", ["records", "list", "consumables", "reset"])
    cons = Mod(log, "reset_consumable", consumables={"filter": Consumable("filter"), "brush": Consumable("brush")})
    rec = Mod(log, parsed_data=Records(), total_clean_area=7, area_unit="m2", total_clean_time=dt.timedelta(hours=9), total_clean_count=3)
    if has or what == "reset":
        d.modules = {Module.Consumables: cons, Module.CleanRecords: rec}
    if what == "reset":
        i = c.pick("consumable", ["filter", "brush", "other"])
        o, _ = run(c, vacuum.reset_consumable, Ctx(d), consumable_id=i)
        if i == "other":
            return refused(c, o, log)
        c.cover("done")
        return c.check("exactly this consumable is reset", o.ok and log == [("reset_consumable", (i,), {})], lambda: f"{o} {log}")
    sub = c.pick("subcommand", [None, "reset"])
    o, _ = run(c, {"records": vacuum.records_group, "list": vacuum.records_list, "consumables": vacuum.consumables}[what], Ctx(d, sub=sub))
    if not has:
        return refused(c, o, log)
    c.cover("shown")
    c.check("reading does nothing", o.ok and not log, lambda: f"{o}")
    text = "\n".join(echoed)
    want = {"records": ["7 m2", "9:00:00", "3 times", "5 m2"], "list": ["then", "5 m2", "0:05:00"], "consumables": [] if sub else ["Filter", "filter", "Brush", "1:00:00", "2:00:00"]}[what]
    c.check("and shows everything", all(w in text for w in want) and len(echoed) == {"records": 3, "list": 2, "consumables": 0 if sub else 2}[what], lambda: f"{echoed}")


@contract("C39", "times", funcs=("time.time_get", "time.time_sync", "time.time_set", "time._get_timezone"), covers=("done", "shown", "refused", "asked"))
def times(c):
    from zoneinfo import ZoneInfo

    from kasa.iot import IotPlug

    from .devices import iot

    log, asked = [], []
    now = dt.datetime(2024, 1, 1)
    m = Mod(log, "set_time", time=now, timezone=dt.timezone.utc)
    legacy = c.pick("legacy", [True, False])
    if legacy:
        d, _ = iot(IotPlug)

        async def update(*a, **k):
            log.append(("update", "d"))

        d.update = update
        d._supported_modules = {Module.Time: m} if c.pick("module", [True, False]) else {}
    else:
        d = Dev("d", log)
        d.time, d.timezone = now, dt.timezone.utc
        if c.pick("module", [True, False]):
            d.modules = {Module.Time: m}
    agree = c.pick("agrees", [True, False])

    def confirm(text, abort=False, **k):
        asked.append(text)
        if not agree and abort:
            raise click.exceptions.Abort()
        return agree

    c.patch(click, "confirm", confirm)
    what = c.pick("command", ["get", "sync", "set"])
    if what == "get":
        if legacy:
            c.patch(type(d), "time", property(lambda s: now))
            c.patch(type(d), "timezone", property(lambda s: dt.timezone.utc))
        o, _ = run(c, time.time_get, Ctx(d))
        return shows(c, o, log, now)
    # name -> (same offset as here, what a legacy device makes of it)
    zones = {None: (True, None), "Europe/Amsterdam": (False, None), "Europe/Berlin": (False, "other"), "Africa/Abidjan": (True, "other"), "Europe/Nowhere": (None, None), "Asia/Famagusta": (False, "other"), "America/Bogota": (False, None), "America/Lima": (False, "other")}
    if legacy:
        zones["Antarctica/Troll"] = (False, "none")
    z = c.pick("zone", list(zones))
    skip = c.pick("skip confirm", [True, False])
    same, fits = zones[z]
    before = dt.datetime.now()
    if z == "Antarctica/Troll":
        same = not ZoneInfo(z).utcoffset(before)
    if what == "sync":
        o, _ = run(c, time.time_sync, Ctx(d), timezone=z, skip_confirm=skip)
    else:
        y, mo, da, h, mi, s = 2024, c.pick("month", [2, 12]), 29, c.pick("hour", [0, 23]), 59, c.pick("second", [None, 7])
        o, _ = run(c, time.time_set, Ctx(d), year=y, month=mo, day=da, hour=h, minute=mi, timezone=z, skip_confirm=skip, **({} if s is None else {"seconds": s}))
        want = dt.datetime(y, mo, da, h, mi, s or 0)
    after = dt.datetime.now()
    if not d.modules:
        c.cover("refused")
        return c.check("without a clock nothing is done", not log, lambda: f"{log}")
    if z is not None and same is None:
        return refused(c, o, log)
    ask = legacy and z is not None and not skip and fits == "other"
    if legacy and z is not None and not skip and fits == "none":
        return refused(c, o, log)
    c.check("only when a legacy device lacks the zone the user is asked", len(asked) == ask, lambda: f"{asked}")
    if ask:
        c.cover("asked")
        if not agree:
            return c.check("without consent nothing is done", not o.ok and not log, lambda: f"{o} {log}")
    if what == "sync" and not same:
        return refused(c, o, log)
    c.cover("done")
    c.check("the time is set once, then read again", o.ok and [x[0] for x in log] == ["set_time", "update"] and not log[0][2] and len(log[0][1]) == 1, lambda: f"{o} {log}")
    t = log[0][1][0]
    c.check("in the given zone", t.tzinfo is (None if z is None else t.tzinfo) and (z is None or (isinstance(t.tzinfo, ZoneInfo) and t.tzinfo.key == z)), lambda: f"{t}")
    t = t.replace(tzinfo=None)
    c.check("to the asked time", before <= t <= after if what == "sync" else t == want, lambda: f"{t}")


class Sub:
    """The context of an invoked command."""

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False


@contract("C39", "connecting", funcs=("main.cli", "main._legacy_type_to_class", "common.invoke_subcommand"), covers=("legacy", "smart", "alias", "discovered", "refused", "help"), opts={"max_paths": 20000})
def connecting(c):
    import logging
    import sys

    import kasa.iot as iot
    from kasa.deviceconfig import DeviceConfig

    log = []
    c.patch(logging, "basicConfig", lambda **k: None)
    c.patch(sys, "argv", ["kasa", "--help"] if c.pick("help", [False, True]) else ["kasa"])
    sub = c.pick("subcommand", [None, "discover", "on", "command", "raw-command"])
    host = c.pick("host", [None, "1.2.3.4"])
    alias = c.pick("alias", [None, "Lamp", ""] if host else [None, "Lamp"])
    target = c.pick("target", ["255.255.255.255", "10.0.0.255"])
    user, pw = c.pick("login", [(None, None), ("u", "p"), ("u", None), (None, "p"), ("", ""), ("", "p"), ("u", "")])
    typ = c.pick("type", [None, "plug", "switch", "bulb", "dimmer", "strip", "lightstrip", "smart", "camera"]) if (user, pw) in ((None, None), ("u", "p")) and alias != "" else None
    enc = c.pick("encryption", [None, "AES", "KLAP", "XOR"]) if typ in (None, "smart", "camera") else None
    extra = c.pick("settings", [0, 1])
    port, timeout, hash_, family, lv, https = [(None, 5, None, "SMART.TAPOPLUG", 2, False), (c.int("port", 1, 65535), c.int("timeout", 1, 100), "hash", "SMART.KASASWITCH", 3, True)][extra]
    found = Dev("found", log)
    invoked = []

    async def connect(*a, **k):
        log.append(("connect", a, k))
        return found

    c.patch(Device, "connect", staticmethod(connect))

    async def update(self, *a, **k):
        log.append(("update", type(self).__name__))

    async def disconnect(self, *a, **k):
        log.append(("disconnect", type(self).__name__))

    for k in (iot.IotDevice, iot.IotStrip):
        c.patch(k, "update", update)
        c.patch(k, "disconnect", disconnect)

    async def find(**k):
        log.append(("find", k))
        return found if c.pick("alias found", [True, False]) else None

    c.patch(discover, "find_dev_from_alias", find)
    ok = []

    async def make_context(name, args, parent=None, **k):
        log.append(("discover", args, parent is ctx))
        return Sub()

    async def invoke(ctx):
        if host is None:
            return {"5.6.7.8": found}
        ok.append(c.pick("discovered", [True, False]))
        return {"5.6.7.9": Dev("other", log), host: found} if ok[0] else {}

    c.patch(discover.discover, "make_context", make_context)
    c.patch(discover.discover, "invoke", invoke)
    ctx = Ctx(None, sub=sub)

    async def ctx_invoke(cmd, *a, **k):
        invoked.append((cmd, a, k))
        return "state"

    ctx.invoke = ctx_invoke
    o, _ = run(c, main.cli, ctx, host=host, alias=alias, target=target, username=user, password=pw, type=typ, encrypt_type=enc, port=port, timeout=timeout, credentials_hash=hash_,
               device_family=family, login_version=lv, https=https, json=True, verbose=False, debug=False, discovery_timeout=10)
    if sys.argv[1:]:
        c.cover("help")
        return c.check("showing the help does nothing", o.ok and not log and ctx.obj is not None)
    if target != "255.255.255.255" and host:
        return refused(c, o, log)
    if sub == "discover":
        return c.check("discovering connects to no device", o.ok and not log, lambda: f"{o} {log}")
    if alias is not None and host or bool(user) != bool(pw):
        return refused(c, o, log)
    if not host and not alias:
        if sub:
            return refused(c, o, log)
        c.check("without a device all are discovered", o.ok and c.same(o.value, {"5.6.7.8": found}) and log == [("discover", [], True)], lambda: f"{o} {log}")
        return
    creds = (user, pw) if user else None
    if typ in ("plug", "switch", "bulb", "dimmer", "strip", "lightstrip"):
        if not host:
            return
        c.cover("legacy")
        cls = {"plug": iot.IotPlug, "switch": iot.IotWallSwitch, "bulb": iot.IotBulb, "dimmer": iot.IotDimmer, "strip": iot.IotStrip, "lightstrip": iot.IotLightStrip}[typ]
        d = o.value if sub else ctx.obj
        c.check("a device of the given type is made", o.ok and type(d) is cls and d.host == host and c.same(d.config.port_override, port) and c.same(d.config.timeout, timeout), lambda: f"{o} {d}")
        steps = [] if sub in ("command", "raw-command") else [("update", cls.__name__)]
        end = ("disconnect", cls.__name__)
    elif typ or enc:
        if not host:
            return
        c.cover("smart")
        d = found
        c.check("the device is connected to", o.ok and log[:1] and log[0][0] == "connect" and not log[0][1] and list(log[0][2]) == ["config"], lambda: f"{o} {log}")
        cfg = log[0][2]["config"]
        ct = cfg.connection_type
        want = ("SMART.IPCAMERA", "AES", 2, True) if typ == "camera" else (family, enc or "KLAP", lv, https)
        c.check("with exactly the given settings", isinstance(cfg, DeviceConfig) and cfg.host == host and c.same(cfg.port_override, port) and c.same(cfg.timeout, timeout) and cfg.credentials_hash == hash_
                and (ct.device_family.value, ct.encryption_type.value, ct.login_version, ct.https) == want and ct.http_port is None, lambda: f"{cfg}")
        c.check("and credentials", (cfg.credentials and (cfg.credentials.username, cfg.credentials.password)) == creds, lambda: f"{cfg}")
        steps, end = log[:1], ("disconnect", "found")
    elif alias:
        c.cover("alias")
        k = log[0][1] if log and log[0][0] == "find" else {}
        c.check("the alias is searched for with the given credentials", k.get("alias") == alias and k.get("target") == target and (k.get("credentials") and (k["credentials"].username, k["credentials"].password)) == creds, lambda: f"{log}")
        if ctx.obj is None:
            return c.check("without such a device nothing more is done", len(log) == 1 and o.ok and o.value is None and not invoked, lambda: f"{o} {log}")
        d, steps, end = found, log[:1], ("disconnect", "found")
    else:
        c.cover("discovered")
        if not ok or not ok[0]:
            c.check("the host is discovered", log == [("discover", [], True)], lambda: f"{log}")
            return refused(c, o, log[1:])
        d, end = found, ("disconnect", "found")
        steps = [("discover", [], True)] + ([] if sub in ("command", "raw-command") else [("update", "found")])
    c.check("it is brought up to date unless it already is or the command needs none", log == steps, lambda: f"{log} {steps}")
    c.check("the command gets the device", ctx.obj is d)
    if sub is None and not (typ is None and not enc and host):
        c.check("without a command its state is shown", o.value == "state" and [x[0] for x in invoked] == [device.state], lambda: f"{o} {invoked}")
    else:
        c.check("nothing else is shown", o.value is d and not invoked, lambda: f"{o} {invoked}")
    del log[:]
    for cm in ctx.exits:
        if c.pick("command fails", [False, True]):
            e = ValueError("command")
            x = c.call(cm.__aexit__, ValueError, e, None)
            c.check("a command that fails is reported", x.exc is e or x.ok and not x.value, lambda: f"{x}")
        else:
            c.call(cm.__aexit__, None, None, None)
    c.check("in the end it is disconnected", log == [end], lambda: f"{log}")


@contract("C39", "raw", funcs=("main.cmd_command", "main.raw_command"), covers=("legacy", "smart", "refused"))
def raw(c):
    from kasa.exceptions import KasaException
    from kasa.iot import IotPlug

    from .devices import iot, smart

    kind = c.pick("kind", ["legacy", "smart", "other"])
    text = c.pick("parameters", [None, "{'a': 1}", "{\"b\": [1, None]}", "5", "{}", "0", "nonsense"])
    value = {None: None, "{'a': 1}": {"a": 1}, "{\"b\": [1, None]}": {"b": [1, None]}, "5": 5, "{}": {}, "0": 0}.get(text)
    answer = {"n": 7}
    if kind == "legacy":
        d, p = iot(IotPlug, lambda r: {m: {k: {"err_code": 0, **answer} for k in v} for m, v in r.items()})
    elif kind == "smart":
        d, p = smart(on_query=lambda r: {k: dict(answer) for k in r})
    else:
        d = Dev("d", [])
    old = c.pick("deprecated command", [True, False])
    module = "system" if old or kind == "legacy" else c.pick("module", [None, "system"])
    ctx = Ctx(d)
    kw = {"module": module, "command": "get_x", "parameters": text}
    if old:
        import logging

        c.patch(logging, "warning", lambda *a: None)
        ctx.params.update(kw)
        ctx.params.pop("json")
        ctx.parent = Ctx()
    o, _ = run(c, main.raw_command if old else main.cmd_command, ctx, **kw)
    sent = [] if kind == "other" else p.sent
    if text == "nonsense" or kind == "other":
        c.cover("refused")
        return c.check("nothing is sent", not o.ok and not sent and (text == "nonsense" or o.exactly(KasaException)), lambda: f"{o} {sent}")
    c.cover(kind)
    want = [{"system": {"get_x": value}}] if kind == "legacy" else [{"get_x": value}]
    c.check("exactly this command is sent", sent == want or kind == "legacy" and value is None and sent == [{"system": {"get_x": {}}}], lambda: f"{sent}")
    c.check("its answer is the result", o.ok and o.value == (answer if kind == "legacy" else {"get_x": answer}), lambda: f"{o}")


@contract("C39", "output", funcs=("common.echo", "common.error", "common.json_formatter_cb"), covers=("json", "text"))
def output(c):
    import io
    import sys

    from .devices import smart

    d, _ = smart(component_nego={"component_list": []})
    what = c.pick("what", ["echo", "error", "result"])
    js = c.pick("json", [True, False, None])
    c.cover("json" if js else "text")
    ctx = Ctx(parent=Ctx())
    ctx.parent.params = {} if js is None else {"json": js}
    at(c, ctx)
    out = io.StringIO()
    c.patch(sys, "stdout", out)
    if what != "result":
        o = c.call(common.echo if what == "echo" else common.error, "some text")
        c.patch(sys, "stdout", sys.__stdout__)
        c.check("texts are shown unless JSON is asked for", out.getvalue() == ("" if js else "some text\n"), lambda: f"{out.getvalue()!r}")
        return c.check("an error ends the command with code 1", o.ok if what == "echo" else o.exactly(SystemExit) and o.exc.code == 1, lambda: f"{o}")
    host = c.pick("host", [None, "h1", "h3"])
    name = c.pick("result", ["none", "number", "text", "list", "device", "found", "devices", "others"])
    other = dt.timedelta(hours=1)
    r, want = {"none": (None, None), "number": (5, 5), "text": ("x", "x"), "list": ([1, other], [1, "1:00:00"]), "device": (d, d.internal_state), "found": ({"h1": d}, {"h1": d.internal_state}), "devices": ({"h1": d, "h2": d}, {"h1": d.internal_state, "h2": d.internal_state}),
               "others": ({"h1": 1}, {"h1": 1})}[name]
    if name in ("found", "devices") and host == "h1":
        want = d.internal_state
    o = c.call(common.json_formatter_cb, r, json=js, host=host)
    c.patch(sys, "stdout", sys.__stdout__)
    text = out.getvalue()
    c.check("the result is printed as JSON only if asked for", o.ok and (json.loads(text) == want if js else not text), lambda: f"{o} {text!r}")


@contract("C39", "errors", funcs=("common.CatchAllExceptions",), covers=("error", "misuse", "exit", "fine"))
def errors(c):
    from kasa.exceptions import AuthenticationError, KasaException

    x = {"fine": None, "kasa": KasaException("k"), "auth": AuthenticationError("a"), "value": ValueError("v"), "misuse": click.BadOptionUsage("o", "m"), "exit 0": click.exceptions.Exit(0), "exit 3": click.exceptions.Exit(3), "abort": click.exceptions.Abort()}[
        c.pick("outcome", ["fine", "kasa", "auth", "value", "misuse", "exit 0", "exit 3", "abort"])]
    where = c.pick("where", ["parsing", "running"])
    debug = c.pick("debug", [None, "--debug", "-d", "-v", "--verbose"])

    made = object()

    async def make_context(self, info_name, args, parent=None, **k):
        if where == "parsing" and x:
            raise x
        return made

    async def invoke(self, ctx):
        if where == "running" and x:
            raise x
        return "result"

    c.patch(click.Group, "make_context", make_context)
    c.patch(click.Group, "invoke", invoke)
    at(c, Ctx())
    cls = type(main.cli)
    cmd = cls(name="x", callback=main.cli.callback)
    o = c.call(cmd.make_context, "kasa", [*([debug] if debug else []), "on"])
    if o.ok:
        c.check("the arguments are parsed", where == "running" or not x and o.value is made)
        o = c.call(cmd.invoke, Ctx())
    if x is None:
        c.cover("fine")
        return c.check("the result is that of the command", o.ok and o.value == "result", lambda: f"{o}")
    if isinstance(x, click.ClickException):
        c.cover("misuse")
        return c.check("misuse is reported by click", not o.ok and o.exc is x, lambda: f"{o}")
    if isinstance(x, click.exceptions.Exit):
        c.cover("exit")
        return c.check("the tool exits with the given code", o.exactly(SystemExit) and o.exc.code == x.exit_code, lambda: f"{o}")
    if isinstance(x, click.exceptions.Abort):
        return c.check("an aborted command ends", not o.ok, lambda: f"{o}")
    c.cover("error")
    c.check("an error exits with code 1, while debugging it is raised", (o.exc is x) if debug else o.exactly(SystemExit) and o.exc.code == 1, lambda: f"{o}")


TOP = {"discover": discover.discover, "device": device.device, "feature": feature.feature, "light": light.light, "wifi": wifi.wifi, "time": time.time, "schedule": schedule.schedule, "usage": usage.usage, "energy": usage.energy,
       "state": device.state, "on": device.on, "off": device.off, "toggle": device.toggle, "led": device.led, "alias": device.alias, "reboot": device.reboot, "update_credentials": device.update_credentials, "sysinfo": device.sysinfo,
       "presets": light.presets, "brightness": light.brightness, "hsv": light.hsv, "temperature": light.temperature, "effect": light.effect, "vacuum": vacuum.vacuum, "hub": hub.hub}


@contract("C39", "commands", funcs=("LazyGroup.get_command", "LazyGroup.list_commands"), covers=("top", "own", "unknown"))
def commands(c):
    n = c.pick("name", [*TOP, "command", "raw-command", "nothing"])
    o = c.call(main.cli.get_command, None, n)
    if n in TOP:
        c.cover("top")
        c.check("the command of that name is run", o.ok and o.value is TOP[n], lambda: f"{o}")
    elif n == "nothing":
        c.cover("unknown")
        return c.check("others do not exist", o.ok and o.value is None, lambda: f"{o}")
    else:
        c.cover("own")
        c.check("the command of that name is run", o.ok and o.value is {"command": main.cmd_command, "raw-command": main.raw_command}[n], lambda: f"{o}")
    o = c.call(main.cli.list_commands, None)
    c.check("it is listed", o.ok and n in o.value, lambda: f"{o}")


def wanted(log, kind, host, port, timeout, dt_, target, creds):
    """Was discovery asked for with exactly these settings?"""
    if len(log) != 1 or log[0][0] != kind:
        return False
    _, a, k = log[0]
    k = dict(k)
    if kind == "single" and a:
        k["host"], a = a[0], a[1:]
    got = k.get("credentials")
    exp = {"host": host, "port": port, "timeout": timeout, "discovery_timeout": dt_} if kind == "single" else {"target": target, "port": port, "timeout": timeout, "discovery_timeout": dt_}
    return not a and all(x in k for x in exp) and (got and (got.username, got.password)) == creds, {x: k.get(x) for x in exp}, exp


@contract("C39", "discovering", funcs=("discover.discover", "discover.detail", "discover.list", "discover.raw", "discover._discover", "discover._close_protocols"), covers=("one", "all", "none", "redacted", "auth", "unsupported"), opts={"max_paths": 20000})
def discovering(c):
    from kasa import AuthenticationError, UnsupportedDeviceError

    from .devices import smart

    log = []
    what = c.pick("command", ["discover", "detail", "list", "raw"])
    host = c.pick("host", [None, "1.2.3.4"])
    user, pw, port, timeout, dtime = c.pick("settings", [(None, None, None, 5, 10), ("u", None, 7777, 17, 10), (None, "p", None, 5, 23), ("u", "p", 7777, 17, 23)])
    root = Ctx(None, {"target": "10.0.0.255", "username": user, "password": pw, "discovery_timeout": dtime, "timeout": timeout, "host": host, "port": port, "json": False}, sub=c.pick("root command", [None, "discover", "on"]))
    parent = Ctx(None, parent=root)
    ctx = Ctx(None, parent=parent)
    fails = [c.pick(f"device {i}", ["ok", "auth", "timeout", "other"]) if what != "raw" else "ok" for i in range(c.pick("devices", [0, 1, 2]) if not host else c.pick("found", [0, 1]))]
    devs, states = {}, []
    for i, f in enumerate(fails):
        d, p = smart(component_nego={"component_list": []})
        d.host = f"1.2.3.{i}"
        d._discovery_info = None

        async def update(i=i, f=f, **k):
            log.append(("update", i))
            if f != "ok":
                raise {"auth": AuthenticationError("a"), "timeout": TimeoutError("t"), "other": ValueError("v")}[f]

        async def disconnect(i=i):
            log.append(("disconnect", i))

        d.update, d.disconnect = update, disconnect
        d.name = i
        devs[host or d.host] = d
    unsup = c.pick("unsupported", [False, True]) and what != "raw"
    packet = {"discovery_response": {"result": {"device_id": "SECRETID0123456789", "mac": "AA-BB-CC-DD-EE-FF", "owner": "OWNER0123456789012345"}}, "meta": {"ip": "1.2.3.4", "port": 20002}}
    legacy = {"discovery_response": {"system": {"get_sysinfo": {"deviceId": "SECRETID0123456789", "mac": "AA:BB:CC:DD:EE:FF", "latitude_i": 1234}}}, "meta": {"ip": "1.2.3.4", "port": port or 9999}}
    asked = []
    shown = []

    async def ctx_invoke(cmd, *a, **k):
        if cmd is device.state:
            shown.append(parent.obj.name)
            return None
        return await Ctx.invoke(ctx, cmd, *a, **k)

    parent.invoke = ctx_invoke

    async def events(k):
        """What discovery finds, told to whoever asked for it."""
        if k.get("on_discovered_raw"):
            for x in (packet, legacy):
                await tell(c, k["on_discovered_raw"], json.loads(json.dumps(x)))
        if unsup and k.get("on_unsupported"):
            for x in (UnsupportedDeviceError("u", discovery_result=None, host="9.9.9.9"), UnsupportedDeviceError("u", discovery_result={"some": "thing"}, host="9.9.9.8")):
                o = await tell(c, k["on_unsupported"], x)
                c.check("an unsupported device ends nothing", o.ok, lambda: f"{o}")
                c.cover("unsupported")
        for d in devs.values():
            if k.get("on_discovered"):
                o = await tell(c, k["on_discovered"], d)
                c.check("a device that fails ends nothing" if d.name is not None else "", o.ok or fails[d.name] in ("timeout", "other") and what in ("discover", "detail"), lambda: f"{o}")

    async def single(*a, **k):
        asked.append(("single", a, k))
        await events(k)
        return next(iter(devs.values()), None)

    async def several(*a, **k):
        asked.append(("all", a, k))
        await events(k)
        return devs

    from kasa import Discover

    c.patch(Discover, "discover_single", staticmethod(single))
    c.patch(Discover, "discover", staticmethod(several))
    redact = c.pick("redact", [True, False]) if what == "raw" else False
    cmd = {"discover": discover.discover, "detail": discover.detail, "list": discover.list, "raw": discover.raw}[what]
    if what == "discover":
        ctx.parent = root
        parent = ctx
        ctx.invoke2 = ctx.invoke

        async def group_invoke(cmd, *a, **k):
            return "detail" if cmd is discover.detail else None

        ctx.invoke = group_invoke
        sub = c.pick("subcommand", [None, "list"])
        ctx.invoked_subcommand = sub
        o, _ = run(c, cmd, ctx)
        c.check("without a command the devices are shown in detail", o.ok and o.value == (None if sub else "detail") and not asked, lambda: f"{o}")
        at(c, ctx)
        o = c.call(discover.discover._result_callback, devs)
        closing = root.invoked_subcommand in (None, "discover")
        return c.check("devices are disconnected if only discovery was asked for", o.ok and o.value is devs and log == ([("disconnect", i) for i in range(len(devs))] if closing else []), lambda: f"{o} {log}")
    o, out = run(c, cmd, ctx, **({"redact": redact} if what == "raw" else {}))
    creds = (user, pw) if user and pw else None
    w = wanted(asked, "single" if host else "all", host, port, timeout, dtime, "10.0.0.255", creds)
    c.check("discovery is asked for once with exactly the given settings", bool(w) and w[0] and c.same(w[1], w[2]), lambda: f"{asked}")
    direct = root.invoked_subcommand in (None, "discover")
    stops = host and what == "detail" and direct and fails and fails[0] in ("timeout", "other")
    if stops:
        return c.check("the host's failure is reported", not o.ok, lambda: f"{o}")
    c.cover("one" if host else "all")
    if not devs:
        c.cover("none")
    c.check("the devices found are the result", o.ok and (o.value == devs), lambda: f"{o} {devs}")
    if what == "raw":
        out = out.replace("\n", "")
        c.check("the raw answers are shown", not log and all(x in out for x in ("1.2.3.4", "20002", str(port or 9999))), lambda: f"{out}")
        secret = [x for x in ("SECRETID0123456789", "DD-EE-FF", "DD:EE:FF", "1234,") if x in out]
        if redact:
            c.cover("redacted")
            c.check("without the sensitive data", not secret and "AA" in out, lambda: f"{out}")
        else:
            c.check("as they are", len(secret) == 4 or len(secret) == 3, lambda: f"{out}")
        return
    if what == "list" or direct:
        c.check("every device is brought up to date once", log == [("update", i) for i in range(len(devs))], lambda: f"{log}")
    else:
        c.check("no device is asked", not log, lambda: f"{log}")
    if what == "list":
        for i, f in enumerate(fails):
            line = [x for x in re.split(r"(?<!\S)(?=(?:1\.2\.3|9\.9\.9)\.\d )", out) if x.startswith(f"1.2.3.{i} ")]
            c.check("every device is listed once with its outcome", len(line) == 1 and {"ok": "failed" not in line[0] and "Error" not in line[0], "auth": "Authentication failed" in line[0], "timeout": "Timed out" in line[0], "other": "Error" in line[0]}[f] and "SMART.TAPOPLUG" not in line[0][:15],
                    lambda: f"{out!r}")
            if f == "auth":
                c.cover("auth")
        if unsup:
            c.check("unsupported devices are listed", out.count("UNSUPPORTED") == 2, lambda: f"{out!r}")
    else:
        if direct:
            c.check("the state of every device that works is shown", shown == [i for i, f in enumerate(fails) if f == "ok"], lambda: f"{shown}")
        if not host:
            c.check("the devices are counted", f"Found {len(devs)} devices" in out and (not unsup or "Found 2 unsupported" in out) and ("auth" not in fails or not direct or f"Found {fails.count('auth')} devices that failed" in out), lambda: f"{out!r}")


class Finished:
    """A task that has ended."""

    def __init__(self, o):
        self.o = o

    def __await__(self):
        if self.o.exc is not None:
            raise self.o.exc
        return self.o.value
        yield


@contract("C39", "by_alias", funcs=("discover.find_dev_from_alias",), covers=("found", "not found", "failed", "later"))
def by_alias(c):
    if c.symbolic:
        c.patch(asyncio, "create_task", lambda co: Finished(c.call(lambda: co)))
    from kasa import Discover

    log = []
    alias = c.pick("alias", ["Lamp", "lamp", "LAMP"])
    attempts = c.pick("attempts", [None, 1, 2])
    devs = []
    kinds = [c.pick(f"device {i}", ["match", "other", "none", "fails"]) for i in range(c.pick("devices", [0, 1, 2]))]
    for i, k in enumerate(kinds):
        d = Dev(f"d{i}", log)
        d.host, d.alias = f"1.2.3.{i}", {"match": "lAmp", "other": "Lamp 2", "none": None, "fails": "Lamp"}[k]

        async def update(i=i, k=k):
            log.append(("update", i))
            if k == "fails":
                raise ValueError("v")

        class P:
            async def close(self, i=i):
                log.append(("close", i))

        d.update, d.protocol = update, P()
        devs.append(d)
    n = 3 if attempts is None else attempts
    first = c.pick("answers at", [1, 2, 3])
    broken = c.pick("discovery fails at", [None, 1, 2])
    calls = []

    async def several(**k):
        calls.append(k)
        if len(calls) == broken:
            raise OSError("no network")
        if len(calls) >= first:
            for d in devs:
                o = await tell(c, k["on_discovered"], d)
                c.check("a device that fails does not end the search", o.ok)
        return {}

    c.patch(Discover, "discover", staticmethod(several))
    at(c, Ctx())
    o = c.call(discover.find_dev_from_alias, alias=alias, credentials="creds", target="10.0.0.255", timeout=9, **({} if attempts is None else {"attempts": attempts}))
    hit = next((d for d, k in zip(devs, kinds) if k == "match"), None)
    bad = broken is not None and broken <= n and not (hit and first < broken)
    c.check("every search is one with the given settings", all(k.get("target") == "10.0.0.255" and k.get("timeout") == 9 and k.get("credentials") == "creds" for k in calls), lambda: f"{calls}")
    for i in range(len(devs)):
        mine = [x for x in log if x[1] == i]
        c.check("each device is asked at most once, and closed", mine in ([], [("update", i), ("close", i)]), lambda: f"{log}")
    if bad:
        c.cover("failed")
        return c.check("a search that fails is reported", o.exactly(OSError), lambda: f"{o}")
    if hit is None or first > n:
        c.cover("not found")
        c.check("without such a device there is none", o.ok and o.value is None, lambda: f"{o}")
        return c.check("after the given number of searches", len(calls) == n, lambda: f"{calls}")
    c.cover("found" if first == 1 else "later")
    c.check("the device of that name is found, ignoring case", o.ok and o.value is hit, lambda: f"{o}")
    c.check("and no further search is made", len(calls) == first, lambda: f"{calls}")


@contract("C39", "configuring", funcs=("discover.config",), covers=("connected", "not connected", "refused"))
def configuring(c):
    from kasa import Discover

    from .devices import smart

    host, port = c.pick("host", [None, "1.2.3.4"]), c.pick("port", [None, 7777])
    user, pw = c.pick("user", [None, "u"]), c.pick("password", [None, "p"])
    timeout = c.int("timeout", 1, 100)
    d, _ = smart()
    ok = c.pick("connects", [True, False])
    calls = []

    async def connect(*a, **k):
        calls.append((a, k))
        class A: pass
        class B: pass
        class D: pass
        for https in (True, False):
            o = c.call(k["on_attempt"], (A, B, D, https), https)
            c.check("attempts are told", o.ok, lambda: f"{o}")
        return d if ok else None

    c.patch(Discover, "try_connect_all", staticmethod(connect))
    root = Ctx(None, {"username": user, "password": pw, "timeout": timeout, "host": host, "port": port, "json": False})
    o, out = run(c, discover.config, Ctx(None, parent=root))
    if not host:
        return refused(c, o, calls)
    k = calls[0][1] if calls else {}
    got = k.get("credentials")
    c.check("the host is tried once with exactly the given settings", len(calls) == 1 and calls[0][0] == (host,) and k.get("port") == port and c.same(k.get("timeout"), timeout) and (got and (got.username, got.password)) == ((user, pw) if user and pw else None), lambda: f"{calls}")
    if not ok:
        c.cover("not connected")
        return c.check("failure is an error", failed(o), lambda: f"{o}")
    c.cover("connected")
    c.check("the device is given", o.ok and o.value == {host: d}, lambda: f"{o}")
    c.check("and how to connect to it", "--device-family" in out and d.config.connection_type.device_family.value in out and "--encrypt-type " + d.config.connection_type.encryption_type.value in out.replace("\\n", " ") and "--no-https" in out, lambda: f"{out!r}")


def parsed(path, args):
    """What click makes of the arguments of the command at this path."""
    cmd, ctx = main.cli, None
    for i, name in enumerate(path):
        if i:
            cmd = _now(cmd.get_command(ctx, name))
            assert cmd is not None, name
        ctx = click.Context(cmd, parent=ctx, info_name=name, obj=object())
    try:
        with_args = _now(cmd.make_context(path[-1], list(args), parent=ctx.parent, obj=object()))
        return dict(with_args.params)
    except click.UsageError:
        return "misuse"


def _now(co):
    if not inspect.isawaitable(co):
        return co
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("waits")


ROOT = {"host": None, "port": None, "alias": None, "target": "255.255.255.255", "verbose": False, "debug": False, "type": None, "json": False, "encrypt_type": None, "device_family": "SMART.TAPOPLUG", "login_version": 2, "https": False,
        "timeout": 5, "discovery_timeout": 10, "username": None, "password": None, "credentials_hash": None}
CHILD = {"child": None, "child_index": None}
B, T, H, R = ("cli", "brightness"), ("cli", "temperature"), ("cli", "hsv"), ("cli",)
PARSED = [
    (R, "state", {}), (R, "--host 1.2.3.4 on", {"host": "1.2.3.4"}), (R, "--port 80 state", {"port": 80}), (R, "--port x state", "misuse"), (R, "--alias Lamp on", {"alias": "Lamp"}), (R, "--target 10.0.0.255", {"target": "10.0.0.255"}),
    (R, "-v", {"verbose": True}), (R, "--verbose", {"verbose": True}), (R, "-d", {"debug": True}), (R, "--debug", {"debug": True}), (R, "--json", {"json": True}), (R, "--no-json", {}), (R, "--https", {"https": True}), (R, "--no-https", {}),
    *((R, f"--type {t}", {"type": t}) for t in ("plug", "switch", "bulb", "dimmer", "strip", "lightstrip", "smart", "camera")), (R, "--type SMART", {"type": "smart"}), (R, "--type unknown", "misuse"),
    *((R, f"{o} {t}", {"encrypt_type": t}) for o in ("-e", "--encrypt-type") for t in ("KLAP", "AES", "XOR")), (R, "-e klap", {"encrypt_type": "KLAP"}), (R, "-e DES", "misuse"),
    (R, "-df SMART.KASAPLUG", {"device_family": "SMART.KASAPLUG"}), (R, "--device-family SMART.KASAPLUG", {"device_family": "SMART.KASAPLUG"}), (R, "-lv 1", {"login_version": 1}), (R, "--login-version 1", {"login_version": 1}),
    (R, "--timeout 9", {"timeout": 9}), (R, "--timeout x", "misuse"), (R, "--discovery-timeout 3", {"discovery_timeout": 3}), (R, "--username u --password p", {"username": "u", "password": "p"}), (R, "--credentials-hash abc=", {"credentials_hash": "abc="}), (R, "--no-such-option", "misuse"),
    (B, "", {**CHILD, "brightness": None, "transition": None}), (B, "0", {"brightness": 0}), (B, "100", {"brightness": 100}), (B, "101", "misuse"), (B, "-- -1", "misuse"), (B, "x", "misuse"), (B, "50 --transition 300", {"brightness": 50, "transition": 300}), (B, "--transition x", "misuse"),
    (B, "50 --child Lamp", {"brightness": 50, "child": "Lamp"}), (B, "50 --child-index 2", {"brightness": 50, "child_index": 2}), (B, "50 --name Lamp", {"brightness": 50, "child": "Lamp"}),
    (B, "50 --child", {"brightness": 50, "child": common.OPTIONAL_VALUE_FLAG}), (B, "50 --index 1", {"brightness": 50, "child_index": 1}),
    (T, "", {**CHILD, "temperature": None, "transition": None}), (T, "2500", {"temperature": 2500}), (T, "9000", {"temperature": 9000}), (T, "2499", "misuse"), (T, "9001", "misuse"), (T, "3000 --transition 1", {"temperature": 3000, "transition": 1}),
    (H, "", {**CHILD, "h": None, "s": None, "v": None, "transition": None}), (H, "0 0 0", {"h": 0, "s": 0, "v": 0}), (H, "360 100 100", {"h": 360, "s": 100, "v": 100}), (H, "361 1 1", "misuse"), (H, "1 101 1", "misuse"), (H, "1 1 101", "misuse"), (H, "1 2 3 4", "misuse"),
    (("cli", "effect"), "", {"effect": None, **CHILD}), (("cli", "effect"), "Off", {"effect": "Off"}),
    *((("cli", x), "", {"transition": None, **CHILD}) for x in ("on", "off", "toggle")), *((("cli", x), "--transition 5", {"transition": 5}) for x in ("on", "off", "toggle")), *((("cli", "device", x), "--transition x", "misuse") for x in ("on", "off", "toggle")),
    (("cli", "led"), "", {"state": None}), (("cli", "led"), "on", {"state": True}), (("cli", "led"), "0", {"state": False}), (("cli", "led"), "off", {"state": False}), (("cli", "led"), "maybe", "misuse"),
    (("cli", "alias"), "", {"new_alias": None}), (("cli", "alias"), "new", {"new_alias": "new"}),
    (("cli", "reboot"), "", {"delay": 1}), (("cli", "reboot"), "--delay 9", {"delay": 9}), (("cli", "reboot"), "--delay x", "misuse"),
    (("cli", "device", "update-credentials"), "--username u --password p", {"username": "u", "password": "p"}),
    (("cli", "wifi", "join"), "net --keytype 3 --password p", {"ssid": "net", "keytype": "3", "password": "p"}), (("cli", "wifi", "join"), "", "misuse"),
    (("cli", "schedule", "list"), "", {"type": "schedule"}), (("cli", "schedule", "list"), "antitheft", {"type": "antitheft"}), (("cli", "schedule", "delete"), "--id 7", {"id": "7"}), (("cli", "schedule", "delete"), "", "misuse"),
    *(((("cli", x), a, e)) for x in ("energy", "usage") for a, e in (("", {"year": None, "month": None, "erase": False}), ("--year 2024", {"year": dt.datetime(2024, 1, 1)}), ("--month 2024-03", {"month": dt.datetime(2024, 3, 1)}), ("--erase", {"erase": True}), ("--year x", "misuse"), ("--month 2024-13", "misuse"))),
    (("cli", "time", "sync"), "", {"timezone": None}), (("cli", "time", "sync"), "--timezone Europe/Paris --skip-confirm", {"timezone": "Europe/Paris", "skip_confirm": True}), (("cli", "time", "sync"), "--timezone UTC", {"timezone": "UTC", "skip_confirm": False}),
    (("cli", "time", "set"), "2024 2 3 4 5", {"year": 2024, "month": 2, "day": 3, "hour": 4, "minute": 5, "seconds": 0, "timezone": None, "skip_confirm": False}), (("cli", "time", "set"), "2024 2 3 4 5 6 --skip-confirm", {"seconds": 6, "skip_confirm": True}),
    (("cli", "time", "set"), "2024 2 3 4", "misuse"), (("cli", "time", "set"), "2024 2 3 4 x", "misuse"), (("cli", "time", "set"), "2024 2 3 4 5 --timezone UTC", {"timezone": "UTC", "seconds": 0}),
    (("cli", "vacuum", "consumables", "reset"), "filter", {"consumable_id": "filter"}), (("cli", "vacuum", "consumables", "reset"), "", "misuse"),
    (("cli", "hub", "pair"), "", {"timeout": 10}), (("cli", "hub", "pair"), "--timeout 3", {"timeout": 3}), (("cli", "hub", "unpair"), "ID", {"device_id": "ID"}), (("cli", "hub", "unpair"), "", "misuse"),
    (("cli", "feature"), "", {"name": None, "value": None, **CHILD}), (("cli", "feature"), "led", {"name": "led", "value": None}), (("cli", "feature"), "led True", {"name": "led", "value": "True"}), (("cli", "feature"), "led True x", "misuse"), (("cli", "feature"), "led --child x", {"child": "x"}),
    (("cli", "presets", "modify"), "1", {"index": 1, "brightness": None, "hue": None, "saturation": None, "temperature": None}), (("cli", "presets", "modify"), "2 --brightness 3 --hue 4 --saturation 5 --temperature 6", {"index": 2, "brightness": 3, "hue": 4, "saturation": 5, "temperature": 6}),
    (("cli", "light", "presets", "modify"), "x", "misuse"), (("cli", "presets", "modify"), "", "misuse"),
    (("cli", "light", "turn-on-behavior"), "", {"type": None, "last": False, "preset": None}), (("cli", "light", "turn-on-behavior"), "--type soft --last", {"type": "soft", "last": True}), (("cli", "light", "turn-on-behavior"), "--type hard --preset 2", {"type": "hard", "preset": 2}),
    (("cli", "light", "turn-on-behavior"), "--type other", "misuse"), (("cli", "light", "turn-on-behavior"), "--type SOFT", {"type": "soft"}),
    (("cli", "raw-command"), "m c", {"module": "m", "command": "c", "parameters": None}), (("cli", "raw-command"), "m c {'a':1}", {"module": "m", "command": "c", "parameters": "{'a':1}"}), (("cli", "raw-command"), "m", "misuse"),
    (("cli", "command"), "c", {"module": None, "command": "c", "parameters": None, **CHILD}), (("cli", "command"), "--module m c {}", {"module": "m", "command": "c", "parameters": "{}"}), (("cli", "command"), "", "misuse"),
    (("cli", "discover", "raw"), "", {"redact": False}), (("cli", "discover", "raw"), "--redact", {"redact": True}), (("cli", "discover", "raw"), "--no-redact", {"redact": False}),
]


@contract("C39", "arguments", funcs=("main.cli",), covers=("taken", "misuse"), bounded="the listed command lines", runs=len(PARSED))
def arguments(c):
    path, args, expected = PARSED[c.choose_index("line", len(PARSED))]
    c.patch(os, "environ", {k: v for k, v in os.environ.items() if not k.startswith("KASA_")})
    got = parsed(path, args.split())
    if expected == "misuse":
        c.cover("misuse")
        return c.check("what is no such argument is refused", got == "misuse", lambda: f"{path} {args!r}: {got}")
    c.cover("taken")
    if got != "misuse" and "skip_confirm" in got:
        got["skip_confirm"] = bool(got["skip_confirm"])
    want = {**(ROOT if path == R else {}), **expected}
    c.check("the command is called with what was given, or the documented default", got != "misuse" and all(k in got and got[k] == v and type(got[k]) is type(v) for k, v in want.items()), lambda: f"{path} {args!r}: {got}")


ENVIRONMENT = [("HOST", "h", "host", "h"), ("PORT", "7", "port", 7), ("NAME", "n", "alias", "n"), ("TARGET", "t", "target", "t"), ("VERBOSE", "1", "verbose", True), ("DEBUG", "1", "debug", True), ("TYPE", "plug", "type", "plug"), ("JSON", "1", "json", True), ("ENCRYPT_TYPE", "AES", "encrypt_type", "AES"),
               ("DEVICE_FAMILY", "f", "device_family", "f"), ("LOGIN_VERSION", "1", "login_version", 1), ("HTTPS", "true", "https", True), ("TIMEOUT", "3", "timeout", 3), ("DISCOVERY_TIMEOUT", "4", "discovery_timeout", 4), ("USERNAME", "u", "username", "u"), ("PASSWORD", "p", "password", "p"), ("CREDENTIALS_HASH", "x", "credentials_hash", "x")]


@contract("C39", "environment", funcs=("main.cli",), bounded="one setting at a time", runs=len(ENVIRONMENT))
def environment(c):
    name, text, param, value = ENVIRONMENT[c.choose_index("setting", len(ENVIRONMENT))]
    c.patch(os, "environ", {**{k: v for k, v in os.environ.items() if not k.startswith("KASA_")}, f"KASA_{name}": text})
    got = parsed(R, [])
    c.check("a setting is taken from its environment variable", got == {**ROOT, param: value}, lambda: f"{name}: {got}")
