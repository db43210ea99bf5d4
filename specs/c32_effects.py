"""C32: effects and presets of lights: what is set, saved and reported (SMART and legacy)."""
import base64
import copy

from kasa.exceptions import KasaException
from kasa.interfaces.light import LightState
from kasa.iot import IotBulb, IotLightStrip
from kasa.iot import modules as I
from kasa.iot.effects import EFFECT_MAPPING_V1
from kasa.iot.modules.lighteffect import LightEffect as IotLightEffect
from kasa.smart import modules as M
from kasa.smart.effects import EFFECT_MAPPING
from pyvc.registry import contract, prop

from .c22_smartsetters import device
from .devices import iot

prop("C32", ["deserialization by mashumaro passes numbers and texts on unchanged"])


def b64(s):
    return base64.b64encode(s.encode()).decode()


# ---- bulb effects
NAMES = {"not edited": ("", None), "encoded": (b64("Evening"), "Evening"), "raw": ("My scene", "My scene"), "raw, looks encoded": ("Test", "Test"), "encoded umlaut": (b64("Grün"), "Grün")}


def bulb_effects(c):
    kinds = {i: c.pick(i + " name", list(NAMES)) for i in ("L1", "L2")}
    rules = [{"id": i, "scene_name": NAMES[k][0], "color_status_list": [[c.int(f"{i} brightness", 0, 100), 0, 0, 2700], [50, 321, 99, 0]]} for i, k in kinds.items()]
    names = {i: NAMES[k][1] or {"L1": "Party", "L2": "Relax"}[i] for i, k in kinds.items()}
    on = c.pick("enabled", [True, False])
    cur = c.pick("current", ["L1", "L2"])
    info = {"brightness": c.int("brightness", 1, 100), "dynamic_light_effect_enable": on, **({"dynamic_light_effect_id": cur} if on else {})}
    # the rules are asked for once a day only: the effect may have been activated or changed since
    seen = {"current_rule_id": cur, "enable": on}
    if on:
        seen = c.pick("rules read", [seen, {"enable": False}, {"current_rule_id": {"L1": "L2", "L2": "L1"}[cur], "enable": True}])
    d, p, b, m = device(c, info, {"brightness": 1}, (M.Brightness, M.LightEffect), get_dynamic_light_effect_rules={"rule_list": rules, **seen})
    return d, p, b, m, rules, names, on, cur


@contract("C32", "bulb_effects_read", funcs=("LightEffect._post_update_hook", "LightEffect.effect", "LightEffect.effect_list", "LightEffect.brightness", "LightEffect.is_active", "LightEffect.has_custom_effects", "LightEffect.set_custom_effect", "Brightness.brightness"), covers=("on", "off"))
def bulb_read(c):
    d, p, b, m, rules, names, on, cur = bulb_effects(c)
    before = copy.deepcopy(rules)
    o = c.call(m._post_update_hook)
    c.check("any name of the device is accepted", o.ok, lambda: f"{o}")
    c.cover("on" if on else "off")
    c.check("the effects have the names of the device", c.call(getattr, m, "effect_list").value == ["Off", *names.values()])
    c.check("the current one is reported", c.call(getattr, m, "effect").value == (names[cur] if on else "Off"))
    c.check("active when enabled", c.call(getattr, m, "is_active").value is on)
    c.check("the brightness is that of the current effect", c.same(c.call(getattr, m, "brightness").value, rules[0 if cur == "L1" else 1]["color_status_list"][0][0]))
    c.check("the brightness of a light with an active effect is the effect's", not on or c.same(c.call(getattr, b, "brightness").value, rules[0 if cur == "L1" else 1]["color_status_list"][0][0]))
    c.check("custom effects are not offered", c.call(getattr, m, "has_custom_effects").value is False and c.call(m.set_custom_effect, {}).exactly(NotImplementedError) and not p.sent)
    c.check("the data of the update is not modified", c.same(rules, before))


@contract("C32", "bulb_effects_set", funcs=("LightEffect.set_effect", "LightEffect.set_brightness", "LightEffect._get_effect_data"), covers=("on", "off", "refused", "brightness"))
def bulb_set(c):
    d, p, b, m, rules, names, on, cur = bulb_effects(c)
    assert c.call(m._post_update_hook).ok
    before = copy.deepcopy(rules)
    m._last_update_time = 1000.0

    def edit(i, v):
        r = rules[0 if i == "L1" else 1]
        return {"edit_dynamic_light_effect_rule": {**r, "scene_name": names[i], "color_status_list": [[v, *x[1:]] for x in r["color_status_list"]]}}

    what = c.pick("what", ["L1", "L2", "Off", "unknown", "brightness"])
    v = c.int("new brightness", 0, 100)
    if what == "brightness":
        c.cover("brightness")
        o = c.call(m.set_brightness, v)
        exp = [edit(cur, v)]
    elif what == "unknown":
        c.cover("refused")
        o = c.call(m.set_effect, c.pick("name", ["", "L1", "party"]))
        c.check("unknown effects are refused with nothing sent", isinstance(o.exc, ValueError) and not p.sent, lambda: f"{o} {p.sent}")
        return
    elif what == "Off":
        c.cover("off")
        o = c.call(m.set_effect, "Off")
        exp = [{"set_dynamic_light_effect_rule_enable": {"enable": False}}]
    else:
        if names["L1"] == names["L2"]:
            return
        c.cover("on")
        given = c.maybe("brightness given")
        o = c.call(m.set_effect, names[what], **({"brightness": v} if given else {}))
        now = rules[0 if cur == "L1" else 1]["color_status_list"][0][0] if on else d._info["brightness"]
        exp = [edit(what, v if given else now), {"set_dynamic_light_effect_rule_enable": {"enable": True, "id": what}}]
    c.check("the effect is set with the wanted brightness", o.ok and c.same(p.sent, exp), lambda: f"{o} {p.sent} instead of {exp}")
    c.check("the device's last answer is returned", o.value == p.answers[-1])
    c.check("the module is asked again in the next update", m._last_update_time is None)
    c.check("the data of the update is not modified", c.same(rules, before))


# ---- effects of light strips
def strip_state(c, last=("Aurora", "Flicker", "softAP", "Mine", "")):
    return {"enable": c.pick("enable", [0, 1]), "name": c.pick("name", list(last)), "brightness": c.int("effect brightness", 0, 100), "custom": c.pick("custom", [0, 1]), "id": "x"}


def smart_strip(c, eff):
    d, p, b, m = device(c, {"brightness": c.int("brightness", 1, 100), "lighting_effect": eff}, {"brightness": 1}, (M.Brightness, M.LightStripEffect))
    return d, p, m, EFFECT_MAPPING


def iot_strip(c, eff):
    d, p = iot(IotLightStrip, lambda r: {k: {n: {"err_code": 0} for n in v} for k, v in r.items()}, {"lighting_effect_state": eff, "length": 16})
    o = c.call(IotLightEffect, d, "smartlife.iot.lighting_effect")
    d._modules["LightEffect"] = o.value
    return d, p, o.value, EFFECT_MAPPING_V1


def sent_effects(p, smart):
    return [s["set_lighting_effect"] for s in p.sent] if smart else [s["smartlife.iot.lighting_effect"]["set_lighting_effect"] for s in p.sent]


@contract("C32", "strip_effects", funcs=("LightStripEffect.set_effect", "LightStripEffect.effect", "LightStripEffect.effect_list", "iot LightEffect.set_effect", "iot LightEffect.effect"), covers=("set", "off", "refused"))
def strip_effects(c):
    smart = c.pick("generation", [True, False])
    eff = strip_state(c)
    d, p, m, table = (smart_strip if smart else iot_strip)(c, eff)
    saved = copy.deepcopy(table)
    c.check("all effects of the table are offered, and off", c.call(getattr, m, "effect_list").value == ["Off", *table])
    c.check("custom effects can be set", c.call(getattr, m, "has_custom_effects").value is True)
    c.check("the former names give the state and the names of the effects", c.same(c.call(getattr, m, "_deprecated_effect").value, eff) and c.call(getattr, m, "_deprecated_effect_list").value in (list(table), [*table]))
    cur = c.call(getattr, m, "effect").value
    known = eff["name"] in table
    if smart:
        exp = "Off" if not eff["enable"] or not (known or eff["custom"]) else eff["name"] or "Custom"
        c.check("active only with an effect of the table", c.call(getattr, m, "is_active").value is bool(eff["enable"] and known))
    else:
        exp = "Off" if not eff["enable"] else eff["name"] or "Custom"
    c.check("the current effect is reported", cur == exp, lambda: f"{cur} {exp}")
    c.check("and its brightness", c.same(c.call(getattr, m, "brightness").value, eff["brightness"]))
    name = c.pick("new effect", ["Off", "Flicker", "Aurora", "Raindrop", "", "aurora", "Custom"])
    kw, over = {}, {}
    if c.maybe("brightness given"):
        kw["brightness"] = over["brightness"] = c.int("new brightness", 0, 100)
    if c.maybe("transition given"):
        kw["transition"] = over["transition"] = c.int("transition", 0, 10**5)
    o = c.call(m.set_effect, name, **kw)
    got = sent_effects(p, smart)
    if name == "Off":
        c.cover("off")
        base = table[cur] if cur in table else table["Aurora"]
        c.check("off disables the current effect", o.ok and c.same(got, [{**base, "enable": 0}]), lambda: f"{o} {got}")
    elif name in table:
        c.cover("set")
        if smart and "brightness" not in over:
            # the light's own brightness: that of an active effect, else that of the light
            active = eff["enable"] and known
            b = eff["brightness"] if active else d._info["brightness"]
            if c.force(b > 0):
                over["brightness"] = b
        c.check("the effect of the table with what was asked for", o.ok and c.same(got, [{**table[name], **over}]), lambda: f"{o} {got}")
    else:
        c.cover("refused")
        c.check("unknown effects are refused with nothing sent", isinstance(o.exc, ValueError) and not p.sent, lambda: f"{o} {p.sent}")
    c.check("the table is not modified", c.same(table, saved))


# ---- presets
class TheLight(M.Light):
    """The light module; notes the states set."""


FEATURES = {"color": ("hsv", "color_temp"), "white": ("color_temp",), "dimmable": ()}


def preset_states(c, kind):
    """(states as the device has them, [(device index, fields)] of the real presets)."""
    states, real = [], []
    for i in range(c.choose_index("presets", 4)):
        if c.maybe(f"{i} is an effect"):
            states.append({"lighting_effect": {"name": "Aurora"}})
            continue
        s = {"brightness": c.int(f"{i} brightness", 1, 100)}
        if kind != "dimmable":
            s["color_temp"] = c.int(f"{i} temp", 0, 9000)
        if kind == "color":
            s["hue"], s["saturation"] = c.int(f"{i} hue", 0, 360), c.int(f"{i} saturation", 0, 100)
        real.append((i, s))
        states.append(s)
    return states, real


def fields(s):
    return {k: getattr(s, k) for k in ("brightness", "hue", "saturation", "color_temp") if getattr(s, k) is not None}


@contract("C32", "smart_presets", funcs=("smart LightPreset._post_update_hook", "smart LightPreset.set_preset", "smart LightPreset.save_preset", "smart LightPreset.preset", "smart LightPreset.preset_list"), covers=("set", "saved", "refused", "brightness list", "not set"), opts={"max_paths": 20000})
def smart_presets(c):
    kind = c.pick("light", ["color", "white", "dimmable"])
    info = {"brightness": c.int("brightness", 0, 100)}
    classes = [M.Brightness]
    if kind != "dimmable":
        info["color_temp"] = c.int("temp", 0, 9000)
        info["color_temp_range"] = [2500, 9000]
        classes.append(M.ColorTemperature)
    if kind == "color":
        info["hue"], info["saturation"] = c.int("hue", 0, 360), c.int("saturation", 0, 100)
        classes.append(M.Color)
    blist = kind == "dimmable" and c.maybe("brightness list")
    if blist:
        values = [c.int(f"{i} brightness", 1, 100) for i in range(c.choose_index("presets", 4))]
        last = {"brightness": list(values)}
        real = [(i, {"brightness": v}) for i, v in enumerate(values)]
        word = "Brightness preset"
    else:
        states, real = preset_states(c, kind)
        last, word = {"states": states}, "Light preset"
    d, p, *ms = device(c, info, {"brightness": 1, "color_temperature": 1, "preset": 1}, (*classes, TheLight, M.LightPreset), get_preset_rules=last)
    light, m = ms[-2], ms[-1]
    d._modules["Light"] = light
    for x in ms:
        assert c.call(x._initialize_features).ok
    assert c.call(m._post_update_hook).ok
    names = [f"{word} {i + 1}" for i in range(len(real))]
    c.check("the presets are those of the device, effects left out", c.call(getattr, m, "preset_list").value == ["Not set", *names])
    got = c.call(getattr, m, "preset_states_list").value
    c.check("with their values", len(got) == len(real) and all(c.same(fields(g), s) for g, (_, s) in zip(got, real)))
    now = {k: info[k] for k in ("brightness", "color_temp", "hue", "saturation") if k in info}
    cur = next((n for n, (_, s) in zip(names, real) if all(c.force(c.eq(s[k], now[k])) for k in now)), "Not set")
    o = c.call(getattr, m, "preset")
    c.check("the current preset is the first one equal to the light's state", o.ok and o.value == cur, lambda: f"{o} {cur}")
    act = c.pick("action", ["set", "save", "unset", "unknown"])
    if act == "unknown" or not real and act != "unset":
        c.cover("refused")
        o = c.call(m.set_preset, "Light preset 9") if c.maybe("set an unknown one") else c.call(m.save_preset, c.pick("name", ["Light preset 9", "Not set"]), LightState(brightness=5))
        c.check("unknown presets are refused with nothing sent", isinstance(o.exc, ValueError) and not p.sent, lambda: f"{o} {p.sent}")
        return
    if act == "unset":
        c.cover("not set")
        o = c.call(m.set_preset, "Not set")
        exp = {"set_device_info": {"device_on": True, "brightness": 100, **({"hue": 0, "saturation": 0} if kind == "color" else {})}}
    else:
        k = c.choose_index("which", len(real))
        i, s = real[k]
        if act == "set":
            c.cover("set")
            o = c.call(m.set_preset, names[k])
            exp = {"set_device_info": {"device_on": True, **s}}
        else:
            c.cover("saved")
            new = {"brightness": c.int("new brightness", 1, 100)}
            if kind != "dimmable" and c.maybe("new temp"):
                new["color_temp"] = c.int("new color temp", 0, 9000)
            if kind == "color" and c.maybe("new color"):
                new["hue"], new["saturation"] = c.int("new hue", 0, 360), c.int("new saturation", 0, 100)
            o = c.call(m.save_preset, names[k], LightState(**new))
            if kind == "dimmable":
                c.cover("brightness list")
                exp = {"set_preset_rules": {"brightness": [new["brightness"] if n == k else x["brightness"] for n, (_, x) in enumerate(real)]}}
            else:
                exp = {"edit_preset_rules": {"index": i, "state": new}}
    c.check("exactly this preset is set or saved", o.ok and c.same(p.sent, [exp]), lambda: f"{o} {p.sent} instead of {exp}")


@contract("C32", "iot_presets", funcs=("iot LightPreset._post_update_hook", "iot LightPreset.set_preset", "iot LightPreset.save_preset", "iot LightPreset.preset_list", "iot LightPreset.preset", "iot LightPreset._deprecated_presets", "iot LightPreset._deprecated_save_preset"), covers=("set", "saved", "refused", "not set", "former names", "current"), opts={"max_paths": 20000})
def iot_presets(c):
    kind = c.pick("light", ["color", "white", "dimmable"])
    states, real = [], []
    for i in range(c.choose_index("presets", 4)):
        if c.maybe(f"{i} is an effect"):
            states.append({"index": i, "brightness": 50, "custom": 0, "id": "abc", "mode": 2})
            continue
        s = {"brightness": c.int(f"{i} brightness", 1, 100, pool=(1, 50, 100))}
        if kind == "color":
            s["hue"], s["saturation"] = c.int(f"{i} hue", 0, 360), c.int(f"{i} saturation", 0, 100)
        if kind != "dimmable":
            s["color_temp"] = c.int(f"{i} temp", 0, 9000)
        real.append((i, s))
        states.append({"index": i, **s})
    col = int(kind == "color")
    now = {"brightness": c.int("brightness", 1, 100, pool=(1, 50, 100)), "hue": c.int("hue", 0, 360), "saturation": c.int("saturation", 0, 100), "color_temp": c.int("temp", 0, 9000)}
    on = c.pick("on", [1, 0])
    sysinfo = {"preferred_state": states, "is_color": col, "is_dimmable": 1, "is_variable_color_temp": int(kind != "dimmable"), "model": "KL130", "light_state": {"on_off": 1, **now} if on else {"on_off": 0, "dft_on_state": now}}
    d, p = iot(IotBulb, lambda r: {k: {n: {"err_code": 0} for n in v} for k, v in r.items()}, sysinfo)
    d._supported_modules = d._modules
    d._modules["Light"] = light = c.call(I.Light, d, IotBulb.LIGHT_SERVICE).value
    m = c.call(I.LightPreset, d, IotBulb.LIGHT_SERVICE).value
    assert c.call(light._initialize_features).ok
    o = c.call(m._post_update_hook)
    assert o.ok, o
    names = [f"Light preset {i + 1}" for i, _ in real]
    c.check("the presets are those of the device, effects left out", c.call(getattr, m, "preset_list").value == ["Not set", *names])
    got = c.call(getattr, m, "preset_states_list").value
    c.check("with their values", len(got) == len(real) and all(c.same(fields(g), s) for g, (_, s) in zip(got, real)))
    act = c.pick("action", ["set", "save", "unset", "unknown", "current", "former"])
    if act == "current":
        cur = next((n for n, (_, s) in zip(names, real) if all(c.force(c.eq(s[k], now[k])) for k in s)), "Not set")
        if cur != "Not set":
            c.cover("current")
        o = c.call(getattr, m, "preset")
        c.check("the current preset is the first one equal to the light's state", o.ok and o.value == cur, lambda: f"{o} {cur}")
        return
    if act == "former":
        o = c.call(getattr, m, "_deprecated_presets")
        c.check("the former list of presets has their values and places", o.ok and [g.index for g in o.value] == [i for i, _ in real] and all(c.same(fields(g), s) for g, (_, s) in zip(o.value, real)), lambda: f"{o}")
        c.check("presets can be saved", c.call(getattr, m, "has_save_preset").value is True)
        if real and c.maybe("beyond the device's list"):
            o = c.call(m._deprecated_save_preset, I.lightpreset.IotLightPreset(index=len(states), brightness=5))
            c.check("a place the device does not have is refused", isinstance(o.exc, KasaException) and not p.sent, lambda: f"{o}")
        elif real:
            k = c.choose_index("which", len(real))
            g, new = o.value[k], c.int("new brightness", 1, 100)
            c.set(g, "brightness", new)
            o = c.call(m._deprecated_save_preset, g)
            c.cover("former names")
            exp = {IotBulb.LIGHT_SERVICE: {"set_preferred_state": {"index": real[k][0], **real[k][1], "brightness": new}}}
            c.check("a changed preset is saved in its place", o.ok and c.same(p.sent, [exp]), lambda: f"{o} {p.sent} instead of {exp}")
        elif not real:
            o = c.call(m._deprecated_save_preset, I.lightpreset.IotLightPreset(index=0, brightness=5))
            c.check("refused without presets", isinstance(o.exc, KasaException) and not p.sent, lambda: f"{o}")
        return
    if act == "unknown" or not real and act != "unset":
        c.cover("refused")
        o = c.call(m.set_preset, "Light preset 9") if not real or c.maybe("set an unknown one") else c.call(m.save_preset, c.pick("name", ["Light preset 9", "Not set"]), LightState(brightness=5))
        c.check("unknown presets are refused with nothing sent", isinstance(o.exc, ValueError) and not p.sent, lambda: f"{o} {p.sent}")
        return
    if act == "unset":
        c.cover("not set")
        o = c.call(m.set_preset, "Not set")
        exp = {"transition_light_state": {"on_off": 1, "ignore_default": 1, "brightness": 100, **({"hue": 0, "saturation": 0} if kind == "color" else {})}}
    else:
        k = c.choose_index("which", len(real))
        i, s = real[k]
        if act == "set":
            c.cover("set")
            o = c.call(m.set_preset, names[k])
            lamp = p.sent[0][IotBulb.LIGHT_SERVICE]["transition_light_state"] if p.sent else {}
            c.check("the values of the preset are set, and the lamp on", o.ok and len(p.sent) == 1 and c.same({**lamp}, {**lamp, **s, "on_off": 1, "ignore_default": 1}))
            c.check("and no others", set(lamp) - {"on_off", "ignore_default", "index"} == set(s), lambda: f"{lamp}")
            return
        c.cover("saved")
        new = {"brightness": c.int("new brightness", 1, 100), **({"hue": c.int("new hue", 0, 360)} if kind == "color" else {})}
        o = c.call(m.save_preset, names[k], LightState(**new))
        exp = {"set_preferred_state": {**new, "index": i}}
    c.check("exactly this preset is set or saved", o.ok and c.same(p.sent, [{IotBulb.LIGHT_SERVICE: exp}]), lambda: f"{o} {p.sent} instead of {exp}")
