"""C21: a setter of a legacy light, dimmer or sensor sends exactly the requested change, or refuses it."""
from datetime import timedelta

from kasa.exceptions import KasaException
from kasa.interfaces.light import HSV, LightState
from kasa.iot import IotBulb, IotDimmer, IotLightStrip, IotPlug
from kasa.iot import modules as I
from kasa.iot.iotdimmer import ActionType, ButtonAction, FadeType
from kasa.iot.modules.motion import Range
from pyvc.registry import contract, prop

from .devices import iot

prop("C21", ["deserialization by mashumaro passes numbers and texts on unchanged"])

RANGES = {"LB130(US)": (2500, 9000), "LB120(US)": (2700, 6500), "LB230": (2500, 9000), "KB130": (2500, 9000), "KL130(EU)": (2500, 9000), "KL125(US)": (2500, 6500), "KL135(US)": (2500, 9000),
          "KL120(EU)": (2700, 6500), "KL120(US)": (2700, 5000), "KL430(UN)": (2500, 9000), "XX1(US)": (2700, 5000), "KL50": (2700, 5000)}


def answers(r):
    return {k: {n: {"err_code": 0, "ok": 1} for n in v} for k, v in r.items()}


def light(c, cls, model="KL130(US)", color=True, temp=True, dim=True, effect=None, **state):
    on = state.pop("on", 1)
    vals = {"hue": 10, "saturation": 20, "color_temp": 3000, "brightness": 40, **state}
    ls = {"on_off": 1, **vals} if on else {"on_off": 0, "dft_on_state": vals}
    info = {"model": model, "is_color": int(color), "is_variable_color_temp": int(temp), "is_dimmable": int(dim), "light_state": ls, **({"lighting_effect_state": effect} if effect else {})}
    d, p = iot(cls, answers, info)
    d._supported_modules = d._modules
    return d, p


def add(c, d, name, cls, key):
    o = c.call(cls, d, key)
    assert o.ok, o
    d._modules[name] = o.value
    return o.value


def sent(c, o, p, service, method, params, ok=True, refusal=(ValueError, TypeError)):
    if not o.ok:
        c.cover("refused")
        c.check("only unacceptable values are refused", c.not_(ok), lambda: f"{o}")
        c.check("refused with nothing sent", isinstance(o.exc, refusal) and p.sent == [], lambda: f"{o} {p.sent}")
        return
    c.cover("sent")
    c.check("unacceptable values are not sent", ok, lambda: f"{p.sent}")
    exp = [{service: {method: params}}]
    c.check("exactly the requested change is sent, once", c.same(p.sent, exp), lambda: f"{p.sent} instead of {exp}")
    c.check("the device's answer is returned", o.value == {"ok": 1}, lambda: f"{o}")


SERVICE = {IotBulb: ("smartlife.iot.smartbulb.lightingservice", "transition_light_state"), IotLightStrip: ("smartlife.iot.lightStrip", "set_light_state")}


def number(c, name, ok_lo, ok_hi, allow_bad=True):
    """(value, acceptable)"""
    if allow_bad and c.maybe(name + " is no integer"):
        return c.pick(name + " bad", [1.5, "1"]), False
    v = c.int(name, pool=(ok_lo, ok_hi, ok_lo - 1, ok_hi + 1))
    return v, c.and_(v >= ok_lo, v <= ok_hi)


def transition(c):
    t = c.int("transition", 0, 10**6) if c.maybe("transition given") else None
    return t, ({"transition": t} if t is not None else {}), ({"transition_period": t} if t is not None else {})


@contract("C21", "bulb_hsv", funcs=("IotBulb._set_hsv", "IotBulb._set_light_state", "IotBulb._raise_for_invalid_brightness", "iot Light.set_hsv"), covers=("sent", "refused", "unsupported"))
def bulb_hsv(c):
    cls = c.pick("class", [IotBulb, IotLightStrip])
    color = c.pick("color", [True, False])
    d, p = light(c, cls, color=color)
    m = add(c, d, "Light", I.Light, cls.LIGHT_SERVICE)
    h, hok = number(c, "hue", 0, 360)
    s, sok = number(c, "saturation", 0, 100)
    given = c.maybe("value given")
    v, vok = number(c, "value", 0, 100) if given else (None, True)
    t, kw, tp = transition(c)
    o = c.call(m.set_hsv, h, s, v, **kw)
    if not color:
        c.cover("unsupported")
        c.check("a light without color refuses", isinstance(o.exc, KasaException) and p.sent == [])
        return
    ok = c.and_(*[x for x in (hok, sok, vok) if x is not True]) if False not in (hok, sok, vok) else False
    sent(c, o, p, *SERVICE[cls], {"hue": h, "saturation": s, "color_temp": 0, **({"brightness": v} if given else {}), **tp, "on_off": 1, "ignore_default": 1}, ok)


@contract("C21", "bulb_color_temp", funcs=("IotBulb._set_color_temp", "IotBulb._valid_temperature_range", "iot Light.set_color_temp"), covers=("sent", "refused", "unsupported"))
def bulb_temp(c):
    cls = c.pick("class", [IotBulb, IotLightStrip])
    model = c.pick("model", list(RANGES))
    temp = c.pick("temperature variable", [True, False])
    d, p = light(c, cls, model, temp=temp)
    m = add(c, d, "Light", I.Light, cls.LIGHT_SERVICE)
    lo, hi = RANGES[model]
    v = c.int("temp", pool=(lo, hi, lo - 1, hi + 1))
    b, bok = number(c, "brightness", 0, 100) if c.maybe("brightness given") else (None, True)
    t, kw, tp = transition(c)
    o = c.call(m.set_color_temp, v, **({"brightness": b} if b is not None else {}), **kw)
    if not temp:
        c.cover("unsupported")
        c.check("a light without color temperatures refuses", isinstance(o.exc, KasaException) and p.sent == [])
        return
    ok = False if bok is False else c.and_(v >= lo, v <= hi, bok)
    sent(c, o, p, *SERVICE[cls], {"color_temp": v, **({"brightness": b} if b is not None else {}), **tp, "on_off": 1, "ignore_default": 1}, ok)


@contract("C21", "bulb_switch", funcs=("IotBulb.turn_on", "IotBulb.turn_off", "IotBulb.is_on"), covers=("sent",))
def bulb_switch(c):
    cls = c.pick("class", [IotBulb, IotLightStrip])
    now = c.pick("now", [0, 1])
    d, p = light(c, cls, on=now)
    c.check("on as reported", c.call(getattr, d, "is_on").value is bool(now))
    on = c.pick("on", [True, False])
    t, kw, tp = transition(c)
    o = c.call(d.turn_on if on else d.turn_off, **kw)
    sent(c, o, p, *SERVICE[cls], {"on_off": int(on), **tp, "ignore_default": 0 if on else 1})


def drawn_state(c):
    hi = {"brightness": 100, "hue": 360, "saturation": 100, "color_temp": 9000}
    given = {k: c.int(k, 0, x) for k, x in hi.items() if c.maybe("given " + k)}
    return given, c.pick("light_on", [None, True, False])


@contract("C21", "bulb_set_state", funcs=("iot Light.set_state", "iot Light.set_brightness", "IotBulb._set_light_state"), covers=("sent", "refused"))
def bulb_state(c):
    """The given values and no others; brightness 0 turns off; turning on alone restores the device's own state."""
    cls = c.pick("class", [IotBulb, IotLightStrip])
    d, p = light(c, cls)
    m = add(c, d, "Light", I.Light, cls.LIGHT_SERVICE)
    t, kw, tp = transition(c)
    ok = True
    if c.maybe("set_brightness"):
        v, ok = number(c, "brightness", 0, 100)
        given, on = {"brightness": v}, None
        zero = ok is not False and c.force(c.eq(v, 0))
        o = c.call(m.set_brightness, v, **kw)
    else:
        given, on = drawn_state(c)
        zero = "brightness" in given and c.force(c.eq(given["brightness"], 0))
        o = c.call(m.set_state, LightState(light_on=on, **given, **kw))
    exp = {k: v for k, v in given.items() if not (zero and k == "brightness")}
    exp["on_off"] = 0 if zero or on is False else 1
    exp["ignore_default"] = 0 if exp["on_off"] and set(exp) == {"on_off"} else 1
    sent(c, o, p, *SERVICE[cls], {**exp, **tp}, ok)


@contract("C21", "bulb_reads", funcs=("IotBulb.light_state", "IotBulb._brightness", "IotBulb._hsv", "IotBulb._color_temp", "iot Light._post_update_hook", "iot Light.state"), covers=("on", "off", "effect", "unsupported"))
def bulb_reads(c):
    """What is reported is the device's state, when off the one it will turn on with; of an active effect its brightness."""
    cls = c.pick("class", [IotBulb, IotLightStrip])
    on = c.pick("on", [0, 1])
    v = {"hue": c.int("hue", 0, 360), "saturation": c.int("saturation", 0, 100), "color_temp": c.int("temp", 0, 9000), "brightness": c.int("brightness", 0, 100)}
    eff = c.pick("effect", [None, "active", "disabled"]) if cls is IotLightStrip else None
    e = {"enable": int(eff == "active"), "name": "Aurora", "brightness": c.int("effect brightness", 0, 100)} if eff else None
    color, temp, dim = (c.pick(x, [True, False]) for x in ("color", "variable", "dimmable"))
    d, p = light(c, cls, color=color, temp=temp, dim=dim, effect=e, on=on, **v)
    m = add(c, d, "Light", I.Light, cls.LIGHT_SERVICE)
    if eff:
        add(c, d, "LightEffect", I.LightEffect, "smartlife.iot.lighting_effect")
    c.cover("on" if on else "off")
    bright = e["brightness"] if eff == "active" else v["brightness"]
    if eff == "active":
        c.cover("effect")
    for name, have, exp in (("brightness", dim, bright), ("hsv", color, (v["hue"], v["saturation"], bright)), ("color_temp", temp, v["color_temp"])):
        if name == "hsv" and not dim:
            continue
        o = c.call(getattr, m, name)
        if not have:
            c.cover("unsupported")
            c.check(f"{name} of a light without it is not given", isinstance(o.exc, KasaException))
        else:
            c.check(f"{name} is the device's", o.ok and c.same(tuple(o.value) if name == "hsv" else o.value, exp), lambda: f"{name} {o}")
    c.check("of the documented type", not (color and dim) or isinstance(c.call(getattr, m, "hsv").value, HSV))
    if color and not dim:
        return
    o = c.call(m._post_update_hook)
    assert o.ok, o
    st = c.call(getattr, m, "state").value
    exp = {"light_on": bool(on)}
    if on:
        exp.update({"brightness": bright} if dim else {}, **({"hue": v["hue"], "saturation": v["saturation"]} if color else {}), **({"color_temp": v["color_temp"]} if temp else {}))
    c.check("so is the state", c.same({k: getattr(st, k) for k in ("light_on", "brightness", "hue", "saturation", "color_temp") if getattr(st, k) is not None}, exp), lambda: f"{st} {exp}")


DIMMER = "smartlife.iot.dimmer"


def dimmer(c, brightness=50, **info):
    d, p = iot(IotDimmer, answers, {"relay_state": c.pick("relay", [1, 0]), **({} if brightness is None else {"brightness": brightness}), **info})
    d._supported_modules = d._modules
    return d, p


@contract("C21", "dimmer_switch", funcs=("IotDimmer.turn_on", "IotDimmer.turn_off", "IotDimmer.set_dimmer_transition", "IotDimmer._brightness"), covers=("sent", "refused"))
def dimmer_switch(c):
    b = c.int("brightness", 0, 100)
    d, p = dimmer(c, b)
    c.check("the brightness is the device's", c.same(c.call(getattr, d, "_brightness").value, b))
    what = c.pick("what", ["on", "off", "transition"])
    given = what == "transition" or c.maybe("transition given")
    if what == "transition":
        b, bok = number(c, "new brightness", 0, 100)
    else:
        bok = True
    if given:
        bad = c.maybe("duration is no integer")
        t = c.pick("duration bad", [1.5, "1", ""]) if bad else c.int("duration", pool=(0, 1, -1, 1000))
        tok = False if bad else t >= 0
    if what == "transition":
        o = c.call(d.set_dimmer_transition, b, t)
    else:
        o = c.call(d.turn_on if what == "on" else d.turn_off, **({"transition": t} if given else {}))
    if not given:
        return sent(c, o, p, "system", "set_relay_state", {"state": int(what == "on")})
    ok = False if tok is False or bok is False else c.and_(tok, bok)
    if ok is not False and c.force(ok) and c.force(c.eq(t, 0)):
        t = 1
    sent(c, o, p, DIMMER, "set_dimmer_transition", {"brightness": 0 if what == "off" else b, "duration": t}, ok)


@contract("C21", "dimmer_light", funcs=("iot Light.set_state", "iot Light.set_brightness", "iot Light.brightness", "IotDimmer._set_brightness"), covers=("sent", "off", "on", "refused"))
def dimmer_light(c):
    """A dimmer's light: brightness 0 or off turns it off, a brightness dims to it, else it is turned on."""
    now = c.int("brightness now", 0, 100)
    d, p = dimmer(c, now)
    m = add(c, d, "Light", I.Light, "light")
    c.check("the brightness is the device's", c.same(c.call(getattr, m, "brightness").value, now))
    how = c.pick("how", ["set_state", "set_brightness", "device"])
    t = c.int("transition", 0, 10**6) if c.maybe("transition given") else None
    kw = {} if t is None else {"transition": t}
    v, ok = number(c, "brightness", 0, 100, how != "set_state") if how != "set_state" or c.maybe("brightness given") else (None, True)
    on = c.pick("light_on", [None, True, False]) if how == "set_state" else None
    num = ok is not False and v is not None
    zero = num and c.force(c.eq(v, 0))
    d_ms = 1 if t is None or c.force(c.eq(t, 0)) else t
    if how == "device":
        o = c.call(d._set_brightness, v, **kw)
        v = 1 if zero else v
        return sent(c, o, p, DIMMER, *(("set_brightness", {"brightness": v}) if t is None else ("set_dimmer_transition", {"brightness": v, "duration": d_ms})), ok)
    o = c.call(m.set_state, LightState(light_on=on, brightness=v, **kw)) if how == "set_state" else c.call(m.set_brightness, v, **kw)
    if zero or on is False:
        c.cover("off")
        exp = ("system", "set_relay_state", {"state": 0}) if t is None else (DIMMER, "set_dimmer_transition", {"brightness": 0, "duration": d_ms})
        return sent(c, o, p, *exp)
    if v is not None:
        return sent(c, o, p, DIMMER, "set_dimmer_transition", {"brightness": v, "duration": d_ms}, ok)
    c.cover("on")
    sent(c, o, p, *(("system", "set_relay_state", {"state": 1}) if t is None else (DIMMER, "set_dimmer_transition", {"brightness": now, "duration": d_ms})))


@contract("C21", "dimmer_buttons", funcs=("IotDimmer.set_button_action", "IotDimmer.set_fade_time"), covers=("sent",))
def dimmer_buttons(c):
    d, p = dimmer(c)
    if c.maybe("fade"):
        f, name = c.pick("fade type", [(FadeType.FadeOn, "fade_on"), (FadeType.FadeOff, "fade_off")])
        v = c.int("time", 0, 10**6)
        return sent(c, c.call(d.set_fade_time, f, v), p, DIMMER, f"set_{name}_time", {"fadeTime": v})
    if c.maybe("behaviors"):
        n = c.int("value", 0, 10**6)
        p.on_query = lambda r: {DIMMER: {"get_default_behavior": {"err_code": 0, "long_press": n}}}
        o = c.call(d.get_behaviors)
        c.check("the behaviors are asked for", p.sent in ([{DIMMER: {"get_default_behavior": {}}}], [{DIMMER: {"get_default_behavior": None}}]))
        c.check("and given as they are", o.ok and c.same(o.value, {"long_press": n}))
        return
    t, name = c.pick("button", [(ActionType.DoubleClick, "double_click_action"), (ActionType.LongPress, "long_press_action")])
    a, mode = c.pick("action", [(ButtonAction.NoAction, "none"), (ButtonAction.Instant, "instant_on_off"), (ButtonAction.Gentle, "gentle_on_off"), (ButtonAction.Preset, "customize_preset")])
    i = c.int("index", 0, 3) if c.maybe("index given") else None
    sent(c, c.call(d.set_button_action, t, a, *([i] if i is not None else [])), p, DIMMER, "set_" + name, {"mode": mode, **({"index": i} if i is not None else {})})


def module(c, cls, key, **last):
    d, p = iot(IotDimmer, answers, {"led_off": c.pick("led_off", [0, 1])}, **last)
    d._supported_modules = d._modules
    return d, p, add(c, d, "m", cls, key)


TIMES = {"fade_off_time": ("fadeOffTime", "set_fade_off_time", "fadeTime", 10_000), "fade_on_time": ("fadeOnTime", "set_fade_on_time", "fadeTime", 10_000),
         "gentle_off_time": ("gentleOffTime", "set_gentle_off_time", "duration", 120_000), "gentle_on_time": ("gentleOnTime", "set_gentle_on_time", "duration", 120_000)}
NUMBERS = {"threshold_min": ("minThreshold", "calibrate_brightness", "minThreshold", 0, 51), "ramp_rate": ("rampRate", "set_button_ramp_rate", "rampRate", 10, 50)}

for attr, (key, method, param, hi) in TIMES.items():
    def driver(c, attr=attr, key=key, method=method, param=param, hi=hi):
        cur = c.int("now", 0, 200_000)
        d, p, m = module(c, I.Dimmer, DIMMER, **{DIMMER: {"get_dimmer_parameters": {"fadeOnTime": -1, "fadeOffTime": -2, "gentleOnTime": -3, "gentleOffTime": -4, key: cur}}})
        o = c.call(getattr, m, attr)
        c.check("the time is the device's", o.ok and c.same(o.value, c.call(timedelta, milliseconds=cur).value), lambda: f"{o}")
        v = c.int("new", -(10**9), 10**9, pool=(0, 1, 999, hi - 1, hi, hi + 1, -1))
        o = c.call(getattr(m, "set_" + attr), c.call(timedelta, milliseconds=v).value if c.maybe("as timedelta") else v)
        sent(c, o, p, DIMMER, method, {param: v}, c.and_(v >= 0, v <= hi), (KasaException, ValueError))

    contract("C21", "dimmer_" + attr, funcs=("Dimmer.set_" + attr, "Dimmer." + attr), covers=("sent", "refused"))(driver)

for attr, (key, method, param, lo, hi) in NUMBERS.items():
    def driver(c, attr=attr, key=key, method=method, param=param, lo=lo, hi=hi):
        cur = c.int("now", 0, 100)
        d, p, m = module(c, I.Dimmer, DIMMER, **{DIMMER: {"get_dimmer_parameters": {"minThreshold": -1, "rampRate": -2, key: cur}}})
        c.check("the value is the device's", c.same(c.call(getattr, m, attr).value, cur))
        v, ok = number(c, "new", lo, hi, False)
        sent(c, c.call(getattr(m, "set_" + attr), v), p, DIMMER, method, {param: v}, ok, (KasaException, ValueError))

    contract("C21", "dimmer_" + attr, funcs=("Dimmer.set_" + attr, "Dimmer." + attr), covers=("sent", "refused"))(driver)


@contract("C21", "small_modules", funcs=("iot Led.set_led", "iot Led.led", "AmbientLight.set_enabled", "AmbientLight.set_brightness_limit", "RuleModule.set_enabled", "RuleModule.delete_all_rules", "iot Cloud.connect", "iot Cloud.set_server"), covers=("sent",))
def small(c):
    what = c.pick("what", ["led", "light enabled", "light limit", "rules enabled", "delete rules", "alias", "mac", "reboot", "reset"])
    on = c.pick("on", [True, False])
    v = c.int("value", 0, 4000)
    LAS = "smartlife.iot.LAS"
    d, p, led = module(c, I.Led, "system", **{LAS: {"get_config": {"devs": [{"enable": int(on), "level_array": []}]}, "get_current_brt": {"value": v}}})
    off = d._last_update["system"]["get_sysinfo"]["led_off"]
    c.check("the LED is as reported", c.call(getattr, led, "led").value is (not off) and c.call(getattr, led, "mode").value == ("never" if off else "always"))
    las, sched = add(c, d, "las", I.AmbientLight, LAS), add(c, d, "s", I.Schedule, "schedule")
    c.check("so is the ambient light", c.call(getattr, las, "enabled").value is on and c.same(c.call(getattr, las, "ambientlight_brightness").value, v))
    f, exp = {
        "led": (lambda: c.call(led.set_led, on), ("system", "set_led_off", {"off": int(not on)})),
        "light enabled": (lambda: c.call(las.set_enabled, on), (LAS, "set_enable", {"enable": int(on)})),
        "light limit": (lambda: c.call(las.set_brightness_limit, v), (LAS, "set_brt_level", {"index": 0, "value": v})),
        "rules enabled": (lambda: c.call(sched.set_enabled, on), ("schedule", "set_overall_enable", {"enable": on})),
        "delete rules": (lambda: c.call(sched.delete_all_rules), ("schedule", "delete_all_rules", {})),
        "alias": (lambda: c.call(d.set_alias, "name"), ("system", "set_dev_alias", {"alias": "name"})),
        "mac": (lambda: c.call(d.set_mac, "M"), ("system", "set_mac_addr", {"mac": "M"})),
        "reboot": (lambda: c.call(d.reboot, v), ("system", "reboot", {"delay": v})),
        "reset": (lambda: c.call(d.factory_reset), ("system", "reset", {})),
    }[what]
    o = f()
    if what in ("reboot", "reset"):
        c.check("exactly this command is sent", o.ok and c.same(p.sent, [{exp[0]: {exp[1]: exp[2]}}]), lambda: f"{o} {p.sent}")
    else:
        sent(c, o, p, *exp)


PIR = "smartlife.iot.PIR"


@contract("C21", "motion", funcs=("Motion.set_enabled", "Motion.set_range", "Motion._set_range_from_str", "Motion._parse_range_value", "Motion.set_threshold", "Motion.set_inactivity_timeout", "Motion.get_range_threshold", "Motion.ranges"), covers=("sent", "refused"))
def motion(c):
    array = c.pick("array", [[80, 50, 20, 0], [80, 50, 20]])
    cold = c.int("cold time", 0, 10**7)
    en = c.pick("enabled", [0, 1])
    idx = c.pick("trigger", [0, 1, 2, 3][: len(array)])
    d, p, m = module(c, I.Motion, PIR, **{PIR: {"get_config": {"enable": en, "version": "1.0", "trigger_index": idx, "cold_time": cold, "min_adc": 0, "max_adc": 4095, "array": list(array)}, "get_adc_value": {"value": 2107}}})
    c.check("the settings are the device's", c.call(getattr, m, "enabled").value is bool(en) and c.same(c.call(getattr, m, "inactivity_timeout").value, cold) and c.call(getattr, m, "range").value is Range(idx) and c.call(getattr, m, "threshold").value == array[idx])
    c.check("the ranges are those of the device", c.call(getattr, m, "ranges").value == ["Far", "Mid", "Near", "Custom"][: len(array)])
    o = c.call(m.get_range_threshold, Range.Custom)
    c.check("thresholds of ranges the device lacks are refused", o.ok and o.value == 0 if len(array) == 4 else isinstance(o.exc, KasaException))
    v = c.int("value", 0, 10**6)
    what = c.pick("what", ["enabled", "range", "text", "threshold", "timeout"])
    on = c.pick("on", [True, False])
    if what == "enabled":
        return sent(c, c.call(m.set_enabled, on), p, PIR, "set_enable", {"enable": int(on)})
    if what == "range":
        r, i = c.pick("range", [(Range.Far, 0), (Range.Mid, 1), (Range.Near, 2), (Range.Custom, 3)])
        return sent(c, c.call(m.set_range, r), p, PIR, "set_trigger_sens", {"index": i})
    if what == "text":
        t, i = c.pick("text", [("Far", 0), (" mid ", 1), ("NEAR", 2), ("custom", 3), ("nearer", None), ("", None)])
        return sent(c, c.call(m._set_range_from_str, t), p, PIR, "set_trigger_sens", {"index": i}, i is not None, KasaException)
    if what == "threshold":
        return sent(c, c.call(m.set_threshold, v), p, PIR, "set_trigger_sens", {"index": 3, "value": v})
    sent(c, c.call(m.set_inactivity_timeout, v), p, PIR, "set_cold_time", {"cold_time": v})


@contract("C21", "motion_state", funcs=("PIRStatus.pir_percent", "PIRStatus.pir_triggered", "PIRStatus.pir_value", "PIRConfig.adc_mid", "Motion.pir_state"), covers=("triggered", "quiet"))
def motion_state(c):
    """The signal is the distance from the middle of the scale in percent of it; it triggers beyond the threshold, when enabled."""
    en = c.pick("enabled", [0, 1])
    adc = c.int("adc", 0, 4095, pool=(0, 2047, 2048, 4095))
    thr = c.int("threshold", 0, 100)
    d, p, m = module(c, I.Motion, PIR, **{PIR: {"get_config": {"enable": en, "trigger_index": 3, "cold_time": 1, "min_adc": 0, "max_adc": 4095, "array": [80, 50, 20, thr]}, "get_adc_value": {"value": adc}}})
    val = c.call(getattr, m, "pir_value")
    c.check("the value is the distance from the middle", val.ok and c.same(val.value, 2047 - adc))
    o = c.call(getattr, m, "pir_triggered")
    c.cover("triggered" if o.value else "quiet")
    dist = 2047 - adc
    beyond = c.or_(c.and_(dist < 0, (adc - 2047) * 100 > (100 - thr) * 2047), c.and_(dist >= 0, dist * 100 > (100 - thr) * 2048))
    c.check("triggered exactly beyond the threshold, when enabled", o.ok and (c.and_(bool(en), beyond) if o.value else c.not_(c.and_(bool(en), beyond))))


@contract("C21", "motion_numbers", funcs=("Motion.adc_min", "Motion.adc_max", "Motion.adc_mid", "Motion.adc_value", "Motion.pir_percent", "Motion.get_pir_state", "PIRStatus.pir_percent"), covers=("below", "above"))
def motion_numbers(c):
    """The limits and the value are the device's; the percentage is the distance from the middle, of the part of the scale below or above it."""
    adc = c.int("adc", 0, 4095, pool=(0, 2046, 2047, 2048, 4095))
    hi = c.pick("scale", [4095, 4096, 2, 1023])
    c.assume(adc <= hi)
    cfg = {"enable": 1, "trigger_index": 2, "cold_time": 1, "min_adc": 0, "max_adc": hi, "array": [80, 50, 20]}
    d, p, m = module(c, I.Motion, PIR, **{PIR: {"get_config": cfg, "get_adc_value": {"value": adc}}})
    mid = hi // 2
    for name, exp in (("adc_min", 0), ("adc_max", hi), ("adc_mid", mid), ("adc_value", adc)):
        o = c.call(getattr, m, name)
        c.check(f"{name} is the device's", o.ok and c.same(o.value, exp), lambda: f"{name} {o} {exp}")
    o = c.call(getattr, m, "pir_percent")
    part = mid if c.force(adc > mid) else hi - mid
    c.cover("above" if c.force(adc > mid) else "below")
    off = o.value * part - (mid - adc) * 100
    c.check("the percentage is that of its part of the scale", o.ok and c.and_(off < 1e-6, off > -1e-6), lambda: f"{o} {adc} {hi}")
    new = c.int("new adc", 0, 4095)
    p.on_query = lambda r: {PIR: {"get_adc_value": {"err_code": 0, "value": new}}}
    o = c.call(m.get_pir_state)
    c.check("the value is asked for", o.ok and p.sent == [{PIR: {"get_adc_value": {}}}], lambda: f"{o} {p.sent}")
    c.check("and the state is the new one", c.same(o.value.adc_value, new) and o.value.pir_config.adc_max == hi and o.value.pir_config.range is Range.Near and o.value.pir_config.threshold == 20)
    c.check("which is kept", c.same(c.call(getattr, m, "adc_value").value, new))


def behavior(c, name):
    """A turn-on behavior as the device has it."""
    b = {"mode": c.pick(name + " mode", ["last_status", "customize_preset", "circadian"])}
    for k in ("index", "brightness", "color_temp", "hue", "saturation"):
        if k == "index" and c.maybe(name + " with preset"):
            b[k] = c.int(f"{name} {k}", 0, 9)
        elif k != "index" and name == "soft" and b["mode"] == "last_status":
            b[k] = c.int(f"{name} {k}", 0, 9000)
    return b


@contract("C21", "bulb_commands", funcs=("IotBulb.set_alias", "IotBulb.get_light_details", "IotBulb.get_light_state", "IotBulb.get_turn_on_behavior", "IotBulb.set_turn_on_behavior"), covers=("behavior changed", "behavior kept", "details"))
def bulb_commands(c):
    cls = c.pick("class", [IotBulb, IotLightStrip])
    d, p = light(c, cls)
    what = c.pick("what", ["alias", "details", "state", "behavior"])
    if what == "alias":
        return sent(c, c.call(d.set_alias, "name"), p, "smartlife.iot.common.system", "set_dev_alias", {"alias": "name"})
    if cls is IotLightStrip:
        d._sys_info["length"] = c.int("length", 0, 1000)
        c.check("the length of a strip is the device's", c.same(c.call(getattr, d, "length").value, d._sys_info["length"]))
    svc = cls.LIGHT_SERVICE
    if what in ("details", "state"):
        c.cover("details")
        n = c.int("value", 0, 10**6)
        method = "get_light_" + what
        p.on_query = lambda r: {svc: {method: {"err_code": 0, "value": n}}}
        o = c.call(getattr(d, method))
        c.check("exactly this is asked for", p.sent in ([{svc: {method: {}}}], [{svc: {method: None}}]), lambda: f"{p.sent}")
        c.check("and the answer given", o.ok and c.same(o.value, {"value": n}), lambda: f"{o}")
        return
    have = {"soft_on": behavior(c, "soft"), "hard_on": behavior(c, "hard")}
    p.on_query = lambda r: {svc: {"get_default_behavior": {"err_code": 0, **have}}}
    o = c.call(d.get_turn_on_behavior)
    c.check("the behaviors are asked for", o.ok and p.sent in ([{svc: {"get_default_behavior": {}}}], [{svc: {"get_default_behavior": None}}]), lambda: f"{o} {p.sent}")
    b = o.value
    for part, name in ((b.soft, "soft_on"), (b.hard, "hard_on")):
        got = {"mode": str(part.mode.value), **{k: x for k, x in (("index", part.preset), ("brightness", part.brightness), ("color_temp", part.color_temp), ("hue", part.hue), ("saturation", part.saturation)) if x is not None}}
        c.check("the behaviors are the device's", c.same(got, have[name]), lambda: f"{got} {have[name]}")
    change = c.pick("change", [None, "soft", "hard"])
    exp = {k: dict(v) for k, v in have.items()}
    if change:
        c.cover("behavior changed")
        v = c.int("new preset", 0, 9) if c.pick("to", ["preset", "last state"]) == "preset" else None
        c.set(getattr(b, change), "preset", v)
        e = exp[change + "_on"]
        e.pop("index", None)
        e.update({"mode": "last_status"} if v is None else {"mode": "customize_preset", "index": v})
    else:
        c.cover("behavior kept")
    del p.sent[:]
    p.on_query = answers
    sent(c, c.call(d.set_turn_on_behavior, b), p, svc, "set_default_behavior", exp)


@contract("C21", "light_state_by_dict", funcs=("iot Light._deprecated_set_light_state", "IotBulb._set_light_state"), covers=("sent", "refused", "unsupported"))
def light_state_by_dict(c):
    """The former set_light_state: the given fields and no others, with the documented defaults."""
    cls = c.pick("class", [IotBulb, IotLightStrip, IotDimmer])
    state = {k: c.int(k, 0, 360) for k in ("hue", "color_temp") if c.maybe("given " + k)}
    ok = True
    if c.maybe("brightness given"):
        state["brightness"], ok = number(c, "brightness", 0, 100)
    if c.maybe("on_off given"):
        state["on_off"] = c.pick("on_off", [0, 1])
    t, kw, tp = transition(c)
    if cls is IotDimmer:
        d, p = dimmer(c)
        m = add(c, d, "Light", I.Light, "light")
        o = c.call(m._deprecated_set_light_state, state, **kw)
        c.cover("unsupported")
        c.check("a dimmer refuses with nothing sent", isinstance(o.exc, KasaException) and p.sent == [], lambda: f"{o}")
        return
    d, p = light(c, cls)
    m = add(c, d, "Light", I.Light, cls.LIGHT_SERVICE)
    saved = dict(state)
    o = c.call(m._deprecated_set_light_state, state, **kw)
    exp = {"on_off": 1, **saved}
    restore = exp["on_off"] == 1 and set(exp) == {"on_off"}
    sent(c, o, p, *SERVICE[cls], {**exp, **tp, "ignore_default": 0 if restore else 1}, ok)
    c.check("the given state is not modified", c.same(state, saved))


@contract("C21", "rules_and_cloud", funcs=("RuleModule.rules", "RuleModule.delete_rule", "iot Cloud.info", "iot Cloud.is_connected", "iot Cloud.get_available_firmwares", "iot Cloud.set_server", "iot Cloud.connect", "iot Cloud.disconnect", "AmbientLight.presets", "AmbientLight.current_brightness"), covers=("rules", "unreadable", "cloud", "light"))
def rules_and_cloud(c):
    n = c.int("number", 0, 10**6)
    what = c.pick("what", ["rules", "unreadable", "cloud", "light"])
    c.cover(what)
    if what in ("rules", "unreadable"):
        cls, key = c.pick("module", [(I.Schedule, "schedule"), (I.Antitheft, "anti_theft"), (I.Countdown, "count_down")])
        rule = {"id": c.str("rule id"), "name": c.str("rule name"), "enable": 1, "wday": [1, 0, 0, 0, 0, 0, 1], "repeat": 1}
        more = {"sact": c.pick("start", [-1, 0, 1, 2]), "stime_opt": c.pick("start by", [-1, 0, 1, 2]), "smin": n, "eact": c.pick("end", [-1, 1]), "etime_opt": 0, "emin": 5} if c.maybe("with actions") else {}
        rules = [{**rule, **more}, {**rule, "id": "R2", "name": "x", "enable": 0}][: c.choose_index("rules", 3)]
        if what == "unreadable":
            last = c.pick("data", [{}, {"rule_list": None}, {"rule_list": [{"id": "R1"}]}, {"rule_list": [{**rule, "sact": 9}]}, {"rule_list": [{**rule}, 5]}])
        else:
            last = {"rule_list": rules}
        d, p, m = module(c, cls, key, **{key: {"get_rules": last}})
        o = c.call(getattr, m, "rules")
        if what == "unreadable":
            c.check("unreadable rules are none", o.ok and o.value == [], lambda: f"{o}")
            return
        def value(x):
            return getattr(x, "value", x)
        c.check("the rules are the device's", o.ok and len(o.value) == len(rules), lambda: f"{o}")
        for got, exp in zip(o.value, rules):
            for k in ("id", "name", "enable", "wday", "repeat", "sact", "stime_opt", "smin", "eact", "etime_opt", "emin", "s_light"):
                v = getattr(got, k)
                c.check("field by field", c.same(v.value if k in ("sact", "stime_opt", "eact", "etime_opt") and v is not None else v, exp.get(k)), lambda: f"{k} {v} {exp}")
        if rules:
            i = c.choose_index("delete", len(rules))
            sent(c, c.call(m.delete_rule, o.value[i]), p, key, "delete_rule", {"id": rules[i]["id"]})
        return
    if what == "light":
        LAS = "smartlife.iot.LAS"
        levels = [{"name": "cloudy", "adc": n, "value": 10}]
        d, p, m = module(c, I.AmbientLight, LAS, **{LAS: {"get_config": {"devs": [{"enable": 1, "level_array": levels}]}, "get_current_brt": {"value": 3}}})
        c.check("the presets are the device's", c.same(c.call(getattr, m, "presets").value, levels))
        return sent(c, c.call(m.current_brightness), p, LAS, "get_current_brt", {})
    key = "cnCloud"
    con = c.int("connection", 0, 5, pool=(0, 1))
    info = {"binded": 1, "cld_connection": con, "fwDlPage": "page", "fwNotifyType": n, "illegalType": 2, "server": "srv", "stopConnect": 3, "tcspInfo": "tc", "tcspStatus": 4, "username": "u"}
    d, p, m = module(c, I.Cloud, key, **{key: {"get_info": info}})
    o = c.call(getattr, m, "is_connected")
    c.check("connected when the device says so", o.ok and (con != 0 if o.value else con == 0), lambda: f"{o}")
    got = c.call(getattr, m, "info").value
    names = {"binded": "provisioned", "cld_connection": "cloud_connected", "fwDlPage": "firmware_download_page", "fwNotifyType": "firmware_notify_type", "illegalType": "illegal_type", "server": "server",
             "stopConnect": "stop_connect", "tcspInfo": "tcsp_info", "tcspStatus": "tcsp_status", "username": "username"}
    for k, a in names.items():
        c.check("the cloud's settings are the device's", c.same(getattr(got, a), info[k]), lambda: f"{a} {got}")
    for f, args, method, params in (("get_available_firmwares", (), "get_intl_fw_list", {}), ("set_server", ("url",), "set_server_url", {"server": "url"}), ("connect", ("me", "secret"), "bind", {"username": "me", "password": "secret"}), ("disconnect", (), "unbind", {})):
        o = c.call(getattr(m, f), *args)
        c.check("the query is the documented one", o.ok and o.value in ({key: {method: params}}, {key: {method: params or None}}), lambda: f"{f} {o}")
