"""C22: a setter of a SMART module sends exactly the requested change, or refuses it untouched."""
from kasa.interfaces.light import LightState
from kasa.smart import modules as M
from kasa.smart.smartmodule import SmartModule
from pyvc.registry import contract, prop

from .devices import smart

prop("C22")


class Boom(Exception):
    pass


def device(c, info=None, components=None, modules=(), **last):
    """The device with the modules made and added; answers are tokens, one command may fail."""
    d, p = smart(info=info, components=components, **last)
    p.fails, p.answers = False, []

    def answer(r):
        if p.fails:
            raise Boom
        p.answers.append({k: f"answer {len(p.answers)}" for k in r})
        return p.answers[-1]

    p.on_query = answer
    ms = []
    for cls in modules:
        o = c.call(cls, d, cls.__name__)
        assert o.ok, o
        d._modules[o.value.name] = o.value
        ms.append(o.value)
    return (d, p, *ms)


def outcome(c, p, o, ok, method, params, result=True):
    """ok: the value is acceptable; then exactly this command is sent, else nothing."""
    if not o.ok and not isinstance(o.exc, Boom):
        c.cover("refused")
        c.check("only unacceptable values are refused", c.not_(ok), lambda: f"{o}")
        c.check("refused with ValueError or TypeError and nothing is sent", isinstance(o.exc, (ValueError, TypeError)) and p.sent == [], lambda: f"{o} {p.sent}")
        return
    c.cover("sent")
    c.check("unacceptable values are not sent", ok, lambda: f"{p.sent}")
    c.check("exactly the documented command is sent", len(p.sent) == 1 and list(p.sent[0]) == [method], lambda: f"{p.sent}")
    c.check("with exactly the requested change", c.same(p.sent[0][method], params), lambda: f"{p.sent} instead of {params}")
    if p.fails:
        c.check("a failure reaches the caller", o.exactly(Boom))
    elif result:
        c.check("the device's answer is returned", o.value == p.answers[0])


def setter(name, cls, method, draw, valid=lambda *a: True, params=None, info=None, components=None, last=None, refreshes=False, covers=("sent", "refused"), before=None):
    """One contract: draw(c) -> args; params(c, m, *args) -> the expected parameters."""
    def driver(c):
        i = info(c) if info else {}
        la = last(c) if last else {}
        d, p, m = device(c, i, components, (cls,), **la)
        if before:
            before(c, m)
        p.fails = c.maybe("command fails")
        p.sent.clear()
        m._last_update_time = 1000.0
        kept = {k: dict(v) if type(v) is dict else v for k, v in d._last_update.items()}
        args, kw = draw(c)
        o = c.call(getattr(m, name), *args, **kw)
        outcome(c, p, o, valid(c, d, *args, *kw.values()), method, params(c, d, *args, *kw.values()))
        c.check("the data of the last update is not modified", all(c.same(d._last_update[k], kept[k]) for k in kept))
        if refreshes and not (not o.ok and not isinstance(o.exc, Boom)):
            c.check("the module is asked again in the next update", m._last_update_time is None)

    driver.__doc__ = f"{cls.__name__}.{name}"
    contract("C22", f"{cls.__name__}.{name}".lower().replace(".", "_"), funcs=(f"{cls.__name__}.{name}",), covers=covers)(driver)


def n(name, pool=None):
    return lambda c: ((c.int(name, pool=pool),), {})


def flag(c):
    return (c.pick("on", [True, False]),), {}


ONE = ("sent",)

# ---- simple values
setter("set_fan_speed_level", M.Fan, "set_device_info", n("level", (0, 1, 4, 5, -1)), lambda c, d, v: c.and_(v >= 0, v <= 4),
       lambda c, d, v: {"device_on": False} if c.force(c.eq(v, 0)) else {"device_on": True, "fan_speed_level": v})
setter("set_sleep_mode", M.Fan, "set_device_info", flag, params=lambda c, d, v: {"fan_sleep_mode_on": v}, covers=ONE)
setter("set_volume", M.Speaker, "setVolume", n("volume", (0, 100, -1, 101)), lambda c, d, v: c.and_(v >= 0, v <= 100), lambda c, d, v: {"volume": v})
setter("locate", M.Speaker, "playSelectAudio", lambda c: ((), {}), params=lambda c, d: {"audio_type": "seek_me"}, covers=ONE)
setter("set_enabled", M.ChildLock, "setChildLockInfo", flag, params=lambda c, d, v: {"child_lock_status": v}, covers=ONE)
setter("set_enabled", M.ChildProtection, "set_child_protection", flag, params=lambda c, d, v: {"enable": v}, covers=ONE)
setter("set_enabled", M.FrostProtection, "set_device_info", flag, params=lambda c, d, v: {"frost_protection_on": v}, covers=ONE)
setter("set_temperature_unit", M.TemperatureSensor, "set_temperature_unit", lambda c: ((c.pick("unit", ["celsius", "fahrenheit"]),), {}), params=lambda c, d, v: {"temp_unit": v}, covers=ONE)
setter("set_state", M.TemperatureControl, "set_device_info", flag, params=lambda c, d, v: {"frost_protection_on": not v}, covers=ONE, info=lambda c: {"frost_protection_on": c.pick("frost", [True, False])})
setter("set_temperature_offset", M.TemperatureControl, "set_device_info", n("offset", (-10, 10, -11, 11, 0)), lambda c, d, v: c.and_(v >= -10, v <= 10), lambda c, d, v: {"temp_offset": v})


def trv(c):
    i = {"min_control_temp": c.int("min", -50, 50), "max_control_temp": c.int("max", -50, 100)}
    f = c.pick("frost protection", [None, True, False])
    return i if f is None else {**i, "frost_protection_on": f}


setter("set_target_temperature", M.TemperatureControl, "set_device_info", lambda c: ((c.real("target", pool=(5.0, 30.0, 20.5)) if c.maybe("fraction") else c.int("target degrees", pool=(5, 30)),), {}),
       lambda c, d, v: c.and_(v >= d._info["min_control_temp"], v <= d._info["max_control_temp"]),
       lambda c, d, v: {"target_temp": v, **({"frost_protection_on": False} if "frost_protection_on" in d._info else {})}, info=trv)


def autooff(c):
    return {"get_auto_off_config": {"enable": c.pick("enabled", [True, False]), "delay_min": c.int("delay", 0, 10**5)}}


setter("set_enabled", M.AutoOff, "set_auto_off_config", flag, params=lambda c, d, v: {"enable": v, "delay_min": d._last_update["get_auto_off_config"]["delay_min"]}, last=autooff, covers=ONE)
setter("set_delay", M.AutoOff, "set_auto_off_config", n("new delay"), params=lambda c, d, v: {"enable": d._last_update["get_auto_off_config"]["enable"], "delay_min": v}, last=autooff, covers=ONE)
setter("set_led", M.Led, "set_led_info", flag, last=lambda c: {"get_led_info": {"led_rule": c.pick("rule", ["always", "never", "night_mode"]), "start_time": c.int("start", 0, 1440), "led_status": True}},
       params=lambda c, d, v: {"led_rule": "always" if v else "never", "start_time": d._last_update["get_led_info"]["start_time"], "led_status": True}, refreshes=True, covers=ONE)

# ---- alarms
VOLUMES = {0: "mute", 1: "low", 2: "normal", 3: "high"}
SOUNDS = ["Doorbell Ring 1", "Alarm 1", "Siren"]


def alarm(c):
    return {"get_alarm_configure": {"type": "Siren", "volume": c.pick("volume now", ["mute", "high"]), "duration": c.int("duration now", 1, 600)},
            "get_support_alarm_type_list": {"alarm_type_list": list(SOUNDS)}}


def conf(d, **k):
    return {**d._last_update["get_alarm_configure"], **k}


def a_volume(c, tag="volume"):
    return c.int(tag, pool=(0, 1, 2, 3, 4, -1)) if c.maybe(tag + " as number") else c.pick(tag, ["mute", "low", "normal", "high", "loud", ""])


def vol_ok(c, v):
    return v in VOLUMES.values() if isinstance(v, str) else c.and_(v >= 0, v <= 3)


def vol(c, v):
    if isinstance(v, str):
        return v
    for k in (0, 1, 2):
        if c.force(c.eq(v, k)):
            return VOLUMES[k]
    return VOLUMES[3]


def sound(c):
    return c.pick("sound", [*SOUNDS, "alarm 1", ""])


setter("set_alarm_volume", M.Alarm, "set_alarm_configure", lambda c: ((a_volume(c),), {}), lambda c, d, v: vol_ok(c, v), lambda c, d, v: conf(d, volume=vol(c, v)), last=alarm)
setter("set_alarm_sound", M.Alarm, "set_alarm_configure", lambda c: ((sound(c),), {}), lambda c, d, v: v in SOUNDS, lambda c, d, v: conf(d, type=v), last=alarm)
setter("set_alarm_duration", M.Alarm, "set_alarm_configure", n("duration", (1, 600, 0, 601)), lambda c, d, v: c.and_(v >= 1, v <= 600), lambda c, d, v: conf(d, duration=v), last=alarm)
setter("stop", M.Alarm, "stop_alarm", lambda c: ((), {}), params=lambda c, d: None, last=alarm, covers=ONE)


@contract("C22", "alarm_play", funcs=("Alarm.play", "Alarm._check_and_convert_volume", "Alarm._check_duration", "Alarm._check_sound"), covers=("sent", "refused"))
def play(c):
    d, p, m = device(c, None, None, (M.Alarm,), **alarm(c))
    kw, exp, ok = {}, {}, True
    if c.maybe("given duration"):
        kw["duration"] = exp["alarm_duration"] = c.int("duration", pool=(1, 600, 0, 601))
        ok = c.and_(kw["duration"] >= 1, kw["duration"] <= 600)
    if c.maybe("given volume"):
        v = kw["volume"] = a_volume(c)
        ok = c.and_(ok, vol_ok(c, v))
        exp["alarm_volume"] = vol(c, v)
    if c.maybe("given sound"):
        kw["sound"] = exp["alarm_type"] = sound(c)
        ok = c.and_(ok, kw["sound"] in SOUNDS)
    o = c.call(m.play, **kw)
    outcome(c, p, o, ok, "play_alarm", exp)


# ---- vacuums and hubs
setter("set_fan_speed_preset", M.Clean, "setCleanAttr", lambda c: ((c.pick("speed", ["Quiet", "Standard", "Turbo", "Max", "Ultra", "quiet", "1"]),), {}),
       lambda c, d, v: v in ("Quiet", "Standard", "Turbo", "Max", "Ultra"), lambda c, d, v: {"suction": {"Quiet": 1, "Standard": 2, "Turbo": 3, "Max": 4, "Ultra": 5}.get(v), "type": "global"})
setter("set_clean_count", M.Clean, "setCleanAttr", n("count"), params=lambda c, d, v: {"clean_number": v, "type": "global"}, covers=ONE)
setter("set_carpet_boost", M.Clean, "setCarpetClean", flag, params=lambda c, d, v: {"carpet_clean_prefer": "boost" if v else "normal"}, covers=ONE)
setter("set_waterlevel", M.Mop, "setCleanAttr", lambda c: ((c.pick("level", ["Disable", "Low", "Medium", "High", "low", "2"]),), {}),
       lambda c, d, v: v in ("Disable", "Low", "Medium", "High"), lambda c, d, v: {**d._last_update["getCleanAttr"], "cistern": {"Disable": 0, "Low": 1, "Medium": 2, "High": 3}.get(v)},
       last=lambda c: {"getMopState": {"mop_state": True}, "getCleanAttr": {"suction": c.int("suction", 1, 5), "cistern": 1, "clean_number": 1}})


def dustbin(c):
    return {"getAutoDustCollection": {"auto_dust_collection": 1}, "getDustCollectionInfo": {"auto_dust_collection": c.pick("auto", [True, False]), "dust_collection_mode": c.int("mode now", 0, 3), "other": 7}}


MODES = {"Smart": 0, "Light": 1, "Balanced": 2, "Max": 3}
setter("set_mode", M.Dustbin, "setDustCollectionInfo", lambda c: ((c.pick("mode", [*MODES, "Off", "max", "0"]),), {}), lambda c, d, v: v in MODES or v == "Off",
       lambda c, d, v: {**d._last_update["getDustCollectionInfo"], **({"auto_dust_collection": False} if v == "Off" else {"auto_dust_collection": True, "dust_collection_mode": MODES.get(v)})}, last=dustbin)
setter("set_auto_collection", M.Dustbin, "setDustCollectionInfo", flag, params=lambda c, d, v: {**d._last_update["getDustCollectionInfo"], "auto_dust_collection": v}, last=dustbin, covers=ONE)
setter("start_emptying", M.Dustbin, "setSwitchDustCollection", lambda c: ((), {}), params=lambda c, d: {"switch_dust_collection": True}, last=dustbin, covers=ONE)

STATUS = {"Idle": 0, "Cleaning": 1, "Mapping": 2, "GoingHome": 4, "Charging": 5, "Charged": 6, "Paused": 7, "Undocked": 8, "unknown": 3}
START = {"clean_mode": 0, "clean_on": True, "clean_order": True, "force_clean": False}


@contract("C22", "vacuum_actions", funcs=("Clean.start", "Clean.pause", "Clean.resume", "Clean.return_home", "Clean.set_pause", "Clean.set_return_home", "Clean.status"), covers=("sent",))
def vacuum(c):
    st = c.pick("status", [*STATUS])
    err = c.pick("errors", [None, [], [4], [999]])
    vs = {"status": STATUS[st]}
    if err is not None:
        vs["err_status"] = list(err)
    last = {q: {} for q in ("getCleanInfo", "getCarpetClean", "getAreaUnit", "getBatteryInfo", "getCleanStatus", "getCleanAttr")}
    d, p, m = device(c, None, None, (M.Clean,), getVacStatus=vs, **last)
    o = c.call(m._post_update_hook)
    assert o.ok, o
    broken = bool(err)
    c.check("the status is the device's", c.call(getattr, m, "status").value.name == ("Error" if broken else "UnknownInternal" if st == "unknown" else st))
    c.check("so is the error", c.call(getattr, m, "error").value.name == ("Ok" if not broken else "Trapped" if False else "WheelBlocked" if err == [4] else "UnknownInternal"))
    act = c.pick("action", ["start", "pause", "resume", "return_home"])
    o = c.call(getattr(m, act))
    exp = {"start": ("setRobotPause", {"pause": False}) if st == "Paused" and not broken else ("setSwitchClean", START),
           "pause": ("setSwitchCharge", {"switch_charge": False}) if st == "GoingHome" and not broken else ("setRobotPause", {"pause": True}),
           "resume": ("setRobotPause", {"pause": False}), "return_home": ("setSwitchCharge", {"switch_charge": True})}[act]
    outcome(c, p, o, True, *exp)


# ---- lights
def info_effect(kind):
    if kind == "strip":
        return {"lighting_effect": {"enable": 1, "name": "Aurora", "brightness": 40, "custom": 0}}
    return {}


@contract("C22", "brightness_set_brightness", funcs=("Brightness.set_brightness", "LightStripEffect.set_brightness", "LightStripEffect.is_active"), covers=("sent", "refused"))
def brightness(c):
    kind = c.pick("effect", [None, "active", "inactive"])
    info = {"brightness": c.int("brightness now", 1, 100)}
    if kind:
        info["lighting_effect"] = {"enable": 1 if kind == "active" else 0, "name": "Aurora", "brightness": 40, "custom": 0}
    d, p, m, *_ = device(c, info, {"brightness": 1}, (M.Brightness, M.LightStripEffect) if kind else (M.Brightness,))
    v = c.int("brightness", pool=(0, 1, 100, 101, -1)) if c.pick("type", ["int", "other"]) == "int" else c.pick("not a number", [None, "5", 5.5])
    num = type(v) not in (str, float, type(None))
    ok = c.and_(v >= 0, v <= 100) if num else False
    zero = num and c.force(c.eq(v, 0))
    o = c.call(m.set_brightness, v)
    if zero:
        outcome(c, p, o, ok, "set_device_info", {"device_on": False})
    elif kind == "active":
        outcome(c, p, o, ok, "set_lighting_effect", {"brightness": v, "bAdjusted": True})
    else:
        outcome(c, p, o, ok, "set_device_info", {"brightness": v})


@contract("C22", "color_set_hsv", funcs=("Color.set_hsv", "Color._raise_for_invalid_brightness", "Light.set_hsv"), covers=("sent", "refused"))
def hsv(c):
    d, p, col, light = device(c, {"hue": 1, "saturation": 2, "brightness": 3}, {}, (M.Color, M.Light))
    h = c.int("hue", pool=(0, 360, 361, -1)) if c.maybe("hue ok") else c.pick("bad hue", [1.5, "1"])
    s = c.int("saturation", pool=(0, 100, 101, -1)) if c.maybe("saturation ok") else c.pick("bad saturation", [1.5, None])
    given = c.pick("value given", [False, True, "bad"])
    v = None if not given else c.pick("bad value", [1.5, "1"]) if given == "bad" else c.int("value", pool=(0, 100, 101, -1))
    ok = given != "bad" and not isinstance(h, (float, str)) and not isinstance(s, (float, type(None)))
    if ok:
        ok = c.and_(h >= 0, h <= 360, s >= 0, s <= 100, *([v >= 0, v <= 100] if given else []))
    tgt = c.pick("through", ["color", "light"])
    o = c.call((col if tgt == "color" else light).set_hsv, h, s, *([v] if given else []), **({"transition": 5} if c.maybe("transition") else {}))
    outcome(c, p, o, ok, "set_device_info", {"color_temp": 0, "hue": h, "saturation": s, **({"brightness": v} if given else {})})


@contract("C22", "colortemperature_set_color_temp", funcs=("ColorTemperature.set_color_temp", "ColorTemperature.valid_temperature_range", "Light.set_color_temp"), covers=("sent", "refused"))
def color_temp(c):
    lo, hi = 2500, 6500
    info = {"color_temp": 3000}
    if c.maybe("range reported"):
        lo, hi = c.int("min", 1000, 9000), c.int("max", 1000, 9000)
        info["color_temp_range"] = [lo, hi]
    d, p, ct, light = device(c, info, {"color_temperature": 1}, (M.ColorTemperature, M.Light))
    t = c.int("temp", pool=(2500, 6500, 2499, 6501))
    kw, exp = {}, {"color_temp": t}
    if c.maybe("brightness"):
        kw["brightness"] = exp["brightness"] = c.int("brightness", 1, 100)
    tgt = c.pick("through", ["module", "light"])
    o = c.call((ct if tgt == "module" else light).set_color_temp, t, **kw)
    outcome(c, p, o, c.and_(t >= lo, t <= hi), "set_device_info", exp)


@contract("C22", "light_set_state", funcs=("Light.set_state",), covers=("sent",))
def set_state(c):
    d, p, m = device(c, {}, {}, (M.Light,))
    f = {"brightness": 100, "hue": 360, "saturation": 100, "color_temp": 9000}
    given = {k: c.int(k, 0, hi) for k, hi in f.items() if c.maybe("given " + k)}
    on = c.pick("light_on", [None, True, False])
    st = LightState(light_on=on, **given)
    before = (st.light_on, st.brightness, st.hue, st.saturation, st.color_temp, st.transition)
    off = "brightness" in given and c.force(c.eq(given["brightness"], 0))
    exp = {k: v for k, v in given.items() if not (off and k == "brightness")}
    exp["device_on"] = False if off else True if on is None else on
    o = c.call(m.set_state, st)
    outcome(c, p, o, True, "set_device_info", exp)
    c.check("the given state is not modified", c.same((st.light_on, st.brightness, st.hue, st.saturation, st.color_temp, st.transition), before))


@contract("C22", "light_set_brightness", funcs=("Light.set_brightness", "Light.brightness"), covers=("sent", "refused"))
def light_brightness(c):
    d, p, b, m = device(c, {"brightness": c.int("now", 1, 100)}, {"brightness": 1}, (M.Brightness, M.Light))
    v = c.int("brightness", pool=(0, 1, 100, 101, -1))
    c.check("the brightness is the device's", c.same(c.call(getattr, m, "brightness").value, d._info["brightness"]))
    zero = c.force(c.eq(v, 0))
    o = c.call(m.set_brightness, v)
    outcome(c, p, o, c.and_(v >= 0, v <= 100), "set_device_info", {"device_on": False} if zero else {"brightness": v})


# ---- transitions
def transition(c, v):
    """(info, last, on, off): where the state is reported, and what it is."""
    on = {"enable": c.pick("on enabled", [True, False]), "duration": c.int("on duration", 0, 600)}
    off = {"enable": c.pick("off enabled", [True, False]), "duration": c.int("off duration", 0, 600)}
    src = c.pick("reported in", ["query", "sysinfo"])
    mx = c.maybe("maximum reported")
    onmax, offmax = (c.int("on max", 1, 600), c.int("off max", 1, 600)) if mx else (60, 60)
    if src == "query":
        ext = ({"max_duration": onmax}, {"max_duration": offmax}) if mx else ({}, {})
        return {}, {"get_on_off_gradually_info": {"on_state": {**on, **ext[0]}, "off_state": {**off, **ext[1]}}}, on, off, onmax, offmax
    info = {"gradually_on_mode": int(on["enable"]), "gradually_off_mode": int(off["enable"]), "fade_on_time": on["duration"], "fade_off_time": off["duration"]}
    if mx:
        info.update(max_fade_on_time=onmax, max_fade_off_time=offmax)
    return info, {}, on, off, onmax, offmax


for which in ("on", "off"):
    def driver(c, which=which):
        info, last, on, off, onmax, offmax = transition(c, 2)
        mine, mx = (on, onmax) if which == "on" else (off, offmax)
        d, p, m = device(c, {"brightness": 1, **info}, {"on_off_gradually": c.pick("version", [2, 3])}, (M.LightTransition,), **last)
        assert c.call(m._post_update_hook).ok
        c.check("the transition is the device's, zero when disabled", c.same(c.call(getattr, m, f"turn_{which}_transition").value, mine["duration"] if mine["enable"] else 0))
        c.check("enabled when one of them is", c.call(getattr, m, "enabled").value is (on["enable"] or off["enable"]))
        m._last_update_time = 1000.0
        v = c.int("seconds", pool=(0, 1, 60, 61, -1))
        stop = c.force(v <= 0)
        o = c.call(getattr(m, f"set_turn_{which}_transition"), v)
        outcome(c, p, o, v <= mx, "set_on_off_gradually_info", {which + "_state": {"enable": False, "duration": mine["duration"]} if stop else {"enable": True, "duration": v}})
        if o.ok:
            c.check("the module is asked again in the next update", m._last_update_time is None)

    contract("C22", f"transition_{which}", funcs=(f"LightTransition.set_turn_{which}_transition", f"LightTransition.turn_{which}_transition", "LightTransition._post_update_hook"), covers=("sent", "refused"))(driver)


@contract("C22", "transition_enabled", funcs=("LightTransition.set_enabled",), covers=("v1", "v2"))
def transition_enabled(c):
    v = c.pick("on", [True, False])
    if c.maybe("version 1"):
        c.cover("v1")
        d, p, m = device(c, {"brightness": 1}, {"on_off_gradually": 1}, (M.LightTransition,), get_on_off_gradually_info={"enable": c.pick("enabled", [True, False])})
        assert c.call(m._post_update_hook).ok
        c.check("enabled as reported", c.call(getattr, m, "enabled").value is d._last_update["get_on_off_gradually_info"]["enable"])
        o = c.call(m.set_enabled, v)
        return outcome(c, p, o, True, "set_on_off_gradually_info", {"enable": v})
    c.cover("v2")
    info, last, on, off, _, _ = transition(c, 2)
    d, p, m = device(c, {"brightness": 1, **info}, {"on_off_gradually": 2}, (M.LightTransition,), **last)
    assert c.call(m._post_update_hook).ok
    o = c.call(m.set_enabled, v)
    got = {}
    for s in p.sent:
        c.check("only the transitions are changed", list(s) == ["set_on_off_gradually_info"])
        got.update(s["set_on_off_gradually_info"])
    c.check("both are switched and keep their durations", o.ok and c.same(got, {"on_state": {"enable": v, "duration": on["duration"]}, "off_state": {"enable": v, "duration": off["duration"]}}))


# ---- power protection
def protection(c):
    pp = {"enabled": c.pick("enabled now", [True, False])}
    if c.maybe("configured before"):
        pp["protection_power"] = c.int("threshold now", 0, 10**4)
    return {"get_protection_power": pp, "get_max_power": {"max_power": c.int("max power", 0, 10**4)}}


@contract("C22", "powerprotection_enable", funcs=("PowerProtection.set_enabled", "PowerProtection._set_threshold_auto_enable", "PowerProtection.protection_threshold"), covers=("sent", "refused"))
def powerprotection(c):
    last = protection(c)
    d, p, m = device(c, {"power_protection_status": "normal"}, None, (M.PowerProtection,), **last)
    pp, mx = last["get_protection_power"], last["get_max_power"]["max_power"]
    before = dict(pp)
    cur = pp.get("protection_power", 0)
    how = c.pick("how", ["set_enabled", "with threshold", "auto", "threshold"])
    if how == "set_enabled":
        on = c.pick("on", [True, False])
        o = c.call(m.set_enabled, on)
        exp = {**pp, "enabled": on}
        if on and c.force(c.eq(cur, 0)):
            exp["protection_power"] = mx // 2
        ok = True
    else:
        t = c.int("threshold", pool=(0, 1, -1, 100, 3000))
        ok = c.and_(t >= 0, t <= mx)
        if how == "with threshold":
            on = c.pick("on", [True, False])
            o = c.call(m.set_enabled, on, threshold=t)
            exp = {**pp, "enabled": on, "protection_power": t}
        elif how == "auto":
            zero = c.force(c.eq(t, 0))
            o = c.call(m._set_threshold_auto_enable, t)
            exp = {**pp, "enabled": False} if zero else {**pp, "enabled": True, "protection_power": t}
        else:
            o = c.call(m.set_protection_threshold, t)
            exp = {**pp, "protection_power": t}
    outcome(c, p, o, ok, "set_protection_power", exp)
    c.check("the data of the last update is not modified", c.same(pp, before))
