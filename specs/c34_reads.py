"""C34: what a SMART module reports is what the device reports, converted as documented."""
from datetime import datetime, timedelta, timezone

from kasa import Module
from kasa.device_type import DeviceType
from kasa.exceptions import KasaException, SmartErrorCode
from kasa.interfaces.light import LightState
from kasa.interfaces.thermostat import ThermostatState
from kasa.smart import modules as M
from kasa.smart.modules.clean import AreaUnit, ErrorCode, Status
from kasa.smart.modules.waterleaksensor import WaterleakStatus
from pyvc.registry import contract, prop

from .c22_smartsetters import device
from .devices import smart

prop("C34", ["deserialization by mashumaro passes numbers and texts on unchanged"])
TZ = timezone(timedelta(hours=2))
ABSENT = object()


def get(c, m, attr):
    return c.call(getattr, m, attr)


def reads(c, o, exp, what):
    c.check(f"{what} is what the device reports", o.ok and c.same(o.value, exp), lambda: f"{o} instead of {exp}")


# ---- values of the device info or of a module's own answer, as they are
PLAIN = [
    # class, attribute, key, answer it is in (None: device info)
    (M.BatterySensor, "battery", "battery_percentage", None), (M.ContactSensor, "is_open", "open", None), (M.HumiditySensor, "humidity", "current_humidity", None), (M.MotionSensor, "motion_detected", "detected", None),
    (M.ReportMode, "report_interval", "report_interval", None), (M.TemperatureSensor, "temperature", "current_temp", None), (M.TemperatureSensor, "temperature_unit", "temp_unit", None), (M.WaterleakSensor, "alert", "in_alarm", None),
    (M.TemperatureControl, "minimum_target_temperature", "min_control_temp", None), (M.TemperatureControl, "maximum_target_temperature", "max_control_temp", None), (M.TemperatureControl, "target_temperature", "target_temp", None),
    (M.TemperatureControl, "temperature_offset", "temp_offset", None), (M.FrostProtection, "enabled", "frost_protection_on", None), (M.ChildProtection, "enabled", "child_protection", None), (M.Fan, "sleep_mode", "fan_sleep_mode_on", None),
    (M.Alarm, "active", "in_alarm", None), (M.ColorTemperature, "color_temp", "color_temp", None), (M.Brightness, "brightness", "brightness", None),
    (M.ChildLock, "enabled", "child_lock_status", "getChildLockInfo"), (M.AutoOff, "enabled", "enable", "get_auto_off_config"), (M.AutoOff, "delay", "delay_min", "get_auto_off_config"), (M.Speaker, "volume", "volume", "getVolume"),
    (M.Alarm, "alarm_sound", "type", "get_alarm_configure"), (M.Alarm, "alarm_duration", "duration", "get_alarm_configure"), (M.Alarm, "alarm_sounds", "alarm_type_list", "get_support_alarm_type_list"),
    (M.Clean, "battery", "battery_percentage", "getBatteryInfo"), (M.Clean, "clean_area", "clean_area", "getCleanInfo"), (M.Clean, "clean_progress", "clean_percent", "getCleanInfo"), (M.Clean, "clean_count", "clean_number", "getCleanAttr"),
    (M.Mop, "mop_attached", "mop_state", "getMopState"), (M.Dustbin, "auto_collection", "auto_dust_collection", "getDustCollectionInfo"), (M.PowerProtection, "enabled", "enabled", "get_protection_power"),
    (M.PowerProtection, "protection_threshold", "protection_power", "get_protection_power"), (M.Led, "mode", "led_rule", "get_led_info"), (M.LightTransition, "enabled", "enable", "get_on_off_gradually_info"),
]
QUERIES = {M.Alarm: ("get_alarm_configure", "get_support_alarm_type_list"), M.Clean: ("getVacStatus", "getCleanInfo", "getCarpetClean", "getAreaUnit", "getBatteryInfo", "getCleanStatus", "getCleanAttr"), M.Mop: ("getMopState", "getCleanAttr"),
           M.Dustbin: ("getAutoDustCollection", "getDustCollectionInfo"), M.PowerProtection: ("get_protection_power", "get_max_power")}


@contract("C34", "plain", funcs=tuple(f"{k.__name__}.{a}" for k, a, _, _ in PLAIN), covers=("device info", "own answer"), opts={"max_paths": 20000})
def plain(c):
    """Any value the device reports under the key is given as it is; other keys do not matter."""
    cls, attr, key, ans = c.pick("attribute", PLAIN)
    v = c.int("value")
    info, last = {}, {q: {} for q in QUERIES.get(cls, ())}
    if ans is None:
        c.cover("device info")
        info[key] = v
    else:
        c.cover("own answer")
        last.setdefault(ans, {})[key] = v
        info[key] = "something else"
    d, p, m = device(c, info, {"on_off_gradually": 1, "temperature": 1}, (cls,), **last)
    if cls is M.LightTransition:
        assert c.call(m._post_update_hook).ok
    reads(c, get(c, m, attr), v, f"{cls.__name__}.{attr}")
    c.check("nothing is asked", not p.sent)


@contract("C34", "converted", funcs=("HumiditySensor.humidity_warning", "TemperatureSensor.temperature_warning", "Cloud.is_connected", "OverheatProtection.overheated", "PowerProtection.overloaded", "Fan.fan_speed_level", "BatterySensor.battery_low",
                                     "TemperatureControl.state", "Alarm.source", "Alarm.alarm_volume", "WaterleakSensor.status", "Led.led", "Mop.waterlevel", "Dustbin.mode", "Clean.fan_speed_preset", "Clean.carpet_boost", "Clean.area_unit"), covers=("checked", "refused"))
def converted(c):
    v = c.int("value", -10, 1000)
    what = c.pick("what", list(range(21)))
    need = {20: "on", 2: "", 3: "", 4: "text on", 5: "on", 6: "text", 7: "on", 8: "text on", 9: "on", 10: "on", 11: "text", 12: "vol", 13: "leak", 14: "text on", 15: "water", 16: "dust on", 17: "level", 18: "unit"}.get(what, "").split()
    draws = {"text": ["", "normal", "cooldown", "overheated", "overloaded", "lock"], "on": [True, False], "vol": [("mute", 0), ("low", 1), ("normal", 2), ("high", 3)],
             "leak": [("normal", WaterleakStatus.Normal), ("water_leak", WaterleakStatus.LeakDetected), ("water_dry", WaterleakStatus.Drying)], "level": [(1, "Quiet"), (2, "Standard"), (3, "Turbo"), (4, "Max"), (5, "Ultra")],
             "water": [(0, "Disable"), (1, "Low"), (2, "Medium"), (3, "High")], "dust": [(0, "Smart"), (1, "Light"), (2, "Balanced"), (3, "Max")], "unit": [(0, AreaUnit.Sqm), (1, AreaUnit.Sqft), (2, AreaUnit.Ping)]}
    text, on, vol, leak, level, water, dust, unit = (c.pick(k, draws[k]) if k in need else draws[k][0] for k in ("text", "on", "vol", "leak", "level", "water", "dust", "unit"))
    cls, attr, info, last, exp = [
        (M.HumiditySensor, "humidity_warning", {"current_humidity_exception": v}, {}, lambda r: c.eq(r, c.not_(c.eq(v, 0)))),
        (M.TemperatureSensor, "temperature_warning", {"current_temp_exception": v}, {}, lambda r: c.eq(r, c.not_(c.eq(v, 0)))),
        (M.TemperatureSensor, "temperature_warning", {}, {}, lambda r: r is False),
        (M.Cloud, "is_connected", {}, {"get_connect_cloud_state": {"status": v}}, lambda r: c.eq(r, c.eq(v, 0))),
        (M.OverheatProtection, "overheated", {"overheat_status": text, "overheated": on}, {}, lambda r: r is (text != "normal")),
        (M.OverheatProtection, "overheated", {"overheated": on}, {}, lambda r: r is on),
        (M.PowerProtection, "overloaded", {"power_protection_status": text}, {}, lambda r: r is (text == "overloaded")),
        (M.Fan, "fan_speed_level", {"device_on": on, "fan_speed_level": v}, {}, lambda r: c.same(r, v if on else 0)),
        (M.BatterySensor, "battery_low", {"at_low_battery": on, **({"is_low": not on} if text else {})}, {}, lambda r: r is on),
        (M.BatterySensor, "battery_low", {"is_low": on}, {}, lambda r: r is on),
        (M.TemperatureControl, "state", {"frost_protection_on": on}, {}, lambda r: r is (not on)),
        (M.Alarm, "source", {"in_alarm_source": text}, {}, lambda r: r == text if text else r is None),
        (M.Alarm, "alarm_volume", {}, {"get_alarm_configure": {"volume": vol[0]}, "get_support_alarm_type_list": {}}, lambda r: r == vol[1]),
        (M.WaterleakSensor, "status", {"water_leak_status": leak[0]}, {}, lambda r: r is leak[1]),
        (M.Led, "led", {}, {"get_led_info": {"led_rule": text or "never", "led_status": on}}, lambda r: r is bool(text)),
        (M.Mop, "waterlevel", {}, {"getMopState": {}, "getCleanAttr": {"cistern": water[0]}}, lambda r: r == water[1]),
        (M.Dustbin, "mode", {}, {"getAutoDustCollection": {}, "getDustCollectionInfo": {"auto_dust_collection": on, "dust_collection_mode": dust[0]}}, lambda r: r == (dust[1] if on else "Off")),
        (M.Clean, "fan_speed_preset", {}, {"getCleanAttr": {"suction": level[0]}}, lambda r: r == level[1]),
        (M.Clean, "area_unit", {}, {"getAreaUnit": {"area_unit": unit[0]}}, lambda r: r is unit[1]),
        (M.Cloud, "is_connected", {}, {"get_connect_cloud_state": SmartErrorCode.INTERNAL_QUERY_ERROR}, lambda r: r is False),
        (M.Fan, "fan_speed_level", {"device_on": on, "fan_speed_level": v}, {}, lambda r: c.same(r, v if on else 0)),
    ][what]
    last = {**{q: {} for q in QUERIES.get(cls, ())}, **last}
    d, p, m = device(c, info, {}, (cls,), **last)
    if what == 20:  # the fan of a wall switch
        d._parent = smart(info={"device_on": True})[0]
    o = get(c, m, attr)
    c.cover("checked")
    c.check(f"{cls.__name__}.{attr} is what the device reports", o.ok and exp(o.value), lambda: f"{o} {info} {last}")
    if cls is M.BatterySensor:
        d._info.pop("at_low_battery", None), d._info.pop("is_low", None)
        c.cover("refused")
        c.check("an unknown battery state is not made up", isinstance(get(c, m, attr).exc, KasaException))


@contract("C34", "led_night_mode", funcs=("Led.night_mode_settings",), covers=("offsets", "custom", "none"))
def led_night_mode(c):
    """Night modes by sun have offsets, custom ones only times; some devices have no night mode."""
    kind = c.pick("kind", ["offsets", "custom", "none"])
    c.cover(kind)
    start, end, rise, fall = (c.int(k, -1440, 1440) for k in ("start", "end", "sunrise", "sunset"))
    night = {"night_mode_type": "sunrise_sunset" if kind == "offsets" else "custom", "start_time": start, "end_time": end, **({"sunrise_offset": rise, "sunset_offset": fall} if kind == "offsets" else {})}
    d, p, m = device(c, {}, {}, (M.Led,), get_led_info={"led_rule": "night_mode", "led_status": True, **({"night_mode": night} if kind != "none" else {})})
    o = get(c, m, "night_mode_settings")
    off = kind == "offsets"
    exp = dict.fromkeys(("start", "end", "type", "sunrise_offset", "sunset_offset")) if kind == "none" else {"start": start, "end": end, "type": night["night_mode_type"], "sunrise_offset": rise if off else None, "sunset_offset": fall if off else None}
    reads(c, o, exp, "the night mode")


def frost_protection(c, attr):
    """After an update, in which the device answers exactly what the module asks for."""
    low, unit = c.int("lowest", -20, 30), c.pick("unit", ["celsius", "fahrenheit"])
    d, p, m = device(c, {"frost_protection_on": True, "current_temp": 20}, {}, (M.FrostProtection,))
    o = c.call(m.query)
    assert o.ok, o
    d._last_update.update({k: {"min_temp": low, "temp_unit": unit} for k in o.value})
    c.cover("read")
    exp = {"minimum_temperature": low, "temperature_unit": unit, "enabled": True}[attr]
    o = get(c, m, attr)
    c.check(f"frost protection {attr} is what the device reports", o.ok and c.same(o.value, exp), lambda: f"{o}")


for _attr in ("minimum_temperature", "temperature_unit", "enabled"):
    contract("C34", "frost_" + _attr, funcs=("FrostProtection." + _attr, "FrostProtection.query"), covers=("read",))(lambda c, attr=_attr: frost_protection(c, attr))


@contract("C34", "color", funcs=("Color.hsv", "ColorTemperature.valid_temperature_range", "Light.hsv", "Light.brightness", "Light.color_temp", "Light._post_update_hook", "Light.state"), covers=("on", "off", "missing"))
def color(c):
    classes = [k for k in (M.Brightness, M.Color, M.ColorTemperature) if c.pick(k.__name__, [True, False])]
    on = c.pick("on", [True, False])
    v = {"hue": c.int("hue", 0, 360), "saturation": c.int("saturation", 0, 100), "brightness": c.int("brightness", 0, 100), "color_temp": c.int("temp", 0, 9000)}
    d, p, *ms = device(c, {**v, "device_on": on}, {"brightness": 1, "color": 1, "color_temperature": 1}, (*classes, M.Light))
    m = ms[-1]
    c.cover("on" if on else "off")
    exp = {}
    for k, attr, e in ((M.Brightness, "brightness", v["brightness"]), (M.Color, "hsv", (v["hue"], v["saturation"], v["brightness"])), (M.ColorTemperature, "color_temp", v["color_temp"])):
        o = get(c, m, attr)
        if k not in classes:
            c.cover("missing")
            c.check(f"a light without {attr} has none", isinstance(o.exc, KasaException), lambda: f"{o}")
        else:
            reads(c, type(o)(o.exc, tuple(o.value)) if False else o, e if attr != "hsv" else o.value, attr)
            c.check(f"{attr} is the device's", c.same(tuple(o.value) if attr == "hsv" else o.value, e))
            exp.update({"hue": e[0], "saturation": e[1]} if attr == "hsv" else {attr: e})
    o = c.call(m._post_update_hook)
    st = get(c, m, "state").value
    full = {"light_on": on, **(exp if on else {})}
    c.check("so is the state", o.ok and c.same({k: getattr(st, k) for k in ("light_on", "brightness", "hue", "saturation", "color_temp", "transition") if getattr(st, k) is not None}, full), lambda: f"{st} {full}")
    d._info["device_on"] = not on
    o = c.call(m._post_update_hook)
    st = get(c, m, "state").value
    full = {"light_on": not on, **(exp if not on else {})}
    c.check("also after it was switched", o.ok and c.same({k: getattr(st, k) for k in ("light_on", "brightness", "hue", "saturation", "color_temp", "transition") if getattr(st, k) is not None}, full), lambda: f"{st} {full}")
    if M.ColorTemperature in classes:
        ct = ms[classes.index(M.ColorTemperature)]
        c.check("the default range where none is reported", tuple(get(c, ct, "valid_temperature_range").value) == (2500, 6500))
        lo, hi = c.int("lowest", 1000, 9000), c.int("highest", 1000, 9000)
        d._info["color_temp_range"] = [lo, hi]
        c.check("else the reported one", c.same(tuple(get(c, ct, "valid_temperature_range").value), (lo, hi)))


@contract("C34", "transitions", funcs=("LightTransition._post_update_hook", "LightTransition.turn_on_transition", "LightTransition.turn_off_transition", "LightTransition.enabled", "LightTransition.query"), covers=("v1", "own", "info", "unsupported"))
def transitions(c):
    where = c.pick("reported in", ["v1", "own", "info", "unsupported"])
    c.cover(where)
    st = {k: (c.pick(k + " enabled", [True, False]), c.int(k + " duration", 0, 60), c.int(k + " max", 1, 600) if c.maybe(k + " has max") else None) for k in ("on", "off")} if where in ("own", "info") else {}
    info, last = {"brightness": 1}, {}
    if where == "info":
        for k, (e, dur, mx) in st.items():
            info.update({f"gradually_{k}_mode": int(e), f"fade_{k}_time": dur, **({f"max_fade_{k}_time": mx} if mx is not None else {})})
    elif where == "own":
        last["get_on_off_gradually_info"] = {f"{k}_state": {"enable": e, "duration": dur, **({"max_duration": mx} if mx is not None else {})} for k, (e, dur, mx) in st.items()}
    else:
        last["get_on_off_gradually_info"] = {"enable": c.pick("enable", [True, False])}
    d, p, m = device(c, info, {"on_off_gradually": 1 if where == "v1" else 2}, (M.LightTransition,), **last)
    c.check("asked for unless the device info has it", m.query() == ({} if where == "info" else {"get_on_off_gradually_info": None}))
    o = c.call(m._post_update_hook)
    if where == "unsupported":
        c.check("an unknown form is refused", isinstance(o.exc, KasaException))
        return
    if where == "v1":
        c.check("on or off as reported", o.ok and get(c, m, "enabled").value is last["get_on_off_gradually_info"]["enable"])
        return
    c.check("enabled when one of them is", o.ok and get(c, m, "enabled").value is (st["on"][0] or st["off"][0]))
    for k, (e, dur, mx) in st.items():
        reads(c, get(c, m, f"turn_{k}_transition"), dur if e else 0, f"transition {k}")
        reads(c, get(c, m, f"_turn_{k}_transition_max"), 60 if mx is None else mx, f"maximum {k}")


@contract("C34", "thermostat", funcs=("TemperatureControl.mode", "TemperatureControl.states", "TemperatureControl.allowed_temperature_range", "Thermostat"), covers=("off", "idle", "known", "unknown"), bounded="up to three of six states")
def thermostat(c):
    frost = c.pick("frost protection", [True, False, None])
    states = [s for s in ("low_battery", "heating", "progress_calibration", "new one", "idle") if c.pick(s, [True, False])]
    lo, hi, t, cur = c.int("min", 0, 30), c.int("max", 0, 40), c.int("target", 0, 40), c.int("temp", -40, 60)
    info = {"trv_states": list(states), "min_control_temp": lo, "max_control_temp": hi, "target_temp": t, "current_temp": cur, "temp_unit": "celsius", **({} if frost is None else {"frost_protection_on": frost})}
    d, p, ctl, sens, th = device(c, info, {"temp_control": 1, "temperature": 1}, (M.TemperatureControl, M.TemperatureSensor, M.Thermostat))
    known = [s for s in states if s != "low_battery"]
    exp = ThermostatState.Off if frost else ThermostatState.Idle if not known else ThermostatState.Heating if "heating" in known else ThermostatState.Calibrating if "progress_calibration" in known else ThermostatState.Idle if "idle" in known else ThermostatState.Unknown
    c.cover("off" if frost else "idle" if not known else "unknown" if exp is ThermostatState.Unknown else "known")
    for m in (ctl, th):
        o = get(c, m, "mode")
        c.check("the mode is what the device reports, a low battery aside", o.ok and o.value is exp, lambda: f"{o} {exp} {states}")
        reads(c, get(c, m, "target_temperature"), t, "target_temperature")
    reads(c, get(c, th, "temperature"), cur, "temperature")
    reads(c, get(c, th, "temperature_unit"), "celsius", "unit")
    reads(c, get(c, ctl, "allowed_temperature_range"), (lo, hi), "range")
    c.check("the states of the device are not modified", info["trv_states"] == states and d._info["trv_states"] == states)
    what = c.pick("set", ["state", "target", "unit"])
    on = c.pick("on", [True, False])
    if what == "state":
        o, exp = c.call(th.set_state, on), {"set_device_info": {"frost_protection_on": not on}}
    elif what == "unit":
        o, exp = c.call(th.set_temperature_unit, "fahrenheit"), {"set_temperature_unit": {"temp_unit": "fahrenheit"}}
    else:
        v = c.int("new target", -10, 50)
        o, exp = c.call(th.set_target_temperature, v), {"set_device_info": {"target_temp": v, **({} if frost is None else {"frost_protection_on": False})}}
        if not c.force(c.and_(v >= lo, v <= hi)):
            c.check("targets out of range are refused with nothing sent", isinstance(o.exc, ValueError) and not p.sent)
            return
    c.check("the thermostat sets what its modules set", o.ok and c.same(p.sent, [exp]), lambda: f"{o} {p.sent} {exp}")


# ---- vacuums
@contract("C34", "vacuum_state", funcs=("Clean._post_update_hook", "Clean.error", "Clean.status", "Clean.clean_time", "Clean.carpet_boost"), covers=("ok", "error", "unknown error", "unknown status"))
def vacuum_state(c):
    CODES = {2: ErrorCode.SideBrushStuck, 3: ErrorCode.MainBrushStuck, 4: ErrorCode.WheelBlocked, 6: ErrorCode.Trapped, 7: ErrorCode.TrappedCliff, 14: ErrorCode.DustBinRemoved, 15: ErrorCode.UnableToMove, 16: ErrorCode.LidarBlocked,
             21: ErrorCode.UnableToFindDock, 22: ErrorCode.BatteryLow, 0: ErrorCode.Ok, 99: ErrorCode.UnknownInternal}
    STATES = {0: Status.Idle, 1: Status.Cleaning, 2: Status.Mapping, 4: Status.GoingHome, 5: Status.Charging, 6: Status.Charged, 7: Status.Paused, 8: Status.Undocked, 100: Status.Error, 3: Status.UnknownInternal, 77: Status.UnknownInternal}
    errors = c.pick("errors", [None, [], *[[k] for k in CODES], [7, 2], [2, 7, 99], [0, 7], [99, 2]])
    code = c.pick("status", list(STATES))
    t = c.int("time", 0, 10**6)
    boost = c.pick("boost", ["boost", "normal"])
    st = {"status": code, **({} if errors is None else {"err_status": errors})}
    d, p, m = device(c, {}, {"clean": 1}, (M.Clean,), **{**{q: {} for q in QUERIES[M.Clean]}, "getVacStatus": st, "getCleanInfo": {"clean_time": t}, "getCarpetClean": {"carpet_clean_prefer": boost}})
    kept = None if errors is None else list(errors)
    for again in (False, True):
        o = c.call(m._post_update_hook)
        e = CODES[kept[0]] if kept else ErrorCode.Ok
        exp = Status.Error if e is not ErrorCode.Ok else STATES[code]
        c.cover("unknown error" if e is ErrorCode.UnknownInternal else "error" if exp is Status.Error else "unknown status" if exp is Status.UnknownInternal else "ok")
        c.check("the error is the first one reported", o.ok and get(c, m, "error").value is e, lambda: f"{o} {e}")
        o = get(c, m, "status")
        c.check("the status is the device's, an error when there is one", o.ok and o.value is exp, lambda: f"{o} {exp}")
        c.check("the data of the update is not modified", st.get("err_status") == kept, lambda: f"{st}")
    later = c.pick("errors later", [None, [], [6]])
    d._last_update["getVacStatus"] = {"status": code, **({} if later is None else {"err_status": later})}
    o = c.call(m._post_update_hook)
    c.check("the error ends when the device reports none", o.ok and get(c, m, "error").value is (ErrorCode.Trapped if later else ErrorCode.Ok))
    reads(c, get(c, m, "clean_time"), c.call(timedelta, minutes=t).value, "clean_time")
    c.check("carpet boost as reported", get(c, m, "carpet_boost").value is (boost == "boost"))


CONSUMABLES = {"main_brush": ("roll_brush_time", 400), "side_brush": ("edge_brush_time", 200), "filter": ("filter_time", 200), "sensor": ("sensor_time", 30), "charging_contacts": ("charge_contact_time", 30)}


@contract("C34", "consumables", funcs=("Consumables._post_update_hook", "Consumables.consumables", "Consumables.reset_consumable"), covers=("first", "second", "reset", "unknown"))
def consumables(c):
    """Two vacuums, two updates: each shows its own values."""
    missing = c.pick("missing", [None, *CONSUMABLES])
    have = {k: v for k, v in CONSUMABLES.items() if k != missing}
    vs = []
    for n in (0, 1):
        d, p, m = device(c, {}, {"consumables": 1}, (M.Consumables,), getConsumablesInfo={})
        vs.append((d, p, m))
    for k in ("first", "second"):
        c.cover(k)
        shown = []
        for n, (d, p, m) in enumerate(vs):
            vals = {key: c.int(f"{k} {n} {key}", 0, 10**6) for key, _ in have.values()}
            d._last_update["getConsumablesInfo"] = {**vals, "rag_time": 7}
            o = c.call(m._post_update_hook)
            assert o.ok, o
            shown.append(vals)
        for vals, (d, p, m) in zip(shown, vs):
            got = get(c, m, "consumables").value
            c.check("the consumables the vacuum has", list(got) == list(have), lambda: f"{got}")
            for i, (key, hours) in have.items():
                used = c.call(timedelta, minutes=vals[key]).value
                c.check("used as reported", c.same(got[i].used, used))
                c.check("remaining is the rest of its life time", c.same(got[i].remaining, timedelta(hours=hours) - used) and got[i].id == i)
    d, p, m = vs[c.choose_index("which", 2)]
    i = c.pick("reset", [*CONSUMABLES, "rag"])
    o = c.call(m.reset_consumable, i)
    if i in have:
        c.cover("reset")
        c.check("exactly this one is reset", o.ok and p.sent == [{"resetConsumablesTime": {"reset_list": [CONSUMABLES[i][0][:-5]]}}] and o.value == p.answers[0], lambda: f"{o} {p.sent}")
    else:
        c.cover("unknown")
        c.check("unknown ones are refused with nothing sent", not o.ok and not p.sent)


@contract("C34", "records", funcs=("CleanRecords._post_update_hook", "CleanRecords.last_clean_time", "CleanRecords.last_clean_timestamp", "CleanRecords.total_clean_time", "CleanRecords.total_clean_area", "CleanRecords.total_clean_count", "CleanRecords.area_unit", "Records.__pre_deserialize__"),
          covers=("read",), bounded="enumerated numbers")
def records(c):
    """Read twice: the totals and the last record are the device's, times in its zone; its data stay as they are."""
    t, a, n = c.pick("total", [(0, 0, 0), (123, 45, 6)])
    ts, ct, ca, dust = c.pick("last", [(1736797545, 25, 16, 0), (0, 0, 0, 1)])
    recs = c.pick("records", [[], [{"clean_time": 17, "clean_area": 11, "dust_collection": False, "timestamp": 1736598799, "error": 1, "info_num": 0, "map_id": 1, "message": 0, "record_index": 0, "start_type": 4, "task_type": 1}], [{"clean_time": k, "clean_area": 40 - k, "dust_collection": False, "timestamp": 1736598799 + k} for k in range(30)]])
    data = {"total_time": t, "total_area": a, "total_number": n, "record_list": recs, "record_list_num": len(recs), "lastest_day_record": [ts, ct, ca, dust]}
    unit = c.pick("unit", list(AreaUnit))
    d, p, m, tm, cl = device(c, {}, {"clean_percent": 2, "time": 1}, (M.CleanRecords, M.Time, M.Clean), getCleanRecords=data, get_device_time={"timestamp": 1, "time_diff": 0},
                             **{q: {"area_unit": unit.value} if q == "getAreaUnit" else {} for q in QUERIES[M.Clean]})
    tm._timezone = TZ
    for again in (False, True):
        o = c.call(m._post_update_hook)
        c.cover("read")
        c.check("any records are accepted", o.ok, lambda: f"{o}")
        c.check("the totals are the device's", get(c, m, "total_clean_time").value == timedelta(minutes=t) and get(c, m, "total_clean_area").value == a and get(c, m, "total_clean_count").value == n)
        c.check("so is the last one, in its zone", get(c, m, "last_clean_time").value == timedelta(minutes=ct) and get(c, m, "last_clean_area").value == ca and get(c, m, "last_clean_timestamp").value == datetime.fromtimestamp(ts, TZ) and get(c, m, "last_clean_timestamp").value.tzinfo is TZ)
        reads(c, get(c, m, "area_unit"), unit, "the unit of areas")
        got = get(c, m, "parsed_data").value.records
        c.check("and the others", len(got) == len(recs) and all(g.clean_area == r["clean_area"] and g.clean_time == timedelta(minutes=r["clean_time"]) and g.timestamp == datetime.fromtimestamp(r["timestamp"], TZ) and g.error == r.get("error", 0) for g, r in zip(got, recs)))
        c.check("the data of the update is not modified", data["lastest_day_record"] == [ts, ct, ca, dust], lambda: f"{data}")


# ---- points in time
@contract("C34", "times", funcs=("AutoOff.auto_off_at", "AutoOff.is_timer_active", "WaterleakSensor.alert_timestamp", "TriggerLogs.logs"), covers=("auto off", "inactive", "leak", "no leak", "logs"))
def times(c):
    what = c.pick("what", ["auto off", "inactive", "leak", "no leak", "logs"])
    c.cover(what)
    now = c.moment("now", TZ)
    c.patch(M.Time, "time", property(lambda self: now))
    s = c.int("seconds", 0, 4_000_000_000)
    info = {"auto_off": {"auto_off_status": "on", "auto_off_remain_time": s}, "inactive": {"auto_off_status": "off", "auto_off_remain_time": s}, "leak": {"trigger_timestamp": s}}.get(what.replace("auto off", "auto_off"), {})
    logs = [{"id": c.int(f"{i} id", 0, 10**9), "eventId": f"event {i}", "timestamp": c.int(f"{i} time", 0, 4_000_000_000), "event": c.pick(f"{i} event", ["motion", "keepOpen"])} for i in range(c.choose_index("logs", 3))] if what == "logs" else []
    d, p, ao, wl, tl = device(c, info, {"time": 1}, (M.AutoOff, M.WaterleakSensor, M.TriggerLogs), get_trigger_logs={"logs": logs})
    owner = d
    if what.endswith("leak") and c.maybe("sensor of a hub"):  # which has no time of its own
        owner = d._parent = device(c, {}, {"time": 1})[0]
        owner._device_type = DeviceType.Hub
    owner._modules["Time"] = c.call(M.Time, owner, "time").value
    owner._modules["Time"]._timezone = TZ
    if what in ("auto off", "inactive"):
        o = get(c, ao, "auto_off_at")
        exp = None if what == "inactive" else now + c.call(timedelta, seconds=s).value
        c.check("off after the remaining time, if the timer is active", o.ok and (o.value is None if exp is None else c.same(o.value, exp)), lambda: f"{o}")
    elif what == "logs":
        o = get(c, tl, "logs")
        c.check("every entry, in order", o.ok and len(o.value) == len(logs) and all(c.same({"id": g.id, "eventId": g.event_id, "timestamp": g.timestamp, "event": g.event}, e) for g, e in zip(o.value, logs)), lambda: f"{o}")
    else:
        o = get(c, wl, "alert_timestamp")
        exp = None if what == "no leak" else c.call(datetime.fromtimestamp, s, TZ).value
        c.check("the time of the alert, if there was one", o.ok and (o.value is None if exp is None else c.same(o.value, exp)), lambda: f"{o}")
