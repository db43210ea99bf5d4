"""C36: every feature shows, limits and sets what it says, and is offered exactly when the device has it."""
from kasa import Feature
from kasa.iot import IotBulb, IotPlug, IotStrip
from kasa.iot import modules as I
from kasa.iot.iotstrip import IotStripPlug
from kasa.smart import SmartDevice
from kasa.smart import modules as M
from kasa.smartcam import SmartCamDevice
from kasa.smartcam import modules as C
from pyvc.registry import contract, prop

from .devices import iot, smart

prop("C36", ["the attributes of modules that features name are replaced by stand-ins (their own contracts: C17, C21, C22, C29-C32, C34, C35)"])
T, G = Feature.Type, Feature.Category
SENSOR, BINARY, SWITCH, ACTION, NUMBER, CHOICE, UNKNOWN = T.Sensor, T.BinarySensor, T.Switch, T.Action, T.Number, T.Choice, T.Unknown
PRIMARY, CONFIG, INFO, DEBUG = G.Primary, G.Config, G.Info, G.Debug


class F:
    """What is documented of a feature: where value, unit, limits and choices come from and which setter is called."""

    def __init__(self, id, type, category, get=None, set=None, unit=None, range=None, choices=None, hint=None, own=True):
        self.id, self.type, self.category, self.get, self.set, self.unit, self.range, self.choices, self.hint, self.own = id, type, category, get, set, unit, range, choices, hint, own


class At(str):
    """The name of an attribute (of units, limits and choices)."""


def attr(c, box, name, value):
    """The attribute of the container is this value, whatever the way it is read."""
    c.patch(type(box), name, property(lambda self: value))


def examine(c, f, e, box, dev):
    """One feature against what is documented of it."""
    box = box if e.own else dev
    c.check("a feature has its documented type", f.type is e.type, lambda: f"{f.id} {f.type}")
    c.check("a feature has its documented category", f.category is e.category, lambda: f"{f.id} {f.category}")
    c.check("numbers are shown with the documented precision", f.precision_hint == e.hint, lambda: f"{f.id} {f.precision_hint}")
    if isinstance(e.unit, At):
        attr(c, box, e.unit, "the unit")
    u = c.call(getattr, f, "unit")
    c.check("a feature has its documented unit", u.ok and u.value == ("the unit" if isinstance(e.unit, At) else e.unit), lambda: f"{f.id} {u}")
    if e.type is ACTION:
        pass
    elif isinstance(e.get, str):
        attr(c, box, e.get, "the value")
        o = c.call(getattr, f, "value")
        c.check("a feature shows the value of its own attribute", o.ok and o.value == "the value", lambda: f"{f.id} {o}")
    else:
        e.get(c, f, box)
    lo, hi = 0, 2**16
    if e.range is not None:
        lo, hi = (c.int("lowest", -1000, 1000), c.int("highest", -1000, 100000)) if isinstance(e.range, At) else e.range
        if isinstance(e.range, At):
            attr(c, box, e.range, (lo, hi))
    if e.type is NUMBER:
        a, b = c.call(getattr, f, "minimum_value"), c.call(getattr, f, "maximum_value")
        c.check("a number has its documented limits", c.and_(a.ok, b.ok) and c.and_(c.eq(a.value, lo), c.eq(b.value, hi)), lambda: f"{f.id} {a} {b}")
    ch = ["the first", "the second"] if isinstance(e.choices, At) else e.choices
    if isinstance(e.choices, At):
        attr(c, box, e.choices, ch)
    if e.type is CHOICE:
        o = c.call(getattr, f, "choices")
        c.check("a choice offers the documented values", o.ok and list(o.value) == list(ch), lambda: f"{f.id} {o}")
    if e.set is None:
        v = c.call(f.set_value, 1)
        c.check("what is only read cannot be set", v.exactly(ValueError), lambda: f"{f.id} {v}")
        return
    if not isinstance(e.set, str):
        e.set(c, f, box)
        return
    calls = []

    async def setter(self, *a, **k):
        calls.append((a, k))
        return "the answer"

    c.patch(type(box), e.set, setter)
    ok = True
    if e.type is NUMBER:
        v = c.int("number", -100000, 100000, pool=(0, 1, 10, 100, 600, 6000, 10000, 120000))
        ok = c.and_(v >= lo, v <= hi)
    elif e.type is CHOICE:
        v = c.pick("choice", [*ch, "another"])
        ok = v in ch
    elif e.type is SWITCH:
        v = c.maybe("switched on")
    else:
        v = "given"
    o = c.call(f.set_value, v)
    if o.ok:
        c.cover("set")
        c.check("only values within the documented limits are set", ok, lambda: f"{f.id} {v}")
        want = () if e.type is ACTION else (v,)
        c.check("setting a feature calls its own setter once with exactly the value", len(calls) == 1 and len(calls[0][0]) == len(want) and not calls[0][1] and c.and_(True, *[c.same(x, y) for x, y in zip(calls[0][0], want)]), lambda: f"{f.id} {calls}")
        c.check("and returns its answer", o.value == "the answer")
    else:
        c.check("only values outside the documented limits are refused, untouched", c.and_(o.exactly(ValueError) and not calls, c.not_(ok)), lambda: f"{f.id} {v} {o}")


def features(c, dev, box, expected, base=()):
    """The device with its modules: it has exactly these features, each as documented."""
    o = c.call(dev._initialize_features)
    if not o.ok:
        c.check("the features are made", False, lambda: f"{o}")
        return
    fs = dev.features
    want = [e.id for e in (*base, *expected)]
    c.check("the device offers exactly the documented features", sorted(fs) == sorted(want), lambda: f"{sorted(set(fs) ^ set(want))}")
    c.check("under their own ids, with a name", all(k == f.id and f.name for k, f in fs.items()))
    i = c.choose_index("feature", len(expected)) if expected else None
    if i is None:
        return
    e = expected[i]
    if e.id in fs:
        examine(c, fs[e.id], e, box, dev)
        c.check("reading the device's features again gives the same ones", dev.features[e.id] is fs[e.id])


DEV_ID = F("device_id", SENSOR, DEBUG, "device_id", own=False)
REBOOT = F("reboot", ACTION, DEBUG, set="reboot", own=False)
SMART_BASE = (DEV_ID, REBOOT)
MINIMAL = ("device_on", "signal_level", "rssi", "ssid", "on_time")


def smart_dev(c, cls, info=None, components=None, name=None, **last):
    d, p = smart(info=info, components=components, **last)
    for k in MINIMAL:
        if not info or k not in info:
            d._info.pop(k, None)
    if cls is None:
        return d, None
    m = c.call(cls, d, name or cls.__name__)
    assert m.ok, m
    d._modules[m.value.name] = m.value
    return d, m.value


def add(name, cls, make, *expected, funcs=None, **kw):
    """One contract for the features of a module, where nothing depends on what the device reports."""

    def driver(c, make=make, cls=cls, expected=list(expected)):
        d, m = make(c, cls)
        features(c, d, m, expected, SMART_BASE if isinstance(d, SmartDevice) and not isinstance(d, SmartCamDevice) else IOT_BASE if not isinstance(d, SmartDevice) else ())

    contract("C36", name, funcs=funcs or (f"{cls.__name__}._initialize_features", "Feature.value", "Feature.set_value", "Feature.__post_init__"), covers=("set",) if any(isinstance(e.set, str) for e in expected) else (), runs=60, **kw)(driver)


def with_info(info=None, components=None, **last):
    return lambda c, cls: smart_dev(c, cls, info, components, **last)


plain = with_info()
DUR = "alarm_duration"
add("alarm", M.Alarm, plain,
    F("alarm", BINARY, INFO, "active"), F("alarm_source", SENSOR, INFO, "source"),
    F("alarm_sound", CHOICE, CONFIG, "alarm_sound", "set_alarm_sound", choices=At("alarm_sounds")),
    F("alarm_volume", CHOICE, CONFIG, lambda c, f, m: volume(c, f, m), "set_alarm_volume", choices=["mute", "low", "normal", "high"]),
    F("alarm_volume_level", NUMBER, CONFIG, "alarm_volume", "set_alarm_volume", range=(0, 3)),
    F("alarm_duration", NUMBER, CONFIG, "alarm_duration", "set_alarm_duration", range=(1, 600)),
    F("test_alarm", ACTION, CONFIG, set="play"), F("stop_alarm", ACTION, CONFIG, set="stop"))


def volume(c, f, m):
    v = c.pick("volume", ["mute", "low", "normal", "high"])
    attr(c, m, "data", {"get_alarm_configure": {"volume": v}})
    o = c.call(getattr, f, "value")
    c.check("the volume shown as a choice is the one reported", o.ok and o.value == v, lambda: f"{o}")


add("auto_off", M.AutoOff, plain, F("auto_off_enabled", SWITCH, CONFIG, "enabled", "set_enabled"), F("auto_off_minutes", NUMBER, CONFIG, "delay", "set_delay", unit="min"), F("auto_off_at", SENSOR, INFO, "auto_off_at"))
add("brightness", M.Brightness, plain, F("brightness", NUMBER, PRIMARY, "brightness", "set_brightness", range=(0, 100)))
add("child_lock", M.ChildLock, plain, F("child_lock", SWITCH, CONFIG, "enabled", "set_enabled"))
add("child_protection", M.ChildProtection, plain, F("child_lock", SWITCH, CONFIG, "enabled", "set_enabled"))
add("child_setup", M.ChildSetup, plain, F("pair", ACTION, CONFIG, set="pair"))
add("clean", M.Clean, plain,
    F("vacuum_return_home", ACTION, PRIMARY, set="return_home"), F("vacuum_start", ACTION, PRIMARY, set="start"), F("vacuum_pause", ACTION, PRIMARY, set="pause"),
    F("vacuum_status", SENSOR, PRIMARY, "status"), F("vacuum_error", SENSOR, INFO, "error"), F("battery_level", SENSOR, INFO, "battery", unit="%"),
    F("vacuum_fan_speed", CHOICE, PRIMARY, "fan_speed_preset", "set_fan_speed_preset", choices=["Quiet", "Standard", "Turbo", "Max", "Ultra"]),
    F("clean_count", NUMBER, CONFIG, "clean_count", "set_clean_count", range=(1, 3)), F("carpet_boost", SWITCH, CONFIG, "carpet_boost", "set_carpet_boost"),
    F("clean_area", SENSOR, INFO, "clean_area", unit=At("area_unit")), F("clean_time", SENSOR, INFO, "clean_time"), F("clean_progress", SENSOR, INFO, "clean_progress", unit="%"))
add("clean_records", M.CleanRecords, plain,
    F("total_clean_area", SENSOR, DEBUG, "total_clean_area", unit=At("area_unit")), F("total_clean_time", SENSOR, DEBUG, "total_clean_time"),
    F("last_clean_area", SENSOR, DEBUG, "last_clean_area", unit=At("area_unit")), F("last_clean_time", SENSOR, DEBUG, "last_clean_time"),
    F("total_clean_count", SENSOR, DEBUG, "total_clean_count"), F("last_clean_timestamp", SENSOR, DEBUG, "last_clean_timestamp"))
add("cloud", M.Cloud, plain, F("cloud_connection", BINARY, INFO, "is_connected"))
add("color", M.Color, plain, F("hsv", UNKNOWN, CONFIG, "hsv", "set_hsv"))
add("color_temperature", M.ColorTemperature, plain, F("color_temperature", NUMBER, PRIMARY, "color_temp", "set_color_temp", range=At("valid_temperature_range")))
add("contact_sensor", M.ContactSensor, plain, F("is_open", BINARY, PRIMARY, "is_open"))
add("dustbin", M.Dustbin, plain, F("dustbin_empty", ACTION, CONFIG, set="start_emptying"), F("dustbin_autocollection_enabled", SWITCH, CONFIG, "auto_collection", "set_auto_collection"),
    F("dustbin_mode", CHOICE, CONFIG, "mode", "set_mode", choices=["Smart", "Light", "Balanced", "Max", "Off"]))
add("fan", M.Fan, plain, F("fan_speed_level", NUMBER, PRIMARY, "fan_speed_level", "set_fan_speed_level", range=(0, 4)), F("fan_sleep_mode", SWITCH, CONFIG, "sleep_mode", "set_sleep_mode"))
add("humidity", M.HumiditySensor, plain, F("humidity", SENSOR, PRIMARY, "humidity", unit="%"), F("humidity_warning", BINARY, DEBUG, "humidity_warning"))
add("led", M.Led, plain, F("led", SWITCH, CONFIG, "led", "set_led"))
add("light_effect", M.LightEffect, plain, F("light_effect", CHOICE, PRIMARY, "effect", "set_effect", choices=At("effect_list")))
add("light_strip_effect", M.LightStripEffect, lambda c, cls: smart_dev(c, cls, None, {"light_strip_lighting_effect": 1}), F("light_effect", CHOICE, PRIMARY, "effect", "set_effect", choices=At("effect_list")))
add("light_preset", M.LightPreset, plain, F("light_preset", CHOICE, CONFIG, "preset", "set_preset", choices=At("preset_list")))
add("mop", M.Mop, plain, F("mop_attached", BINARY, INFO, "mop_attached"), F("mop_waterlevel", CHOICE, CONFIG, "waterlevel", "set_waterlevel", choices=["Disable", "Low", "Medium", "High"]))
add("motion_sensor", M.MotionSensor, plain, F("motion_detected", BINARY, PRIMARY, "motion_detected"))
add("overheat", M.OverheatProtection, plain, F("overheated", BINARY, INFO, "overheated"))
add("report_mode", M.ReportMode, plain, F("report_interval", SENSOR, DEBUG, "report_interval", unit="s"))
add("speaker", M.Speaker, plain, F("locate", ACTION, PRIMARY, set="locate"), F("volume", NUMBER, CONFIG, "volume", "set_volume", range=(0, 100)))
add("temperature_control", M.TemperatureControl, plain,
    F("target_temperature", NUMBER, PRIMARY, "target_temperature", "set_target_temperature", range=At("allowed_temperature_range")),
    F("temperature_offset", NUMBER, CONFIG, "temperature_offset", "set_temperature_offset", range=(-10, 10)),
    F("state", SWITCH, PRIMARY, "state", "set_state"), F("thermostat_mode", SENSOR, PRIMARY, "mode"))
add("time", M.Time, plain, F("device_time", SENSOR, DEBUG, "time"))
add("water_leak", M.WaterleakSensor, plain, F("water_leak", SENSOR, DEBUG, "status"), F("water_alert", BINARY, PRIMARY, "alert"), F("water_alert_timestamp", SENSOR, INFO, "alert_timestamp"))


def shown(key, *path):
    """The value is the entry of the module's data."""

    def get(c, f, m):
        v = c.str("code", pool=("000-00-000",))
        for k in reversed(path):
            v = {k: v, "other": "x"}
        attr(c, m, "data", v)
        o = c.call(getattr, f, "value")
        x = v
        for k in path:
            x = x[k]
        c.check("a setup code is the one reported", o.ok and c.eq(o.value, x), lambda: f"{o}")

    return get


add("homekit", M.HomeKit, plain, F("homekit_setup_code", SENSOR, DEBUG, shown("", "mfi_setup_code")))
add("matter", M.Matter, plain, F("matter_setup_code", SENSOR, DEBUG, shown("", "setup_code")), F("matter_setup_payload", SENSOR, DEBUG, shown("", "setup_payload")))


@contract("C36", "battery", funcs=("BatterySensor._initialize_features",), runs=60)
def battery(c):
    info = {k: c.int(k, 0, 100) for k in ("at_low_battery", "is_low", "battery_percentage") if c.maybe(k)}
    d, m = smart_dev(c, M.BatterySensor, info)
    e = [F("battery_low", BINARY, DEBUG, "battery_low")] if "at_low_battery" in info or "is_low" in info else []
    e += [F("battery_level", SENSOR, INFO, "battery", unit="%")] if "battery_percentage" in info else []
    features(c, d, m, e, SMART_BASE)


KEYS = {"main_brush": "roll_brush_time", "side_brush": "edge_brush_time", "filter": "filter_time", "sensor": "sensor_time", "charging_contacts": "charge_contact_time"}
LIFE = {"main_brush": 400, "side_brush": 200, "filter": 200, "sensor": 30, "charging_contacts": 30}


@contract("C36", "consumables", funcs=("Consumables._initialize_features", "Consumables._post_update_hook"), covers=("set",), runs=60)
def consumables(c):
    from datetime import timedelta

    which = c.pick("reported", [list(KEYS), ["filter"], ["main_brush", "sensor"], []])
    mins = {k: c.int(f"minutes {k}", 0, 10**6) for k in which}
    d, m = smart_dev(c, M.Consumables)
    attr(c, m, "data", {KEYS[k]: mins[k] for k in which} | {"rag_time": 5})
    o = c.call(m._post_update_hook)
    c.check("the answer is processed", o.ok, lambda: f"{o}")

    def used(k, left):
        def get(c, f, m):
            o = c.call(getattr, f, "value")
            u = timedelta(minutes=mins[k]) if not c.symbolic else None
            if c.symbolic:
                c.check("each consumable shows its own time", o.ok and c.eq(c.call(lambda x: x.total_seconds(), o.value).value, (LIFE[k] * 3600 - 60 * mins[k]) if left else 60 * mins[k]), lambda: f"{f.id} {o}")
            else:
                c.check("each consumable shows its own time", o.ok and o.value == (timedelta(hours=LIFE[k]) - u if left else u), lambda: f"{f.id} {o}")

        return get

    def reset(k):
        def st(c, f, m):
            calls = []

            async def call(self, method, params=None):
                calls.append((method, params))
                return {method: 0}

            c.patch(type(m), "call", call)
            o = c.call(f.set_value, True)
            c.cover("set")
            want = KEYS[k]
            c.check("resetting a consumable resets that one", o.ok and len(calls) == 1 and calls[0][0] == "resetConsumablesTime" and calls[0][1] == {"reset_list": [want.removesuffix("_time")]}, lambda: f"{f.id} {o} {calls}")

        return st

    e = []
    for k in which:
        e += [F(f"{k}_used", SENSOR, DEBUG, used(k, False)), F(f"{k}_remaining", SENSOR, INFO, used(k, True)), F(f"{k}_reset", ACTION, DEBUG, set=reset(k))]
    features(c, d, m, e, SMART_BASE)


@contract("C36", "firmware", funcs=("Firmware._initialize_features",), covers=("set",), runs=60)
def firmware(c):
    v = c.pick("version", [1, 2, 3])
    d, m = smart_dev(c, M.Firmware, None, {"firmware": v})
    e = [F("auto_update_enabled", SWITCH, CONFIG, "auto_update_enabled", "set_auto_update_enabled")] if v > 1 else []
    e += [F("update_available", BINARY, INFO, "update_available"), F("current_firmware_version", SENSOR, DEBUG, "current_firmware"),
          F("available_firmware_version", SENSOR, DEBUG, "latest_firmware"), F("check_latest_firmware", ACTION, INFO, set="check_latest_firmware")]
    features(c, d, m, e, SMART_BASE)


@contract("C36", "light_transition", funcs=("LightTransition._initialize_features", "LightTransition._post_update_hook"), covers=("set",), runs=60)
def transition(c):
    v = c.pick("version", [1, 2, 3])
    d, m = smart_dev(c, M.LightTransition, None, {"on_off_gradually": v})
    lim = [60, 60]
    if v == 1:
        data = {"enable": True}
        e = [F("smooth_transitions", SWITCH, CONFIG, "enabled", "set_enabled")]
    else:
        data = {"on_state": {"duration": 5, "enable": True}, "off_state": {"duration": 6, "enable": True}}
        if c.maybe("limits reported"):
            lim = [c.int("longest on", 1, 1000), c.int("longest off", 1, 1000)]
            data["on_state"]["max_duration"], data["off_state"]["max_duration"] = lim
        e = [F("smooth_transition_on", NUMBER, CONFIG, "turn_on_transition", "set_turn_on_transition", range=(0, lim[0])), F("smooth_transition_off", NUMBER, CONFIG, "turn_off_transition", "set_turn_off_transition", range=(0, lim[1]))]
    attr(c, m, "data", data)
    o = c.call(m._post_update_hook)
    c.check("the answer is processed", o.ok, lambda: f"{o}")
    features(c, d, m, e, SMART_BASE)


@contract("C36", "power_protection", funcs=("PowerProtection._initialize_features", "PowerProtection._threshold_or_zero", "PowerProtection._set_threshold_auto_enable"), covers=("set",), runs=60)
def power_protection(c):
    most, power, on = c.int("max power", 1, 10**5), c.int("threshold", 0, 10**5), c.maybe("enabled")
    d, m = smart_dev(c, M.PowerProtection, {"power_protection_status": "normal"}, None, get_protection_power={"enabled": on, "protection_power": power}, get_max_power={"max_power": most})
    p = d.protocol
    p.on_query = lambda r: {k: "ok" for k in r}

    def value(c, f, m):
        o = c.call(getattr, f, "value")
        c.check("the threshold is shown, 0 while it is off", o.ok and c.eq(o.value, power if on else 0), lambda: f"{o}")

    def setter(c, f, m):
        v = c.int("new threshold", -10, 10**6)
        o = c.call(f.set_value, v)
        ok = c.and_(v >= 0, v <= most)
        if o.ok:
            c.cover("set")
            c.check("only thresholds within the device's power are set", ok)
            off = c.eq(v, 0)
            c.check("one command is sent", len(p.sent) == 1 and list(p.sent[0]) == ["set_protection_power"], lambda: f"{p.sent}")
            q = p.sent[0]["set_protection_power"]
            c.check("a threshold of 0 switches the protection off, any other sets it and switches it on", c.and_(c.eq(q["enabled"], c.not_(off)), c.ite(off, c.eq(q["protection_power"], power), c.eq(q["protection_power"], v))) if c.symbolic else
                    q["enabled"] == (v != 0) and q["protection_power"] == (v if v else power), lambda: f"{q}")
        else:
            c.check("other thresholds are refused", c.and_(c.not_(ok), o.exactly(ValueError) and not p.sent), lambda: f"{o}")

    features(c, d, m, [F("overloaded", BINARY, INFO, "overloaded"), F("power_protection_threshold", NUMBER, CONFIG, value, setter, unit="W", range=(0, most))], SMART_BASE)


@contract("C36", "temperature", funcs=("TemperatureSensor._initialize_features",), covers=("set",), runs=60)
def temperature(c):
    warn = c.maybe("warning reported")
    d, m = smart_dev(c, M.TemperatureSensor, {"current_temp": 20, **({"current_temp_exception": 0} if warn else {})})
    e = [F("temperature", SENSOR, PRIMARY, "temperature", unit=At("temperature_unit"))]
    e += [F("temperature_warning", BINARY, DEBUG, "temperature_warning")] if warn else []
    e += [F("temperature_unit", CHOICE, CONFIG, "temperature_unit", "set_temperature_unit", choices=["celsius", "fahrenheit"])]
    features(c, d, m, e, SMART_BASE)


def energy(c, cls, make, base):
    f = cls.ModuleFeature
    total, vc = c.maybe("measures totals"), c.maybe("measures voltage and current")
    d, m = make(c, cls)
    c.patch(cls, "supports", lambda self, x: {f.CONSUMPTION_TOTAL: total, f.VOLTAGE_CURRENT: vc}.get(x, True))
    e = [F("current_consumption", SENSOR, PRIMARY, "current_consumption", unit="W", hint=1), F("consumption_today", SENSOR, INFO, "consumption_today", unit="kWh", hint=3),
         F("consumption_this_month", SENSOR, INFO, "consumption_this_month", unit="kWh", hint=3)]
    e += [F("consumption_total", SENSOR, INFO, "consumption_total", unit="kWh", hint=3)] if total else []
    e += [F("voltage", SENSOR, PRIMARY, "voltage", unit="V", hint=1), F("current", SENSOR, PRIMARY, "current", unit="A", hint=2)] if vc else []
    features(c, d, m, e, base)


@contract("C36", "energy", funcs=("Energy._initialize_features",), runs=60)
def smart_energy(c):
    energy(c, M.Energy, plain, SMART_BASE)


@contract("C36", "smart_device", funcs=("SmartDevice._initialize_features", "Device.features", "Device._add_feature"), covers=("set",), runs=100)
def smart_device(c):
    e = list(SMART_BASE)
    info = {}

    def entry(k):
        def get(c, f, d):
            o = c.call(getattr, f, "value")
            c.check("a feature shows the value of its own attribute", o.ok and c.eq(o.value, info[k]), lambda: f"{f.id} {o}")

        return get

    for k, x in {"device_on": F("state", SWITCH, PRIMARY, "is_on", "set_state", own=False), "signal_level": F("signal_level", SENSOR, INFO, entry("signal_level"), own=False),
                 "rssi": F("rssi", SENSOR, DEBUG, entry("rssi"), unit="dBm", own=False), "ssid": F("ssid", SENSOR, DEBUG, "ssid", own=False), "on_time": F("on_since", SENSOR, DEBUG, "on_since", own=False)}.items():
        if c.maybe(f"{k} reported"):
            info[k] = c.int(k, -100, 10**6)
            e.append(x)
    d, _ = smart_dev(c, None, info)
    if c.maybe("paired child"):
        hub, cs = smart_dev(c, M.ChildSetup)
        d._parent = hub
        calls = []

        async def unpair(self, i):
            calls.append((self, i))

        c.patch(M.ChildSetup, "unpair", unpair)

        def remove(c, f, d):
            o = c.call(f.set_value, True)
            c.cover("set")
            c.check("unpairing removes this device from its hub", o.ok and len(calls) == 1 and calls[0][0] is cs and calls[0][1] == "D", lambda: f"{o} {calls}")

        e.append(F("unpair", ACTION, DEBUG, set=remove, own=False))
    features(c, d, None, e)


# ---------------------------------------------------------------- cameras
def cam(c, cls, info=None, modules=(), **last):
    d, p = smart(SmartCamDevice, info={"device_type": "SMART.IPCAMERA", **(info or {})}, **last)
    for x in modules:
        d._modules[x._module_name()] = c.call(x, d, x._module_name()).value
        c.patch(x, "_initialize_features", lambda self: None)
    m = c.call(cls, d, cls._module_name())
    assert m.ok, m
    d._modules[m.value.name] = m.value
    return d, m.value


add("camera_alarm", C.Alarm, cam, F("alarm", BINARY, DEBUG, "active"), F("alarm_sound", CHOICE, CONFIG, "alarm_sound", "set_alarm_sound", choices=At("alarm_sounds")),
    F("alarm_volume", NUMBER, CONFIG, "alarm_volume", "set_alarm_volume", range=(0, 10)), F("alarm_duration", NUMBER, CONFIG, "alarm_duration", "set_alarm_duration", range=(0, 6000)),
    F("test_alarm", ACTION, CONFIG, set="play"), F("stop_alarm", ACTION, CONFIG, set="stop"))
for _n, _c in (("baby_cry_detection", C.BabyCryDetection), ("motion_detection", C.MotionDetection), ("person_detection", C.PersonDetection), ("pet_detection", C.PetDetection), ("tamper_detection", C.TamperDetection)):
    add(_n, _c, cam, F(_n, SWITCH, CONFIG, "enabled", "set_enabled"))
add("camera_battery", C.Battery, cam, F("battery_low", BINARY, DEBUG, "battery_low"), F("battery_level", SENSOR, INFO, "battery_percent", unit="%"), F("battery_temperature", SENSOR, DEBUG, "battery_temperature", unit="celsius"),
    F("battery_voltage", SENSOR, DEBUG, "battery_voltage", unit="V"), F("battery_charging", BINARY, DEBUG, "battery_charging"))
add("camera_child_setup", C.ChildSetup, cam, F("pair", ACTION, CONFIG, set="pair"))
add("camera_matter", C.Matter, cam, F("matter_setup_code", SENSOR, DEBUG, shown("", "setup_code")), F("matter_setup_payload", SENSOR, DEBUG, shown("", "setup_payload")))
add("camera_led", C.Led, cam, F("led", SWITCH, CONFIG, "led", "set_led"))
add("camera_time", C.Time, cam, F("device_time", SENSOR, DEBUG, "time"))


@contract("C36", "camera", funcs=("Camera._initialize_features",), runs=60)
def camera_state(c):
    mask = c.maybe("has a lens mask")
    d, m = cam(c, C.Camera, modules=(C.LensMask,) if mask else ())
    features(c, d, m, [F("state", SWITCH, PRIMARY, "is_on", "set_state")] if mask else [])


@contract("C36", "camera_device", funcs=("DeviceModule._initialize_features",), runs=60)
def camera_device(c):
    there = c.maybe("signal reported")
    d, m = cam(c, C.DeviceModule)
    attr(c, m, "rssi", c.pick("rssi", [-40, 0]) if there else None)
    features(c, d, m, [DEV_ID] + ([F("rssi", SENSOR, DEBUG, "rssi", unit="dBm"), F("signal_level", SENSOR, INFO, "signal_level")] if there else []))


@contract("C36", "pan_tilt", funcs=("PanTilt._initialize_features", "PanTilt.pan", "PanTilt.tilt", "PanTilt.move"), covers=("moved",), runs=100)
def pan_tilt(c):
    d, m = cam(c, C.PanTilt)
    p = d.protocol
    p.on_query = lambda r: {"do": "ok"}
    o = c.call(d._initialize_features)
    fs = d.features
    c.check("the device offers exactly the documented features", o.ok and sorted(fs) == sorted(["pan_right", "pan_left", "pan_step", "tilt_up", "tilt_down", "tilt_step"]), lambda: f"{o} {sorted(fs)}")
    steps = {}
    for k, default in (("pan", 30), ("tilt", 10)):
        f = fs[f"{k}_step"]
        c.check("a step is a setting", f.type is NUMBER and f.category is CONFIG)
        steps[k] = default
        if c.maybe(f"{k} step set"):
            v = c.int(f"{k} step", -10, 70000)
            o = c.call(f.set_value, v)
            ok = c.and_(v >= 0, v <= 65536)
            c.check("steps up to the default limit are set", ok if o.ok else c.not_(ok))
            if o.ok:
                steps[k] = v
        o = c.call(getattr, f, "value")
        c.check("the step shown is the one set", o.ok and c.eq(o.value, steps[k]), lambda: f"{k} {o}")
    c.check("setting steps sends nothing", not p.sent)
    act = c.pick("action", ["pan_right", "pan_left", "tilt_up", "tilt_down"])
    o = c.call(fs[act].set_value, True)
    x, y = {"pan_right": (-steps["pan"], 0), "pan_left": (steps["pan"], 0), "tilt_up": (0, steps["tilt"]), "tilt_down": (0, -steps["tilt"])}[act]
    c.cover("moved")
    c.check("the motor is told to move once", o.ok and len(p.sent) == 1, lambda: f"{o} {p.sent}")
    mv = p.sent[0]["do"]["motor"]["move"]
    c.check("by the step in that direction", c.and_(c.eq(mv["x_coord"], c.call(str, x).value), c.eq(mv["y_coord"], c.call(str, y).value)), lambda: f"{act} {mv}")


# ---------------------------------------------------------------- legacy devices
STATE = F("state", SWITCH, PRIMARY, "is_on", "set_state", own=False)
IOT_BASE = (STATE, F("rssi", SENSOR, DEBUG, "rssi", unit="dBm", own=False), REBOOT, F("on_since", SENSOR, INFO, "on_since", own=False))


def legacy(c, cls, dev=IotPlug, name="module", info=None, **last):
    d, p = iot(dev, sys_info=info, **last)
    d._modules = {}
    d._supported_modules = d._modules
    if cls is None:
        return d, None
    m = c.call(cls, d, name)
    assert m.ok, m
    d._modules[name] = m.value
    return d, m.value


add("legacy_ambient_light", I.AmbientLight, legacy, F("ambient_light_enabled", SWITCH, CONFIG, "enabled", "set_enabled"), F("ambient_light", SENSOR, PRIMARY, "ambientlight_brightness", unit="%"))
add("legacy_cloud", I.Cloud, legacy, F("cloud_connection", BINARY, INFO, "is_connected"))
add("legacy_dimmer", I.Dimmer, legacy, F("dimmer_threshold_min", NUMBER, CONFIG, "threshold_min", "set_threshold_min", range=(0, 51)),
    F("dimmer_fade_off_time", NUMBER, CONFIG, "fade_off_time", "set_fade_off_time", range=(0, 10000)), F("dimmer_fade_on_time", NUMBER, CONFIG, "fade_on_time", "set_fade_on_time", range=(0, 10000)),
    F("dimmer_gentle_off_time", NUMBER, CONFIG, "gentle_off_time", "set_gentle_off_time", range=(0, 120000)), F("dimmer_gentle_on_time", NUMBER, CONFIG, "gentle_on_time", "set_gentle_on_time", range=(0, 120000)),
    F("dimmer_ramp_rate", NUMBER, CONFIG, "ramp_rate", "set_ramp_rate", range=(10, 50)))
add("legacy_led", I.Led, legacy, F("led", SWITCH, CONFIG, "led", "set_led"))
add("legacy_effect", I.LightEffect, legacy, F("light_effect", CHOICE, PRIMARY, "effect", "set_effect", choices=At("effect_list")))
add("legacy_preset", I.LightPreset, legacy, F("light_preset", CHOICE, CONFIG, "preset", "set_preset", choices=At("preset_list")))


@contract("C36", "legacy_energy", funcs=("Energy._initialize_features",), runs=60)
def legacy_energy(c):
    energy(c, I.Emeter, legacy, IOT_BASE)


@contract("C36", "legacy_device", funcs=("IotDevice._initialize_features",), covers=("set",), runs=60)
def legacy_device(c):
    timed = c.maybe("reports its on time")
    d, _ = legacy(c, None)
    if not timed:
        del d._sys_info["on_time"]
    features(c, d, None, [*IOT_BASE[:3], *(IOT_BASE[3:] if timed else ())])


@contract("C36", "legacy_socket", funcs=("IotStripPlug._initialize_features",), covers=("set",), runs=60)
def legacy_socket(c):
    strip, _ = iot(IotStrip, sys_info={"children": [{"id": "00", "state": 1, "alias": "a", "on_time": 1}], "child_num": 1})
    d = IotStripPlug("127.0.0.1", parent=strip, child_id="00")
    d._modules = {}
    d._supported_modules = d._modules
    features(c, d, None, [STATE, F("on_since", SENSOR, INFO, "on_since", own=False)])


@contract("C36", "legacy_strip", funcs=("IotStrip._initialize_features", "IotDevice._initialize_features"), runs=60)
def legacy_strip(c):
    d, _ = legacy(c, None, IotStrip)
    del d._sys_info["on_time"]
    known = c.maybe("its sockets are known")
    if known:
        d._children = {"00": object()}
    features(c, d, None, list(IOT_BASE) if known else [])


@contract("C36", "legacy_light", funcs=("iot Light._initialize_features",), covers=("set",), runs=100)
def legacy_light(c):
    dim, temp, col = c.maybe("dimmable"), c.maybe("variable color temperature"), c.maybe("color")
    d, m = legacy(c, I.Light, IotBulb, "light", {"type": "IOT.SMARTBULB", "model": "LB130(US)", "is_dimmable": int(dim), "is_variable_color_temp": int(temp), "is_color": int(col), "light_state": {"on_off": 1}})
    d._sys_info.pop("on_time")
    e = [F("brightness", NUMBER, PRIMARY, "brightness", "set_brightness", range=(0, 100))] if dim else []
    e += [F("color_temperature", NUMBER, PRIMARY, "color_temp", "set_color_temp", range=(2500, 9000))] if temp else []
    e += [F("hsv", UNKNOWN, CONFIG, "hsv", "set_hsv")] if col else []
    features(c, d, m, e, IOT_BASE[:3])


@contract("C36", "legacy_motion", funcs=("Motion._initialize_features", "Motion._set_range_from_str", "Motion.ranges"), covers=("set", "none"), runs=100)
def legacy_motion(c):
    missing = c.pick("missing", [None, "get_config", "get_adc_value", "enable"])
    cfg = {"enable": 1, "array": [80, 50, 20, 10], "trigger_index": 1, "min_adc": 0, "max_adc": 4095, "cold_time": 60000}
    data = {"get_config": cfg, "get_adc_value": {"value": 5}}
    (cfg if missing == "enable" else data).pop(missing, None)
    d, m = legacy(c, I.Motion, info=None, name="motion")
    attr(c, m, "data", data)
    p = d.protocol
    p.on_query = lambda r: {"smartlife.iot.PIR": {"set_trigger_sens": {"err_code": 0}}}
    m._module = "smartlife.iot.PIR"

    def choose(c, f, m):
        i, n = c.choose_index("range", 4), ["Far", "Mid", "Near", "Custom"]
        o = c.call(f.set_value, n[i])
        c.cover("set")
        c.check("choosing a range sets the one of that name", o.ok and p.sent == [{"smartlife.iot.PIR": {"set_trigger_sens": {"index": i}}}], lambda: f"{o} {p.sent}")

    if missing:
        c.cover("none")
    features(c, d, m, [] if missing else [
        F("pir_enabled", SWITCH, CONFIG, "enabled", "set_enabled"), F("pir_range", CHOICE, CONFIG, "range", choose, choices=["Far", "Mid", "Near", "Custom"]),
        F("pir_threshold", NUMBER, CONFIG, "threshold", "set_threshold", range=(0, 100)), F("pir_triggered", SENSOR, PRIMARY, "pir_triggered"), F("pir_value", SENSOR, INFO, "pir_value"),
        F("pir_adc_value", SENSOR, DEBUG, "adc_value"), F("pir_adc_min", SENSOR, DEBUG, "adc_min"), F("pir_adc_mid", SENSOR, DEBUG, "adc_mid"), F("pir_adc_max", SENSOR, DEBUG, "adc_max"),
        F("pir_percent", SENSOR, DEBUG, "pir_percent", unit="%")], IOT_BASE)


# ---------------------------------------------------------------- from an attribute to its feature
LOOKUP = {
    "alarm": (M.Alarm, {"alarm_sound": "alarm_sound", "set_alarm_sound": "alarm_sound", "alarm_volume": "alarm_volume_level", "alarm_duration": "alarm_duration", "set_alarm_duration": "alarm_duration"}),
    "fan": (M.Fan, {"fan_speed_level": "fan_speed_level", "set_fan_speed_level": "fan_speed_level", "sleep_mode": "fan_sleep_mode", "set_sleep_mode": "fan_sleep_mode"}),
    "mop": (M.Mop, {"waterlevel": "mop_waterlevel", "set_waterlevel": "mop_waterlevel"}),
    "speaker": (M.Speaker, {"volume": "volume", "set_volume": "volume"}),
    "clean": (M.Clean, {"fan_speed_preset": "vacuum_fan_speed", "clean_area": "clean_area", "clean_count": "clean_count", "set_clean_count": "clean_count"}),
    "power": (M.PowerProtection, {"protection_threshold": "power_protection_threshold"}),
    "records": (M.CleanRecords, {"total_clean_area": "total_clean_area", "last_clean_area": "last_clean_area"}),
}


def lookup(c, m, init, table, offered):
    """Which feature belongs to an attribute, asked before and after the features are known."""
    name = c.pick("attribute", list(table))
    how = getattr(type(m), name) if c.maybe("asked by the attribute itself") else name
    if c.maybe("asked early"):
        o = c.call(m.get_feature, how)
        c.check("before the features are known there is none", o.ok and o.value is None, lambda: f"{name} {o}")
    o = init()
    c.check("the features are made", o.ok, lambda: f"{o}")
    o = c.call(m.get_feature, how)
    want = offered.get(table[name])
    c.cover("there" if want else "not there")
    c.check("an attribute's feature is the one offered for it, or none", o.ok and o.value is want, lambda: f"{name} {o}")
    o = c.call(m.has_feature, how)
    c.check("has_feature tells whether there is one", o.ok and o.value is (want is not None), lambda: f"{name} {o}")


for _n, (_c, _t) in LOOKUP.items():
    def driver(c, cls=_c, table=_t):
        d, m = smart_dev(c, cls)
        lookup(c, m, lambda: c.call(m._initialize_features), table, m._module_features)

    contract("C36", f"lookup_{_n}", funcs=("Module.get_feature", "Module.has_feature", "_get_bound_feature", "_get_feature_attribute"), covers=("there",), runs=60)(driver)

PARTS = {"light": (M.Light, {"brightness": (M.Brightness, "brightness"), "color_temp": (M.ColorTemperature, "color_temperature"), "hsv": (M.Color, "hsv"),
                             "set_brightness": (M.Brightness, "brightness"), "set_color_temp": (M.ColorTemperature, "color_temperature"), "set_hsv": (M.Color, "hsv")}),
         "thermostat": (M.Thermostat, {"target_temperature": (M.TemperatureControl, "target_temperature"), "set_target_temperature": (M.TemperatureControl, "target_temperature"), "temperature": (M.TemperatureSensor, "temperature")})}
for _n, (_c, _t) in PARTS.items():
    def driver(c, cls=_c, table=_t):
        d, m = smart_dev(c, cls)
        made = {}
        for x in dict.fromkeys(x for x, _ in table.values()):
            if c.maybe(f"has {x.__name__}"):
                made[x] = c.call(x, d, x.__name__).value
                d._modules[made[x].name] = made[x]
        offered = {}

        def init():
            o = c.call(d._initialize_features)
            for k, (x, i) in table.items():
                if x in made:
                    offered[i] = d.features[i]
            return o

        lookup(c, m, init, {k: i for k, (_, i) in table.items()}, offered)

    contract("C36", f"lookup_{_n}", funcs=("Module.get_feature", f"{_c.__name__}._all_features"), covers=("there", "not there"), runs=60)(driver)


@contract("C36", "lookup_legacy_light", funcs=("Module.get_feature", "iot Light._initialize_features"), covers=("there", "not there"), runs=60)
def lookup_legacy(c):
    dim, temp, col = c.maybe("dimmable"), c.maybe("variable color temperature"), c.maybe("color")
    d, m = legacy(c, I.Light, IotBulb, "light", {"type": "IOT.SMARTBULB", "model": "LB130(US)", "is_dimmable": int(dim), "is_variable_color_temp": int(temp), "is_color": int(col), "light_state": {"on_off": 1}})
    lookup(c, m, lambda: c.call(m._initialize_features), {"brightness": "brightness", "set_brightness": "brightness", "color_temp": "color_temperature", "set_color_temp": "color_temperature", "hsv": "hsv", "set_hsv": "hsv"}, m._module_features)


@contract("C36", "lookup_unknown", funcs=("_get_bound_feature",), covers=("refused",), runs=30)
def lookup_unknown(c):
    from kasa.exceptions import KasaException

    d, m = smart_dev(c, M.Fan)
    o = c.call(m.get_feature, c.pick("attribute", ["nothing", "query", "name"]))
    c.cover("refused")
    c.check("an attribute without a feature, or an unknown one, is an error", o.exactly(KasaException), lambda: f"{o}")
