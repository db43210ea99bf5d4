"""C37: a device has exactly the modules its abilities call for, and each asks for exactly its own data."""
from kasa import DeviceType, KasaException, Module
from kasa.iot import IotBulb, IotDimmer, IotLightStrip, IotPlug, IotStrip, IotWallSwitch
from kasa.iot import modules as I
from kasa.iot.iotstrip import StripEmeter
from kasa.smart import SmartDevice
from kasa.smart import modules as M
from kasa.smart.smartchilddevice import SmartChildDevice
from kasa.smartcam import SmartCamDevice
from kasa.smartcam import modules as C
from pyvc.registry import contract, prop

from .devices import iot, smart

prop("C37", [])


class S:
    """What is documented of a SMART module: component, readings that make up for it, a reading that must be there, question, and how often."""

    def __init__(self, cls, component, ask=None, keys=(), needs=None, every=0, not_child_of=()):
        self.cls, self.component, self.keys, self.needs, self.every, self.not_child_of = cls, component, keys, needs, every, not_child_of
        self.ask = ask if callable(ask) else lambda c, v, kind, info: ask or {}


FADE = ("gradually_on_mode", "gradually_off_mode", "fade_on_time", "fade_off_time")
HUB, STRIP = "child of a hub", "child of a strip"
CLEAN = {"getVacStatus": {}, "getCleanInfo": {}, "getCarpetClean": {}, "getAreaUnit": {}, "getBatteryInfo": {}, "getCleanStatus": {}, "getCleanAttr": {"type": "global"}}
DAY = 24 * 60 * 60
SMART = [
    S(M.Alarm, "alarm", {"get_alarm_configure": None, "get_support_alarm_type_list": None}),
    S(M.AutoOff, "auto_off", {"get_auto_off_config": {"start_index": 0}}, needs="auto_off_status"),
    S(M.BatterySensor, "battery_detect"),
    S(M.Brightness, "brightness", needs="brightness"),
    S(M.ChildDevice, "child_device", lambda c, v, kind, info: {"get_child_device_list": None, **({"get_child_device_component_list": None} if kind == "hub" else {})}),
    S(M.ChildLock, "button_and_led", {"getChildLockInfo": None}),
    S(M.ChildProtection, "child_protection"),
    S(M.ChildSetup, "child_quick_setup", {"get_support_child_device_category": None}, every=DAY),
    S(M.Clean, "clean", CLEAN),
    S(M.CleanRecords, "clean_percent", {"getCleanRecords": {}}),
    S(M.Cloud, "cloud_connect", {"get_connect_cloud_state": None}, every=60, not_child_of=(STRIP,)),
    S(M.Color, "color"),
    S(M.ColorTemperature, "color_temperature", needs="color_temp_range"),
    S(M.Consumables, "consumables", {"getConsumablesInfo": None}),
    S(M.ContactSensor, None, keys=("open",)),
    S(M.DeviceModule, "device", lambda c, v, kind, info: {} if kind == HUB else {"get_device_info": None, **({"get_device_usage": None} if c.force(v >= 2) else {})}, not_child_of=(STRIP,)),
    S(M.Dustbin, "dust_bucket", {"getAutoDustCollection": {}, "getDustCollectionInfo": {}}),
    S(M.Energy, "energy_monitoring", lambda c, v, kind, info: {"get_energy_usage": None, **({"get_current_power": None, "get_emeter_data": None, "get_emeter_vgain_igain": None} if c.force(v >= 2) else {})},
      needs="device_on"),
    S(M.Fan, "fan_control", needs="fan_speed_level"),
    S(M.Firmware, "firmware", lambda c, v, kind, info: {"get_auto_update_info": None} if c.force(v >= 2) else {}, every=DAY, not_child_of=(STRIP,)),
    S(M.FrostProtection, "frost_protection"),
    S(M.HomeKit, "homekit", {"get_homekit_info": None}),
    S(M.HumiditySensor, "humidity"),
    S(M.Led, "led", {"get_led_info": None}, every=60 * 60),
    S(M.LightEffect, "light_effect", {"get_dynamic_light_effect_rules": {"start_index": 0}}, every=DAY),
    S(M.LightPreset, "preset", lambda c, v, kind, info: {} if "preset_state" in info else {"get_preset_rules": {"start_index": 0} if c.force(v >= 3) else None}, needs="brightness", every=60),
    S(M.LightStripEffect, "light_strip_lighting_effect"),
    S(M.LightTransition, "on_off_gradually", lambda c, v, kind, info: {} if set(FADE) <= set(info) else {"get_on_off_gradually_info": None}, needs="brightness", every=60),
    S(M.Matter, "matter", {"get_matter_setup_info": None}),
    S(M.Mop, "mop", {"getMopState": {}, "getCleanAttr": {"type": "global"}}),
    S(M.MotionSensor, "sensitivity"),
    S(M.OverheatProtection, None, keys=("overheated", "overheat_status")),
    S(M.PowerProtection, "power_protection", {"get_protection_power": {}, "get_max_power": {}}, needs="power_protection_status"),
    S(M.ReportMode, "report_mode"),
    S(M.Speaker, "speaker", {"getVolume": None}),
    S(M.TemperatureControl, "temp_control"),
    S(M.TemperatureSensor, "temperature"),
    S(M.Time, "time", {"get_device_time": None}, not_child_of=(HUB, STRIP)),
    S(M.TriggerLogs, "trigger_log", {"get_trigger_logs": {"start_id": 0}}, every=60 * 60),
    S(M.WaterleakSensor, "sensor_alarm"),
]
READINGS = {"auto_off_status": "off", "brightness": 50, "color_temp_range": [2500, 6500], "fan_speed_level": 1, "power_protection_status": "normal", "open": False, "overheated": False,
            "overheat_status": "normal", "device_on": True, "preset_state": [], **dict.fromkeys(FADE, 1)}
ONE_OF = (M.LightEffect, M.LightStripEffect)  # share a name: a device has one of them
EXTRA = {M.LightPreset: ("preset_state",), M.LightTransition: FADE}


def draw_device(c, info):
    """A device by itself, a hub, or a child of a hub or of a strip."""
    kind = c.pick("device", ["device", "hub", HUB, STRIP])
    other = c.pick("parent", [DeviceType.Strip, DeviceType.WallSwitch]) if kind == STRIP else None
    d, p = smart(None, info=info)
    d._device_type = DeviceType.Hub if kind == "hub" else DeviceType.Plug
    if kind in (HUB, STRIP):
        d._parent, _ = smart()
        d._parent._device_type = DeviceType.Hub if kind == HUB else other
    return d, kind


for e in SMART:
    def driver(c, e=e):
        others = c.maybe("everything else is there")
        info = dict(READINGS) if others else {}
        for k in (*([e.needs] if e.needs else ()), *e.keys, *EXTRA.get(e.cls, ())):
            if c.maybe("reports " + k):
                info[k] = READINGS[k]
            else:
                info.pop(k, None)
        full = bool(e.needs) and e.needs in info
        if e.needs == "color_temp_range":
            full = True
            if c.maybe("one color temperature only"):
                info[e.needs] = [2700, 2700]
                full = False
        for k in e.keys:
            if k in info and c.maybe("empty " + k):
                info[k] = None
        d, kind = draw_device(c, info)
        for k in ("device_on",):
            if k not in info:
                d._info.pop(k)
        comps = {x.component: 4 for x in SMART if x.component} if others else {}
        comps.pop(e.component, None)
        if e.cls in ONE_OF:
            for x in SMART:
                if x.cls in ONE_OF:
                    comps.pop(x.component, None)
        has = e.component is not None and c.maybe("component")
        v = c.int("version", 1, 9, pool=(2, 3))
        if has:
            comps[e.component] = v
        d._components = comps
        o = c.call(d._initialize_modules)
        c.check("modules can be set up", o.ok)
        mods = c.call(getattr, d, "modules").value
        want = (has or any(info.get(k) is not None for k in e.keys)) and (full or not e.needs) and kind not in e.not_child_of
        name = "LightEffect" if e.cls in ONE_OF else e.cls.__name__
        c.check("a module is there exactly if its component or reading is", (name in mods) == want, lambda: f"{name} {kind} {sorted(info)}")
        if not others:
            more = {"Light"} if want and name in ("Brightness", "Color", "ColorTemperature") else set()
            c.check("nothing else is there", {str(x) for x in mods} == ({name} if want else set()) | more, lambda: str(list(mods)))
        if want:
            m = mods[name]
            c.check("the module is the one documented", type(m) is e.cls and m.name == name)
            q = c.call(m.query)
            c.check("the module asks for its own data", q.ok and c.eq(q.value, e.ask(c, v, kind, d._info)), lambda: f"{name} {q}")
            i = c.call(getattr, m, "update_interval")
            c.check("and no more often than documented", i.ok and i.value == (DAY if kind == HUB else e.every))
            c.cover("there")
        else:
            c.cover("missing")

    contract("C37", "smart_" + e.cls.__name__, funcs=("SmartDevice._initialize_modules", f"{e.cls.__name__}.query", f"{e.cls.__name__}._check_supported", "SmartModule.query", "SmartModule.update_interval"),
             covers=("there", "missing"))(driver)


@contract("C37", "combined", funcs=("SmartDevice._initialize_modules",), covers=("light", "thermostat", "neither"))
def combined(c):
    """The light and thermostat modules stand for the modules they combine; time comes first."""
    comps = {k: 2 for k in ("brightness", "color", "color_temperature", "temp_control", "temperature", "time", "device") if c.maybe(k)}
    d, p = smart(None, info=READINGS)
    d._components = comps
    o = c.call(d._initialize_modules)
    mods = {str(x) for x in d.modules}
    light = bool({"brightness", "color", "color_temperature"} & set(comps))
    thermostat = {"temp_control", "temperature"} <= set(comps)
    c.check("there is a light exactly if it has brightness, color or color temperature", o.ok and ("Light" in mods) == light)
    c.check("there is a thermostat exactly if it controls and measures the temperature", ("Thermostat" in mods) == thermostat)
    c.check("they ask for nothing of their own", all(c.call(d.modules[x].query).value == {} for x in ("Light", "Thermostat") if x in mods))
    c.check("the time is updated before the modules that need it", "time" not in comps or list(d.modules)[0] == "Time")
    c.cover("light" if light else "thermostat" if thermostat else "neither")


class K:
    """What is documented of a camera module."""

    def __init__(self, cls, component, ask, name=None, every=0, hub=False):
        self.cls, self.component, self.ask, self.name, self.every, self.hub = cls, component, ask, name or cls.__name__, every, hub


CAMERA = [
    K(C.Alarm, "siren", {"getSirenStatus": {"siren": {}}, "getSirenConfig": {"siren": {}}, "getSirenTypeList": {"siren": {}}}),
    K(C.BabyCryDetection, "babyCryDetection", {"getBCDConfig": {"sound_detection": {"name": "bcd"}}}),
    K(C.Battery, "battery", {}),
    K(C.Camera, "video", {}),
    K(C.ChildDevice, "childControl", {"getChildDeviceList": {"childControl": {"start_index": 0}}}, "childdevice", hub=True),
    K(C.ChildSetup, "childQuickSetup", {"getSupportChildDeviceCategory": {"childControl": {}}}, every=DAY),
    K(C.DeviceModule, None, {"getDeviceInfo": {"device_info": {"name": ["basic_info", "info"]}}, "getConnectionType": {"network": {"get_connection_type": []}}}, "devicemodule"),
    K(C.HomeKit, "homekit", {}),
    K(C.Led, "led", {"getLedStatus": {"led": {"name": "config"}}}),
    K(C.LensMask, "lensMask", {"getLensMaskConfig": {"lens_mask": {"name": "lens_mask_info"}}}),
    K(C.Matter, "matter", {"getMatterSetupInfo": {"matter": {}}}),
    K(C.MotionDetection, "detection", {"getDetectionConfig": {"motion_detection": {"name": "motion_det"}}}),
    K(C.PanTilt, "ptz", {}),
    K(C.PersonDetection, "personDetection", {"getPersonDetectionConfig": {"people_detection": {"name": "detection"}}}),
    K(C.PetDetection, "petDetection", {"getPetDetectionConfig": {"pet_detection": {"name": "detection"}}}),
    K(C.TamperDetection, "tamperDetection", {"getTamperDetectionConfig": {"tamper_detection": {"name": "tamper_det"}}}),
    K(C.Time, None, {"getTimezone": {"system": {"name": "basic"}}, "getClockStatus": {"system": {"name": "clock_status"}}}),
]


@contract("C37", "camera_modules", funcs=("SmartCamDevice._initialize_modules", "SmartCamModule.query", "ChildDevice._check_supported"), covers=tuple(k.name for k in CAMERA))
def camera_modules(c):
    e = CAMERA[c.choose_index("module", len(CAMERA))]
    others = c.maybe("everything else is there")
    hub = c.maybe("hub")
    d, p = smart(SmartCamDevice)
    d._device_type = DeviceType.Hub if hub else DeviceType.Camera
    comps = {x.component: 1 for x in CAMERA if x.component} if others else {}
    comps.pop(e.component, None)
    has = e.component is None or c.maybe("component")
    if has and e.component:
        comps[e.component] = c.int("version", 1, 9)
    d._components = comps
    o = c.call(d._initialize_modules)
    c.check("modules can be set up", o.ok)
    want = has and (hub or not e.hub)
    c.check("a module is there exactly if its component is", (e.name in d.modules) == want, lambda: e.name)
    if not others:
        c.check("nothing else is there", {str(x) for x in d.modules} == {"devicemodule", "Time"} | ({e.name} if want else set()))
    if want:
        m = d.modules[e.name]
        q = c.call(m.query)
        ask = {**e.ask, **({"getChildDeviceComponentList": {"childControl": {"start_index": 0}}} if e.hub else {})}
        c.check("the module asks for its own data", type(m) is e.cls and q.ok and q.value == ask, lambda: f"{e.name} {q}")
        i = c.call(getattr, m, "update_interval")
        c.check("and no more often than documented", i.ok and i.value == e.every)
    c.cover(e.name)


RULES = {"get_rules": {}, "get_next_action": {}}
STATS = {"get_realtime": {}, "get_daystat": {"year": 2024, "month": 7}, "get_monthstat": {"year": 2024}}


def T(get):
    return get


def plug_table(emeter=True):
    return {**({"Energy": (I.Emeter, "emeter", STATS)} if emeter else {}), "schedule": (I.Schedule, "schedule", RULES), "usage": (I.Usage, "schedule", STATS),
            "anti_theft": (I.Antitheft, "anti_theft", RULES), "Time": (I.Time, "time", {"get_time": {}, "get_timezone": {}}), "cloud": (I.Cloud, "cnCloud", {"get_info": {}}), "Led": (I.Led, "system", {})}


SENSORS = {"motion": (I.Motion, "smartlife.iot.PIR", {"get_config": {}, "get_adc_value": {}}), "ambient": (I.AmbientLight, "smartlife.iot.LAS", {"get_config": {}, "get_current_brt": {}})}
BULB = {"schedule": (I.Schedule, "smartlife.iot.common.schedule", RULES), "usage": (I.Usage, "smartlife.iot.common.schedule", STATS), "anti_theft": (I.Antitheft, "smartlife.iot.common.anti_theft", RULES),
        "Time": (I.Time, "smartlife.iot.common.timesetting", {"get_time": {}, "get_timezone": {}}), "Energy": (I.Emeter, "smartlife.iot.common.emeter", STATS), "countdown": (I.Countdown, "countdown", RULES),
        "cloud": (I.Cloud, "smartlife.iot.common.cloud", {"get_info": {}}), "LightPreset": (I.LightPreset, "smartlife.iot.smartbulb.lightingservice", {}), "Light": (I.Light, "smartlife.iot.smartbulb.lightingservice", {})}


def legacy_table(cls, ene, pir):
    """What is documented: name -> module, service, question; and the same for each socket."""
    if cls is IotBulb:
        return BULB, {}
    if cls is IotLightStrip:
        light = "smartlife.iot.lightStrip"
        return {**BULB, "LightEffect": (I.LightEffect, "smartlife.iot.lighting_effect", {}), "Light": (I.Light, light, {}), "LightPreset": (I.LightPreset, light, {})}, {}
    if cls is IotStrip:
        t = {**plug_table(False), "countdown": (I.Countdown, "countdown", RULES), **({"Energy": (StripEmeter, "emeter", {})} if ene else {})}
        s = {**({"Energy": (I.Emeter, "emeter", STATS)} if ene else {}), "usage": (I.Usage, "schedule", STATS), "anti_theft": (I.Antitheft, "anti_theft", RULES), "schedule": (I.Schedule, "schedule", RULES),
             "countdown": (I.Countdown, "countdown", RULES)}
        return t, s
    t = plug_table(ene)
    if cls is IotDimmer:
        t = {**t, **SENSORS, "dimmer": (I.Dimmer, "smartlife.iot.dimmer", {"get_dimmer_parameters": {}, "get_default_behavior": {}}), "Light": (I.Light, "light", {})}
    if cls is IotWallSwitch and pir:
        t = {**t, **SENSORS}
    return t, {}


class Now:
    year, month, day = 2024, 7, 9

    def now(self, tz=None):
        return self


SYS = {"is_color": 1, "is_dimmable": 1, "is_variable_color_temp": 1, "brightness": 3, "light_state": {"on_off": 1, "brightness": 1, "hue": 1, "saturation": 1, "color_temp": 1}, "preferred_state": [],
       "lighting_effect_state": {"enable": 0, "name": "", "brightness": 1, "id": "", "custom": 0}, "length": 3}
ANSWER = {"err_code": 0, "devs": [{"hw_id": 0, "enable": 1, "dark_index": 3, "min_adc": 0, "max_adc": 2000, "level_array": []}], "min_adc": 0, "max_adc": 4000, "array": [80, 50, 20, 0], "enable": 1,
          "trigger_index": 2, "cold_time": 3, "value": 3, "index": 39}
UNSUPPORTED = {"err_code": -1, "err_msg": "module not support"}


def legacy_driver(c, cls):
    ene = c.maybe("energy meter")
    pir = c.pick("name", ["x PIR", "a PIR switch", "x", ""]) if cls is IotWallSwitch else ""
    led = c.maybe("LED")
    table, sockets = legacy_table(cls, ene, "PIR" in pir)
    services = list(dict.fromkeys([s for _, s, q in [*table.values(), *sockets.values()] if q]))
    bad = c.pick("service not supported", [None, *services])
    d, p = iot(cls, sys_info={**SYS, "feature": "TIM:ENE" if ene else "TIM", "dev_name": pir, **({"children": [{"id": "00", "state": 1, "alias": "a", "on_time": 3}]} if cls is IotStrip else {})})
    sysi = d._sys_info
    if not led:
        del sysi["led_off"]
    d._last_update, d._sys_info, d._legacy_features = {}, None, set()
    import kasa.iot.modules.emeter as em
    import kasa.iot.modules.usage as us

    for m in (em, us):
        if hasattr(m, "datetime"):
            c.patch(m, "datetime", Now())

    def on(r):
        return {s: UNSUPPORTED if s == bad else {m: sysi if m == "get_sysinfo" else ANSWER for m in x} for s, x in r.items() if s != "context"}

    p.on_query = on

    def asked(t):
        return sorted((s, m, str(a or {})) for _, s, q in t.values() for m, a in q.items())

    for k in range(2):
        n = len(p.sent)
        o = c.call(d.update)
        c.check("services a device does not support do no harm", o.ok, lambda: f"{cls} {bad} {o.exc!r}")
        new = p.sent[n:]
        if k == 0:
            c.check("a new device is first asked for its system information alone", new[0] == {"system": {"get_sysinfo": {}}})
            new = new[1:]

        def live(t):
            # sockets share the answers of their strip, which has asked before them
            known = k or t is sockets and any(v[1] == bad and v[2] for v in table.values())
            return {x: v for x, v in t.items() if not (known and v[1] == bad)}

        for child, t in ((False, table), (True, sockets)):
            got = sorted((s, m, str(a or {})) for r in new if ("context" in r) == child for s, x in r.items() if s != "context" for m, a in x.items())
            if not child:
                got.remove(("system", "get_sysinfo", "{}"))
            c.check("each module asks for its own data, unless the device does not support it", got == asked(live(t)), lambda: f"{got} {asked(live(t))}")
    owners = [(d, table)] + [(x, sockets) for x in d.children]
    for owner, t in owners:
        mods = c.call(getattr, owner, "modules").value
        want = {x: v for x, v in t.items() if not (v[1] == bad and v[2]) and (x != "Led" or led)}
        c.check("a device has exactly the modules of its kind which it supports", {str(x) for x in mods} == set(want), lambda: f"{sorted(map(str, mods))} {sorted(want)}")
        c.check("each is the one documented", all(type(mods[x]) is v[0] and mods[x]._module == v[1] for x, v in want.items()))
    c.cover("all" if bad is None else "some")


for cls in (IotPlug, IotWallSwitch, IotDimmer, IotBulb, IotLightStrip, IotStrip):
    contract("C37", "legacy_" + cls.__name__, funcs=("IotDevice.update", "IotDevice._modular_update", f"{cls.__name__}._initialize_modules", "IotModule.is_supported"), covers=("all", "some"),
             bounded="two updates" if cls is not IotStrip else "two updates, one socket")(lambda c, cls=cls: legacy_driver(c, cls))
