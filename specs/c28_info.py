"""C28: what kind of device it is, its identity, and the device's own commands."""
import base64
from datetime import timedelta, timezone

from kasa import Module
from kasa.credentials import Credentials
from kasa.device import WifiNetwork
from kasa.device_type import DeviceType as T
from kasa.exceptions import AuthenticationError, DeviceError, KasaException, SmartErrorCode, TimeoutError, _ConnectionError
from kasa.iot import IotBulb, IotDevice, IotPlug, IotStrip
from kasa.iot.iotstrip import IotStripPlug
from kasa.smart import SmartChildDevice, SmartDevice
from kasa.smartcam import SmartCamChild, SmartCamDevice
from pyvc.registry import contract, prop

from .devices import Proto, iot, smart

prop("C28")

TYPES = ["SMART.TAPOHUB", "SMART.KASAHUB", "SMART.TAPOPLUG", "SMART.KASAPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.KASASWITCH", "SMART.KASASENSOR", "SMART.KASAENERGY", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.NEW"]
COMPONENTS = ["child_device", "light_strip", "dimmer_calibration", "brightness"]


def smart_kind(typ, comps):
    """The documented classification."""
    if "HUB" in typ:
        return T.Hub
    if "PLUG" in typ:
        return T.Strip if "child_device" in comps else T.Plug
    if "light_strip" in comps:
        return T.LightStrip
    if "SWITCH" in typ and "child_device" in comps:
        return T.WallSwitch
    if "dimmer_calibration" in comps:
        return T.Dimmer
    if "brightness" in comps:
        return T.Bulb
    for part, kind in (("SWITCH", T.WallSwitch), ("SENSOR", T.Sensor), ("ENERGY", T.Thermostat), ("ROBOVAC", T.Vacuum), ("TAPOCHIME", T.Chime)):
        if part in typ:
            return kind
    return T.Plug


@contract("C28", "smart_kind", funcs=("SmartDevice._get_device_type_from_components", "SmartDevice.device_type"), covers=("known", "not yet"))
def kind(c):
    typ = c.pick("type", TYPES)
    comps = ["device", *(x for x in COMPONENTS if c.pick(x, [True, False])), "firmware"]
    exp = smart_kind(typ, comps)
    o = c.call(SmartDevice._get_device_type_from_components, comps, typ)
    c.check("the kind follows from family and components", o.ok and o.value is exp, lambda: f"{o} instead of {exp}")
    key = c.pick("key", ["type", "device_type"])
    d, p = smart(info={"type": typ})
    d._info.pop("type")
    d._info[key] = typ
    c.cover("not yet")
    o = c.call(getattr, d, "device_type")
    c.check("unknown until the components are", o.ok and o.value is T.Unknown, lambda: f"{o}")
    d._components = {x: 1 for x in comps}
    c.cover("known")
    o = c.call(getattr, d, "device_type")
    c.check("the device is of this kind", o.ok and o.value is exp, lambda: f"{o} instead of {exp}")


CATEGORIES = {"plug.powerstrip.sub-plug": T.Plug, "subg.plugswitch.switch": T.WallSwitch, "subg.trigger.contact-sensor": T.Sensor, "subg.trigger.temp-hmdt-sensor": T.Sensor, "subg.trigger.water-leak-sensor": T.Sensor, "subg.trigger.motion-sensor": T.Sensor,
              "subg.trigger.button": T.Sensor, "kasa.switch.outlet.sub-fan": T.Fan, "kasa.switch.outlet.sub-dimmer": T.Dimmer, "subg.trv": T.Thermostat, "subg.new": T.Unknown}


@contract("C28", "child_kind", funcs=("SmartChildDevice.device_type", "SmartCamChild.device_type", "SmartCamDevice.device_type", "SmartCamDevice._get_device_type_from_sysinfo"), covers=("child", "camera"))
def child_kind(c):
    if c.pick("of", ["child", "camera"]) == "child":
        c.cover("child")
        cat = c.pick("category", list(CATEGORIES))
        parent, _ = smart(info={"type": "SMART.TAPOHUB"})
        ch = SmartChildDevice(parent, {"device_id": "x", "category": cat, "type": "SMART.KASASENSOR"}, {"component_list": []})
        o = c.call(getattr, ch, "device_type")
        c.check("a child's kind follows from its category", o.ok and o.value is CATEGORIES[cat], lambda: f"{o}")
        return
    c.cover("camera")
    typ, exp = c.pick("type", [(None, T.Unknown), ("", T.Unknown), ("SMART.IPCAMERA", T.Camera), ("SMART.TAPOHUB", T.Hub), ("SMART.TAPODOORBELL", T.Doorbell), ("SMART.DOORBELL.X", T.Doorbell), ("SMART.NEW", T.Camera), ("HUBLESS.CAMERA", T.Camera)])
    d, p = smart(SmartCamDevice, info={} if typ is None else {"device_type": typ})
    o = c.call(getattr, d, "device_type")
    c.check("a camera's kind follows from its type", o.ok and o.value is exp, lambda: f"{o}")


IOT_TYPES = [("IOT.SMARTPLUGSWITCH", "plug"), ("iot.SmartPlugSwitch", "plug"), ("IOT.SMARTBULB", "bulb"), ("IOT.RANGEEXTENDER.SMARTPLUG", "plug"), ("smartlife.iot.smartbulb", "bulb"), ("IOT.NEW", "other")]
NAMES = [None, "", "Smart Wi-Fi Dimmer", "Wi-Fi Smart Light Switch", "Smart Wi-Fi LIGHT Switch", "Wi-Fi Smart Plug", "dimmer"]


def iot_kind(kind, name, children, length):
    if name and "Dimmer" in name:
        return T.Dimmer
    if kind == "plug":
        return T.Strip if children else T.WallSwitch if name and "light" in name.lower() else T.Plug
    if kind == "bulb":
        return T.LightStrip if length else T.Bulb
    return T.Plug


@contract("C28", "iot_kind", funcs=("IotDevice._get_device_type_from_sys_info", "_extract_sys_info"), covers=("kind", "camera", "no sysinfo", "no type"))
def legacy_kind(c):
    what = c.pick("what", ["kind", "camera", "no sysinfo", "no type"])
    c.cover(what)
    f = IotDevice._get_device_type_from_sys_info
    if what == "camera":
        o = c.call(f, {"system": {"get_sysinfo": {"err_code": 0, "system": {"type": "IOT.IPCAMERA", "model": "KC"}}}})
        c.check("a nested description is a camera", o.ok and o.value is T.Camera, lambda: f"{o}")
        return
    if what == "no sysinfo":
        o = c.call(f, c.pick("info", [{}, {"system": {}}, {"emeter": {"get_sysinfo": {"type": "IOT.SMARTBULB"}}}]))
        c.check("an answer without description is refused", o.exactly(KasaException), lambda: f"{o}")
        return
    if what == "no type":
        o = c.call(f, {"system": {"get_sysinfo": {"model": "HS110", "dev_name": "Dimmer"}}})
        c.check("a description without type is refused", o.exactly(KasaException), lambda: f"{o}")
        return
    typ, k = c.pick("type", IOT_TYPES)
    name = c.pick("dev_name", NAMES)
    children, length = c.pick("children", [True, False]), c.pick("length", [True, False])
    si = {c.pick("key", ["type", "mic_type"]): typ, **({"dev_name": name} if name is not None else {}), **({"children": []} if children else {}), **({"length": 16} if length else {})}
    o = c.call(f, {"system": {"get_sysinfo": si}})
    exp = iot_kind(k, name, children, length)
    c.check("the kind follows from the description", o.ok and o.value is exp, lambda: f"{o} instead of {exp}")


VERSIONS = [("1.2.3 Build 240101 Rel. 1", "1.2.3", "Build 240101 Rel. 1"), ("1.2.3", "1.2.3", None), ("1.0 ", "1.0", ""), (" b", "", "b")]


@contract("C28", "device_info", funcs=("SmartDevice._get_device_info", "SmartCamDevice._get_device_info", "SmartCamChild._get_device_info", "IotDevice._get_device_info"), covers=("smart", "smartcam", "smartcam child", "iot"))
def device_info(c):
    kind = c.pick("protocol", ["smart", "smartcam", "smartcam child", "iot"])
    c.cover(kind)
    full, fw, build = c.pick("firmware", VERSIONS)
    hw, region = c.str("hw"), c.pick("region", ["EU", None])
    disc = c.pick("discovered", [None, "P100(US)", "P100", "P100(UN)(x)"])
    dinfo = None if disc is None else {"device_model": disc, **({"mgt_encrypt_schm": {}} if c.pick("with scheme", [True, False]) else {})}
    if kind == "smart":
        family, brand = c.pick("family", [("SMART.TAPOPLUG", "tapo"), ("SMART.KASASWITCH", "kasa"), ("SMART.TAPOHUB", "tapo")])
        info = {"get_device_info": {"model": "P100", "type": family, "fw_ver": full, "hw_ver": hw, **({"specs": region} if region else {})}, "component_nego": {"component_list": [{"id": "brightness", "ver_code": 1}]}}
        o = c.call(SmartDevice._get_device_info, info, dinfo)
        exp = dict(short_name="P100", long_name=disc.split("(")[0] if disc else "P100", brand=brand, device_family=family, device_type=smart_kind(family, ["brightness"]), requires_auth=True,
                   region={None: region, "P100": region, "P100(US)": "US", "P100(UN)(x)": "UN(x"}[disc])
    elif kind == "smartcam":
        info = {"getDeviceInfo": {"device_info": {"basic_info": {"device_model": "C200", "sw_version": full, "hw_version": hw, "device_type": "SMART.IPCAMERA", **({"region": region} if region else {})}}}}
        o = c.call(SmartCamDevice._get_device_info, info, dinfo)
        exp = dict(short_name="C200", long_name=disc or "C200", brand="tapo", device_family="SMART.IPCAMERA", device_type=T.Camera, requires_auth=True, region=region)
    elif kind == "smartcam child":
        info = {"child_info_from_parent": {"device_model": "C420", "sw_ver": full, "hw_ver": hw, "device_type": "SMART.IPCAMERA", **({"region": region} if region else {})}}
        o = c.call(SmartCamChild._get_device_info, info, None)
        exp = dict(short_name="C420", long_name="C420", brand="tapo", device_family="SMART.IPCAMERA", device_type=T.Camera, requires_auth=True, region=region)
    else:
        model, short, reg = c.pick("model", [("HS110(EU)", "HS110", "EU"), ("HS110", "HS110", "")])
        info = {"system": {"get_sysinfo": {"model": model, "sw_ver": full, "hw_ver": hw, "type": "IOT.SMARTBULB"}}}
        o = c.call(IotDevice._get_device_info, info, dinfo)
        exp = dict(short_name=short, long_name=short, brand="kasa", device_family="IOT.SMARTBULB", device_type=T.Bulb, requires_auth=bool(dinfo and "mgt_encrypt_schm" in dinfo), region=reg)
    exp.update(firmware_version=fw, firmware_build=build, hardware_version=hw)
    c.check("the device information is what the device reports", o.ok and all(c.same(getattr(o.value, k), v) for k, v in exp.items()), lambda: f"{o} instead of {exp}")


def b64(c, s):
    return c.call(base64.b64encode, c.call(str.encode, s).value)


TEXTS = ["", "Living room", "Küche 中", "a\"b'\\", "x" * 40]


@contract("C28", "smart_identity", funcs=("SmartDevice.alias", "SmartDevice.ssid", "SmartDevice.mac", "SmartDevice.location", "SmartDevice.rssi", "SmartDevice.hw_info", "SmartDevice.device_id", "SmartDevice.is_on", "SmartDevice.is_cloud_connected", "SmartDevice.internal_state", "SmartDevice.sys_info"), covers=("checked",))
def smart_identity(c):
    name, ssid = c.pick("alias", [None, *TEXTS]), c.pick("ssid", [None, *TEXTS])
    rssi, lat, lon = c.int("rssi", -120, 120), c.int("latitude", -900000, 900000), c.int("longitude", -1800000, 1800000)
    missing = c.pick("missing", ["nothing", "location", "rssi"])
    mac, emac = c.pick("mac", [("00-11-22-AA-BB-CC", "00:11:22:AA:BB:CC"), ("00:11:22:aa:bb:cc", "00:11:22:aa:bb:cc")])
    on = c.pick("on", [True, False])
    info = {"nickname": name and base64.b64encode(name.encode()).decode(), "ssid": ssid and base64.b64encode(ssid.encode()).decode(), "mac": mac, "device_on": on, "oem_id": "OEM", "device_id": "ID1", "latitude": lat, "longitude": lon, "rssi": rssi}
    for k in {"nothing": (), "location": ("latitude", "longitude"), "rssi": ("rssi",)}[missing]:
        del info[k]
    d, p = smart(info=info)
    if missing == "rssi":
        del d._info["rssi"]
    c.cover("checked")
    for attr, exp in (("alias", name or None), ("ssid", ssid or "No SSID"), ("mac", emac), ("device_id", "ID1"), ("is_on", on), ("is_off", not on), ("has_emeter", False),
                      ("hw_info", {"sw_ver": "1.0 B", "hw_ver": "1", "mac": mac, "type": "SMART.TAPOPLUG", "hwId": "ID1", "dev_name": name or None, "oemId": "OEM"})):
        o = c.call(getattr, d, attr)
        c.check(f"{attr} is what the device reports", o.ok and o.value == exp, lambda: f"{attr} {o} instead of {exp}")
    o = c.call(getattr, d, "location")
    la, lo = (0, 0) if missing == "location" else (lat, lon)
    c.check("the location is in degrees", o.ok and set(o.value) == {"latitude", "longitude"} and c.and_(scaled(c, o.value["latitude"], la), scaled(c, o.value["longitude"], lo)), lambda: f"{o}")
    o = c.call(getattr, d, "rssi")
    exp = True if missing == "rssi" else c.or_(c.and_(c.not_(c.eq(rssi, 0)), c.eq(o.value, rssi) if o.ok and o.value is not None else False), c.eq(rssi, 0))
    c.check("the signal is what the device reports", o.ok and (o.value is None if missing == "rssi" else exp), lambda: f"{o}")
    c.check("nothing is asked", not p.sent)


class Boom(Exception):
    pass


def scaled(c, deg, tenk):
    """deg is tenk ten thousandths (a float rounds)."""
    d = deg * 10000 - tenk
    return c.and_(d < 1e-6, d > -1e-6)


FAILS = [None, DeviceError("no", error_code=SmartErrorCode.PARAMS_ERROR), TimeoutError("t"), _ConnectionError("c"), KasaException("k"), AuthenticationError("a"), Boom()]


@contract("C28", "smart_commands", funcs=("SmartDevice.set_alias", "SmartDevice.reboot", "SmartDevice.factory_reset", "SmartDevice.set_state", "SmartDevice.turn_on", "SmartDevice.turn_off", "SmartDevice.update_credentials", "SmartDevice.wifi_join"), covers=("sent", "failed", "refused"))
def smart_commands(c):
    t = {"timestamp": c.int("now"), "time_diff": 60, "region": "X"}
    d, p = smart(get_device_time=t)
    fails = c.pick("outcome", FAILS)
    retries = []

    def answer(r):
        if fails:
            raise fails
        return {"ok": 1}

    real = p.query

    async def query(request, retry_count=3):
        retries.append(retry_count)
        return await real(request, retry_count)

    p.on_query, p.query = answer, query
    what = c.pick("what", ["alias", "reboot", "reset", "state", "turn", "credentials", "join", "join without credentials"])
    creds_used = what in ("credentials", "join")
    u, pw = (c.pick("user", TEXTS), c.pick("password", TEXTS)) if creds_used else ("u", "p")
    name = c.pick("name", TEXTS) if what in ("alias", "join") else "n"
    e = lambda s: base64.b64encode(s.encode()).decode()
    delay, on = c.int("delay", 0, 100), c.pick("on", [True, False]) if what in ("state", "turn") else True
    if what.startswith("join"):
        creds = None if "without" in what else Credentials(u, pw)
        d.config.credentials = d.protocol._transport._credentials = d.protocol._transport._config.credentials = creds
        kt = c.pick("key type", [None, "wpa3_psk", "none"])
        o = c.call(d.wifi_join, "net", name, **({"keytype": kt} if kt else {}))
        if creds is None:
            c.cover("refused")
            c.check("joining needs credentials", o.exactly(AuthenticationError) and not p.sent, lambda: f"{o} {p.sent}")
            return
        exp = {"set_qs_info": {"account": {"username": e(u), "password": e(pw)}, "wireless": {"key_type": kt or "wpa2_psk", "password": e(name), "ssid": e("net")}, "time": t}}
        c.check("joining is not repeated", retries == [0], lambda: f"{retries}")
        if fails and not isinstance(fails, (DeviceError, Boom)):
            c.cover("sent")
            c.check("the expected loss of the connection is no error", o.ok and o.value == {}, lambda: f"{o}")
            fails = None
        elif not fails:
            c.check("the answer is returned", o.ok and o.value == {"ok": 1})
    else:
        o, exp = {"alias": lambda: (c.call(d.set_alias, name), {"set_device_info": {"nickname": e(name)}}), "reboot": lambda: (c.call(d.reboot, delay), {"device_reboot": {"delay": delay}}), "reset": lambda: (c.call(d.factory_reset), "device_reset"),
                  "state": lambda: (c.call(d.set_state, on), {"set_device_info": {"device_on": on}}), "turn": lambda: (c.call(d.turn_on if on else d.turn_off), {"set_device_info": {"device_on": on}}),
                  "credentials": lambda: (c.call(d.update_credentials, u, pw), {"set_qs_info": {"account": {"username": e(u), "password": e(pw)}, "time": t}})}[what]()
        if not fails and what not in ("reboot", "reset"):
            c.check("the answer is returned", o.ok and o.value == {"ok": 1}, lambda: f"{o}")
    if fails:
        c.cover("failed")
        c.check("a failure reaches the caller", o.exc is fails, lambda: f"{o}")
    else:
        c.cover("sent")
    c.check("exactly this is sent", len(p.sent) == 1 and c.same(p.sent[0], exp), lambda: f"{p.sent} instead of {exp}")


@contract("C28", "smart_wifi_scan", funcs=("SmartDevice.wifi_scan",), covers=("checked",))
def smart_wifi_scan(c):
    nets = [{"ssid": base64.b64encode(c.pick(f"ssid {i}", TEXTS[1:4]).encode()).decode(), "cipher_type": c.int(f"cipher {i}", 0, 5), "key_type": "wpa2_psk", "channel": c.int(f"channel {i}", 0, 200), "signal_level": c.int(f"level {i}", 0, 5), "bssid": f"b{i}"} for i in range(c.pick("networks", [0, 1, 2]))]
    d, p = smart(on_query=lambda r: {"get_wireless_scan_info": {"ap_list": nets, "sum": len(nets)}})
    o = c.call(d.wifi_scan)
    c.cover("checked")
    c.check("exactly the scan is asked", p.sent == [{"get_wireless_scan_info": {"start_index": 0}}], lambda: f"{p.sent}")
    ok = o.ok and len(o.value) == len(nets)
    for n, w in zip(nets, o.value if o.ok else []):
        ok = c.and_(ok, isinstance(w, WifiNetwork), w.ssid == base64.b64decode(n["ssid"]).decode(), *(c.same(getattr(w, k), n[k]) for k in ("cipher_type", "key_type", "channel", "signal_level", "bssid")))
    c.check("every network is reported with its own values", ok, lambda: f"{o}")


MACS = [({"mac": "00:11:22:AA:BB:CC"}, "00:11:22:AA:BB:CC"), ({"mac": "00-11-22-AA-BB-CC"}, "00:11:22:AA:BB:CC"), ({"mic_mac": "001122AABBCC"}, "00:11:22:aa:bb:cc"), ({"mac": "001122AABB0C", "mic_mac": "FF"}, "00:11:22:aa:bb:0c"), ({}, None), ({"mac": ""}, None), ({"mac": "", "mic_mac": "001122AABBCC"}, None)]


@contract("C28", "iot_identity", funcs=("IotDevice.mac", "IotDevice.device_id", "IotDevice.location", "IotDevice.rssi", "IotDevice.hw_info", "IotDevice.alias", "IotDevice._set_sys_info", "IotDevice.sys_info", "IotDevice.model"), covers=("checked", "no mac"))
def iot_identity(c):
    macs, mac = c.pick("mac", MACS)
    rssi = c.int("rssi", -120, 120)
    where = c.pick("location", ["degrees", "scaled", "half", "none"])
    lat, lon = c.int("latitude", -1800000, 1800000), c.int("longitude", -1800000, 1800000)
    loc = {"degrees": {"latitude": lat, "longitude": lon, "latitude_i": 7, "longitude_i": 8}, "scaled": {"latitude_i": lat, "longitude_i": lon}, "half": {"latitude": lat}, "none": {}}[where]
    name = c.pick("alias", [None, "A lamp"])
    d, p = iot(IotPlug, sys_info={"rssi": rssi, "hwId": "H", "oemId": "O", "extra": 1, **loc})
    s = d._sys_info
    for k in ("mac", "alias"):
        s.pop(k)
    s.update(macs)
    if name:
        s["alias"] = name
    if c.pick("rssi reported", [True, False]):
        o = c.call(getattr, d, "rssi")
        c.check("the signal is what the device reports", o.ok and c.same(o.value, rssi), lambda: f"{o}")
    else:
        del s["rssi"]
        o = c.call(getattr, d, "rssi")
        c.check("no signal is reported", o.ok and o.value is None, lambda: f"{o}")
    c.cover("checked" if mac else "no mac")
    for attr in ("mac", "device_id"):
        o = c.call(getattr, d, attr)
        c.check("the address is the device's, with colons, or an error", o.ok and o.value == mac if mac else o.exactly(KasaException), lambda: f"{o} instead of {mac}")
    o = c.call(getattr, d, "location")
    la, lo = o.value["latitude"], o.value["longitude"]
    c.check("the location is in degrees", {"degrees": lambda: c.and_(c.same(la, lat), c.same(lo, lon)), "scaled": lambda: c.and_(scaled(c, la, lat), scaled(c, lo, lon)), "half": lambda: la is None and lo is None, "none": lambda: la is None and lo is None}[where](), lambda: f"{o}")
    o = c.call(getattr, d, "hw_info")
    exp = {k: s[k] for k in ("sw_ver", "hw_ver", "mac", "mic_mac", "type", "mic_type", "hwId", "fwId", "oemId", "dev_name") if k in s}
    c.check("the hardware information is what the device reports", o.ok and o.value == exp, lambda: f"{o} instead of {exp}")
    o = c.call(getattr, d, "alias")
    c.check("the name is what the device reports", o.ok and o.value == name, lambda: f"{o}")
    o = c.call(getattr, d, "model")
    c.check("the model comes without region", o.ok and o.value == "HS110", lambda: f"{o}")
    c.check("nothing is asked", not p.sent)


@contract("C28", "iot_commands", funcs=("IotDevice.set_alias", "IotDevice.set_mac", "IotDevice.reboot", "IotDevice.factory_reset", "IotDevice.wifi_scan", "IotDevice.wifi_join", "IotPlug.turn_on", "IotPlug.turn_off", "IotPlug.set_led", "IotDevice.set_state"), covers=("sent", "second attempt", "failed"))
def iot_commands(c):
    what = c.pick("what", ["alias", "mac", "reboot", "reset", "on", "off", "state", "scan", "join"])
    first, second = c.pick("first attempt", ["ok", "device error", "timeout", "boom"]), c.pick("second attempt", ["ok", "device error", "boom"]) if what in ("scan", "join") else "ok"
    aps = c.pick("answer", ["list", "nothing"]) if what == "scan" else "list"
    n = [0]
    nets = [{"ssid": "net", "key_type": c.int("key", 0, 3), "rssi": c.int("rssi", -100, 0)}]

    def answer(r):
        n[0] += 1
        out = first if n[0] == 1 else second
        (target, cmd), = [(k, next(iter(v))) for k, v in r.items()]
        if out == "boom":
            raise Boom
        if out == "timeout":
            raise TimeoutError("t")
        res = {"err_code": -3} if out == "device error" else {"err_code": 0, "x": n[0], **({"ap_list": nets} if cmd == "get_scaninfo" and aps == "list" else {})}
        return {target: {cmd: res}}

    d, p = iot(IotPlug, answer)
    d._supported_modules = d._modules
    delay, on, name = c.int("delay", 0, 100), c.pick("on", [True, False]) if what == "state" else True, c.str("name")
    scan, join = "get_scaninfo", "set_stainfo"
    kt = c.pick("key type", [None, "0", "2"]) if what == "join" else None
    call, exp = {
        "alias": lambda: ((d.set_alias, name), ("system", "set_dev_alias", {"alias": name})), "mac": lambda: ((d.set_mac, name), ("system", "set_mac_addr", {"mac": name})),
        "reboot": lambda: ((d.reboot, delay), ("system", "reboot", {"delay": delay})), "reset": lambda: ((d.factory_reset,), ("system", "reset", {})),
        "on": lambda: ((d.turn_on,), ("system", "set_relay_state", {"state": 1})), "off": lambda: ((d.turn_off,), ("system", "set_relay_state", {"state": 0})),
        "state": lambda: ((d.set_state, on), ("system", "set_relay_state", {"state": int(on)})),
        "scan": lambda: ((d.wifi_scan,), ("netif", scan, {"refresh": 1})), "join": lambda: ((d.wifi_join, "net", "pw", *([kt] if kt else [])), ("netif", join, {"ssid": "net", "password": "pw", "key_type": int(kt or 3)})),
    }[what]()
    o = c.call(*call)
    two = what in ("scan", "join") and first != "ok"
    sent = [{exp[0]: {exp[1]: exp[2]}}] + ([{"smartlife.iot.common.softaponboarding": {exp[1]: exp[2]}}] if two else [])
    c.check("exactly this is sent, with the other module tried when it fails", len(p.sent) == len(sent) and all(c.same(a, b) for a, b in zip(p.sent, sent)), lambda: f"{p.sent} instead of {sent}")
    last = second if two else first
    if last != "ok":
        c.cover("failed")
        c.check("a failure reaches the caller", o.exactly(KasaException), lambda: f"{o}")
        return
    c.cover("second attempt" if two else "sent")
    if what == "scan":
        if aps == "nothing":
            c.check("an answer without networks is refused", o.exactly(KasaException), lambda: f"{o}")
        else:
            c.check("every network is reported with its own values", o.ok and len(o.value) == 1 and c.and_(o.value[0].ssid == "net", c.same(o.value[0].key_type, nets[0]["key_type"]), c.same(o.value[0].rssi, nets[0]["rssi"])), lambda: f"{o}")
    elif what not in ("reboot", "reset"):
        c.check("the answer is returned", o.ok and o.value["x"] == n[0], lambda: f"{o}")


@contract("C28", "strip_socket", funcs=("IotStripPlug.device_id", "IotStripPlug.alias", "IotStripPlug.model", "IotStripPlug.led", "IotStripPlug.next_action", "IotStripPlug.is_on", "IotStripPlug._get_child_info", "IotStripPlug.update", "IotStripPlug.time", "IotStripPlug.timezone"), covers=("checked", "gone"))
def strip_socket(c):
    """A socket has its own name, state and next action; the rest is the strip's."""
    names, nexts = {}, {}
    states = {i: c.int("state " + i, 0, 1) for i in ("00", "01", "02")}
    kids = []
    for i in ("00", "01", "02"):
        names[i], nexts[i] = c.str("name " + i), {"type": c.int("next " + i, -1, 2)}
        kids.append({"id": i, "state": states[i], "alias": names[i], "on_time": 5, "next_action": nexts[i]})
    d, p = iot(IotStrip, sys_info={"children": kids, "led_off": 0, "model": "HS300(US)", "mac": "00:11:22:AA:BB:CC", "rssi": c.int("rssi", -120, 120), "hwId": "H"})
    me = c.pick("socket", ["00", "01", "02", "07"])
    o = c.call(IotStripPlug, "127.0.0.1", parent=d, child_id=me)
    assert o.ok, o
    k = o.value
    c.check("it is a socket on the strip's connection", k.device_type is T.StripSocket and k.protocol is d.protocol and k.parent is d)
    if me == "07":
        c.cover("gone")
        for a in ("alias", "is_on", "next_action"):
            o = c.call(getattr, k, a)
            c.check("a socket the strip no longer reports has no state", o.exactly(KasaException), lambda: f"{a} {o}")
        return
    c.cover("checked")
    for a, exp in (("alias", names[me]), ("next_action", nexts[me]), ("model", "Socket for HS300(US)"), ("led", False), ("device_id", "00:11:22:AA:BB:CC_" + me), ("mac", "00:11:22:AA:BB:CC"), ("rssi", d._sys_info["rssi"]), ("sys_info", d._sys_info)):
        o = c.call(getattr, k, a)
        c.check(f"{a} is the socket's", o.ok and c.same(o.value, exp), lambda: f"{a} {o} instead of {exp}")
    o = c.call(getattr, k, "is_on")
    c.check("on when the strip says so", o.ok and c.eq(o.value, states[me] == 1), lambda: f"{o}")
    from kasa.iot.modules import Time as IotTime

    d._last_update["time"] = {"get_time": {"year": c.int("year", 2000, 2099), "month": 1, "mday": 2, "hour": 3, "min": c.int("minute", 0, 59), "sec": 5}}
    clock = c.call(IotTime, d, "time").value
    d._modules = d._supported_modules = {Module.Time: clock}
    clock._timezone = timezone(timedelta(hours=2))
    o = c.call(getattr, k, "time")
    c.check("its time is the strip's", o.ok and c.same(o.value, c.call(getattr, d, "time").value), lambda: f"{o}")
    o = c.call(getattr, k, "timezone")
    c.check("its zone is the strip's", o.ok and o.value is clock._timezone, lambda: f"{o}")
    o = c.call(k.update)
    c.check("its update needs no exchange of its own without modules", o.ok and not p.sent, lambda: f"{o} {p.sent}")
    c.check("and offers its state", set(k.features) == {"state", "on_since"}, lambda: f"{list(k.features)}")


CAM = {"device_model": "C200", "device_alias": "alias", "sw_version": "1.2.3 Build 1", "hw_version": "2.0", "hw_id": "HWID", "dev_id": "DEV", "mac": "00-11-22-AA-BB-CC", "oem_id": "OEM", "device_type": "SMART.IPCAMERA", "region": "EU"}


@contract("C28", "camera_identity", funcs=("SmartCamDevice.hw_info", "SmartCamDevice.alias", "SmartCamDevice._update_internal_info", "SmartCamDevice._update_internal_state", "SmartCamDevice._map_info", "SmartCamDevice.set_alias", "SmartCamDevice.rssi"), covers=("camera", "child", "not yet"))
def camera_identity(c):
    from kasa.smartcam import modules as CM

    name, rssi = c.str("alias"), c.int("rssi", -120, 120)
    basic = {**CAM, "device_alias": name}
    d, p = smart(SmartCamDevice)
    d._info = {}
    kind = c.pick("of", ["camera", "child", "not yet"])
    c.cover(kind)
    if kind == "not yet":
        c.check("without data it has no name and no kind", c.call(getattr, d, "alias").value is None and c.call(getattr, d, "device_type").value is T.Unknown)
        return
    d._last_update["getDeviceInfo"] = {"device_info": {"basic_info": basic}}
    if kind == "camera":
        o = c.call(d._update_internal_info, {"getDeviceInfo": {"device_info": {"basic_info": basic}}})
    else:
        o = c.call(d._update_internal_state, {"basic_info": basic})
    assert o.ok, o
    for a, exp in (("alias", name), ("model", "C200"), ("device_id", "DEV"), ("mac", "00:11:22:AA:BB:CC"), ("device_type", T.Camera),
                   ("hw_info", {"sw_ver": "1.2.3 Build 1", "hw_ver": "2.0", "mac": "00-11-22-AA-BB-CC", "type": None, "hwId": "HWID", "dev_name": name, "oemId": "OEM"})):
        o = c.call(getattr, d, a)
        if a == "hw_info" and o.ok and isinstance(o.value, dict):
            # the type is not decided
            got = {k: v for k, v in o.value.items() if k != "type"}
            exp.pop("type")
            c.check("the hardware information is what the camera reports", c.same(got, exp), lambda: f"{got} {exp}")
            continue
        c.check(f"{a} is what the camera reports", o.ok and c.same(o.value, exp), lambda: f"{a} {o} instead of {exp}")
    o = c.call(CM.DeviceModule, d, "devicemodule")
    d._modules[o.value.name] = o.value
    d._last_update["getConnectionType"] = {"rssiValue": rssi}
    o = c.call(getattr, d, "rssi")
    c.check("the signal is what the camera reports", o.ok and c.same(o.value, rssi), lambda: f"{o}")
    p.on_query = lambda r: {"ok": 1}
    new = c.str("new alias")
    o = c.call(d.set_alias, new)
    c.check("its name is set", o.ok and o.value == {"ok": 1} and c.same(p.sent, [{"setDeviceAlias": {"system": {"sys": {"dev_alias": new}}}}]), lambda: f"{o} {p.sent}")


@contract("C28", "camera_on", funcs=("SmartCamDevice.is_on", "SmartCamDevice.set_state", "Camera.is_on", "Camera.set_state"), covers=("lens", "no lens"))
def camera_on(c):
    """A camera is on while its lens is not masked; a device without lens is always on."""
    from kasa.smartcam import modules as CM

    from .c31_camera import camera

    have = c.pick("lens", ["mask", "none"])
    masked = c.pick("masked", ["on", "off"])
    mods = (CM.LensMask, CM.Camera) if have == "mask" else ()
    d, p, *ms = camera(c, mods, getLensMaskConfig={"lens_mask": {"lens_mask_info": {"enabled": masked}}})
    o = c.call(getattr, d, "is_on")
    on = c.pick("set", [True, False])
    if have == "none":
        c.cover("no lens")
        c.check("a device without lens is on", o.ok and o.value is True, lambda: f"{o}")
        o = c.call(d.set_state, on)
        c.check("and is not switched", o.ok and o.value == {} and not p.sent, lambda: f"{o} {p.sent}")
        return
    c.cover("lens")
    c.check("on while the lens is not masked", o.ok and o.value is (masked == "off"), lambda: f"{o}")
    o = c.call(d.set_state, on)
    c.check("switching masks or unmasks the lens", o.ok and c.same(p.sent, [{"setLensMaskConfig": {"lens_mask": {"lens_mask_info": {"enabled": "off" if on else "on"}}}}]), lambda: f"{o} {p.sent}")


@contract("C28", "child_info", funcs=("SmartChildDevice.device_info", "SmartCamChild.device_info", "SmartCamChild._update_internal_state", "SmartCamChild._map_child_info_from_parent", "SmartCamChild.device_type"), covers=("smart", "camera"))
def child_info(c):
    """A child's information is its own, not its parent's."""
    full, fw, build = c.pick("firmware", VERSIONS)
    hw, name = c.str("hw"), c.str("alias")
    parent, _ = smart(info={"type": "SMART.TAPOHUB", "model": "H200", "fw_ver": "9.9 Z", "hw_ver": "9", "device_id": "HUB"}, component_nego={"component_list": []})
    if c.pick("of", ["smart", "camera"]) == "smart":
        c.cover("smart")
        o = c.call(SmartChildDevice, parent, {"device_id": "x", "category": "subg.trigger.contact-sensor", "type": "SMART.TAPOSENSOR", "model": "T110", "fw_ver": full, "hw_ver": hw, "specs": "EU"}, {"component_list": [{"id": "device", "ver_code": 1}]})
        assert o.ok, o
        o = c.call(getattr, o.value, "device_info")
        exp = dict(short_name="T110", long_name="T110", brand="tapo", device_family="SMART.TAPOSENSOR", region="EU", requires_auth=True)
    else:
        c.cover("camera")
        info = {"device_id": "x", "category": "camera", "device_type": "SMART.IPCAMERA", "device_model": "C420", "sw_ver": full, "hw_ver": hw, "alias": name, "hw_id": "HWID", "mac": "00-11-22-AA-BB-CC", "region": "EU", "oem_id": "OEM"}
        o = c.call(SmartCamChild, parent, info, {"app_component_list": [{"name": "system", "version": 1}]})
        assert o.ok, o
        d = o.value
        c.call(d._update_internal_state, info)
        d._last_update = {"getDeviceInfo": {}}
        for a, e in (("alias", name), ("model", "C420"), ("device_id", "x"), ("mac", "00:11:22:AA:BB:CC"), ("device_type", T.Camera)):
            o = c.call(getattr, d, a)
            c.check(f"a camera child's {a} is its own", o.ok and c.same(o.value, e), lambda: f"{a} {o} instead of {e}")
        hi = c.call(getattr, d, "hw_info").value
        c.check("so is its hardware information", c.same({k: v for k, v in hi.items() if k != "type"}, {"sw_ver": full, "hw_ver": hw, "mac": "00-11-22-AA-BB-CC", "hwId": "HWID", "dev_name": name, "oemId": "OEM"}), lambda: f"{hi}")
        o = c.call(getattr, d, "device_info")
        exp = dict(short_name="C420", long_name="C420", brand="tapo", device_family="SMART.IPCAMERA", region="EU", requires_auth=True)
    exp.update(firmware_version=fw, firmware_build=build, hardware_version=hw)
    c.check("the child's information is its own", o.ok and all(c.same(getattr(o.value, k), v) for k, v in exp.items()), lambda: f"{o} instead of {exp}")


@contract("C28", "connection", funcs=("Device.host", "Device.port", "Device.credentials", "Device.credentials_hash", "Device.config", "Device.region", "Device.disconnect", "Device.is_off"), covers=("legacy", "smart"))
def connection(c):
    """What a device tells of its connection is that of its transport, also after it was moved."""
    port, h = c.int("port", 1, 65535), c.str("hash")
    d, p = iot(IotPlug, sys_info={"model": "HS110(EU)", "relay_state": c.pick("relay", [0, 1])}) if c.pick("generation", ["legacy", "smart"]) == "legacy" else smart(info={"specs": "EU", "device_on": c.pick("on", [True, False])}, component_nego={"component_list": []})
    c.cover("legacy" if isinstance(d, IotPlug) else "smart")
    t = p._transport
    t._port, t.credentials_hash = port, h
    for a, exp in (("port", port), ("credentials_hash", h), ("credentials", t._credentials), ("config", t._config), ("host", t._host), ("region", "EU")):
        o = c.call(getattr, d, a)
        c.check(f"the {a} is that of the connection", o.ok and (o.value is exp or c.same(o.value, exp)), lambda: f"{a} {o} instead of {exp}")
    c.check("off is the opposite of on", c.call(getattr, d, "is_off").value is (not c.call(getattr, d, "is_on").value))
    c.set(d, "host", "new.host")
    c.check("a new host is used by the connection and its configuration", t._host == "new.host" and t._config.host == "new.host" and c.call(getattr, d, "host").value == "new.host")
    o = c.call(d.disconnect)
    c.check("disconnecting closes the connection", o.ok and p.closed == 1)


@contract("C28", "legacy_readings", funcs=("IotDevice.get_sys_info", "IotDevice.get_time", "IotDevice.get_timezone", "IotDevice.time", "IotDevice.timezone", "IotDevice.internal_state", "IotDevice._verify_emeter", "IotDevice.turn_on", "IotDevice.turn_off",
                                              "IotDevice.is_on", "IotDevice.has_emeter", "IotCamera.time", "IotCamera.timezone", "IotCamera.is_on"), covers=("device", "camera"))
def legacy_readings(c):
    from datetime import datetime

    from kasa.iot import IotCamera
    from kasa.iot.modules import Time as IotTime

    if c.pick("kind", ["device", "camera"]) == "camera":
        c.cover("camera")
        at = c.pick("seconds", [0, 1_700_000_000, 4_000_000_000])
        d, p = iot(IotCamera, sys_info={"system_time": at})
        o = c.call(getattr, d, "time")
        c.check("a camera's time is that of its system", o.ok and c.same(o.value, c.call(datetime.fromtimestamp, at).value), lambda: f"{o}")
        c.check("a camera is on", c.call(getattr, d, "is_on").value is True and d.device_type is T.Camera and c.call(getattr, d, "timezone").value is None)
        return
    c.cover("device")
    info = {"alias": c.str("alias"), "err_code": 0}
    feature = c.pick("feature", ["TIM", "TIM:ENE", "", "ENE"])
    d, p = iot(IotDevice, lambda r: {"system": {"get_sysinfo": dict(info)}}, sys_info={"feature": feature}, time={"get_time": {"year": c.int("year", 2000, 2099), "month": 1, "mday": 2, "hour": 3, "min": 4, "sec": 5}})
    o = c.call(getattr, d, "has_emeter")
    c.check("a device has a meter if it says so", o.ok and o.value is ("ENE" in feature))
    o = c.call(d._verify_emeter)
    c.check("without a meter, or before its first reading, there is none to read", o.exactly(KasaException))
    d._last_update["emeter"] = {}
    c.check("after it there is one", c.call(d._verify_emeter).ok if "ENE" in feature else c.call(d._verify_emeter).exactly(KasaException))
    o = c.call(d.get_sys_info)
    c.check("the system information is asked for and given", o.ok and c.same(o.value["alias"], info["alias"]) and len(p.sent) == 1 and list(p.sent[0]) == ["system"] and list(p.sent[0]["system"]) == ["get_sysinfo"], lambda: f"{o} {p.sent}")
    clock = c.call(IotTime, d, "time").value
    clock._timezone = timezone(timedelta(hours=-3))
    d._modules = d._supported_modules = {Module.Time: clock}
    for a, f in (("time", d.get_time), ("timezone", d.get_timezone)):
        v, o = c.call(getattr, d, a), c.call(f)
        c.check(f"{a} is that of the clock, under both names", v.ok and o.ok and c.same(v.value, o.value) and c.same(v.value, c.call(getattr, clock, a).value), lambda: f"{v} {o}")
    c.check("the raw data is that of the last update", c.call(getattr, d, "internal_state").value is d._last_update)
    for f in (d.turn_on, d.turn_off):
        c.check("a device of no known kind cannot be switched", c.call(f).exactly(NotImplementedError) and len(p.sent) == 1)
    c.check("nor says whether it is on", c.call(getattr, d, "is_on").exactly(NotImplementedError))
    d._last_update, d._discovery_info = {}, {"x": 1}
    c.check("before the first one what discovery told", c.call(getattr, d, "internal_state").value == {"x": 1})


@contract("C28", "kind_names", funcs=("DeviceType.from_value",), covers=("known", "unknown"))
def kind_names(c):
    v = c.pick("name", [t.value for t in T] + ["", "Plug", "plugs", "unknown kind"])
    o = c.call(T.from_value, v)
    known = v in {t.value for t in T}
    c.cover("known" if known else "unknown")
    c.check("a kind is known by its name", o.ok and (o.value.value == v if known else o.value is T.Unknown), lambda: f"{o}")
