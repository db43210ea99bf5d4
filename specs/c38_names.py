"""C38: names: old names mean what replaced them, sockets and children are found by name, id and place."""
import warnings

import kasa
from kasa import DeviceType, KasaException, Module
from kasa.iot import IotBulb, IotDimmer, IotLightStrip, IotPlug, IotStrip, IotWallSwitch
from kasa.iot import modules as I
from kasa.iot.iotstrip import IotStripPlug
from kasa.smart import SmartDevice
from kasa.smart import modules as M
from kasa.smartcam import SmartCamDevice
from pyvc.registry import contract, prop

from .devices import AnySocket, Kids, iot, smart

prop("C38", [])
warnings.simplefilter("ignore", DeprecationWarning)

CLASSES = [IotPlug, IotBulb, IotDimmer, IotLightStrip, IotStrip, IotWallSwitch, SmartDevice, SmartCamDevice]


def updated(c, cls):
    d, p = iot(cls) if cls.__module__.startswith("kasa.iot") else smart(cls, component_nego={"component_list": []})
    if cls is SmartCamDevice:
        d._last_update["getDeviceInfo"] = {"device_info": {"basic_info": {"device_model": "C200", "device_type": "SMART.IPCAMERA", "sw_version": "1.0 B", "hw_version": "1"}}}
    if hasattr(d, "_supported_modules"):
        d._supported_modules = d._modules
    return d


TYPES = {"is_bulb": DeviceType.Bulb, "is_dimmer": DeviceType.Dimmer, "is_light_strip": DeviceType.LightStrip, "is_plug": DeviceType.Plug, "is_wallswitch": DeviceType.WallSwitch,
         "is_strip": DeviceType.Strip, "is_strip_socket": DeviceType.StripSocket}


@contract("C38", "type_names", funcs=("Device.__getattr__",), covers=("yes", "no"))
def type_names(c):
    """is_bulb, is_plug, ... tell the type of device."""
    d = updated(c, c.pick("class", CLASSES))
    d._device_type = c.pick("type", list(DeviceType))
    name = c.pick("name", list(TYPES))
    o = c.call(getattr, d, name)
    want = d._device_type is TYPES[name]
    c.check("the old name of a type tells whether the device is of that type", o.ok and o.value is want, lambda: f"{name} {o}")
    c.cover("yes" if want else "no")


# Old attribute: the module it went to, and what it is called there (the first which is there).
MOVED = {"brightness": ("Light", "brightness"), "set_brightness": ("Light", "set_brightness"), "hsv": ("Light", "hsv"), "set_hsv": ("Light", "set_hsv"), "color_temp": ("Light", "color_temp"),
         "set_color_temp": ("Light", "set_color_temp"), "led": ("Led", "led"), "set_led": ("Led", "set_led"), "effect": ("LightEffect", "_deprecated_effect", "effect"),
         "effect_list": ("LightEffect", "_deprecated_effect_list", "effect_list"), "set_effect": ("LightEffect", "set_effect"), "set_custom_effect": ("LightEffect", "set_custom_effect"),
         "presets": ("LightPreset", "_deprecated_presets", "preset_states_list"), "save_preset": ("LightPreset", "_deprecated_save_preset"), "get_emeter_realtime": ("Energy", "get_status"),
         "emeter_realtime": ("Energy", "status"), "emeter_today": ("Energy", "consumption_today"), "emeter_this_month": ("Energy", "consumption_this_month"),
         "current_consumption": ("Energy", "current_consumption"), "get_emeter_daily": ("Energy", "get_daily_stats"), "get_emeter_monthly": ("Energy", "get_monthly_stats")}


class Part:
    """A module whose attributes are told apart by their value."""


@contract("C38", "moved_names", funcs=("Device.__getattr__", "Device._get_replacing_attr"), covers=("there", "missing"))
def moved_names(c):
    """Attributes which moved to a module are still found on the device."""
    cls = c.pick("class", CLASSES)
    d = updated(c, cls)
    old = c.pick("name", list(MOVED))
    where, *names = MOVED[old]
    mods = {}
    for other in ("Light", "Led", "LightEffect", "LightPreset", "Energy"):
        if other != where:
            mods[other] = Part()
            for x in {a for _, *b in MOVED.values() for a in b}:
                setattr(mods[other], x, f"{other} {x}")
    want = None
    if c.maybe("has the module"):
        mods[where] = Part()
        for x in {a for _, *b in MOVED.values() for a in b} - set(names):
            setattr(mods[where], x, f"{where} {x}")
        for x in reversed(names):
            if c.maybe("has " + x):
                setattr(mods[where], x, f"{where} {x}")
                want = f"{where} {x}"
    d._modules = mods
    if hasattr(d, "_supported_modules"):
        d._supported_modules = mods
    o = c.call(getattr, d, old)
    c.check("an old attribute is the one that replaced it", (o.ok and o.value == want) if want else o.exactly(AttributeError), lambda: f"{cls.__name__} {old} {o}")
    c.cover("there" if want else "missing")


@contract("C38", "unknown_names", funcs=("Device.__getattr__",), covers=("device", "light", "energy", "package"))
def unknown_names(c):
    d = updated(c, c.pick("class", CLASSES))
    where = c.pick("where", ["device", "light", "energy", "package"])
    x = {"device": d, "light": M.Light(d, "light"), "energy": M.Energy(smart()[0], "energy"), "package": kasa}[where]
    if where != "device":
        d, _ = smart()
    o = c.call(getattr, x, c.pick("name", ["", "x", "get_", "is_", "is_bulbs", "emeter", "_deprecated", "SmartDevices"]))
    c.check("a name which never was is an AttributeError", o.exactly(AttributeError), lambda: f"{where} {o}")
    c.cover(where)


@contract("C38", "light_names", funcs=("Device._get_deprecated_callable_attribute", "Light.__getattr__", "Light._deprecated_valid_temperature_range"), covers=("device", "light", "no light"))
def light_names(c):
    """is_dimmable, is_color, ... tell what the light can do."""
    d, _ = smart()
    comps = [k for k in ("brightness", "color", "color_temperature") if c.maybe(k)]
    lo, hi = c.int("lowest", 1000, 9000), c.int("highest", 1000, 9000)
    if c.maybe("effects"):
        d._modules["LightEffect"] = Part()
    d._info["color_temp_range"] = [lo, hi]
    for k, cls in (("brightness", M.Brightness), ("color", M.Color), ("color_temperature", M.ColorTemperature)):
        if k in comps:
            d._modules[cls.__name__] = m = cls(d, k)
            m._initialize_features()
            for f in m._module_features.values():
                d._features[f.id] = f
    light = M.Light(d, "light")
    if comps:
        d._modules["Light"] = light
    for f in (["color_temp"] if "color_temperature" in comps else []):
        pass
    on = d if not comps or c.maybe("asked of the device") else light
    name = c.pick("name", ["is_dimmable", "is_color", "is_variable_color_temp", "has_effects", "valid_temperature_range"])
    o = c.call(getattr, on, name)
    if not comps:
        c.check("a device without light has no such attribute", o.exactly(AttributeError), lambda: f"{name} {o}")
        return c.cover("no light")
    if name == "valid_temperature_range":
        c.check("the range is that of the color temperature, if it has one",
                (o.ok and c.and_(c.eq(o.value.min, lo), c.eq(o.value.max, hi))) if "color_temperature" in comps else o.exactly(KasaException), lambda: f"{comps} {o}")
    else:
        want = "LightEffect" in d._modules if name == "has_effects" else {"is_dimmable": "brightness", "is_color": "color", "is_variable_color_temp": "color_temperature"}[name] in comps
        c.check("old names tell what the light can do", o.ok and o.value is want, lambda: f"{name} {comps} {o}")
    c.cover("device" if on is d else "light")


ENERGY = {"emeter_today": "consumption_today", "emeter_this_month": "consumption_this_month", "realtime": "status", "get_realtime": "get_status", "erase_emeter_stats": "erase_stats",
          "get_daystat": "get_daily_stats", "get_monthstat": "get_monthly_stats"}


@contract("C38", "energy_names", funcs=("Energy.__getattr__",), covers=tuple(ENERGY))
def energy_names(c):
    cls = c.pick("class", [I.Emeter, M.Energy])
    m = cls(*((iot(IotPlug)[0], "emeter") if cls is I.Emeter else (smart()[0], "energy")))
    old = c.pick("name", [x for x in ENERGY if cls is M.Energy or x not in ("get_daystat", "get_monthstat")])  # (legacy usage still has these two itself)
    for x in ENERGY.values():
        c.patch(cls, x, property(lambda self, x=x: "the " + x))
    o = c.call(getattr, m, old)
    c.check("an old attribute of the energy meter is the one that replaced it", o.ok and o.value == "the " + ENERGY[old], lambda: f"{old} {o}")
    c.cover(old)


@contract("C38", "package_names", funcs=("kasa.__getattr__",), covers=("old",))
def package_names(c):
    """Old names of classes."""
    from kasa.iot.modules import lightpreset
    from kasa.protocols import iotprotocol

    names = {"SmartDevice": kasa.iot.IotDevice, "SmartPlug": IotPlug, "SmartBulb": IotBulb, "SmartLightStrip": IotLightStrip, "SmartStrip": IotStrip, "SmartDimmer": IotDimmer,
             "SmartBulbPreset": lightpreset.IotLightPreset, "SmartDeviceException": KasaException, "UnsupportedDeviceException": kasa.UnsupportedDeviceError,
             "AuthenticationException": kasa.AuthenticationError, "TimeoutException": kasa.TimeoutError, "ConnectionType": kasa.DeviceConnectionParameters,
             "EncryptType": kasa.DeviceEncryptionType, "DeviceFamilyType": kasa.DeviceFamily, "TPLinkSmartHomeProtocol": iotprotocol._deprecated_TPLinkSmartHomeProtocol}
    old = c.pick("name", list(names))
    o = c.call(getattr, kasa, old)
    c.check("an old class is the one that replaced it", o.ok and o.value is names[old], lambda: f"{old} {o}")
    c.cover("old")


@contract("C38", "old_protocol", funcs=("_deprecated_TPLinkSmartHomeProtocol.__init__",), covers=("host", "transport", "nothing"))
def old_protocol(c):
    """The old protocol takes a host, and the default port of legacy devices."""
    from kasa import DeviceConfig
    from kasa.protocols.iotprotocol import _deprecated_TPLinkSmartHomeProtocol as P
    from kasa.transports import XorTransport

    how = c.pick("given", ["host", "transport", "nothing"])
    port = c.maybe("port")
    n = c.int("port number", 1, 65535)
    timeout = c.int("timeout", 1, 99)
    t = XorTransport(config=DeviceConfig("10.0.0.2", port_override=3))
    kw = {}
    if port:
        kw["port"] = n
    if c.maybe("timeout given"):
        kw["timeout"] = timeout
    o = c.call(P, *(("10.0.0.1",) if how == "host" else ()), **(dict(transport=t) if how == "transport" else kw if how == "host" else {}))
    if how == "nothing":
        c.check("it needs a host or a transport", o.exactly(KasaException), lambda: f"{o}")
    elif how == "transport":
        c.check("a given transport is used", o.ok and o.value._transport is t)
    else:
        x = o.value._transport if o.ok else None
        c.check("a host is asked the way legacy devices are", o.ok and type(x) is XorTransport and x._host == "10.0.0.1" and c.eq(x._port, n if port else 9999)
                and c.eq(x._timeout, timeout if "timeout" in kw else 5), lambda: f"{o}")
    c.cover(how)


@contract("C38", "children", funcs=("Device.get_child_device", "Device.get_plug_by_name", "Device.children"), covers=("id", "name", "missing"),
          bounded="at most 3 children")
def children(c):
    """Children are found by their id, name and place."""
    cls = c.pick("class", [IotStrip, SmartDevice])
    d = updated(c, cls)
    n = c.pick("children", [0, 1, 3])
    kids = []
    for i in range(n):
        k, _ = (iot(IotPlug, sys_info={"alias": c.pick(f"alias{i}", ["Lamp", "lamp", "", None, "id1", " lamp "])}) if cls is IotStrip else smart())
        if cls is SmartDevice:
            a = c.pick(f"alias{i}", ["Lamp", "lamp", "", "id1", " lamp "])
            import base64

            k._info["nickname"] = base64.b64encode(a.encode()).decode()
        kids.append(k)
    alias = [k.alias for k in kids]
    d._children = {f"id{i}": k for i, k in enumerate(kids)}
    c.check("the children are there in their order", list(d.children) == kids)
    ask = c.pick("ask", ["id1", "ID1", "lamp", "Lamp", ""])
    o = c.call(d.get_child_device, ask)
    by_id = d._children.get(ask)
    by_name = [k for k, a in zip(kids, alias) if a and a.lower() == ask.lower()]
    want = by_id or (by_name[0] if by_name else None)
    c.check("a child is found by its id, or else its name", o.ok and o.value is want, lambda: f"{ask} {alias} {o}")
    o = c.call(d.get_plug_by_name, ask)
    exact = [k for k, a in zip(kids, alias) if a == ask]
    c.check("a socket is found by its exact name", (o.ok and o.value is exact[0]) if exact else o.exactly(KasaException), lambda: f"{ask} {alias} {o}")
    c.cover("id" if by_id else "name" if by_name else "missing")


@contract("C38", "children_by_name", funcs=("Device.get_child_device", "Device.get_plug_by_name", "Device.children"), covers=("id", "name", "missing"))
def children_by_name(c):
    """However many children there are, and whatever their names."""
    d = updated(c, c.pick("class", [IotStrip, SmartDevice]))
    how = c.pick("how", ["any case", "exact"])
    n = c.int("children", 0, None if c.symbolic else 8)
    ask = c.str("name") if c.symbolic else c.pick("name", ["Lamp", "lamp", "", "id1", " lamp "])
    if c.symbolic:
        import z3

        from pyvc.values import SBool, SSeq, SStr, zi

        name, named = c.uf("alias", z3.IntSort(), z3.StringSort()), c.uf("named", z3.IntSort(), z3.BoolSort())
        seq = SSeq("children", n, lambda k: AnySocket(k, alias=SStr(name(zi(k))) if c.force(SBool(named(zi(k)))) else None))
        d._children = Kids(seq, c, ask, AnySocket("by id") if how == "any case" and c.maybe("it is an id") else None)
        by_id = d._children.child
    else:
        all_ = [AnySocket(i, alias=c.pick(f"alias{i}", ["Lamp", "lamp", "", None, "id1", " lamp "])) for i in range(n)]
        d._children = {f"id{i}": k for i, k in enumerate(all_)}
        by_id = d._children.get(ask) if how == "any case" else None
    some = c.force(n > 0)
    w = c.int("any child", 0, *([] if c.symbolic else [max(n - 1, 0)])) if some else 0
    if some:
        c.assume(w < n)
    kid = (seq.at(w) if c.symbolic else all_[w]) if some else None

    def called(x):
        if x.alias is None:
            return False
        return c.and_(c.not_(c.eq(x.alias, "")), c.eq(x.alias.lower(), ask.lower())) if how == "any case" else c.eq(x.alias, ask)

    if some:
        match = called(kid)
        c.try_invariant("", "not passed a child of that name", lambda L: c.implies(match, L.k <= w))
    o = c.call(d.get_child_device if how == "any case" else d.get_plug_by_name, ask)
    if by_id is not None:
        c.cover("id")
        c.check("a child is found by its id", o.ok and o.value is by_id, lambda: f"{o}")
    elif o.ok and o.value is not None:
        c.cover("name")
        c.check("a child of that name is found", called(o.value), lambda: f"{o}")
        c.check("the first one", some and c.implies(match, o.value.k <= w))
    else:
        c.cover("missing")
        c.check("nothing else is found", o.exactly(KasaException) if how == "exact" else o.ok, lambda: f"{o}")
        c.check("none has that name", not some or c.not_(match), lambda: f"{o}")


@contract("C38", "children_by_place", funcs=("Device.get_plug_by_index", "Device.children"), covers=("place", "no place"))
def children_by_place(c):
    """However many children there are."""
    d = updated(c, c.pick("class", [IotStrip, SmartDevice]))
    n = c.int("children", 0, None if c.symbolic else 8)
    if c.symbolic:
        from pyvc.values import SSeq

        d._children = Kids(SSeq("children", n, AnySocket))
    else:
        d._children = {f"id{i}": AnySocket(i) for i in range(n)}
    i = c.int("place", *(() if c.symbolic else (-9, 9)))
    o = c.call(d.get_plug_by_index, i)
    inside = c.force(c.and_(i >= 0, i < n))
    c.check("a socket is found by its place, counting from zero", (o.ok and c.eq(o.value.k, i)) if inside else o.exactly(KasaException), lambda: f"{o}")
    c.cover("place" if inside else "no place")


READERS = ["features", "has_emeter", "sys_info", "model", "time", "timezone", "hw_info", "location", "rssi", "mac", "is_on", "on_since", "device_id", "modules"]
MORE = {IotBulb: ["is_color_", "_is_color", "_is_dimmable", "_is_variable_color_temp", "_valid_temperature_range", "light_state", "_hsv", "_color_temp", "_brightness", "_has_effects"][1:],
        IotDimmer: ["_brightness", "_is_dimmable"], IotLightStrip: ["length", "_hsv", "_brightness"], IotStrip: [], IotPlug: [], IotWallSwitch: []}
COMMANDS = {IotBulb: [("_set_hsv", (1, 2, 3)), ("_set_color_temp", (3000,)), ("_set_brightness", (5,))],
            IotDimmer: [("_set_brightness", (5,)), ("turn_on", ()), ("get_behaviors", ()), ("set_button_action", (1, 2)), ("set_fade_time", (1, 2))]}


@contract("C38", "before_update", funcs=("requires_update",), covers=("read", "command"))
def before_update(c):
    """What needs an update says so, instead of returning something made up or sending anything."""
    cls = c.pick("class", [IotPlug, IotBulb, IotDimmer, IotLightStrip, IotStrip, IotWallSwitch])
    d, p = iot(cls)
    d._last_update, d._sys_info = {}, None
    d._legacy_features = set()
    what = READERS + MORE[cls]
    cmds = COMMANDS.get(cls, []) + (COMMANDS[IotBulb] if cls is IotLightStrip else [])
    k = c.choose_index("what", len(what) + len(cmds))
    if k < len(what):
        o = c.call(getattr, d, what[k])
        c.cover("read")
    else:
        name, args = cmds[k - len(what)]
        from kasa.iot.iotdimmer import ActionType, ButtonAction, FadeType

        args = {"set_button_action": (ActionType.DoubleClick, ButtonAction.NoAction), "set_fade_time": (FadeType.FadeOn, 100)}.get(name, args)
        o = c.call(getattr(d, name), *args)
        c.cover("command")
    c.check("what needs an update says so", o.exactly(KasaException) and p.sent == [], lambda: f"{cls.__name__} {k} {o}")


@contract("C38", "discovered", funcs=("requires_update", "IotDevice.update_from_discover_info"), covers=("told", "not told"))
def discovered(c):
    """What the answer to discovery tells can be read before the first update, and only that."""
    cls = c.pick("class", [IotPlug, IotBulb, IotStrip])
    d, p = iot(cls)
    d._last_update, d._sys_info = {}, None
    d._legacy_features = set()
    info = {"device_model": c.pick("model", ["HS110(EU)", "HS110", "KL430(US)"]), "device_id": "D", "ip": "1.2.3.4"}
    if c.maybe("mac"):
        info["mac"] = c.pick("mac given", ["00-00-00-00-00-0A", "00:00:00:00:00:0A", "00000000000A"])
    c.call(d.update_from_discover_info, info)
    name = c.pick("name", [x for x in READERS if x != "device_id"])
    o = c.call(getattr, d, name)
    if name == "model":
        c.check("the model is known, without its region", o.ok and o.value == info["device_model"].split("(")[0], lambda: f"{o}")
    elif name == "mac" and "mac" in info:
        c.check("the address is known", o.ok and o.value.upper() == "00:00:00:00:00:0A", lambda: f"{o}")
    else:
        c.check("the rest needs an update", o.exactly(KasaException), lambda: f"{name} {o}")
        return c.cover("not told")
    c.cover("told")


@contract("C38", "shown", funcs=("Device.__repr__", "Device.state_information", "Device.features"), covers=("new", "discovered", "updated"))
def shown(c):
    """A device can be shown at any time; its features are shown with their values."""
    cls = c.pick("class", CLASSES)
    state = c.pick("state", ["new", "discovered", "updated"])
    d = updated(c, cls)
    legacy = cls.__module__.startswith("kasa.iot")
    d._device_type = c.pick("type", [DeviceType.Plug, DeviceType.Unknown])
    if cls is SmartCamDevice:
        d._info = {**d._info, "alias": "cam"}
    if state != "updated":
        d._last_update = {}
        if legacy:
            d._sys_info = None
        else:
            d._info = {}
    info = {"device_model": "P100(EU)", "device_type": "SMART.TAPOPLUG", "device_id": "D", "mac": "00-00-00-00-00-01", "ip": "127.0.0.1", "mgt_encrypt_schm": {"encrypt_type": "KLAP", "is_support_https": False}}
    if state == "discovered":
        o = c.call(d.update_from_discover_info, info)
        c.check("a discovered device takes what it is told", o.ok, lambda: f"{o}")
    o = c.call(d.__repr__)
    want = [str(d._device_type), "127.0.0.1"] + ([] if state == "new" else ["P100"] if state == "discovered" else ["HS110" if legacy else "C200" if cls is SmartCamDevice else "P100"])
    c.check("a device can always be shown", o.ok and all(x in o.value for x in want) and ("update() needed" in o.value) == (state != "updated"), lambda: f"{cls.__name__} {state} {o}")
    if state == "updated":
        f1, f2, f3 = Part(), Part(), Part()
        f1.name, f1.value, f2.name, f2.value, f3.name, f3.value = "One", c.int("one", 0, 5), "Two", c.str("two"), "Three", None
        d._features = {"a": f1, "b": f2, "c": f3}
        o = c.call(getattr, d, "state_information")
        c.check("the state shows each feature by its name with its value", o.ok and c.eq(o.value, {"One": f1.value, "Two": f2.value, "Three": None}), lambda: f"{o}")
        o = c.call(getattr, d, "features")
        c.check("the features are those of the device", o.ok and o.value == d._features)
    c.cover(state)


@contract("C38", "address", funcs=("Device.host", "Device.disconnect", "Device.connect", "Device._raw_query", "Device._add_feature"), covers=("host", "connect", "disconnect", "duplicate"))
def address(c):
    """Where a device is, how it is connected and disconnected."""
    d = updated(c, c.pick("class", CLASSES))
    p = d.protocol
    what = c.pick("what", ["host", "connect", "disconnect", "duplicate"])
    if what == "host":
        h = c.str("host")
        o = c.call(setattr, d, "host", h)
        g = c.call(getattr, d, "host")
        c.check("the host of a device can be changed, for its configuration too", o.ok and g.ok and c.and_(c.eq(g.value, h), c.eq(p._transport._host, h), c.eq(p._transport._config.host, h)))
    elif what == "connect":
        import kasa.device_factory as f

        seen = []

        async def connect(*, host=None, config=None):
            seen.append((host, config))
            return "the device"

        c.patch(f, "connect", connect)
        host, cfg = c.maybe("by host") and "h" or None, object()
        o = c.call(kasa.Device.connect, host=host, config=cfg)
        c.check("connecting needs no discovery", o.ok and o.value == "the device" and seen == [(host, cfg)])
    elif what == "disconnect":
        o = c.call(d.disconnect)
        c.check("disconnecting closes the connection", o.ok and p.closed == 1)
    else:
        f = Part()
        f.id = "x"
        a, b = c.call(d._add_feature, f), c.call(d._add_feature, f)
        c.check("two features cannot share an id", a.ok and d._features["x"] is f and b.exactly(KasaException))
    c.cover(what)


@contract("C38", "child_shown", funcs=("SmartChildDevice.__repr__",), covers=("alone", "parent not updated", "updated"), opts={"texts": True})
def child_shown(c):
    """A child is shown as its parent's, whatever is known of it."""
    import base64

    from kasa.smart import SmartChildDevice

    d, _ = smart(info={"nickname": base64.b64encode(b"The hub").decode(), "model": "H100", "avatar": ""}, component_nego={"component_list": []})
    name = c.pick("name", ["Door", "", "ü"])
    k = c.call(SmartChildDevice, d, {"device_id": "C1", "category": "subg.trigger.contact-sensor", "nickname": base64.b64encode(name.encode()).decode(), "model": "T110", "type": "SMART.TAPOSENSOR", "hw_ver": "1", "fw_ver": "1.0 B"},
               {"component_list": []}).value
    k._last_update = {"get_trigger_logs": {}}
    how = c.pick("parent", ["alone", "parent not updated", "updated"])
    if how == "alone":
        k._parent = None
    elif how == "parent not updated":
        d._last_update = {}
    o = c.call(k.__repr__)
    c.check("a child can always be shown, with its type and parent", o.ok and "DeviceType.Sensor" in o.value and ("without parent" in o.value if how == "alone" else repr(d) in o.value), lambda: f"{how} {o}")
    if how == "updated":
        c.check("and with its name and model", name in o.value and "T110" in o.value, lambda: f"{o}")
    c.cover(how)
