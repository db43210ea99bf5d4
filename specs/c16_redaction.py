"""C16: sensitive data of device responses does not reach the logs."""
import json

import kasa.discover as discover
import kasa.protocols.iotprotocol as iotp
import kasa.protocols.protocol as proto
import kasa.protocols.smartcamprotocol as camp
import kasa.protocols.smartprotocol as smartp
import kasa.transports.ssltransport as ssl
from kasa.deviceconfig import DeviceConfig
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
from kasa.protocols.smartprotocol import _ChildProtocolWrapper
from kasa.transports.xortransport import XorEncryption
from pyvc.registry import contract, prop

from .common import StubTransport

prop("C16", assumptions=("log records are written through the modules' loggers",))

NAME = "I01BU0tFRF9OQU1FIw=="
# sensitive key -> how it is masked (the documented tables of the three protocols and the two discovery generations)
SMART = {k: "tail" for k in ("device_id", "parent_device_id", "original_device_id", "oem_id", "hw_id", "fw_id", "dev_id", "ext_addr")}
SMART |= {k: 0 for k in ("latitude", "longitude", "la", "lo", "channel")}
SMART |= {"nickname": NAME, "ssid": "I01BU0tFRF9TU0lEIw==", "map_name": NAME, "cd": "I01BU0tFRF9CSU5BUlkj", "device_name": "#MASKED_NAME#", "device_alias": "#MASKED_NAME#",
          "alias": "#MASKED_NAME#", "location": "#MASKED_NAME#", "map_data": "#SCRUBBED_MAPDATA#", "bssid": "000000000000", "board_sn": "000000000000", "custom_sn": "000000000000"}
SMART |= {k: "zeros" for k in ("setup_code", "setup_payload", "mfi_setup_code", "mfi_setup_id", "mfi_token_token", "mfi_token_uuid")}
SMART |= {"mac": "mac"}
IOT = {"deviceId": "tail", "oemId": "tail", "hwId": "tail", "latitude": 0, "longitude": 0, "latitude_i": 0, "longitude_i": 0, "alias": "#MASKED_NAME#", "ssid": "#MASKED_SSID#",
       "username": "user@example.com", "mac": "mac", "mic_mac": "mac"}
NEW = {"device_id": "tail", "owner": "tail", "master_device_id": "tail", "group_id": "tail", "device_name": "#MASKED_NAME#", "group_name": "I01BU0tFRF9TU0lEIw==", "mac": "mac"}
DECRYPTED = {"connect_ssid": "#MASKED_SSID#", "device_id": "tail", "owner": "tail"}
TABLES = {"smart": (SMART, smartp.REDACTORS), "iot": (IOT, iotp.REDACTORS), "discovery": (NEW, discover.NEW_DISCOVERY_REDACTORS), "decrypted": (DECRYPTED, discover.DECRYPTED_REDACTORS)}
MACS = {"AA:BB:CC:DD:EE:FF": "AA:BB:CC:00:00:00", "aa-bb-cc-dd-ee-ff": "aa-bb-cc-00-00-00", "AABBCCDDEEFF": "AABBCC000000"}


def draw(c, how):
    """(raw value, expected value)"""
    if how == "mac":
        m = c.pick("mac", list(MACS))
        return m, MACS[m]
    if how == "zeros":
        v = c.pick("code", ["1234-567-8901", "MT:ABC_9", "x"])
        return v, "".join("0" if ch.isalnum() or ch == "_" else ch for ch in v)
    if how == 0:
        v = c.real("number")
        return v, 0
    v = c.str("value", nonempty=True)
    if how == "tail":
        return v, "REDACTED_" + v[9:]
    return v, how


def redactor(name, table, redactors):
    def driver(c):
        key = c.pick("key", list(table))
        raw, masked = draw(c, table[key])
        other = c.str("other")
        num = c.int("num")
        shape = c.pick("shape", ["top", "dict", "list", "list in dict", "list in list", "deep", "after", "absent"])
        leaf = {"other_field": other, key: raw, "n": num}
        want = {"other_field": other, key: masked, "n": num}
        wrap = {"top": lambda x: x, "dict": lambda x: {"a": 1, "result": x}, "list": lambda x: [x, {"n": 1}], "list in dict": lambda x: {"l": [{"n": 2}, x]},
                "list in list": lambda x: {"l": [[x], []]}, "deep": lambda x: {"r": {"s": {"t": [{"u": {"v": x}}]}}}, "after": lambda x: {"e": "", "z": None, "d": {}, "x": x},
                "absent": lambda x: {"n": x["n"]}}[shape]
        data = wrap(leaf)
        before = wrap(dict(leaf))
        o = c.call(proto.redact_data, data, redactors)
        c.check("a sensitive field is masked wherever it is, and nothing else changes", o.ok and c.same(o.value, wrap(want)))
        c.check("the data itself is untouched", c.same(data, before))

    contract("C16", "masking_" + name, funcs=("redact_data", "mask_mac", "REDACTORS"), bounded="eight nesting shapes; the values are arbitrary")(driver)

    def odd(c):
        key = c.pick("key", list(table))
        v = c.pick("odd value", [None, "", 17, 1.5, [1], {"a": "secret"}, True, "short"])
        o = c.call(proto.redact_data, {key: v, "k": 1}, redactors)
        c.check("an unexpected value never makes logging fail", o.ok and list(o.value) == [key, "k"] and o.value["k"] == 1)
        c.check("an absent value stays absent", c.implies(v is None or v == "", o.ok and o.value[key] == v))
        c.check("an unexpected value is not shown", c.implies(v in (17, {"a": "secret"}, [1]), o.ok and o.value[key] != v))

    contract("C16", "odd_values_" + name, funcs=("redact_data",), bounded="eight kinds of unexpected values")(odd)


for n, (t, r) in TABLES.items():
    redactor(n, t, r)


class Step:
    """redact_data replaced by its own contract: the inductive step of masking at any depth."""

    def __init__(self, c, redactors):
        self.c, self.redactors, self.seen = c, redactors, []

    def __call__(self, data, redactors):
        self.c.check("the table is passed down", redactors is self.redactors)
        if not isinstance(data, (dict, list)):
            return data
        self.seen.append(data)
        return Masked(data)


class Masked(dict):
    def __init__(self, of):
        super().__init__(masked=1)
        self.of = of


@contract("C16", "masking_at_any_depth", funcs=("redact_data",), assumes=("values of responses are JSON values (induction over their depth)",))
def induction(c):
    """Assuming the recursive calls mask their argument, every container handed down is masked: by induction every depth is."""
    real = proto.redact_data
    red = {"secret": None, "other": lambda x: "M", "ip": lambda x: x}
    st = Step(c, red)
    c.patch(proto, "redact_data", st)
    inner, lst, text, num = {"secret": "s"}, [{"secret": "t"}, 5, "plain", [{"secret": "u"}]], c.str("text"), c.int("num")
    o = c.call(real, {"a": inner, "secret": c.str("s", nonempty=True), "l": lst, "t": text, "n": num, "other": {"secret": 1}, "ip": text, "b": True, "z": None}, red)
    v = o.value
    c.check("every field is there", o.ok and list(v) == ["a", "secret", "l", "t", "n", "other", "ip", "b", "z"])

    def done(got, of, want):
        """masked by the recursive call's contract, or masked right here"""
        return type(got) is Masked and got.of is of or type(got) is not Masked and c.same(got, want)

    c.check("a nested object is masked", done(v["a"], inner, {"secret": "**REDACTED**"}))
    c.check("a nested list is masked item by item", type(v["l"]) is Masked or type(v["l"]) is list and len(v["l"]) == 4 and done(v["l"][0], lst[0], {"secret": "**REDACTED**"}) and v["l"][1:3] == [5, "plain"] and done(v["l"][3], lst[3], [{"secret": "**REDACTED**"}]))
    c.check("a sensitive field is masked whatever it holds", v["secret"] == "**REDACTED**" and v["other"] == "M")
    c.check("the rest is kept", c.and_(c.eq(v["t"], text), c.eq(v["n"], num), c.implies(text != "", c.eq(v["ip"], text))))
    c.check("flags and absent values are kept", v["b"] is True and v["z"] is None)
    o = c.call(real, [inner, 3, [inner]], red)
    c.check("a list is masked item by item", o.ok and type(o.value) is list and len(o.value) == 3 and done(o.value[0], inner, {"secret": "**REDACTED**"}) and o.value[1] == 3 and len(o.value[2]) == 1)


class Rec:
    """A logger that keeps what is written to it at any level."""

    def __init__(self):
        self.text = []

    def isEnabledFor(self, level):
        return True

    def _log(self, msg, *args, **kw):
        self.text.append(msg % args if args else msg)

    debug = info = warning = error = exception = _log


def secrets(table, avoid=()):
    return {k: "AA:BB:CC:DD:EE:%02d" % i if how == "mac" else 12.5 + i if how == 0 else f"9876{i:02d}54321-{i:02d}-secret" for i, (k, how) in enumerate(table.items()) if k not in avoid}


def quiet(c, rec, vals, n=1):
    text = "\n".join(rec.text)
    c.check("the response is logged", len(rec.text) >= n)
    c.check("no sensitive value is in the log", not any(str(v) in text for v in vals.values()))
    c.check("the rest of the response is in the log", "harmless" in text)


def loggers(c, *mods):
    r = Rec()
    for m in mods:
        c.patch(m, "_LOGGER", r)
    return r


@contract("C16", "log_of_smart_protocol", funcs=("SmartProtocol._execute_query", "SmartProtocol._execute_multiple_query"), bounded="one response per way of sending, holding every sensitive field")
def log_smart(c):
    rec = loggers(c, smartp)
    vals = secrets(SMART)
    res = {"x": "harmless", "info": {**vals}, "list": [{**vals}], **vals}
    how = c.pick("how", ["single", "string", "multi", "child", "paged", "error", "no method", "multi error"])

    def send(r):
        if not isinstance(r, dict):
            r = json.loads(r)
        if how == "multi error":
            return {"error_code": -1, **res}
        if r["method"] == "multipleRequest":
            return {"error_code": 0, "result": {"responses": [{"method": q["method"], "error_code": 0, "result": res} for q in r["params"]["requests"]]}}
        if how == "child":
            return {"error_code": 0, "result": {"responseData": {"error_code": 0, "result": res}}}
        if how == "paged":
            return {"error_code": 0, "result": {"sum": 2, "start_index": 0, "l": [res]}}
        return {"error_code": -1 if how == "error" else 0, "result": res}

    p = SmartProtocol(transport=StubTransport(send))
    if how == "no method":
        full = send
        def nomethod(r):
            x = full(r)
            for y in x["result"].get("responses", []):
                del y["method"]
            return x
        p._transport._send = nomethod
    q = {"single": {"get_x": None}, "string": "get_x", "multi": {"get_x": None, "get_y": {"a": 1}}, "no method": {"get_x": None, "get_y": {"a": 1}}, "paged": {"get_x": None}, "error": {"get_x": None}}
    q["multi error"] = q["multi"]
    if how == "child":
        o = c.call(_ChildProtocolWrapper("id", p).query, {"get_x": None}, 0)
    else:
        o = c.call(p.query, q[how], 0)
    c.check("the query is answered", o.ok or "error" in how)
    quiet(c, rec, vals)


@contract("C16", "log_of_camera_protocol", funcs=("SmartCamProtocol._execute_query",), bounded="one response per way of sending, holding every sensitive field")
def log_cam(c):
    rec = loggers(c, smartp, camp)
    vals = secrets(SMART)
    res = {"x": "harmless", "info": {**vals}, "list": [{**vals}], "m": {"name": {**vals}}, **vals}

    def send(r):
        if not isinstance(r, dict):
            r = json.loads(r)
        if r["method"] == "multipleRequest":
            return {"error_code": 0, "result": {"responses": [{"method": q["method"], "error_code": 0, "result": res} for q in r["params"]["requests"]]}}
        return {"error_code": 0, **res}

    bad = c.maybe("an error")
    p = SmartCamProtocol(transport=StubTransport((lambda r: {"error_code": -40401, **res}) if bad else send))
    q = c.pick("query", [{"get": {"m": {"name": "x"}}}, {"do": {"m": {"x": 1}}}, {"getX": {"m": {"name": "x"}}}, {"getX": {"m": {"name": "x"}}, "getY": {"m": {"name": "x"}}}])
    o = c.call(p.query, q, 0)
    c.check("the query is answered", o.ok is not bad)
    quiet(c, rec, vals)


@contract("C16", "log_of_robot_vacuum", funcs=("SslTransport.send", "SslTransport.send_request", "SmartProtocol._execute_query"), bounded="one response per way of sending, holding every sensitive field")
def log_vacuum(c):
    """The robot vacuums' transport has the answers in clear text."""
    from .common import Http

    vals = secrets(SMART)
    res = {"x": "harmless", "info": {**vals}, "list": [{**vals}], **vals}
    bad = c.maybe("an error")

    def post(p):
        r = json.loads(p.json)
        if r["method"] == "login":
            return 200, {"error_code": 0, "result": {"token": "tok"}}
        if bad:
            return 200, {"error_code": -1, **res}
        if r["method"] == "multipleRequest":
            return 200, {"error_code": 0, "result": {"responses": [{"method": q["method"], "error_code": 0, "result": res} for q in r["params"]["requests"]]}}
        return 200, {"error_code": 0, "result": res}

    Http(c, post)
    p = SmartProtocol(transport=ssl.SslTransport(config=DeviceConfig("127.0.0.1")))
    rec = loggers(c, smartp, ssl)
    o = c.call(p.query, c.pick("query", [{"get_x": None}, {"get_x": None, "get_y": {"a": 1}}]), 0)
    c.check("the query is answered", o.ok is not bad)
    text = "\n".join(rec.text)
    c.check("no sensitive value is in the log", not any(str(v) in text for v in vals.values()))


@contract("C16", "log_of_legacy_protocol", funcs=("IotProtocol._execute_query",), bounded="one response holding every sensitive field, strip children included")
def log_iot(c):
    rec = loggers(c, iotp)
    vals = secrets(IOT)
    kids = {"id": "secret-child-id-0", "alias": "secret-child-name-0"}
    res = {"system": {"get_sysinfo": {"x": "harmless", **vals, "children": [{**kids, "state": 1}, {"id": "secret-child-id-1", "alias": "", "state": 0}], "cloud": {**vals}}}}
    p = IotProtocol(transport=StubTransport(lambda r: res))
    o = c.call(p.query, c.pick("request", ['{"system": {"get_sysinfo": {}}}', {"system": {"get_sysinfo": {}}}]), 0)
    c.check("the answer itself is complete", o.ok and o.value == {"system": {"get_sysinfo": {"x": "harmless", **vals, "children": [{**kids, "state": 1}, {"id": "secret-child-id-1", "alias": "", "state": 0}], "cloud": {**vals}}}})
    quiet(c, rec, {**vals, **kids, "i": "secret-child-id-1"})


@contract("C16", "log_of_discovered_devices", funcs=("Discover._get_device_instance", "Discover._get_device_instance_legacy"), bounded="one answer of either generation, well-formed or not")
def log_discovery(c):
    from .common import Http

    Http(c, None)
    rec = loggers(c, discover)
    kind = c.pick("answer", ["legacy", "new", "unreadable"])
    if kind == "legacy":
        vals = secrets(IOT, ("mac", "mic_mac", "username"))
        info = {"system": {"get_sysinfo": {"type": "IOT.SMARTPLUGSWITCH", "model": "harmless", "mac": "AA:BB:CC:00:00:00", "hw_ver": "1", "sw_ver": "1 B", **vals}}}
        o = c.call(discover.Discover._get_device_instance_legacy, info, DeviceConfig("127.0.0.1"))
    else:
        vals = secrets(NEW)
        r = {"device_type": "SMART.TAPOPLUG", "device_model": "harmless(EU)", "ip": "127.0.0.1", "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}, **vals}
        if kind == "unreadable":
            del r["device_type"]
        o = c.call(discover.Discover._get_device_instance, {"result": r, "error_code": 0}, DeviceConfig("127.0.0.1"))
    c.check("the answer is understood", o.ok or kind == "unreadable")
    quiet(c, rec, vals)


@contract("C16", "log_of_datagrams", funcs=("_DiscoverProtocol.datagram_received", "Discover._get_device_instance", "Discover._get_device_instance_legacy", "Discover._get_connection_parameters"),
          covers=("supported", "unsupported"), bounded="one answer per way of being supported or not")
def log_datagrams(c):
    """What is received while devices are discovered, those which are not supported included."""
    from .common import Http

    Http(c, None)
    rec = loggers(c, discover)
    scheme = {"is_support_https": False, "encrypt_type": "KLAP", "http_port": 80, "lv": 2}
    kind = c.pick("answer", ["plug", "no class", "no protocol", "unknown family", "no scheme", "no encryption", "legacy", "legacy camera"])
    if kind.startswith("legacy"):
        vals = secrets(IOT, ("mac", "mic_mac", "username"))
        info = {"system": {"get_sysinfo": {"type": "IOT.IPCAMERA" if kind == "legacy camera" else "IOT.SMARTPLUGSWITCH", "model": "harmless", "mac": "AA:BB:CC:00:00:00", "hw_ver": "1", "sw_ver": "1 B", **vals}}}
        if kind == "legacy camera":
            info = {"system": {"get_sysinfo": {"err_code": 0, "system": info["system"]["get_sysinfo"]}}}
        data, port = XorEncryption.encrypt(json.dumps(info))[4:], 9999
    else:
        vals = secrets(NEW)
        r = {"device_type": {"no class": "IOT.IPCAMERA", "unknown family": "SMART.ODD"}.get(kind, "SMART.TAPOPLUG"), "device_model": "harmless(EU)", "ip": "127.0.0.1", "mgt_encrypt_schm": scheme, **vals}
        if kind == "no class":
            scheme["encrypt_type"] = "XOR"
        elif kind == "no protocol":
            scheme["encrypt_type"] = "XOR"
        elif kind == "no scheme":
            del r["mgt_encrypt_schm"]
        elif kind == "no encryption":
            del scheme["encrypt_type"]
        data, port = b"0" * 16 + json.dumps({"result": r, "error_code": 0}).encode(), 20002
    p = discover._DiscoverProtocol(target="255.255.255.255")
    o = c.call(p.datagram_received, data, ("127.0.0.1", port))
    ok = "127.0.0.1" in p.discovered_devices
    c.check("every answer is handled", o.ok)
    c.cover("supported" if ok else "unsupported")
    text = "\n".join(rec.text)
    c.check("which is logged", bool(rec.text))
    c.check("no sensitive value is in the log", not any(str(v) in text for v in vals.values()), lambda: f"{kind}")


@contract("C16", "area_names", funcs=("_mask_area_list",), covers=("masked",))
def area_names(c):
    """However many areas a map has, the given names are masked, the rest stays; the areas themselves are not modified."""
    def area(k):
        return {"id": c.int("id"), "name": c.str("name"), "color": c.int("color")}

    areas = c.seq("areas", area)
    o = c.call(smartp.REDACTORS["area_list"], areas)
    c.check("there is a masked area for each", o.ok and c.eq(c.call(len, o.value).value, c.call(len, areas).value), lambda: f"{o}")
    i = c.int("i", 0)
    c.assume(i < c.call(len, areas).value)
    got, was = c.call(lambda l, i: l[i], o.value, i), c.call(lambda l, i: l[i], areas, i)
    c.check("given names are masked", got.ok and c.eq(got.value["name"], c.ite(was.value["name"] == "", was.value["name"], NAME)), lambda: f"{got}")
    c.check("everything else stays", c.and_(c.eq(got.value["id"], was.value["id"]), c.eq(got.value["color"], was.value["color"])))
    c.cover("masked")


@contract("C16", "unnamed_areas", funcs=("_mask_area_list",), covers=("kept",))
def unnamed_areas(c):
    areas = [{"id": c.int("id"), "vertexs": [[c.int("x"), c.int("y")]]}, {"id": 2, "name": None}, {"id": 3, "name": c.str("name", nonempty=True)}]
    was = [dict(a) for a in areas]
    o = c.call(smartp.REDACTORS["area_list"], areas)
    c.check("areas without a name stay as they are", o.ok and c.same(o.value, [was[0], was[1], {"id": 3, "name": NAME}]))
    c.check("the data itself is untouched", c.same(areas, was))
    c.cover("kept")
