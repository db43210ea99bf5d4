"""C14: the right protocol, transport and device class for every connection; connecting never leaks."""
import asyncio

from kasa.credentials import Credentials
from kasa.device_factory import connect, get_device_class_from_family, get_device_class_from_sys_info, get_protocol
from kasa.deviceconfig import DeviceConfig, DeviceConnectionParameters, DeviceEncryptionType as ET, DeviceFamily as DF
from kasa.discover import Discover
from kasa.exceptions import AuthenticationError, KasaException, TimeoutError as KasaTimeoutError, UnsupportedDeviceError
from kasa.iot import IotBulb, IotDevice, IotDimmer, IotLightStrip, IotPlug, IotStrip, IotWallSwitch
from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
from kasa.smart import SmartDevice
from kasa.smartcam import SmartCamDevice
from kasa.transports import AesTransport, KlapTransport, KlapTransportV2, LinkieTransportV2, SslAesTransport, SslTransport, XorTransport
from pyvc.registry import contract, prop

from .common import Http

prop("C14", assumptions=("device update and protocol queries succeed or raise (their own contracts)",))

FAMILIES = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG", "SMART.TAPOBULB", "SMART.TAPOSWITCH",
            "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "SMART.TAPOCHIME", "SMART.TAPODOORBELL"]
ENC = ["KLAP", "AES", "XOR"]


def expected(family, enc, https, strict=False):
    if family in ("SMART.IPCAMERA", "SMART.TAPODOORBELL"):
        return None if strict and enc != "AES" else (SmartCamProtocol, SslAesTransport)
    if family == "IOT.IPCAMERA":
        return None if strict and enc != "XOR" else (IotProtocol, LinkieTransportV2)
    if family == "SMART.TAPOROBOVAC" and enc == "AES":
        return SmartProtocol, SslTransport
    if family.startswith("IOT."):
        return {"XOR": (IotProtocol, XorTransport), "KLAP": (IotProtocol, KlapTransport)}.get(enc) if not https else None
    if enc == "AES":
        return (SmartCamProtocol, SslAesTransport) if https else (SmartProtocol, AesTransport)
    return (SmartProtocol, KlapTransportV2) if enc == "KLAP" else None


EXACT = {("SMART.TAPOPLUG", False): SmartDevice, ("SMART.TAPOBULB", False): SmartDevice, ("SMART.TAPOSWITCH", False): SmartDevice,
         ("SMART.KASAPLUG", False): SmartDevice, ("SMART.TAPOHUB", False): SmartDevice, ("SMART.TAPOHUB", True): SmartCamDevice,
         ("SMART.KASAHUB", False): SmartDevice, ("SMART.KASASWITCH", False): SmartDevice, ("SMART.IPCAMERA", True): SmartCamDevice,
         ("SMART.TAPODOORBELL", True): SmartCamDevice, ("SMART.TAPOROBOVAC", True): SmartDevice,
         ("IOT.SMARTPLUGSWITCH", False): IotPlug, ("IOT.SMARTBULB", False): IotBulb}


def expected_class(family, https, exact=False):
    k = EXACT.get((family, https))
    return SmartDevice if k is None and family.startswith("SMART.") and not exact else k


def conn(c, families=FAMILIES):
    f, e, h = c.pick("family", families), c.pick("encryption", ENC), c.maybe("https")
    return f, e, h, DeviceConnectionParameters(DF(f), ET(e), c.pick("login version", [None, 2]), h, c.pick("http port", [None, 4433]))


@contract("C14", funcs=("get_protocol",), covers=("none", "some"))
def protocols(c):
    Http(c, None)
    f, e, h, cp = conn(c)
    strict = c.maybe("strict")
    c.check("every family is covered", len(DF) == len(FAMILIES) and len(ET) == len(ENC))
    cfg = DeviceConfig("127.0.0.9", connection_type=cp)
    o = c.call(get_protocol, cfg, strict=strict)
    want = expected(f, e, h, strict)
    if want is None:
        c.check("a combination without a protocol gives none", o.ok and o.value is None)
        c.cover("none")
    else:
        c.check("the family, encryption and https decide protocol and transport", o.ok and (type(o.value), type(o.value._transport)) == want
                and o.value._transport._config is cfg)
        c.cover("some")


@contract("C14", funcs=("get_device_class_from_family",), covers=("unknown",))
def family_classes(c):
    f, h, exact = c.pick("family", FAMILIES + ["SMART.FUTURE", "IOT.FUTURE", "", "smart.tapoplug"]), c.maybe("https"), c.maybe("exact")
    o = c.call(get_device_class_from_family, f, https=h, require_exact=exact)
    c.check("the class follows from family and https; unknown SMART families fall back unless exactness is required", o.ok and o.value is expected_class(f, h, exact))
    if o.ok and o.value is None:
        c.cover("unknown")


def sysinfo(c):
    """A symbolic legacy sysinfo and the class it stands for."""
    si = {}
    if c.maybe("has type"):
        si["type"] = t = c.str("type", pool=("IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "smartplugbulb"))
    elif c.maybe("has mic_type"):
        si["mic_type"] = t = c.str("type", pool=("IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA"))
    else:
        t = None
    n = None
    if c.maybe("has dev_name"):
        si["dev_name"] = n = c.str("dev_name", pool=("Smart Wi-Fi Dimmer", "Light Switch", "Plug"))
    for k in ("children", "length"):
        if c.maybe("has " + k):
            si[k] = [] if k == "children" else 16
    if t is None:
        return si, None
    if n is not None and "Dimmer" in n:
        return si, IotDimmer
    if "smartplug" in t.lower():
        if "children" in si:
            return si, IotStrip
        return si, IotWallSwitch if n is not None and "light" in n.lower() else IotPlug
    if "smartbulb" in t.lower():
        return si, IotLightStrip if "length" in si else IotBulb
    return si, IotPlug


@contract("C14", funcs=("get_device_class_from_sys_info", "IotDevice._get_device_type_from_sys_info", "_extract_sys_info"),
          covers=("IotPlug", "IotDimmer", "IotStrip", "IotWallSwitch", "IotBulb", "IotLightStrip", "none", "camera"))
def sysinfo_classes(c):
    si, want = sysinfo(c)
    if c.maybe("nested"):
        o = c.call(get_device_class_from_sys_info, {"system": {"get_sysinfo": {"system": si}}})
        c.check("a legacy camera is reported as unsupported", o.exactly(UnsupportedDeviceError))
        c.cover("camera")
        return
    o = c.call(get_device_class_from_sys_info, {"system": {"get_sysinfo": si}})
    if want is None:
        c.check("without a type the response is an error", o.exactly(KasaException))
        c.cover("none")
    else:
        c.check("the class follows from type, name and lists", o.ok and o.value is want)
        c.cover(want.__name__)


class Boom(Exception):
    pass


FAULTS = [KasaException, AuthenticationError, KasaTimeoutError, asyncio.CancelledError, Boom]


class Bench:
    """Device updates and protocol queries with chosen outcomes; closes are counted."""

    def __init__(self, c, update, query=lambda p, r: {}):
        Http(c, None)
        self.closed, self.updated = [], []
        this = self

        async def upd(dev, update_children=True):
            this.updated.append(dev)
            return update(dev)

        async def qry(proto, request, retry_count=3):
            return query(proto, request)

        async def close(proto):
            this.closed.append(proto)

        for cls in (IotDevice, IotStrip, IotDimmer, SmartDevice, SmartCamDevice):
            c.patch(cls, "update", upd)
        for cls in (IotProtocol, SmartProtocol, SmartCamProtocol):
            c.patch(cls, "query", qry)
            c.patch(cls, "close", close)


@contract("C14", funcs=("connect", "_connect"), covers=("connected", "fault", "unsupported"), opts={"max_paths": 20000})
def connecting(c):
    f, e, h, cp = conn(c)
    cfg = DeviceConfig("127.0.0.9", connection_type=cp)
    raised = []

    def fault():
        raised.append(c.pick("fault", FAULTS)("x"))
        raise raised[0]

    k = c.pick("what", ["good", "query", "update"])
    si = {"type": c.pick("type", ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", None]), "model": "HS100(EU)", "hw_ver": "1", "sw_ver": "2"}
    if si["type"] is None:
        si = {"system": {"type": "IOT.IPCAMERA"}}

    def query(p, r):
        c.check("the legacy device is asked what it is", r == {"system": {"get_sysinfo": {}}})
        if k == "query":
            fault()
        return {"system": {"get_sysinfo": si}}

    b = Bench(c, lambda d: fault() if k == "update" else None, query)
    o = c.call(connect, config=cfg)
    want = expected(f, e, h)
    legacy = want == (IotProtocol, XorTransport)
    cls = None if want is None else {"IOT.SMARTPLUGSWITCH": IotPlug, "IOT.SMARTBULB": IotBulb}.get(si.get("type")) if legacy else expected_class(f, h)
    if raised:
        c.check("a failed connection raises the error that ended it", o.exc is raised[0])
        c.check("a failed connection closes its protocol", len(b.closed) == 1)
        c.cover("fault")
    elif cls is None:
        c.check("no protocol or class: unsupported", o.exactly(UnsupportedDeviceError))
        c.check("saying which device", o.exc.host == "127.0.0.9" if not legacy else o.exc.discovery_result == {"system": {"get_sysinfo": si}})
        c.check("nothing stays open", len(b.closed) == (0 if want is None else 1))
        c.cover("unsupported")
    else:
        c.check("the updated device of the right class and protocol is returned", o.ok and type(o.value) is cls and b.updated == [o.value]
                and (type(o.value.protocol), type(o.value.protocol._transport)) == want)
        c.check("a good connection is not closed", not b.closed)
        c.cover("connected")


@contract("C14", funcs=("connect",), covers=("ok",))
def host_or_config(c):
    b = Bench(c, lambda d: None, lambda p, r: {"system": {"get_sysinfo": {"type": "IOT.SMARTPLUGSWITCH"}}})
    h, cfg = c.maybe("host"), c.maybe("config")
    o = c.call(connect, host="127.0.0.9" if h else None, config=DeviceConfig("127.0.0.9") if cfg else None)
    c.check("exactly one of host and config is accepted", o.ok if h != cfg else o.exactly(KasaException))
    if o.ok:
        c.check("the device has the host", o.value.host == "127.0.0.9" and b.updated == [o.value])
        c.check("and the timeout of five seconds", o.value.config.timeout == 5 and o.value.protocol._transport._timeout == 5)
        c.cover("ok")


KINDS = {IotPlug: "plug", IotBulb: "bulb", IotDimmer: "dimmer", IotStrip: "strip", IotWallSwitch: "wallswitch", IotLightStrip: "lightstrip", SmartDevice: "unknown", SmartCamDevice: "unknown"}


@contract("C14", "made", funcs=("Device.__init__", "IotDevice.__init__", "SmartDevice.__init__", "SmartCamDevice.__init__"), covers=("given", "default"))
def made(c):
    """A device made without connecting."""
    Http(c, None)
    cls = c.pick("class", list(KINDS))
    cfg = DeviceConfig("127.0.0.9", timeout=c.int("timeout", 1, 100), port_override=c.pick("port", [None, 1234])) if c.maybe("config") else None
    proto = None
    if c.maybe("protocol"):
        proto = c.pick("given protocol", [IotProtocol, SmartProtocol])(transport=c.pick("given transport", [XorTransport, AesTransport, KlapTransport])(config=DeviceConfig("127.0.0.9")))
    own = proto._transport._config if proto else None
    o = c.call(cls, "127.0.0.9", config=cfg, protocol=proto)
    c.check("it is made", o.ok)
    d = o.value
    if proto:
        c.cover("given")
        c.check("it uses the protocol given", d.protocol is proto)
    else:
        c.cover("default")
        c.check("else the default protocol of its class", (type(d.protocol), type(d.protocol._transport)) == ((IotProtocol, XorTransport) if issubclass(cls, IotDevice) else (SmartProtocol, AesTransport)))
        c.check("with the timeout given", c.eq(d.protocol._transport._timeout, 5 if cfg is None else cfg.timeout))
    got = c.call(getattr, d, "config")
    c.check("its configuration is the one given", got.ok and (got.value is cfg if cfg else got.value is own if proto else got.value.host == "127.0.0.9"))
    c.check("its host too", c.call(getattr, d, "host").value == "127.0.0.9")
    c.check("its kind is that of its class", c.call(getattr, d, "device_type").value.value == KINDS[cls])


MAIN = ["SMART.TAPOPLUG", "IOT.SMARTPLUGSWITCH", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "IOT.IPCAMERA"]
CANDIDATES = {(*expected(f, e, h, True), expected_class(f, h, True), h) for f in MAIN for e in ENC for h in (True, False)
              if expected(f, e, h, True) and expected_class(f, h, True)}


@contract("C14", funcs=("Discover.try_connect_all",), covers=("found", "none", "cancelled"), runs=40)
def trying_everything(c):
    """Which candidate works is arbitrary; all others fail."""
    works = c.pick("working", sorted(CANDIDATES, key=str) + [None])
    how = c.pick("failure", [KasaException, Boom])
    cancel = c.maybe("cancelled")
    creds, session = Credentials("u", "p"), c.pick("session", [None, "a session"])

    def update(d):
        me = (type(d.protocol), type(d.protocol._transport), IotPlug if isinstance(d, IotDevice) else type(d))
        t = d.protocol._transport._config
        c.check("every attempt uses the given parameters", t.host == "127.0.0.9" and t.credentials is creds and t.timeout == 7 and t.port_override == 1234 and t.http_client is session and t.connection_type.login_version == 2)
        if cancel:
            raise asyncio.CancelledError
        if works is None or works[:3] != me or works[3] != t.connection_type.https:
            raise how("x")

    def query(p, r):
        if cancel:
            raise asyncio.CancelledError
        if works is None or works[1] is not XorTransport:
            raise how("x")
        return {"system": {"get_sysinfo": {"type": "IOT.SMARTPLUGSWITCH"}}}

    b = Bench(c, update, query)
    tried, told = [], c.maybe("on_attempt")
    cb = {"on_attempt": lambda a, ok: tried.append((tuple(a), ok))} if told else {}
    o = c.call(Discover.try_connect_all, "127.0.0.9", port=1234, timeout=7, credentials=creds, http_client=session, **cb)
    if cancel:
        c.check("a cancellation ends the attempts", o.exactly(asyncio.CancelledError) and not tried)
        c.check("and closes what was tried", len(b.closed) == 1)
        c.cover("cancelled")
        return
    if not told:
        c.check("what was tried is closed, also when nobody is told of the attempts", len({id(x) for x in b.closed}) == len(b.closed) > 0)
        if works is None:
            c.check("all candidates are", o.ok and o.value is None and len(b.closed) == len(CANDIDATES))
            c.cover("none")
        else:
            c.check("the device that works is returned", o.ok and o.value.protocol is b.closed[-1] and (type(o.value.protocol), type(o.value.protocol._transport)) == works[:2])
            c.cover("found")
        return
    c.check("every attempt is made at most once and reported", len({a for a, _ in tried}) == len(tried) and {a for a, _ in tried} <= CANDIDATES)
    c.check("every protocol that was tried is closed", len(b.closed) == len(tried) and len({id(x) for x in b.closed}) == len(tried))
    if works is None:
        c.check("nothing works: every candidate was tried, no device", o.ok and o.value is None and {a for a, _ in tried} == CANDIDATES and not any(k for _, k in tried))
        c.cover("none")
    else:
        c.check("the first working device is returned at once", o.ok and o.value is not None and tried[-1] == (works, True) and not any(k for _, k in tried[:-1]))
        c.cover("found")
