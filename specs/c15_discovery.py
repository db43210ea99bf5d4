"""C15: every responding host is reported once, as a device, as unsupported or as invalid."""
import asyncio
import base64
import binascii
import json
import secrets
import socket
import struct

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.serialization import load_pem_public_key

from kasa.credentials import Credentials
from kasa.discover import Discover, _AesDiscoveryQuery, _DiscoverProtocol
from kasa.exceptions import KasaException, TimeoutError as KasaTimeoutError, UnsupportedDeviceError
from kasa.iot import IotBulb, IotPlug
from kasa.smart import SmartDevice
from kasa.transports import XorTransport
from kasa.transports.aestransport import KeyPair
from pyvc.registry import contract, prop

from .c06_xor import ref_decrypt, ref_encrypt
from .c14_factory import expected, expected_class
from .common import Http

prop("C15", assumptions=("RSA keys are stand-ins", "asyncio delivers datagrams and runs callback tasks"), level="exploration")

SYS = {"alias": "a", "deviceId": "d", "hw_ver": "1", "mac": "00:00:00:00:00:00", "model": "HS100(UK)", "sw_ver": "1 B"}
HEAD = b"\x02\x00\x00\x01\x01[\x00\x00\x00\x00\x00\x00W\xcev\xf8"


def legacy(obj):
    return ref_encrypt(json.dumps(obj).encode())


def draw_legacy(c):
    """(datagram, expectation)"""
    k = c.pick("legacy", ["plug", "bulb", "camera", "no type", "unknown type", "list", "scalar", "no sysinfo", "system scalar", "not json", "empty", "type number"])
    if k in ("plug", "bulb"):
        t = {"plug": "IOT.SMARTPLUGSWITCH", "bulb": "IOT.SMARTBULB"}[k]
        key = c.pick("type key", ["type", "mic_type"])
        cls = {"plug": IotPlug, "bulb": IotBulb}[k]
        return legacy({"system": {"get_sysinfo": {**SYS, key: t}}}), (cls, t, "XOR", False, None, None)
    if k == "camera":
        return legacy({"system": {"get_sysinfo": {"err_code": 0, "system": {**SYS, "type": "IOT.IPCAMERA"}}}}), "unsupported"
    bad = {"type number": {"system": {"get_sysinfo": {**SYS, "type": 5}}}, "no type": {"system": {"get_sysinfo": SYS}}, "list": [1], "scalar": 3, "no sysinfo": {"system": {}}, "system scalar": {"system": 3}, "empty": {},
           "unknown type": {"system": {"get_sysinfo": {**SYS, "type": "IOT.FUTURE"}}}}
    return (b"\xff\xfe\x00" if k == "not json" else legacy(bad[k])), "invalid"


def draw_new(c):
    k = c.pick("new", ["good", "no scheme", "no encryption", "no result", "missing field", "list", "scalar", "not json", "short", "odd versions"])
    fam = c.pick("device_type", ["SMART.TAPOPLUG", "SMART.IPCAMERA", "SMART.TAPOROBOVAC", "IOT.SMARTPLUGSWITCH", "IOT.IPCAMERA", "SMART.FUTURE", "IOT.FUTURE"]) if k == "good" else "SMART.TAPOPLUG"
    r = {"device_type": fam, "device_model": "P100(EU)", "device_id": "i", "ip": "127.0.0.1", "mac": "00-00-00-00-00-00"}
    if k == "good":
        enc = c.pick("encrypt_type", ["AES", "KLAP", "XOR", "TLS"])
        https, port, lv = c.maybe("https"), c.pick("http_port", [None, 4433]), c.pick("lv", [None, 0, 2])
        r["mgt_encrypt_schm"] = s = {"is_support_https": https}
        where = c.pick("scheme in", ["mgt_encrypt_schm", "encrypt_info", "both"])
        if where != "mgt_encrypt_schm":
            r["encrypt_info"] = {"sym_schm": enc if where == "encrypt_info" else {"AES": "KLAP"}.get(enc, "AES"), "key": "", "data": ""}
        if where != "encrypt_info":
            s["encrypt_type"] = enc
        if port:
            s["http_port"] = port
        if lv is not None:
            s["lv"] = lv
        if not lv and c.maybe("versions"):
            r["encrypt_type"] = ["3"] if https else ["2", "10"] if port else ["10", "2"]
            lv = 3 if https else 10
        cls = expected_class(fam, https)
        if fam.endswith("FUTURE") or enc == "TLS" or cls is None or expected(fam, enc, https) is None:
            want = "unsupported"
        else:
            want = (cls, fam, enc, https, lv, port)
        return HEAD + json.dumps({"error_code": 0, "result": r}).encode(), want
    if k == "no scheme":
        return HEAD + json.dumps({"result": r}).encode(), "unsupported"
    r["mgt_encrypt_schm"] = {"is_support_https": False, "encrypt_type": "AES" if k != "no encryption" else None}
    if k == "missing field":
        del r["device_id"]
    if k == "odd versions":
        r["encrypt_type"] = ["x"]
        return HEAD + json.dumps({"result": r}).encode(), "invalid"
    body = {"no encryption": {"result": r}, "no result": {"error_code": -1}, "missing field": {"result": r}, "list": [1], "scalar": 3}
    if k in body:
        return HEAD + json.dumps(body[k]).encode(), "unsupported"
    return (HEAD + b"{x" if k == "not json" else b"\x02\x00"), "invalid"


class Task:
    def __init__(self):
        self.cancelled = False

    def cancel(self, *a):
        self.cancelled = True


def check_device(c, dev, want, ip, port, creds, timeout):
    cls, fam, enc, https, lv, http_port = want
    t = dev.protocol._transport
    cfg = t._config
    ct = cfg.connection_type
    c.check("the device has the class, protocol and transport of its answer", type(dev) is cls and (type(dev.protocol), type(t)) == expected(fam, enc, https))
    c.check("its connection parameters are those announced", (ct.device_family.value, ct.encryption_type.value, ct.https, ct.login_version, ct.http_port)
            == (fam, enc, https, lv, http_port))
    c.check("it has the host, port, credentials and timeout asked for", cfg.host == ip and cfg.port_override == port and cfg.credentials is creds
            and cfg.timeout == (timeout or 5))
    c.check("the device uses that configuration", dev.host == ip and dev.config is cfg)
    model, mac = c.call(getattr, dev, "model"), c.call(getattr, dev, "mac")
    c.check("model and address announced can be read at once", model.ok and mac.ok and (model.value, mac.value) == ("HS100" if not dev._discovery_info.get("device_id") else "P100",
            "00:00:00:00:00:00"))


class Search:
    """A running search: which datagrams arrived and what was reported."""

    def __init__(self, c, target, port=None, creds=None, timeout=None, callbacks=True):
        Http(c, None)
        self.callbacks = callbacks
        self.c, self.tasks, self.raw, self.port, self.task, self.target = c, [], [], port or 9999, Task(), target
        c.patch(asyncio, "create_task", lambda coro: self.tasks.append(coro))
        cbs = dict(on_discovered=lambda d: ("device", d), on_unsupported=lambda e: ("unsupported", e), on_discovered_raw=self.raw.append) if callbacks else {}
        p = self.p = c.call(_DiscoverProtocol, target=target, port=port, credentials=creds, timeout=timeout, **cbs).value
        p.discover_task = self.task
        self.found = {"device": p.discovered_devices, "unsupported": p.unsupported_device_exceptions, "invalid": p.invalid_device_exceptions}

    def receive(self, data, ip, new):
        o = self.c.call(self.p.datagram_received, data, (ip, 20002 if new else self.port))
        self.c.check("no answer raises", o.ok)

    def judge(self, want, ip, new):
        """The first answer of this host was reported as wanted."""
        c = self.c
        kind = want if isinstance(want, str) else "device"
        c.check("the host is reported exactly once, as what it is", [ip in x for x in self.found.values()] == [kind == k for k in self.found])
        v = self.found[kind][ip]
        if kind == "unsupported":
            c.check("an unsupported device is passed to its callback", type(v) is UnsupportedDeviceError and self.tasks.count(("unsupported", v)) == self.callbacks)
            c.check("telling which it is", v.host in (ip, "127.0.0.1") if new else "system" in v.discovery_result, lambda: f"{v.host} {v.discovery_result}")
        elif kind == "invalid":
            c.check("an unreadable answer is a library error", isinstance(v, KasaException))
        else:
            c.check("a device is passed to its callback", self.tasks.count(("device", v)) == self.callbacks)
            c.check("the raw answer is passed on", sum(r["meta"] == {"ip": ip, "port": 20002 if new else self.port} for r in self.raw) == self.callbacks)
        c.cover(kind)
        return v


FUNCS = ("_DiscoverProtocol.datagram_received", "Discover._get_device_instance", "Discover._get_device_instance_legacy", "Discover._get_discovery_json",
         "Discover._get_discovery_json_legacy", "Discover._get_connection_parameters", "Discover._get_device_class")


@contract("C15", funcs=FUNCS, covers=("device", "unsupported", "invalid"), bounded="the shapes of answers listed in draw_legacy and draw_new", opts={"max_paths": 60000})
def answers(c):
    port, creds, timeout = c.pick("settings", [(None, None, None), (1234, Credentials("u", "p"), 2)])
    target = c.pick("target", ["255.255.255.255", "10.0.0.1"])
    s = Search(c, target, port, creds, timeout, callbacks=target == "255.255.255.255" or port is None)
    new = c.maybe("new style")
    data, want = draw_new(c) if new else draw_legacy(c)
    s.receive(data, "10.0.0.1", new)
    c.check("the search ends once the target has answered, whatever it is", s.task.cancelled == (target == "10.0.0.1"))
    v = s.judge(want, "10.0.0.1", new)
    if not isinstance(want, str):
        check_device(c, v, want, "10.0.0.1", port, creds, timeout)


GOOD = legacy({"system": {"get_sysinfo": {**SYS, "type": "IOT.SMARTPLUGSWITCH"}}}), (IotPlug, "IOT.SMARTPLUGSWITCH", "XOR", False, None, None), False
KINDS = {"good": GOOD, "camera": (legacy({"system": {"get_sysinfo": {"system": {**SYS, "type": "x"}}}}), "unsupported", False), "junk": (b"\xff\xfe\x00", "invalid", False), "scalar": (legacy(3), "invalid", False),
         "new junk": (HEAD + b"{", "invalid", True), "new unsupported": (HEAD + b"{}", "unsupported", True)}


@contract("C15", funcs=("_DiscoverProtocol.datagram_received", "_DiscoverProtocol._handle_discovered_event"), covers=("device", "unsupported", "invalid", "found", "other"),
          bounded="three datagrams of six kinds from two hosts", opts={"max_paths": 20000})
def several_answers(c):
    target = c.pick("target", ["255.255.255.255", "10.0.0.1", "10.0.0.2"])
    s = Search(c, target, callbacks=c.maybe("callbacks"))
    first = {}
    for i in range(3):
        ip = c.pick(f"host {i}", ["10.0.0.1", "10.0.0.2"])
        data, want, new = KINDS[c.pick(f"kind {i}", list(KINDS))]
        s.receive(data, ip, new)
        first.setdefault(ip, (want, new))
        c.check("the search ends once the target has answered, and only then", s.task.cancelled == (target in first))
    for ip, (want, new) in first.items():
        s.judge(want, ip, new)
    c.check("nothing else is reported", sum(len(x) for x in s.found.values()) == len(first) and len(s.tasks) == s.callbacks * sum(w != "invalid" for w, _ in first.values()))
    c.cover("found" if s.task.cancelled else "other")


class Sock:
    def __init__(self, c):
        self.c, self.options = c, []

    def setsockopt(self, level, opt, value):
        if opt == socket.SO_REUSEADDR and self.c.maybe("no SO_REUSEADDR"):
            raise OSError("unsupported")
        self.options.append((level, opt, value))


class Searching:
    """The task which sends the probes."""

    def __init__(self, coro):
        self.coro, self.cancelled = coro, False

    def cancel(self, *a):
        self.cancelled = True

    async def run(self):
        return await self.coro

    def __await__(self):
        return self.run().__await__()


class Net:
    """The event loop: answers arrive while the probes are being sent. answers: for each pause, the datagrams received in it."""

    def __init__(self, c, answers, hosts=(), interrupted=False, start=True):
        self.c, self.answers, self.hosts, self.interrupted, self.start = c, list(answers), hosts, interrupted, start
        self.closed, self.sent, self.slept, self.pending, self.sock, self.task, self.address = 0, [], [], [], Sock(c), None, None
        c.patch(asyncio, "get_event_loop", lambda: self)
        c.patch(asyncio, "create_task", self.create_task)
        c.patch(asyncio, "sleep", self.sleep)
        c.patch(_AesDiscoveryQuery, "generate_query", lambda: b"new probe")

    def create_task(self, coro):
        if self.task is None:
            self.task = Searching(coro)
            return self.task
        self.pending.append(coro)
        return coro

    async def sleep(self, s):
        self.slept.append(s)
        n = len(self.slept) - 1
        if n < len(self.answers):
            for data, addr in self.answers[n]:
                self.deliver(data, addr)
        if self.task.cancelled or (self.interrupted and n == len(self.answers) - 1):
            raise asyncio.CancelledError

    def deliver(self, data, addr):
        o = self.c.call(self.p.datagram_received, data, addr)
        self.c.check("no answer raises", o.ok)

    async def getaddrinfo(self, host, port, *, family=0, type=0, **kw):
        if host not in self.hosts:
            raise socket.gaierror("unknown")
        if family != socket.AF_INET:
            return [(socket.AF_INET6, 2, 17, "", ("::1", 0, 0, 0))]
        return [(2, 2, 17, "", (self.hosts[host], 0)), (2, 2, 17, "", ("10.9.9.9", 0))]

    async def create_datagram_endpoint(self, factory, local_addr=None, **kw):
        self.address = local_addr
        p = self.p = self.c.call(factory).value
        self.c.call(p.connection_made, self)
        return self, p

    def get_extra_info(self, name):
        return self.sock

    def sendto(self, data, addr):
        self.sent.append((bytes(data), addr))

    def close(self):
        self.closed += 1

    def judge(self, target, port, packets, time, interface=None, rounds=None):
        c = self.c
        n = packets if rounds is None else rounds
        c.check("the socket is closed", self.closed == 1)
        c.check("the socket listens on any address and port", self.address == ("0.0.0.0", 0))
        c.check("the socket may broadcast", (socket.SOL_SOCKET, socket.SO_BROADCAST, 1) in self.sock.options)
        c.check("the socket is bound to the interface asked for", [v for _, o, v in self.sock.options if o == socket.SO_BINDTODEVICE] == ([interface.encode()] if interface else []))
        c.check("the probes go to the target, on the port asked for, in each round", [a for _, a in self.sent] == [(target, port or 9999), (target, 20002)] * n)
        c.check("the rounds are spread over the discovery time", len(self.slept) == n and all(abs(x - time / packets) < 1e-9 for x in self.slept))


PLUG = (IotPlug, "IOT.SMARTPLUGSWITCH", "XOR", False, None, None)


def login(c):
    """How credentials are passed, and those meant."""
    k = c.pick("login", ["none", "credentials", "user and password", "all", "user only"])
    user = {} if k in ("none", "credentials") else {"username": "u", "password": "p"}
    if k == "user only":
        user = {"username": "u"}
    given = Credentials("x", "y") if k in ("credentials", "all") else None
    return {**user, **({"credentials": given} if given else {})}, given or (Credentials("u", "p") if k == "user and password" else None)


@contract("C15", funcs=("Discover.discover_single", "_DiscoverProtocol.wait_for_discovery_to_complete", "_DiscoverProtocol.connection_made"),
          covers=("device", "unsupported", "invalid", "timeout", "unresolved"), bounded="five kinds of answers")
def single(c):
    Http(c, None)
    name = c.pick("host", ["10.0.0.1", "plug.local", "gone.local"])
    ip = "10.0.0.1"
    k = c.pick("answer", ["device", "unsupported", "invalid", "none", "other host"])
    port, timeout, time = c.pick("settings", [(None, None, None), (1234, 7, 9)])
    first = c.pick("answered in round", [0, 1])
    legacy_port = port or 9999
    ans = {"device": [(GOOD[0], (ip, legacy_port))], "invalid": [(b"\xff\xfe\x00", (ip, legacy_port))], "none": [], "other host": [(GOOD[0], ("10.0.0.2", legacy_port))],
           "unsupported": [(HEAD + b"{}", (ip, 20002))]}[k]
    net = Net(c, [[]] * first + [ans], {"plug.local": ip})
    seen, raw = [], []

    async def unsupported(e):
        seen.append(e)

    cb = c.maybe("on_unsupported")
    kw, creds = login(c)
    if time is not None:
        kw["discovery_timeout"] = time
    o = c.call(Discover.discover_single, name, timeout=timeout, port=port, on_unsupported=unsupported if cb else None, on_discovered_raw=raw.append, **kw)
    if name == "gone.local":
        c.check("an unknown host name is a library error", o.exactly(KasaException))
        c.cover("unresolved")
        return
    answered = k in ("device", "unsupported", "invalid")
    net.judge(ip, port, 3, time or 5, rounds=first + 1 if answered else None)
    if k == "device":
        c.check("the device is returned under the name asked for", o.ok and type(o.value) is IotPlug and o.value.host == name)
        check_device(c, o.value, PLUG, name, port, o.value.config.credentials, timeout)
        c.check("it has the credentials given, else the user and password", c.eq(o.value.config.credentials, creds))
    elif k == "unsupported":
        e = net.p.unsupported_device_exceptions[ip]
        c.check("an unsupported device goes to the callback, or is raised", (o.ok and o.value is None and seen == [e]) if cb else o.exc is e)
        c.check("the error tells the host", e.host == ip)
    elif k == "invalid":
        c.check("an unreadable answer is raised", o.raised(KasaException) and not o.raised(KasaTimeoutError))
    else:
        c.check("no answer is a timeout", o.exactly(KasaTimeoutError))
    c.check("raw answers are passed on", [r["meta"]["ip"] for r in raw] == {"device": [ip], "other host": ["10.0.0.2"], "unsupported": [ip]}.get(k, []))
    c.cover(k if answered else "timeout")


@contract("C15", funcs=("Discover.discover_single", "_DiscoverProtocol.wait_for_discovery_to_complete"), covers=("cancelled",),
          bounded="cancelled in one of three rounds, with or without the answer of another host")
def single_interrupted(c):
    Http(c, None)
    n = c.pick("cancelled in round", [1, 2, 3])
    other = [(GOOD[0], ("10.0.0.2", 9999))] if c.maybe("another host answered") else []
    net = Net(c, [other] + [[]] * (n - 1), interrupted=True)
    o = c.call(Discover.discover_single, "10.0.0.1", discovery_timeout=3)
    c.check("cancelling is passed on", o.exactly(asyncio.CancelledError))
    net.judge("10.0.0.1", None, 3, 3, rounds=n)
    c.cover("cancelled")


@contract("C15", funcs=("Discover.discover", "_DiscoverProtocol.wait_for_discovery_to_complete", "_DiscoverProtocol.connection_made"),
          covers=("found", "target", "callback failed", "cancelled"), bounded="up to three rounds, three hosts", opts={"max_paths": 20000})
def searching(c):
    Http(c, None)
    closed = []
    c.patch(XorTransport, "close", lambda t: closing(t))

    async def closing(t):
        closed.append(t)

    target = c.pick("target", [None, "10.0.0.255", "10.0.0.1"])
    packets, time, port, timeout, interface = c.pick("settings", [(None, None, None, None, None), (2, 9, 1234, 7, "eth1")])
    p9999 = port or 9999
    good = [(GOOD[0], ("10.0.0.1", p9999))]
    rest = [(GOOD[0], ("10.0.0.2", p9999)), (HEAD + b"{}", ("10.0.0.3", 20002)), (b"\xff\xfe\x00", ("10.0.0.4", p9999)), (GOOD[0], ("10.0.0.1", p9999))]
    order = c.pick("order", [0, 1, 2])
    answers = [[good, rest], [rest[:3], good], [good + rest]][order]
    end = c.pick("end", ["all well", "callback fails", "callback breaks", "interrupted"])
    net = Net(c, answers, interrupted=end == "interrupted")
    seen, unsupported, raw = [], [], []
    boom = {"callback fails": KasaException("no"), "callback breaks": ValueError("no")}.get(end)

    async def on_discovered(d):
        seen.append(d)
        if boom:
            raise boom

    async def on_unsupported(e):
        unsupported.append(e)

    kw, creds = login(c) if end == "all well" and order == 0 else ({}, None)
    for key, v in (("target", target), ("discovery_packets", packets), ("discovery_timeout", time), ("interface", interface)):
        if v is not None:
            kw[key] = v
    o = c.call(Discover.discover, on_discovered=on_discovered, on_unsupported=on_unsupported, on_discovered_raw=raw.append, port=port, timeout=timeout, **kw)
    for coro in net.pending:
        coro.close()
    packets = packets or 3
    hit = target == "10.0.0.1"
    rounds = None
    if hit:
        rounds = 2 if order == 1 else 1
    elif end == "interrupted":
        rounds = len(answers)
    net.judge(target or "255.255.255.255", port, packets, time or 5, interface, rounds)
    found = {"10.0.0.1", "10.0.0.2"} if not (hit and order == 0) else {"10.0.0.1"}
    devices = list(net.p.discovered_devices.values())
    if end == "interrupted" and not hit:
        c.check("cancelling the search is passed on", o.exactly(asyncio.CancelledError))
        c.check("cancelling the search closes the devices found", sorted(map(id, closed)) == sorted(id(d.protocol._transport) for d in devices))
        c.cover("cancelled")
    elif boom:
        c.check("an error of a callback is passed on", o.exc is boom)
        if end == "callback fails":
            c.check("a failed search closes the devices found", sorted(map(id, closed)) == sorted(id(d.protocol._transport) for d in devices))
        c.cover("callback failed")
    else:
        c.check("the devices found are returned under their addresses", o.ok and set(o.value) == found and all(d.host == h for h, d in o.value.items()))
        for h, d in o.value.items():
            check_device(c, d, PLUG, h, port, d.config.credentials, timeout)
            c.check("they have the credentials given, else the user and password", c.eq(d.config.credentials, creds))
        c.check("each callback ran once per host", sorted(d.host for d in seen) == sorted(found) and len(unsupported) == len(found) - 1)
        c.check("the devices stay open", closed == [])
        c.check("raw answers are passed on", sorted(r["meta"]["ip"] for r in raw) == (["10.0.0.1", "10.0.0.2", "10.0.0.3"] if len(found) == 2 else ["10.0.0.1"]))
        c.cover("target" if hit else "found")


@contract("C15", funcs=("_DiscoverProtocol.datagram_received",), covers=("stray", "legacy", "new"))
def stray(c):
    """Datagrams from any other port are no answers, whatever they carry."""
    override = c.pick("port asked for", [None, 1234])
    s = Search(c, c.pick("target", ["255.255.255.255", "10.0.0.1"]), override)
    port = c.int("port", 1, 65535, pool=(9999, 20002, 1234, 9998, 20003, 53))
    data = c.pick("stray data", [GOOD[0], HEAD + b"{}", b"junk"])
    o = c.call(s.p.datagram_received, data, ("10.0.0.1", port))
    c.check("no answer raises", o.ok)
    if c.force(c.or_(port == s.port, port == 20002)):
        c.check("what comes from the discovery ports is an answer", sum(len(x) for x in s.found.values()) == 1)
        c.cover("new" if c.force(port == 20002) else "legacy")
        return
    c.check("what comes from another port is no answer", sum(len(x) for x in s.found.values()) == 0 and s.tasks == [] and s.raw == [])
    c.check("and does not end the search", not s.task.cancelled)
    s.receive(GOOD[0], "10.0.0.1", False)
    s.judge(GOOD[1], "10.0.0.1", False)
    c.cover("stray")


@contract("C15", funcs=("Discover._get_device_instance", "Discover._decrypt_discovery_data", "_AesDiscoveryQuery.generate_query", "KeyPair.decrypt_discovery_key"),
          covers=("decrypted", "not decrypted"), bounded="one key pair, enumerated contents")
def encrypted_part(c):
    """What a device encrypts with the public key of the probe is read; what cannot be read does no harm."""
    s = Search(c, "255.255.255.255")
    if "pair" not in KEYS:
        KEYS["pair"] = KeyPair.create_key_pair(2048)
    c.patch(_AesDiscoveryQuery, "keypair", KEYS["pair"])
    probe = c.call(_AesDiscoveryQuery.generate_query).value
    public = load_pem_public_key(json.loads(bytes(probe[16:]))["params"]["rsa_key"].encode())
    secret, inner = {"connect_ssid": "x", "owner": "0123456789abc", "device_id": "0123456789"}, bytes(range(32))
    k = c.pick("content", ["good", "other key", "junk data", "no json", "junk key", "another scheme", "no probe sent yet"])
    key = (public if k != "other key" else OTHER.public_key).encrypt(inner, padding.OAEP(padding.MGF1(hashes.SHA1()), hashes.SHA1(), None))
    text = json.dumps(secret).encode() if k != "no json" else b"{x"
    text += bytes([16 - len(text) % 16]) * (16 - len(text) % 16)
    e = Cipher(algorithms.AES(inner[:16]), modes.CBC(inner[16:])).encryptor()
    data = e.update(text) + e.finalize()
    part = {"sym_schm": "AES" if k != "another scheme" else "KLAP", "key": base64.b64encode(key).decode() if k != "junk key" else "%",
            "data": base64.b64encode(data).decode() if k != "junk data" else "AAAA"}
    r = {"device_type": "SMART.TAPOPLUG", "device_model": "P100(EU)", "device_id": "i", "ip": "127.0.0.1", "mac": "00-00-00-00-00-00",
         "mgt_encrypt_schm": {"is_support_https": False, "encrypt_type": "KLAP"}, "encrypt_info": part}
    if k == "no probe sent yet":
        c.patch(_AesDiscoveryQuery, "keypair", None)
    s.receive(HEAD + json.dumps({"result": r}).encode(), "10.0.0.1", True)
    v = s.judge((SmartDevice,), "10.0.0.1", True)
    if k == "good":
        c.check("the encrypted part is read", v._discovery_info.get("decrypted_data") == secret)
        c.cover("decrypted")
    else:
        c.check("what cannot be decrypted is left out", "decrypted_data" not in v._discovery_info)
        c.cover("not decrypted")


KEYS = {}
OTHER = KeyPair.create_key_pair(1024)


@contract("C15", funcs=("_DiscoverProtocol.do_discover", "_AesDiscoveryQuery.generate_query"), covers=("all", "stopped"), bounded="up to four packets, three serial numbers")
def probing(c):
    packets, port = c.pick("packets", [1, 3, 4]), c.pick("port", [None, 1234])
    secret = c.pick("secret", [b"\0\0\0\0", b"\xff\xfe\x01\x80", b"abcd"])
    c.patch(secrets, "token_bytes", lambda n=None: secret[:n])

    class Key:
        def get_public_pem(self):
            return b"-----PEM-----"

    c.patch(KeyPair, "create_key_pair", staticmethod(lambda *a, **k: Key()))
    c.patch(_AesDiscoveryQuery, "keypair", None)
    p = c.call(_DiscoverProtocol, target="10.0.0.255", discovery_packets=packets, discovery_timeout=6, port=port).value
    sent, slept = [], []
    stop = c.pick("found after", [1, 2, None])

    class T:
        def sendto(self, data, addr):
            sent.append((bytes(data), addr))
            if stop and len(sent) == 2 * stop:
                p.seen_hosts.add("10.0.0.255")

    async def sleep(s):
        slept.append(s)

    c.patch(asyncio, "sleep", sleep)
    p.transport = T()
    o = c.call(p.do_discover)
    n = min(packets, stop or packets)
    c.check("both probes go out in every round until the target answered", o.ok and len(sent) == 2 * n)
    for i in range(n):
        (a, at), (b, bt) = sent[2 * i], sent[2 * i + 1]
        c.check("the legacy probe asks for the system information", at == ("10.0.0.255", port or 9999) and json.loads(ref_decrypt(a)) == {"system": {"get_sysinfo": {}}})
        ver, typ, op, size, flags, pad, serial, crc = struct.unpack(">BBHHBBII", b[:16])
        c.check("the new probe carries the public key, its length and a serial number", bt == ("10.0.0.255", 20002) and (ver, typ, op, flags, pad) == (2, 0, 1, 17, 0)
                and size == len(b) - 16 and struct.pack(">I", serial) == secret and json.loads(b[16:]) == {"params": {"rsa_key": "-----PEM-----"}})
        c.check("and a checksum over itself", crc == binascii.crc32(b[:12] + struct.pack(">I", 0x5A6B7C8D) + b[16:]))
    c.check("the rounds are spread over the discovery time", len(slept) == n and all(abs(s - 6 / packets) < 1e-9 for s in slept))
    c.cover("stopped" if n < packets else "all")
