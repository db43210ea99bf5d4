"""C26: updating a SMART device keeps every answer, survives failures of single queries and of whole updates."""
import asyncio

from kasa.device_type import DeviceType
from kasa.exceptions import AuthenticationError, DeviceError, KasaException, SmartErrorCode, TimeoutError
from kasa.smart import SmartDevice
from kasa.smart.smartchilddevice import SmartChildDevice
from kasa.smart.smartmodule import SmartModule
from pyvc.registry import contract, prop

from .common import Clock
from .devices import smart

prop("C26")
E = SmartErrorCode


class ModA(SmartModule):
    NAME = "A"
    QUERY_GETTER_NAME = "get_a"
    MINIMUM_UPDATE_INTERVAL_SECS = 60


class ModB(SmartModule):
    """Two queries in every update; notes its updates."""

    NAME = "B"
    updates = 0

    def query(self):
        return {"get_b1": None, "get_b2": {"p": 1}}

    async def _post_update_hook(self):
        assert self.data
        self.updates += 1


class ModD(SmartModule):
    NAME = "D"
    QUERY_GETTER_NAME = "get_device_info"


class ModN(SmartModule):
    NAME = "N"


QUERIES = {"A": {"get_a": None}, "B": {"get_b1": None, "get_b2": {"p": 1}}, "D": {"get_device_info": None}}


class Answers:
    """The device's answers: the whole query may fail, and so may any single one."""

    def __init__(self, c, codes=True, whole=(None, "timeout", "cancelled", "other")):
        self.c, self.n, self.got, self.codes, self.whole = c, 0, {}, codes, whole
        self.kind = None

    def __call__(self, r):
        c = self.c
        self.n += 1
        if self.n == 1:
            self.kind = c.pick("whole query", list(self.whole))
            if self.kind:
                raise {"timeout": TimeoutError("t"), "cancelled": asyncio.CancelledError(), "other": ValueError("v")}[self.kind]
            self.got = {k: self.one(k) for k in r}
            if self.codes and "get_device_info" in r and c.maybe("no word of the device info"):
                del self.got["get_device_info"]
            return dict(self.got)
        (k,) = r
        f = c.pick("single " + k, ["ok", "fails"])
        if f == "fails":
            self.got[k] = E.INTERNAL_QUERY_ERROR
            raise DeviceError("d", error_code=E.PARAMS_ERROR)
        self.got[k] = {"new": k}
        return {k: self.got[k]}

    def one(self, k):
        if self.codes and self.c.maybe(k + " answered with an error"):
            return E.UNKNOWN_METHOD_ERROR
        return {"new": k}


def with_modules(c, d, now, classes):
    """Modules in arbitrary states; the names of those due."""
    due = []
    for cls in classes:
        m = c.call(cls, d, cls.NAME).value
        d._modules[cls.NAME] = m
        k = c.pick(cls.NAME + " failures", [0, 3, 10] if cls is ModA else [0, 1] if cls is ModB else [0])
        for i in range(k):
            c.call(m._set_error, ValueError(str(i)))
        own = cls.MINIMUM_UPDATE_INTERVAL_SECS
        iv = 30 * k if k else own
        if cls in (ModA, ModB):
            m._last_update_time = c.real("last " + cls.NAME, 1, 10**9)
            c.assume(m._last_update_time <= now)
        if cls.NAME in QUERIES and k < 10 and (not iv or m._last_update_time is None or c.force(now - m._last_update_time >= iv)):
            due.append(cls.NAME)
    return due


def merged(names):
    return {k: v for n in names for k, v in QUERIES[n].items()}


def after(c, d, due, now, states, a, kept):
    """What every update leaves behind."""
    lu = d._last_update
    c.check("every answer of this update is kept", all(c.same(lu[k], a.got[k]) for k in a.got))
    c.check("all other data stays", all(k in lu and c.same(lu[k], v) for k, v in kept.items() if k not in a.got), lambda: f"{list(lu)}")
    for n, m in d._modules.items():
        cnt, t, upd = states[n]
        if n in due:
            bad = any(isinstance(a.got[k], E) for k in QUERIES[n])
            c.check("a failed module counts its failure, a successful one starts over", m._error_count == (cnt + 1 if bad else 0), lambda: f"{n} {m._error_count} was {cnt}")
            c.check("the time of asking is noted", c.same(m._last_update_time, now))
            if n == "B":
                c.check("the module processes its new data once", m.updates == (0 if bad else 1))
        else:
            c.check("a module not asked gets no new failure", m._error_count <= cnt and c.same(m._last_update_time, t))


@contract("C26", "update", funcs=("SmartDevice.update", "SmartDevice._modular_update", "SmartDevice._handle_modular_update_error", "SmartDevice._handle_module_post_update", "SmartModule._post_update_hook"),
          covers=("whole", "singly", "cancelled", "no device info"))
def update(c):
    d, p = smart(info={"n": 0}, get_a={"old": "a"}, get_b1={"old": "b1"}, get_b2={"old": "b2"}, other={"old": "o"})
    clock = Clock(c)
    c.assume(clock.now >= 1)
    d._last_update_time = 1.0
    d._features = {"x": object()}
    due = with_modules(c, d, clock.now, (ModA, ModB, ModD, ModN))
    a = p.on_query = Answers(c)
    kept = dict(d._last_update)
    states = {n: (m._error_count, m._last_update_time, 0) for n, m in d._modules.items()}
    o = c.call(d.update)
    c.check("exactly the modules due are asked, in one query", c.same(p.sent[0], merged(due)), lambda: f"{p.sent} {due}")
    if a.kind == "cancelled":
        c.cover("cancelled")
        c.check("a cancelled update ends at once", o.exactly(asyncio.CancelledError) and len(p.sent) == 1)
        c.check("and changes no data", c.same(d._last_update, kept))
        return
    if a.kind:
        c.cover("singly")
        c.check("if the query fails each one is asked once by itself", sorted(k for s in p.sent[1:] for k in s) == sorted(merged(due)) and all(len(s) == 1 and c.same(s, {k: merged(due)[k] for k in s}) for s in p.sent[1:]))
    else:
        c.cover("whole")
        c.check("one query", len(p.sent) == 1)
    c.check("every answer of this update is kept", all(c.same(d._last_update[k], v) for k, v in a.got.items()))
    if isinstance(a.got.get("get_device_info", E.UNKNOWN_METHOD_ERROR), E):
        c.cover("no device info")
        c.check("without device info the update fails", o.exactly(KasaException))
        return
    c.check("the update succeeds", o.ok, lambda: f"{o}")
    c.check("the device info is the new one", d._info is d._last_update["get_device_info"] and c.same(d._info, a.got["get_device_info"]))
    after(c, d, due, clock.now, states, a, kept)


@contract("C26", "child_update", funcs=("SmartChildDevice._update", "SmartChildDevice.update"), covers=("whole", "singly", "cancelled", "nothing due"))
def child_update(c):
    par, _ = smart()
    par._device_type = DeviceType.Strip
    a = Answers(c)
    from .devices import Proto

    p = Proto(a)
    d = SmartChildDevice(par, {"device_id": "C", "category": "plug.powerstrip.sub-plug"}, {"component_list": []}, protocol=p)
    d._last_update = {"get_a": {"old": "a"}, "get_b1": {"old": "b1"}, "get_b2": {"old": "b2"}}
    d._features = {"x": object()}
    clock = Clock(c)
    c.assume(clock.now >= 1)
    due = with_modules(c, d, clock.now, c.pick("modules", [(ModA, ModB, ModN), (ModA, ModN)]))
    kept = dict(d._last_update)
    states = {n: (m._error_count, m._last_update_time, 0) for n, m in d._modules.items()}
    o = c.call(d.update)
    if not due:
        c.cover("nothing due")
        c.check("nothing is asked", o.ok and not p.sent)
        c.check("and the data stays", c.same(d._last_update, kept))
        return
    c.check("exactly the modules due are asked, in one query", c.same(p.sent[0], merged(due)), lambda: f"{p.sent} {due}")
    if a.kind == "cancelled":
        c.cover("cancelled")
        c.check("a cancelled update ends at once and changes no data", o.exactly(asyncio.CancelledError) and len(p.sent) == 1 and c.same(d._last_update, kept))
        return
    c.cover("singly" if a.kind else "whole")
    c.check("the update succeeds", o.ok, lambda: f"{o}")
    after(c, d, due, clock.now, states, a, kept)


COMPONENTS = [("device", 2), ("cloud_connect", 1), ("led", 1), ("auto_off", 2), ("time", 1)]
INFO = {"device_id": "D", "device_on": True, "model": "P100", "type": "SMART.TAPOPLUG", "fw_ver": "1.0 B", "hw_ver": "1", "mac": "00-00-00-00-00-01", "rssi": -40, "nickname": "", "ssid": "", "specs": "EU",
        "auto_off_status": "off"}
LATER = {"get_led_info": {"led_rule": "always"}, "get_auto_off_config": {"enable": False, "delay_min": 5}, "get_device_time": {"timestamp": 0, "time_diff": 0}}


@contract("C26", "first_update", funcs=("SmartDevice.update", "SmartDevice._negotiate", "SmartDevice._initialize_modules", "SmartDevice._initialize_features"), covers=("first", "again"))
def first_update(c):
    """A new device, or one whose first update failed or was cancelled at any point, is complete after an update that works."""
    d, p = smart()
    Clock(c)
    d._last_update, d._info, d._components, d._last_update_time = {}, {}, {}, None
    everything = {"component_nego": {"component_list": [{"id": i, "ver_code": v} for i, v in COMPONENTS]}, "get_device_info": dict(INFO), "get_connect_cloud_state": {"status": 0}, **LATER}
    fail = c.pick("first attempt fails at query", [None, 0, 1])
    exc = None
    if fail is not None:
        exc = c.pick("how", [TimeoutError("t"), asyncio.CancelledError(), AuthenticationError("a")])

    def answer(r):
        i = len(p.sent) - 1
        if exc is not None and fail == i:
            raise exc
        return {k: everything[k] for k in r}

    p.on_query = answer
    if fail is not None:
        o = c.call(d.update)
        if fail == 0 or isinstance(exc, asyncio.CancelledError):
            c.check("the failure reaches the caller", o.exc is exc)
        p.sent.clear()
        p.on_query = lambda r: {k: everything[k] for k in r}
        c.cover("again")
    else:
        c.cover("first")
    o = c.call(d.update)
    c.check("the update succeeds", o.ok, lambda: f"{o}")
    if fail is None:
        c.check("first what the device is, then its modules, nothing twice", len(p.sent) == 2 and set(p.sent[0]) == {"component_nego", "get_device_info", "get_connect_cloud_state"} and set(p.sent[1]) == set(LATER), lambda: f"{p.sent}")
    c.check("all modules of its components are there", {"DeviceModule", "Cloud", "Led", "AutoOff", "Time"} == set(d._modules), lambda: f"{list(d._modules)}")
    c.check("and all its data", all(c.same(d._last_update.get(k), v) for k, v in everything.items()) and c.same(d._info, INFO), lambda: f"{list(d._last_update)}")
    c.check("and its features", "device_id" in d._features and "auto_off_enabled" in d._features and "led" in d._features)
