"""C27: the children of a SMART device are exactly those it reports, each with its own data."""
import asyncio

from kasa.device_type import DeviceType
from kasa.exceptions import DeviceError, SmartErrorCode, TimeoutError
from kasa.smart import SmartDevice
from kasa.smart.modules import ChildSetup
from kasa.smartcam import SmartCamDevice
from kasa.smartcam.modules import ChildSetup as CameraChildSetup
from pyvc.registry import contract, prop

from .common import Clock
from .devices import Proto, smart

prop("C27")

INFO = {"device_id": "D", "device_on": True, "model": "H100", "fw_ver": "1.0 B", "hw_ver": "1", "mac": "00-00-00-00-00-01", "rssi": -40, "nickname": "", "ssid": "", "specs": "EU"}
NEGO = {"component_list": [{"id": "device", "ver_code": 1}, {"id": "child_device", "ver_code": 1}]}


def child_info(i, n, category):
    return {"device_id": i, "n": n, "category": category, "status": "offline" if n == 2 and i in "AB" else "online", "auto_off_status": "off", "model": "T", "type": "SMART.X", "fw_ver": "1", "hw_ver": "1", "device_on": True}


def components(ids, more=False):
    comp = [{"id": "auto_off", "ver_code": 2}] + [{"id": "new", "ver_code": 1}] * more
    return {"child_component_list": [{"device_id": i, "component_list": comp} for i in ids]}


class Parent:
    """Answers for the parent and, by id, for its children."""

    def __init__(self, typ):
        self.typ, self.list, self.comp, self.asked, self.fail, self.more, self.empty = typ, [], [], [], set(), False, False

    def __call__(self, r):
        if "control_child" in r:
            cc = r["control_child"]
            assert list(r) == ["control_child"]
            self.asked.append((cc["device_id"], cc["requestData"]["method"]))
            if cc["device_id"] in self.fail:
                raise TimeoutError("child")
            return {"control_child": {"responseData": {"error_code": 0, "result": {} if self.empty else {"of": cc["device_id"]}}}}
        ans = {"component_nego": NEGO, "get_device_info": {**INFO, "type": self.typ}, "get_connect_cloud_state": {"status": 0},
               "get_child_device_list": {"child_device_list": self.list, "sum": len(self.list), "start_index": 0}, "get_child_device_component_list": components(self.comp, self.more)}
        return {k: ans[k] for k in r}


ODD = {"no id": {"category": "x"}, "empty id": {"device_id": "", "category": "x"}, "no components": {"device_id": "Z", "category": "x"}}


@contract("C27", "children", funcs=("SmartDevice.update", "SmartDevice._create_delete_children", "SmartDevice._update_children_info", "SmartDevice._initialize_children", "SmartDevice.children", "SmartChildDevice.create", "SmartChildDevice.__init__", "SmartChildDevice._update"),
          covers=("hub", "strip", "added", "removed"))
def children(c):
    kind = c.pick("parent", ["hub", "strip"])
    c.cover(kind)
    src = Parent("SMART.TAPOHUB" if kind == "hub" else "SMART.TAPOPLUG")
    cat = "subg.plugswitch.switch" if kind == "hub" else "plug.powerstrip.sub-plug"
    p = Proto(src)
    d = SmartDevice("127.0.0.1", config=p.config, protocol=p)
    c.assume(Clock(c).now >= 1)
    odd = c.pick("odd entry", [None, *ODD]) if kind == "strip" or c.maybe("odd entries") else None
    seen, infos = {}, {}
    orders = [("A", "B"), ("C", "A"), ()] if kind == "hub" else [("A", "B", "C")]
    for n in (1, 2):
        ids = c.pick(f"reported {n}", orders)
        infos = {i: child_info(i, n, cat) for i in ids}
        src.list = [infos[i] for i in ids]
        if odd:
            src.list.insert(min(n - 1, len(src.list)), dict(ODD[odd]))
        src.comp = [*ids]
        src.asked.clear()
        quiet = src.fail
        src.fail = {"A"} if "A" in ids and c.maybe(f"A does not answer {n}") else set()
        upd = c.pick(f"update_children {n}", [True, False]) if kind == "hub" else True
        o = c.call(d.update, update_children=upd)
        c.check("the update succeeds", o.ok, lambda: f"{o}")
        now = {ch.device_id: ch for ch in d.children}
        c.check("the children are exactly those reported", set(now) == set(ids) and len(d.children) == len(ids), lambda: f"{list(now)} {ids}")
        c.check("each child has its own newest info", all(now[i].sys_info is infos[i] for i in ids if i in now))
        c.check("a child still reported is the same object as before", all(now[i] is seen[i] for i in now if i in seen))
        new = [i for i in ids if i not in seen]
        gone = [i for i in seen if i not in ids]
        if n == 2 and new:
            c.cover("added")
        if gone:
            c.cover("removed")
        due = [i for i in ids if i not in quiet] if kind == "strip" else new  # a child that did not answer is left alone for a while
        c.check("a child that is new, or of a strip, is asked for its own state", [i for i in ids if (i, "get_auto_off_config") in src.asked] == due, lambda: f"{src.asked} {due}")
        c.check("no child is asked through another's id", all(i in ids for i, _ in src.asked))
        for i in ids:
            if i in src.fail and i in due:
                c.check("a child that does not answer is marked, not the others", isinstance(now[i]._last_update["get_auto_off_config"], SmartErrorCode))
            elif i in due:
                c.check("each child has its own answer", now[i]._last_update["get_auto_off_config"] == {"of": i})
        seen = now


@contract("C27", "returning", funcs=("SmartDevice._create_delete_children", "SmartDevice._update_children_info"), covers=("returned", "components later", "changed components"))
def returning(c):
    """A child that is gone, or not yet known, is a child again as soon as it is listed with its components."""
    kind = c.pick("parent", ["hub", "strip"])
    src = Parent("SMART.TAPOHUB" if kind == "hub" else "SMART.TAPOPLUG")
    cat = "subg.plugswitch.switch" if kind == "hub" else "plug.powerstrip.sub-plug"
    p = Proto(src)
    d = SmartDevice("127.0.0.1", config=p.config, protocol=p)
    c.assume(Clock(c).now >= 1)
    what = c.pick("what", ["returned", "components later", "changed components"] if kind == "hub" else ["steady"])
    if kind == "hub":
        c.cover(what)
    steps = {"returned": [("AB", "AB"), ("B", "B"), ("AB", "AB"), ("BA", "BA")], "components later": [("AB", "B"), ("BA", "B"), ("AB", "AB"), ("AB", "AB")],
             "changed components": [("AB", "AB"), ("AB", "AB"), ("AB", "AB")], "steady": [("AB", "AB"), ("BA", "AB"), ("AB", "BA")]}[what]
    old = {}
    for n, (listed, known) in enumerate(steps):
        infos = {i: child_info(i, n, cat) for i in listed}
        src.list, src.comp = list(infos.values()), list(known)
        src.more = what == "changed components" and n > 0
        o = c.call(d.update)
        c.check("the update succeeds", o.ok, lambda: f"{o}")
        now = {ch.device_id: ch for ch in d.children}
        want = [i for i in listed if i in known]
        c.check("the children are those listed with components", set(now) == set(want) and len(d.children) == len(want), lambda: f"step {n}: {list(now)} instead of {want}")
        c.check("each with its newest info", all(now[i].sys_info is infos[i] for i in want))
        c.check("and the same object while it stays", all(now[i] is old[i] for i in want if i in old))
        c.check("each with its own answer", all(now[i]._last_update["get_auto_off_config"] == {"of": i} for i in want))
        old = now


@contract("C27", "asking_children", funcs=("SmartDevice.update", "SmartChildDevice._update", "SmartModule._should_update", "SmartDevice._handle_module_post_update"), covers=("hub", "strip", "again after an error", "a day later"))
def asking_children(c):
    """Sockets in every update, whatever the caller says; children of hubs at first, daily and, if they failed, after a while, when the caller wants the children updated."""
    import time

    kind = c.pick("parent", ["hub", "strip", "switch"])
    c.cover("hub" if kind == "hub" else "strip")
    src = Parent({"hub": "SMART.TAPOHUB", "strip": "SMART.TAPOPLUG", "switch": "SMART.KASASWITCH"}[kind])
    cat = "subg.plugswitch.switch" if kind == "hub" else "plug.powerstrip.sub-plug" if kind == "strip" else "kasa.switch.outlet.sub-dimmer"
    p = Proto(src)
    d = SmartDevice("127.0.0.1", config=p.config, protocol=p)
    now = c.real("start", 1, 10**8)
    c.patch(time, "monotonic", lambda: now)
    last, failures, data = {}, dict.fromkeys("AB", 0), {}
    for n in range(3):
        infos = {i: child_info(i, n, cat) for i in "AB"}
        src.list, src.comp = list(infos.values()), ["A", "B"]
        src.asked.clear()
        src.fail = {"A"} if n < 2 and c.maybe(f"A does not answer {n}") else set()
        src.empty = n == 1 and c.maybe("nothing in the answers")
        upd = c.pick(f"update_children {n}", [True, False]) if n else True
        o = c.call(d.update, update_children=upd)
        c.check("the update succeeds", o.ok, lambda: f"{o}")
        kids = {ch.device_id: ch for ch in d.children}
        c.check("the children stay", set(kids) == {"A", "B"})
        for i in "AB":
            iv = 30 * failures[i] if failures[i] else 86400 if kind == "hub" else 0
            due = i not in last or ((kind != "hub" or upd) and (iv == 0 or c.force(now - last[i] >= iv)))
            c.check("asked exactly when due", ((i, "get_auto_off_config") in src.asked) == due, lambda: f"{kind} step {n}: {src.asked}")
            if due:
                if failures[i]:
                    c.cover("again after an error")
                if iv == 86400 and n:
                    c.cover("a day later")
                last[i] = now
                bad = i in src.fail
                data[i] = SmartErrorCode.INTERNAL_QUERY_ERROR if bad else {} if src.empty else {"of": i}
                failures[i] = failures[i] + 1 if bad or src.empty else 0
            c.check("what it answered last is its data", kids[i]._last_update["get_auto_off_config"] == data[i], lambda: f"{kids[i]._last_update} instead of {data[i]}")
            c.check("and the info of the list", kids[i].sys_info is infos[i])
        now = now + c.real(f"elapsed {n}", 0, 200000)


CAM = {"device_info": {"basic_info": {"device_model": "H200", "device_type": "SMART.TAPOHUB", "sw_version": "1.0 B", "hw_version": "1", "dev_id": "H", "mac": "m", "device_alias": "hub"}}}


class CamHub:
    def __init__(self):
        self.list, self.comp, self.asked, self.fail = [], [], [], {}

    def __call__(self, r):
        if "multipleRequest" in r:
            out = []
            for q in r["multipleRequest"]["requests"]:
                cc = q["params"]["childControl"]
                i, m = cc["device_id"], cc["request_data"]["method"]
                self.asked.append((i, m))
                if i in self.fail:
                    raise self.fail[i]
                out.append({"result": {"response_data": {"error_code": 0, "result": {"of": i}}}})
            return {"multipleRequest": {"responses": out}}
        ans = {"getDeviceInfo": CAM, "getAppComponentList": {"app_component": {"app_component_list": [{"name": "childControl", "version": 1}]}}, "getConnectionType": {"link_type": "wifi", "rssi": "3"},
               "getChildDeviceList": {"child_device_list": self.list}, "getChildDeviceComponentList": {"child_component_list": [{"device_id": i, "component_list": x} for i, x in self.comp]}}
        return {k: ans.get(k, {"x": 1}) for k in r}


@contract("C27", "camera_hub_children", funcs=("SmartCamDevice._update_children_info", "SmartCamDevice._try_create_child", "SmartCamDevice._initialize_smart_child", "SmartCamDevice._initialize_smartcam_child", "SmartCamDevice._negotiate", "SmartCamDevice._initialize_children"),
          covers=("created", "unknown", "sleeping"))
def cam_children(c):
    """A camera hub has SMART and camera children; unknown ones are left out, silent ones do not disturb the others."""
    src = CamHub()
    p = Proto(src)
    d = SmartCamDevice("127.0.0.1", config=p.config, protocol=p)
    c.assume(Clock(c).now >= 1)
    third = c.pick("third child", ["camera", "unknown.category", None])
    src.list = [child_info("A", 1, "subg.trigger.contact-sensor"), child_info("B", 1, "subg.plugswitch.switch")]
    smart_comp = [{"id": "auto_off", "ver_code": 2}]
    src.comp = [("A", smart_comp), ("B", smart_comp), ("T", [{"name": "led", "version": 1}])]
    t = {"device_id": "T", "device_type": "SMART.IPCAMERA", "device_model": "C", "sw_ver": "1", "hw_ver": "1", "alias": "t"}
    if third:
        t["category"] = third
    src.list.insert(c.pick("position", [0, 1, 2]), t)
    fail = c.pick("B fails", [None, "timeout", "device error", "other", "cancelled"])
    if fail:
        src.fail["B"] = {"timeout": TimeoutError("t"), "device error": DeviceError("d", error_code=SmartErrorCode.PARAMS_ERROR), "other": ValueError("v"), "cancelled": asyncio.CancelledError()}[fail]
    o = c.call(d.update)
    if fail == "cancelled":
        c.check("cancellation passes", o.exc is src.fail["B"])
        return
    c.check("the update succeeds", o.ok, lambda: f"{o}")
    got = {ch.device_id: ch for ch in d.children}
    want = {"A", "B"} | ({"T"} if third == "camera" else set())
    if fail:
        c.cover("sleeping")
    c.cover("created" if third == "camera" else "unknown")
    c.check("all children of a known kind are there", set(got) == want and len(d.children) == len(want), lambda: f"{list(got)}")
    c.check("of the right type", all(got[i].device_type is x for i, x in (("A", DeviceType.Sensor), ("B", DeviceType.WallSwitch), ("T", DeviceType.Camera)) if i in got))
    c.check("with their own info and answers", all(got[i].sys_info["device_id"] == i for i in got) and got["A"]._last_update.get("get_auto_off_config") == {"of": "A"})
    if fail is None:
        c.check("including the cloud state asked first", all(got[i]._last_update.get("get_connect_cloud_state") == {"of": i} for i in ("A", "B")))
    src.fail.clear()
    o = c.call(d.update)
    c.check("the next update keeps them", o.ok and {ch.device_id: ch for ch in d.children} == got)


# ---- pairing
@contract("C27", "pairing", funcs=tuple(f"ChildSetup.{f}" for f in ("pair", "_add_devices", "unpair", "_post_update_hook", "supported_categories", "_get_detected_devices")), covers=("none found", "found", "unpair", "camera hub", "hub"))
def pairing(c):
    """Pairing scans for the hub's categories, adds exactly what was found and reports what then is a child."""
    cam = c.pick("hub", ["camera hub", "hub"]) == "camera hub"
    c.cover("camera hub" if cam else "hub")
    listed = [{"category": "ipcamera"}, {"category": "subg.trv", "kind": c.int("kind", 0, 9)}, {"category": "subg.trigger"}]
    cats = ["camera" if cam else "ipcamera", "subg.trv", "subg.trigger"]
    d, p = smart(SmartCamDevice if cam else None, **{"getSupportChildDeviceCategory" if cam else "get_support_child_device_category": {"device_category_list": listed}})
    m = (CameraChildSetup if cam else ChildSetup)(d, "pair")
    assert c.call(m._post_update_hook).ok
    o = c.call(getattr, m, "supported_categories")
    c.check("the categories are the hub's", o.ok and o.value == cats, lambda: f"{o}")
    found = [{"device_id": f"id{i}", "device_model": "T", "category": "subg.trv", "n": c.int(f"n{i}")} for i in range(c.pick("found", [0, 1, 2, 3]))]
    added = [x for x in found if c.pick(f"{x['device_id']} added", [True, False])]
    methods = ("startScanChildDevice", "getScanChildDeviceList", "addScanChildDeviceList", "removeChildDeviceList") if cam else ("begin_scanning_child_device", "get_scan_child_device_list", "add_child_device_list", "remove_child_device_list")
    waits, updates = [], []

    def cmd(k, params):
        return {methods[k]: {"childControl": params} if cam else params}

    p.on_query = lambda r: {k: {"child_device_list": list(found)} if k == methods[1] else "done" for k in r}

    async def sleep(t):
        waits.append((t, len(p.sent)))

    async def update():
        updates.append(len(p.sent))
        d._children.update({x["device_id"]: object() for x in added})

    c.patch(asyncio, "sleep", sleep)
    d.update = update
    if c.pick("unpair", [True, False]):
        c.cover("unpair")
        o = c.call(m.unpair, "id9")
        c.check("exactly this child is removed", o.ok and p.sent == [cmd(3, {"child_device_list": [{"device_id": "id9"}]})], lambda: f"{o} {p.sent}")
        c.check("the answer is returned", o.ok and o.value == {methods[3]: "done"})
        c.check("the device is updated after it", updates == [1], lambda: f"{updates}")
        return
    t = c.int("timeout", 0, 1000)
    o = c.call(m.pair, timeout=t)
    scan = [cmd(0, {"category": cats}) if cam else cmd(0, None), cmd(1, {"category": cats} if cam else {"scan_list": listed})]
    c.check("the scan runs for the requested time before its result is fetched", len(waits) == 1 and c.same(waits[0][0], t) and waits[0][1] == 1, lambda: f"{waits}")
    if not found:
        c.cover("none found")
        c.check("nothing found, nothing added", o.ok and o.value == [] and p.sent == scan and not updates, lambda: f"{o} {p.sent}")
        return
    c.cover("found")
    c.check("exactly the found devices are added", c.same(p.sent, scan + [cmd(2, {"child_device_list": found})]), lambda: f"{p.sent}")
    c.check("the device is updated after it", updates == [3], lambda: f"{updates}")
    c.check("the devices that became children are reported", o.ok and c.same(o.value, added), lambda: f"{o} instead of {added}")
