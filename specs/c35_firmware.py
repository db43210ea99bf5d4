"""C35: a firmware update is started only when one is known to be available, and followed until it ends."""
import asyncio
from datetime import date

from kasa.exceptions import KasaException
from kasa.smart import modules as M
from pyvc.registry import contract, prop

from .c22_smartsetters import device
from .common import patch_sleep

prop("C35", ["deserialization by mashumaro passes numbers and texts on unchanged"])


def firmware(c, version=2, cloud=True, **last):
    d, p, m, cl = device(c, {"fw_ver": "1.0.0 Build 1"}, {"firmware": version, "cloud_connect": 1}, (M.Firmware, M.Cloud), get_connect_cloud_state={"status": 0 if cloud else 1}, **last)
    return d, p, m


def info(c, kind, n=""):
    """The device's answer about the latest firmware."""
    i = {"type": kind, "need_to_upgrade": kind != 0}
    if kind:
        i.update(fw_ver="1.2.3", release_date=c.pick("date" + n, ["2024-02-29", "", None]), release_note="notes", fw_size=c.int("size" + n, 0, 10**9), oem_id="O")
    return i


@contract("C35", "latest", funcs=("Firmware.check_latest_firmware", "Firmware.latest_firmware", "Firmware.update_available", "Firmware.firmware_update_info", "UpdateInfo.update_available"), covers=("newer", "none", "failed"))
def latest(c):
    """Two checks in a row; the last one counts."""
    cloud = c.pick("cloud connected", [True, False])
    d, p, m = firmware(c, cloud=cloud)
    c.check("nothing is known before a check", c.call(getattr, m, "latest_firmware").value is None and c.call(getattr, m, "update_available").value is None and c.call(getattr, m, "firmware_update_info").value is None)
    for k in ("", " again"):
        kind = c.pick("answer" + k, [0, 1, 2, "fails", "malformed"])
        i = info(c, kind, k) if isinstance(kind, int) else None

        def answer(r):
            if kind == "fails":
                raise KasaException("x")
            return {"get_latest_fw": {} if kind == "malformed" else i}

        p.on_query = answer
        p.sent.clear()
        o = c.call(m.check_latest_firmware)
        got = c.call(getattr, m, "firmware_update_info").value
        c.check("the device is asked", p.sent == [{"get_latest_fw": None}], lambda: f"{p.sent}")
        if i is None:
            c.cover("failed")
            c.check("a failed check is known as none", o.ok and o.value is None and got is None and c.call(getattr, m, "latest_firmware").value is None and c.call(getattr, m, "update_available").value is None, lambda: f"{o}")
            continue
        c.cover("newer" if kind else "none")
        c.check("the answer is given", o.ok and got is o.value and got.status == kind and got.needs_upgrade is (kind != 0), lambda: f"{o}")
        c.check("the latest version", c.call(getattr, m, "latest_firmware").value == ("1.2.3" if kind else None))
        c.check("with its details", not kind or c.same(got.fw_size, i["fw_size"]) and got.release_notes == "notes" and got.release_date == (date(2024, 2, 29) if i["release_date"] else None) and got.oem_id == "O", lambda: f"{got}")
        ua = c.call(getattr, m, "update_available")
        c.check("available if newer and known to the cloud", ua.ok and ua.value is (kind != 0 if cloud else None), lambda: f"{ua}")
    c.check("the current version is the device's", c.call(getattr, m, "current_firmware").value == "1.0.0 Build 1")


@contract("C35", "update", funcs=("Firmware.update", "Firmware.get_update_state"), covers=("refused", "done", "failed", "not started"))
def update(c):
    """Any number of polls, each failing or with any state, until the first one that ends the update."""
    cloud = c.pick("cloud connected", [True, False])
    d, p, m = firmware(c, cloud=cloud)
    known = c.pick("known", [None, 0, 1])
    if known is not None:
        p.on_query = lambda r: {"get_latest_fw": {"type": known, "need_to_upgrade": bool(known), "fw_ver": "2"}}
        assert c.call(m.check_latest_firmware).ok
    p.sent.clear()
    m._last_update_time = 1000.0
    # download commands, pauses before the next poll, pauses the device asked for, states to pass on, the update is over
    for g in ("started", "paused", "upgrades", "untold", "over"):
        c.ghost(g)
    cb = c.pick("callback", [True, False])
    starts = c.pick("starts", [True, False])
    st = {"upgrade": None, "state": None}

    def slept(s):
        if st["upgrade"] is not None:
            c.check("waits as long as the device asks for", c.same(s, st["upgrade"]), lambda: f"{s}")
            st["upgrade"] = None
            c.bump("upgrades", -1)
        else:
            c.check("half a second before each poll", s == 0.5, lambda: f"{s}")
            c.bump("paused")

    patch_sleep(c, slept)
    c.patch(asyncio, "create_task", lambda x: x.close())

    async def progress(state):
        raise ValueError("a callback that fails")

    def noted(state):
        c.check("the states passed on are the device's", state.status is st["status"] or c.same(state.status, st["status"]), lambda: f"{state}")
        c.bump("untold", -1)
        return progress(state)

    def answer(r):
        if "fw_download" in r:
            c.bump("started")
            if not starts:
                raise KasaException("x")
            return {"fw_download": None}
        c.check("only the state is asked for", r == {"get_fw_download_state": None}, lambda: f"{r}")
        c.check("one download before the first poll", c.ghosts["started"] == 1)
        c.check("a pause before each poll", c.ghosts["paused"] == 1)
        c.check("the wait of an upgrade before the next poll", c.ghosts["upgrades"] == 0)
        c.check("no poll after the end", c.ghosts["over"] == 0)
        c.check("each state was passed on before the next poll", c.ghosts["untold"] == 0)
        c.bump("paused", -1)
        if c.maybe("poll fails"):
            raise c.pick("failure", [KasaException, ValueError])("rebooting")
        status = st["status"] = c.int("status", -50, 50, pool=(0, 2, 3, 5, -1, -7))
        wait = c.int("upgrade time", 0, 600)
        if cb:
            c.bump("untold")
        if status == 3:
            st["upgrade"] = wait
            c.bump("upgrades")
        elif status <= 0:
            c.bump("over")
        st["state"] = {"status": status, "download_progress": 7, "reboot_time": 5, "upgrade_time": wait, "auto_upgrade": False}
        return {"get_fw_download_state": st["state"]}

    p.on_query = answer
    o = c.call(m.update, noted if cb else None)
    if not (known and cloud):
        c.cover("refused")
        c.check("no update without a known newer firmware", isinstance(o.exc, KasaException) and not p.sent, lambda: f"{o} {p.sent}")
    elif not starts:
        c.cover("not started")
        c.check("a refused download is reported at once", isinstance(o.exc, KasaException) and p.sent == [{"fw_download": None}], lambda: f"{o} {p.sent}")
    else:
        c.check("the end is reached without failing", o.ok, lambda: f"{o}")
        c.cover("done" if o.value["status"] == 0 else "failed")
        c.check("started once and followed to its end", c.and_(c.ghosts["started"] == 1, c.ghosts["over"] == 1, c.ghosts["upgrades"] == 0))
        c.check("each state is passed on", c.ghosts["untold"] == 0)
        c.check("the last state is returned", c.same(o.value["status"], st["state"]["status"]) and c.same(o.value["upgrade_time"], st["state"]["upgrade_time"]), lambda: f"{o}")
    c.check("the module is asked again in the next update", m._last_update_time is None)


@contract("C35", "auto_update", funcs=("Firmware.auto_update_enabled", "Firmware.set_auto_update_enabled", "Firmware.query"), covers=("set", "old"))
def auto_update(c):
    v = c.pick("version", [1, 2])
    d, p, m = firmware(c, v)
    c.check("asked for from version 2 on", m.query() == ({"get_auto_update_info": None} if v > 1 else {}))
    if v == 1:
        c.cover("old")
        return
    c.cover("set")
    t, r = c.int("time", 0, 1439), c.int("random range", 0, 1000)
    en = c.pick("enabled", [True, False])
    rest = c.pick("reported with", [{"random_range": r, "time": t}, {"time": t}, {}])
    data = {"enable": en, **rest}
    d._last_update["get_auto_update_info"] = data
    c.check("as reported", c.call(getattr, m, "auto_update_enabled").value is en)
    on = c.pick("new", [True, False])
    o = c.call(m.set_auto_update_enabled, on)
    c.check("only the switch is changed", o.ok and c.same(p.sent, [{"set_auto_update_info": {"enable": on, **rest}}]), lambda: f"{p.sent}")
    c.check("the data of the update is not modified", c.same(data, {"enable": en, **rest}))
