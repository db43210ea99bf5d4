"""C29: the time of a device: what is read is what it reports in its zone; what is set is the given point in time."""
import asyncio
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from kasa.cachedzoneinfo import CachedZoneInfo
from kasa.exceptions import KasaException
from kasa.iot import IotPlug
from kasa.iot import iottimezone
from kasa.iot.modules import Time as IotTime
from kasa.smart.modules import Time
from kasa.smartcam.modules import Time as CamTime
from pyvc.registry import contract, prop

from .c22_smartsetters import Boom, device
from .devices import iot

prop("C29", ["the time zone database of the sandbox; offsets of named zones are computed by Python's zoneinfo"])

# index -> name, as the firmware of the legacy devices numbers them
NAMES = (
    "Etc/GMT+12 Pacific/Samoa US/Hawaii US/Alaska Mexico/BajaNorte Etc/GMT+8 PST8PDT US/Arizona America/Mazatlan MST MST7MDT Mexico/General Etc/GMT+6 "
    "CST6CDT America/Monterrey Canada/Saskatchewan America/Bogota Etc/GMT+5 EST America/Indiana/Indianapolis America/Caracas America/Asuncion Etc/GMT+4 "
    "Canada/Atlantic America/Cuiaba Brazil/West America/Santiago Canada/Newfoundland America/Sao_Paulo America/Argentina/Buenos_Aires America/Cayenne "
    "America/Miquelon America/Montevideo Chile/Continental Etc/GMT+2 Atlantic/Azores Atlantic/Cape_Verde Africa/Casablanca UCT GB Africa/Monrovia "
    "Europe/Amsterdam Europe/Belgrade Europe/Brussels Europe/Sarajevo Africa/Lagos Africa/Windhoek Asia/Amman Europe/Athens Asia/Beirut Africa/Cairo "
    "Asia/Damascus EET Africa/Harare Europe/Helsinki Asia/Istanbul Asia/Jerusalem Europe/Kaliningrad Africa/Tripoli Asia/Baghdad Asia/Kuwait Europe/Minsk "
    "Europe/Moscow Africa/Nairobi Asia/Tehran Asia/Muscat Asia/Baku Europe/Samara Indian/Mauritius Asia/Tbilisi Asia/Yerevan Asia/Kabul Asia/Ashgabat "
    "Asia/Yekaterinburg Asia/Karachi Asia/Kolkata Asia/Colombo Asia/Kathmandu Asia/Almaty Asia/Dhaka Asia/Novosibirsk Asia/Rangoon Asia/Bangkok "
    "Asia/Krasnoyarsk Asia/Chongqing Asia/Irkutsk Asia/Singapore Australia/Perth Asia/Taipei Asia/Ulaanbaatar Asia/Tokyo Asia/Seoul Asia/Yakutsk "
    "Australia/Adelaide Australia/Darwin Australia/Brisbane Australia/Canberra Pacific/Guam Australia/Hobart Antarctica/DumontDUrville Asia/Magadan "
    "Asia/Srednekolymsk Etc/GMT-11 Asia/Anadyr Pacific/Auckland Etc/GMT-12 Pacific/Fiji Etc/GMT-13 Pacific/Apia Etc/GMT-14 "
).split()
FIELDS = {"year": "year", "month": "month", "day": "mday", "hour": "hour", "minute": "min", "second": "sec"}


class Loop:
    """The running loop: what is to run in a thread runs at once."""

    async def run_in_executor(self, executor, f, *args):
        return f(*args)


def zones(c, cached=True):
    """Every zone is in the cache, or none is."""
    c.patch(CachedZoneInfo, "_cache", {n: ZoneInfo(n) for n in NAMES} if cached else {})
    c.patch(asyncio, "get_running_loop", lambda: Loop())


def iot_time(c, **last):
    d, p = iot(IotPlug, lambda r: {k: {n: {"err_code": 0, "ok": 1} for n in v} for k, v in r.items()}, time=last)
    d._supported_modules = d._modules
    m = c.call(IotTime, d, "time").value
    d._modules["time"] = m
    return d, p, m


@contract("C29", "iot_read", funcs=("iot Time.time", "iot Time.timezone", "iot Time._post_update_hook", "iot Time.query", "iottimezone.get_timezone"), covers=("in table", "unknown index"), opts={"max_paths": 20000})
def iot_read(c):
    cached = c.pick("cached", [True, False])
    zones(c, cached)
    i = c.choose_index("index", 112)
    now, parts = c.date("now")
    d, p, m = iot_time(c, get_timezone={"index": i}, get_time={FIELDS[k]: v for k, v in parts.items()})
    c.check("time and zone are asked for", m.query() == {"time": {"get_time": {}, "get_timezone": {}}})
    o = c.call(m._post_update_hook)
    tz = c.call(getattr, m, "timezone")
    c.cover("in table" if i < 110 else "unknown index")
    c.check("the zone is that of the index, UTC of an unknown one", o.ok and isinstance(tz.value, ZoneInfo) and tz.value.key == (NAMES[i] if i < 110 else "Etc/UTC"), lambda: f"{o} {tz} {i}")
    o = c.call(getattr, m, "time")
    c.check("the time has the reported fields", o.ok and o.value.tzinfo is tz.value and all(c.force(c.eq(getattr(o.value, k), v)) for k, v in parts.items()), lambda: f"{o}")


@contract("C29", "iot_get_time", funcs=("iot Time.get_time", "iot Time.get_timezone"), covers=("answer", "failure"))
def iot_get(c):
    now, parts = c.date("now")
    d, p, m = iot_time(c)
    fails = c.maybe("fails")
    ans = {FIELDS[k]: v for k, v in parts.items()}
    p.on_query = lambda r: {"time": {"get_time": {"err_code": -1 if fails else 0, **ans}}}
    o = c.call(m.get_time)
    c.check("the device is asked", p.sent == [{"time": {"get_time": {}}}] or p.sent == [{"time": {"get_time": None}}], lambda: f"{p.sent}")
    if fails:
        c.cover("failure")
        c.check("nothing if it fails", o.ok and o.value is None)
    else:
        c.cover("answer")
        c.check("the answer's fields in the known zone", o.ok and o.value.tzinfo is m._timezone and all(c.force(c.eq(getattr(o.value, k), v)) for k, v in parts.items()), lambda: f"{o}")


def same_all_year(a, b):
    start = datetime(datetime.now().year, 1, 1, 12)
    return all(a.utcoffset(start + timedelta(days=i)) == b.utcoffset(start + timedelta(days=i)) for i in range(365))


def acceptable(tz):
    if isinstance(tz, ZoneInfo) and tz.key in NAMES:
        return [NAMES.index(tz.key)]
    return [i for i, n in enumerate(NAMES) if same_all_year(tz, ZoneInfo(n))]


ACCEPTABLE = {}


@contract("C29", "iot_set", funcs=("iot Time.set_time", "iottimezone.get_timezone_index", "iottimezone._is_same_timezone"), covers=("set_time", "set_timezone", "refused", "failure"), opts={"max_paths": 20000})
def iot_set(c):
    zones(c)
    tz = c.pick("zone", [None, ZoneInfo("Europe/Amsterdam"), ZoneInfo("Asia/Kathmandu"), ZoneInfo("Etc/GMT+12"), ZoneInfo("Africa/Luanda"), ZoneInfo("Asia/Tel_Aviv"), ZoneInfo("Australia/Eucla"), timezone(timedelta(hours=-12)), timezone(timedelta(minutes=17))])
    cur = c.pick("current index", [None, 41, 77, 0, 45])
    dt, parts = c.date("new time", tz)
    d, p, m = iot_time(c, **({} if cur is None else {"get_timezone": {"index": cur}}))
    fails = c.maybe("fails")
    if fails:
        p.on_query = lambda r: {"time": {k: {"err_code": -3} for k in r["time"]}}
    o = c.call(m.set_time, dt)
    params = {FIELDS[k]: v for k, v in parts.items()}
    if tz is None:
        ok = None
    else:
        if tz not in ACCEPTABLE:
            ACCEPTABLE[tz] = acceptable(tz)
        ok = ACCEPTABLE[tz]
    if ok == []:
        c.cover("refused")
        c.check("a zone the device has none for is refused with nothing sent", isinstance(o.exc, ValueError) and not p.sent, lambda: f"{o} {p.sent}")
        return
    s = p.sent
    if ok is None or cur is None or len(s) == 1 and "set_time" in s[0].get("time", {}):
        c.check("the zone stays only if it is the wanted one or unknown", ok is None or cur is None or cur in ok, lambda: f"{s}")
        c.cover("set_time")
        c.check("the fields of the date are set", c.same(s, [{"time": {"set_time": params}}]), lambda: f"{s}")
    else:
        c.cover("set_timezone")
        idx = s[0]["time"]["set_timezone"].get("index") if s and "set_timezone" in s[0].get("time", {}) else None
        c.check("the zone is set when it differs", idx in ok and idx != cur, lambda: f"{s} {ok}")
        c.check("with the fields of the date", c.same(s, [{"time": {"set_timezone": {**params, "index": idx}}}]), lambda: f"{s}")
    if fails:
        c.cover("failure")
        c.check("failures raise KasaException", isinstance(o.exc, KasaException))
    else:
        c.check("the answer is returned", o.ok and o.value == {"ok": 1}, lambda: f"{o}")


@contract("C29", "iot_matching", funcs=("iottimezone.get_matching_timezones",), covers=("own", "others", "none"))
def iot_matching(c):
    """Every zone of the table that is the same all year, the zone itself first."""
    zones(c)
    tz = c.pick("zone", [ZoneInfo("Europe/Amsterdam"), ZoneInfo("Asia/Kathmandu"), ZoneInfo("Etc/GMT+12"), ZoneInfo("Africa/Luanda"), ZoneInfo("Asia/Tel_Aviv"), ZoneInfo("Australia/Eucla"), timezone(timedelta(hours=-12)), timezone(timedelta(minutes=17))])
    o = c.call(iottimezone.get_matching_timezones, tz)
    own = getattr(tz, "key", None)
    same = sorted({n for n in NAMES if same_all_year(tz, ZoneInfo(n))} | ({own} & set(NAMES)))
    c.check("the zones of the table that fit", o.ok and sorted(o.value) == same, lambda: f"{o} {same}")
    c.check("its own first", own not in NAMES or o.value[0] == own)
    c.cover("own" if own in NAMES else "others" if same else "none")


@contract("C29", "iot_read_zone", funcs=("iot Time.get_timezone",), covers=("answer", "failure"))
def iot_read_zone(c):
    d, p, m = iot_time(c)
    fails = c.maybe("fails")
    i = c.int("index", 0, 109)
    p.on_query = lambda r: {"time": {"get_timezone": {"err_code": -1 if fails else 0, "index": i}}}
    o = c.call(m.get_timezone)
    c.check("the device is asked", len(p.sent) == 1 and list(p.sent[0]["time"]) == ["get_timezone"])
    c.cover("failure" if fails else "answer")
    c.check("its answer is given, its error raised", isinstance(o.exc, KasaException) if fails else o.ok and c.same(o.value["index"], i), lambda: f"{o}")


# ---- SMART
@contract("C29", "smart_read_fixed", funcs=("smart Time.time", "smart Time.timezone", "smart Time._post_update_hook"), covers=("unknown region", "no region"))
def smart_read(c):
    zones(c, False)
    ts, td = c.int("timestamp", 0, 4_000_000_000), c.int("time_diff", -1439, 1439)
    region = c.pick("region", [None, "", "Nowhere/Land"])
    d, p, m = device(c, None, {"time": 1}, (Time,), get_device_time={"timestamp": ts, "time_diff": td, **({} if region is None else {"region": region})})
    o = c.call(m._post_update_hook)
    c.cover("unknown region" if region else "no region")
    o2 = c.call(getattr, m, "time")
    c.check("a time is given", o.ok and o2.ok, lambda: f"{o} {o2}")
    off = c.call(timedelta, minutes=td).value
    c.check("the offset is the device's", c.same(c.call(o2.value.utcoffset).value, off))
    c.check("the point in time is the device's", c.same(o2.value, c.call(datetime.fromtimestamp, ts, timezone.utc).value), lambda: f"{o2}")
    c.check("the zone is that of the time", c.call(getattr, m, "timezone").value is o2.value.tzinfo)
    c.check("named after the unknown region", not region or o2.value.tzname() == region)


@contract("C29", "smart_read_zone", funcs=("smart Time.time", "smart Time._post_update_hook"), covers=("read",), bounded="enumerated zones and times")
def smart_read_zone(c):
    zones(c, c.pick("cached", [True, False]))
    region = c.pick("region", ["Europe/Berlin", "Asia/Kathmandu", "America/New_York", "UTC"])
    ts = c.pick("timestamp", [0, 1_700_000_000, 1_720_000_000, 1_711_846_800, 1_711_846_799, 1_729_990_800])
    d, p, m = device(c, None, {"time": 1}, (Time,), get_device_time={"timestamp": ts, "time_diff": 1, "region": region})
    o = c.call(m._post_update_hook)
    t = c.call(getattr, m, "time")
    c.cover("read")
    c.check("the point in time is the device's, in its region", o.ok and t.ok and t.value.timestamp() == ts and t.value.tzinfo.key == region, lambda: f"{o} {t}")


def offset_zone(c):
    return c.pick("zone", [timezone.utc, timezone(timedelta(hours=2)), timezone(-timedelta(hours=9, minutes=30)), timezone(timedelta(hours=1), "CET")])


@contract("C29", "smart_set", funcs=("smart Time.set_time",), covers=("aware", "naive"))
def smart_set(c):
    tz = offset_zone(c)
    naive = c.maybe("naive")
    own = tz if naive else c.pick("device zone", [timezone.utc, timezone(timedelta(hours=5, minutes=30))])
    dt = c.moment("new time", None if naive else tz, 100_000)
    d, p, m = device(c, None, {"time": 1}, (Time,), get_device_time={"timestamp": 1, "time_diff": 0})
    m._timezone = own
    p.fails = c.maybe("fails")
    o = c.call(m.set_time, dt)
    c.cover("naive" if naive else "aware")
    off = tz.utcoffset(None) // timedelta(seconds=1)
    secs = c.call(int, c.call((dt if not naive else c.call(dt.replace, tzinfo=tz).value).timestamp).value).value
    exp = {"timestamp": secs, "time_diff": off // 60}
    if not naive:
        exp["region"] = tz.tzname(None)
    c.check("the point in time is set, in the date's zone, else in the device's", c.same(p.sent, [{"set_device_time": exp}]), lambda: f"{p.sent} {exp}")
    c.check("the answer is returned, failures are raised", o.exactly(Boom) if p.fails else o.ok and o.value == p.answers[0], lambda: f"{o}")


@contract("C29", "smart_set_zone", funcs=("smart Time.set_time",), covers=("aware", "naive"), bounded="enumerated zones and times")
def smart_set_zone(c):
    key = c.pick("region", ["Europe/Berlin", "Asia/Kathmandu", "America/New_York", "UTC"])
    tz = ZoneInfo(key)
    naive = c.maybe("naive")
    dt = c.pick("time", [datetime(2024, 7, 1, 12, 30, 5), datetime(2024, 1, 1), datetime(2024, 3, 31, 4), datetime(2023, 12, 31, 23, 59, 59, 999_999)])
    d, p, m = device(c, None, {"time": 1}, (Time,), get_device_time={"timestamp": 1, "time_diff": 0})
    m._timezone = tz if naive else ZoneInfo("Asia/Tokyo")
    o = c.call(m.set_time, dt if naive else dt.replace(tzinfo=tz))
    c.cover("naive" if naive else "aware")
    exp = {"timestamp": int(dt.replace(tzinfo=tz).timestamp()), "time_diff": tz.utcoffset(dt) // timedelta(minutes=1), **({} if naive else {"region": key})}
    c.check("the point in time is set with the offset of that day", o.ok and p.sent == [{"set_device_time": exp}], lambda: f"{p.sent} {exp}")


# ---- cameras
def camera(c, zone_id, text, ts):
    from kasa.smartcam import SmartCamDevice
    from .devices import smart

    d, p = smart(SmartCamDevice, lambda r: {k: {"answer": len(p.sent)} for k in r})
    d._last_update.update(getTimezone={"system": {"basic": {"zone_id": zone_id, "timezone": text}}}, getClockStatus={"system": {"clock_status": {"seconds_from_1970": ts}}})
    m = c.call(CamTime, d, "Time").value
    d._modules["Time"] = m
    return d, p, m


@contract("C29", "camera_read", funcs=("smartcam Time._post_update_hook", "smartcam Time.time", "smartcam Time.query"), covers=("unknown zone",))
def camera_read(c):
    zones(c, False)
    ts = c.int("seconds", 0, 4_000_000_000)
    text, off = c.pick("text", [("UTC+10:00", 600), ("UTC-03:30", -210), ("UTC+00:00", 0)])
    d, p, m = camera(c, "Nowhere/Land", text, ts)
    c.check("clock and zone are asked for", m.query() == {"getTimezone": {"system": {"name": "basic"}}, "getClockStatus": {"system": {"name": "clock_status"}}}, lambda: f"{m.query()}")
    o = c.call(m._post_update_hook)
    t = c.call(getattr, m, "time")
    c.cover("unknown zone")
    c.check("the point in time is the camera's", o.ok and t.ok and c.same(t.value, c.call(datetime.fromtimestamp, ts, timezone.utc).value), lambda: f"{o} {t}")
    c.check("in the offset of its text", t.value.utcoffset() == timedelta(minutes=off) and c.call(getattr, m, "timezone").value is t.value.tzinfo)


@contract("C29", "camera_zone", funcs=("smartcam Time._post_update_hook", "smartcam Time.set_time"), covers=("read", "set"), bounded="enumerated zones and times")
def camera_zone(c):
    zones(c, c.pick("cached", [True, False]))
    key = c.pick("zone", ["Europe/Berlin", "Asia/Kathmandu", "UTC"])
    ts = c.pick("seconds", [0, 1_700_000_000, 1_720_000_000])
    d, p, m = camera(c, key, "UTC+10:00", ts)
    o = c.call(m._post_update_hook)
    t = c.call(getattr, m, "time")
    c.cover("read")
    c.check("the point in time is the camera's, in its zone", o.ok and t.ok and t.value.timestamp() == ts and t.value.tzinfo.key == key, lambda: f"{o} {t}")
    tz = c.pick("new zone", [None, timezone.utc, timezone(timedelta(hours=2)), ZoneInfo("Europe/Rome"), ZoneInfo("UTC")])
    dt = c.pick("new time", [datetime(2024, 7, 1, 12, 30, 5), datetime(2024, 1, 1, 0, 0, 0, 999_999)])
    m._last_update_time = 1000.0
    p.sent.clear()
    o = c.call(m.set_time, dt if tz is None else dt.replace(tzinfo=tz))
    c.cover("set")
    secs = int(dt.replace(tzinfo=tz or ZoneInfo(key)).timestamp())
    ok = o.ok and len(p.sent) == (2 if isinstance(tz, ZoneInfo) else 1) and p.sent[0]["setTimezone"]["system"]["clock_status"]["seconds_from_1970"] == secs
    c.check("the point in time is set", ok, lambda: f"{o} {p.sent} {secs}")
    c.check("and then the zone, if it has a name", len(p.sent) == 1 or p.sent[1] == {"setTimezone": {"system": {"basic": {"zone_id": tz.key}}}}, lambda: f"{p.sent}")
    c.check("the camera is asked again in the next update", m._last_update_time is None)
