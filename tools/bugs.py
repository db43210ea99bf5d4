"""Planted bugs: never applied to /repo, only used to try the checks (see seed.py)."""
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("c10-stale-cookie", "C10", "a second handshake after a session with a cookie",
    "the new handshake is sent with the cookie of the old session", """
import asyncio, base64
from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig
from kasa.transports.aestransport import AesTransport, AesEncyptionSession

async def main():
    t = AesTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")))
    cookies = []
    async def post(url, *, json, headers, cookies_dict):
        cookies.append(cookies_dict)
        return 200, {"error_code": 0, "result": {"key": "AAAA"}}
    t._http_client.post = post
    t._http_client.get_cookie = lambda n: {"TP_SESSIONID": "x", "TIMEOUT": "3600"}.get(n)
    AesEncyptionSession.create_from_keypair = staticmethod(lambda *a: object())
    await t.perform_handshake()
    await t.perform_handshake()
    assert not cookies[0] and not cookies[1], cookies
asyncio.run(main())
""", ("kasa/transports/aestransport.py", """        self._session_expire_at = None
        self._session_cookie = None

        # Device needs""", """        self._session_expire_at = None

        # Device needs"""))

bug("c09-expiry-buffer", "C09", "a session whose device life time has nearly run out",
    "the session is considered live up to the device's own limit, without the 20 minute safety buffer", """
import time
from kasa.deviceconfig import DeviceConfig
from kasa.credentials import Credentials
import asyncio
from kasa.transports.klaptransport import KlapTransport
from unittest.mock import patch
async def main():
    t = KlapTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")))
    async def h1():
        return b"a" * 16, b"b" * 16, b"c" * 16
    async def h2(*a):
        return None
    t.perform_handshake1, t.perform_handshake2 = h1, h2
    t._http_client.get_cookie = lambda n: {"TP_SESSIONID": "x", "TIMEOUT": "3600"}.get(n)
    now = time.time()
    with patch("time.time", lambda: now), patch("time.monotonic", lambda: now):
        await t.perform_handshake()
    with patch("time.time", lambda: now + 3000), patch("time.monotonic", lambda: now + 3000):
        assert t._handshake_session_expired()
asyncio.run(main())
""", ("kasa/transports/klaptransport.py", "            time.monotonic() + timeout - SESSION_EXPIRE_BUFFER_SECONDS\n",
    "            time.monotonic()\n            + max(timeout, ONE_DAY_SECONDS)\n            - SESSION_EXPIRE_BUFFER_SECONDS\n"))

bug("c01-reset-skipped-on-last", "C01", "a retryable error on the last permitted attempt",
    "the transport is not reset before the error reaches the caller", """
import asyncio
from kasa.deviceconfig import DeviceConfig
from kasa.exceptions import _RetryableError
from kasa.protocols import SmartProtocol
class T:
    _host, _port, _config = "h", 80, DeviceConfig("127.0.0.1")
    n = r = 0
    async def send(self, request):
        self.n += 1
        raise _RetryableError("x")
    async def reset(self):
        self.r += 1
    async def close(self):
        pass
async def main():
    t = T()
    p = SmartProtocol(transport=t)
    p.BACKOFF_SECONDS_AFTER_TIMEOUT = 0
    try:
        await p.query("get_x", 1)
    except _RetryableError:
        pass
    assert t.n == t.r == 2, (t.n, t.r)
asyncio.run(main())
""", ("kasa/protocols/smartprotocol.py", """                await self._transport.reset()
                if retry >= retry_count:
                    _LOGGER.debug("Giving up on %s after %s retries", self._host, retry)
                    raise ex
                await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_TIMEOUT)
                continue
            except TimeoutError as ex:
""", """                if retry >= retry_count:
                    _LOGGER.debug("Giving up on %s after %s retries", self._host, retry)
                    raise ex
                await self._transport.reset()
                await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_TIMEOUT)
                continue
            except TimeoutError as ex:
"""))

SMART = """
import asyncio, json
from kasa.deviceconfig import DeviceConfig
from kasa.exceptions import KasaException
from kasa.protocols import SmartProtocol
class T:
    _host, _port = "h", 80
    def __init__(self, answer):
        self._config, self.answer, self.sent = DeviceConfig("127.0.0.1"), answer, []
    async def send(self, request):
        r = json.loads(request)
        self.sent.append(r)
        return self.answer(r)
    async def reset(self): pass
    async def close(self): pass
"""

bug("c04-pages-of-one-size", "C04", "a list whose pages differ in size and that needs at least three pages",
    "later pages are asked for by the size of the first one, which leaves out or repeats items", SMART + """
items = list(range(9))
sizes = {0: 4, 4: 2, 6: 3}
def answer(r):
    i = (r.get("params") or {}).get("start_index", 0)
    return {"error_code": 0, "result": {"sum": 9, "start_index": i, "items": items[i:i + sizes.get(i, 1)]}}
async def main():
    r = await SmartProtocol(transport=T(answer)).query({"get_list": {"start_index": 0}})
    assert r["get_list"]["items"] == items, r
asyncio.run(main())
""", ("kasa/protocols/smartprotocol.py", "        while (list_length := len(response_result[response_list_name])) < list_sum:\n",
    "        list_length = page_size = len(response_result[response_list_name])\n        while list_length < list_sum:\n"),
    ("kasa/protocols/smartprotocol.py", "            response_result[response_list_name].extend(next_batch[response_list_name])\n",
    "            response_result[response_list_name].extend(next_batch[response_list_name])\n            list_length += page_size\n"))

bug("c05-child-default-retries", "C05", "a query of a child with a retry count of its own",
    "the parent's query is made with the default retry count", """
import asyncio
from kasa.protocols.smartprotocol import _ChildProtocolWrapper
class P:
    _transport = None
    async def query(self, request, retry_count=3):
        self.n = retry_count
        return {"control_child": {"responseData": {"error_code": 0, "result": {}}}}
p = P()
asyncio.run(_ChildProtocolWrapper("id", p).query({"get_x": None}, 0))
assert p.n == 0, p.n
""", ("kasa/protocols/smartprotocol.py", "        response = await self._protocol.query(wrapped_payload, retry_count)\n        result = response.get(\"control_child\")",
      "        response = await self._protocol.query(wrapped_payload)\n        result = response.get(\"control_child\")"))

bug("c19-empty-hash-keeps-old", "C19", "a configuration that already has a credentials hash, stored with an empty one",
    "the old hash is stored", """
from kasa.deviceconfig import DeviceConfig
d = DeviceConfig("h", credentials_hash="secret").to_dict_control_credentials(credentials_hash="")
assert not d.get("credentials_hash"), d
""", ("kasa/deviceconfig.py", "            credentials_hash=credentials_hash if credentials_hash else None,\n", "            credentials_hash=credentials_hash or self.credentials_hash,\n"))

bug("c25-refresh-only-on-success", "C25", "a setter that fails, for example because its answer was lost",
    "the module is not asked in the next update although the device may have changed", """
import asyncio
from kasa.smart.smartmodule import allow_update_after
class M:
    _last_update_time = 5.0
    @allow_update_after
    async def set(self): raise RuntimeError
m = M()
try:
    asyncio.run(m.set())
except RuntimeError:
    pass
assert m._last_update_time is None
""", ("kasa/smart/smartmodule.py", """        try:
            return await func(self, *args, **kwargs)
        finally:
            self._last_update_time = None
""", """        res = await func(self, *args, **kwargs)
        self._last_update_time = None
        return res
"""))

bug("c14-cancel-leaks", "C14", "a connect() that is cancelled",
    "the connection is left open", """
import asyncio
from unittest.mock import patch
from kasa import DeviceConfig
from kasa import device_factory as f
class P:
    closed = 0
    async def close(self): self.closed += 1
async def main():
    p = P()
    async def _connect(config, protocol):
        await asyncio.sleep(100)
    with patch.object(f, "get_protocol", lambda **k: p), patch.object(f, "_connect", _connect):
        t = asyncio.create_task(f.connect(config=DeviceConfig("127.0.0.1")))
        await asyncio.sleep(0)
        t.cancel()
        try:
            await t
        except asyncio.CancelledError:
            pass
    assert p.closed == 1
asyncio.run(main())
""", ("kasa/device_factory.py", "    except:\n        await protocol.close()\n        raise\n", "    except Exception:\n        await protocol.close()\n        raise\n"))

bug("c38-child-alias-prefix", "C38", "children one of whose names is the beginning of another's",
    "the wrong child is found", """
from types import SimpleNamespace as N
from kasa.iot import IotStrip
d = IotStrip("h")
d._children = {"1": N(alias="Lamp 2"), "2": N(alias="Lamp")}
assert d.get_child_device("lamp") is d._children["2"]
""", ("kasa/device.py", "            if child.alias and child.alias.lower() == name_lower:\n", "            if child.alias and child.alias.lower().startswith(name_lower):\n"))

bug("c02-error-fails-unbatched", "C02", "a device that had batching disabled by a JSON decode error, then an error of one method among several",
    "once batching is disabled, the error of one method fails the whole query", """
import asyncio
from kasa.deviceconfig import DeviceConfig
from kasa.exceptions import SmartErrorCode
from kasa.protocols import SmartProtocol
class T:
    _host, _port, _config = "h", 80, DeviceConfig("127.0.0.1")
    async def send(self, request):
        import json
        r = json.loads(request)
        if r["method"] == "multipleRequest":
            return {"error_code": -1003}
        return {"error_code": 0, "result": {"x": 1}} if r["method"] == "a" else {"error_code": -1002}
    async def reset(self):
        pass
    close = reset
async def main():
    p = SmartProtocol(transport=T())
    r = await p.query({"a": {}, "b": {"k": 1}}, retry_count=1)
    assert r["a"] == {"x": 1} and r["b"] is SmartErrorCode.UNKNOWN_METHOD_ERROR, r
asyncio.run(main())
""", ("kasa/protocols/smartprotocol.py", """                resp = await self._transport.send(req)
                self._handle_response_error_code(
                    resp, method, raise_on_error=raise_on_error
                )""", """                resp = await self._transport.send(req)
                self._handle_response_error_code(resp, method)"""))

bug("c21-no-transition-lost", "C21", "a transition of 0 ms",
    "asking a bulb to change without transition sends no transition period, so the bulb uses its own", """
import asyncio
from unittest.mock import AsyncMock
from kasa.iot import IotBulb
async def main():
    b = IotBulb("127.0.0.1")
    b._query_helper = AsyncMock(return_value={})
    await b._set_light_state({"brightness": 5}, transition=0)
    assert b._query_helper.call_args[0][2].get("transition_period") == 0, b._query_helper.call_args
asyncio.run(main())
""", ("kasa/iot/iotbulb.py", """        if transition is not None:
            state["transition_period"] = transition

        if "brightness" in state:""", """        if transition:
            state["transition_period"] = transition

        if "brightness" in state:"""))

bug("c30-strip-on-since-of-any", "C30", "a strip with one socket that is off and others switched on at different times",
    "the strip reports the time of its first switched-on socket instead of the one switched on earliest", """
from datetime import datetime, timedelta, timezone
from unittest.mock import patch, PropertyMock
from kasa.iot import IotStrip
from kasa.iot.iotstrip import IotStripPlug
t = datetime(2024, 1, 1, 12, tzinfo=timezone.utc)
class P:
    def __init__(self, s): self.on_since, self.is_on = s, s is not None
s = IotStrip("127.0.0.1")
s._last_update = s._sys_info = {"system": {"get_sysinfo": {}}}
s._children = {"a": P(None), "b": P(t), "c": P(t - timedelta(hours=1))}
assert s.on_since == t - timedelta(hours=1), s.on_since
""", ("kasa/iot/iotstrip.py", "        return min(plug.on_since for plug in self.children if plug.on_since is not None)\n",
    "        return next(plug.on_since for plug in self.children if plug.on_since is not None)\n"))

bug("c35-reboot-ends-update", "C35", "a device that answers nothing while it reboots during an update",
    "the firmware update ends with the error of the rebooting device when flashing had begun", """
import asyncio
from unittest.mock import AsyncMock, patch
from kasa.smart.modules.firmware import Firmware, DownloadState, UpdateInfo
def state(s):
    return DownloadState.from_dict({"status": s, "download_progress": 1, "reboot_time": 5, "upgrade_time": 5, "auto_upgrade": False})
class Dev:
    is_cloud_connected, host, hw_info = True, "h", {"sw_ver": "1"}
async def main():
    f = Firmware.__new__(Firmware)
    f._device = Dev()
    class U:
        update_available, version = True, "2"
    f._firmware_update_info = U()
    f.call = AsyncMock()
    f.get_update_state = AsyncMock(side_effect=[state(3), RuntimeError("down"), RuntimeError("down"), state(0)])
    with patch("asyncio.sleep", AsyncMock()):
        r = await Firmware.update.__wrapped__(f) if hasattr(Firmware.update, "__wrapped__") else await f.update()
    assert r["status"] == 0, r
asyncio.run(main())
""", ("kasa/smart/modules/firmware.py", """            while True:
                await asyncio.sleep(0.5)
                try:""", """            upgrade_sleep = 0
            while True:
                await asyncio.sleep(0.5)
                try:"""), ("kasa/smart/modules/firmware.py", """                except Exception as ex:
                    _LOGGER.warning(
                        "Got exception, maybe""", """                except Exception as ex:
                    if upgrade_sleep and upgrade_sleep < 30:
                        raise
                    _LOGGER.warning(
                        "Got exception, maybe"""))

bug("c23-strip-switches-all", "C23", "a strip with a socket that is on already",
    "switching a strip on sends nothing to the sockets after the first that is on already", """
import asyncio
from kasa.iot import IotStrip
class P:
    def __init__(self, on): self.is_on, self.is_off, self.n = on, not on, 0
    async def turn_on(self): self.n += 1
async def main():
    s = IotStrip("127.0.0.1")
    k = [P(False), P(True), P(False)]
    s._children = dict(enumerate(k))
    await s.turn_on()
    assert [x.n for x in k] == [1, 0, 1], [x.n for x in k]
asyncio.run(main())
""", ("kasa/iot/iotstrip.py", """        for plug in self.children:
            if plug.is_off:
                await plug.turn_on()
        return {}""", """        for plug in self.children:
            if plug.is_on:
                break
            await plug.turn_on()
        return {}"""))

bug("c12-no-pacing-after-refusal", "C12", "a device that dropped a connection once, and then answers a request with another status than 200",
    "the request after the refusal is sent at once", """
import asyncio
from unittest.mock import patch
import aiohttp
from kasa.deviceconfig import DeviceConfig
from kasa.httpclient import HttpClient
class Resp:
    status = 403
    async def read(self):
        return b""
    async def __aenter__(self):
        return self
    async def __aexit__(self, *a):
        pass
class Client:
    n = 0
    class cookie_jar:
        clear = staticmethod(lambda: None)
    async def post(self, *a, **k):
        self.n += 1
        if self.n == 1:
            raise aiohttp.ServerDisconnectedError
        return Resp()
async def main():
    h = HttpClient(DeviceConfig("127.0.0.1"))
    h._client_session = Client()
    now, slept = [1000.0], []
    async def sleep(s):
        slept.append(s)
        now[0] += s
    with patch("time.monotonic", lambda: now[0]), patch("asyncio.sleep", sleep):
        try:
            await h.post("http://127.0.0.1/", json={"a": 1})
        except Exception:
            pass
        now[0] += 100
        await h.post("http://127.0.0.1/", json={"a": 1})
        await h.post("http://127.0.0.1/", json={"a": 1})
    assert len(slept) == 1, slept
asyncio.run(main())
""", ("kasa/httpclient.py", """        if self._wait_between_requests:
            self._last_request_time = time.monotonic()

        return""", """        if self._wait_between_requests and resp.status == 200:
            self._last_request_time = time.monotonic()

        return"""))

bug("c13-default-login-once", "C13", "a device with the default login whose session ends",
    "the default credentials are tried for the first session only", """
import asyncio, json
from kasa.credentials import Credentials
from kasa.deviceconfig import DeviceConfig
from kasa.exceptions import SmartErrorCode
from kasa.transports.ssltransport import SslTransport
async def main():
    t = SslTransport(config=DeviceConfig("127.0.0.1", credentials=Credentials("u", "p")))
    t.BACKOFF_SECONDS_AFTER_LOGIN_ERROR = 0
    own = t._login_params["password"]
    async def post(url, *, json, headers):
        r = __import__("json").loads(json)
        if r["method"] == "login":
            if r["params"]["password"] == own:
                return 200, {"error_code": SmartErrorCode.LOGIN_ERROR.value}
            return 200, {"error_code": 0, "result": {"token": "T"}}
        return 200, {"error_code": 0, "result": {}}
    t._http_client.post = post
    for i in range(2):
        assert (await t.send(json.dumps({"method": "get_x"})))["error_code"] == 0
        await t.reset()
asyncio.run(main())
""", ("kasa/transports/ssltransport.py", """                if self._default_credentials is None:
                    self._default_credentials = get_default_credentials(
                        DEFAULT_CREDENTIALS["TAPO"]
                    )
                    await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_LOGIN_ERROR)
""", """                if self._default_credentials is not None:
                    raise aex
                self._default_credentials = get_default_credentials(
                    DEFAULT_CREDENTIALS["TAPO"]
                )
                await asyncio.sleep(self.BACKOFF_SECONDS_AFTER_LOGIN_ERROR)
"""))

bug("c39-connection-left-open", "C39", "a command that fails",
    "the connection to the device is not closed when the command fails", """
from unittest.mock import patch
from click.testing import CliRunner
import asyncio
from asyncclick.testing import CliRunner
from kasa.iot import IotPlug
from kasa.cli.main import cli
closed = []
async def disconnect(self):
    closed.append(1)
async def update(self, *a, **k):
    pass
async def turn_on(self, **k):
    raise RuntimeError("no")
async def main():
    with patch.object(IotPlug, "disconnect", disconnect), patch.object(IotPlug, "update", update), patch.object(IotPlug, "turn_on", turn_on):
        r = await CliRunner().invoke(cli, ["--host", "127.0.0.1", "--type", "plug", "device", "on"])
    assert r.exit_code == 1, r.output
asyncio.run(main())
assert closed == [1], closed
""".replace("from click.testing import CliRunner\n", ""), ("kasa/cli/main.py", """            yield device
        finally:
            await device.disconnect()
""", """            yield device
        except Exception:
            raise
        else:
            await device.disconnect()
"""))

bug("c20-no-rounding-to-whole", "C20", "a feature with a precision of no decimal places and a fractional value",
    "its value is shown unrounded", """
from types import SimpleNamespace
from kasa.feature import Feature
d = SimpleNamespace(v=2.75, host="h")
f = Feature(device=d, id="x", name="X", type=Feature.Type.Sensor, attribute_getter="v", precision_hint=0, unit_getter=lambda: "W")
assert repr(f) == "X (x): 3.0 W", repr(f)
""", ("kasa/feature.py", "        if self.precision_hint is not None and isinstance(value, float):", "        if self.precision_hint and isinstance(value, float):"))

