From eb56fe8758e9b841c400844b367a08e3c5207052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 01/45] fix: answer every method and page lists when request
 batching is off

---
 kasa/protocols/smartprotocol.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..1b41e86 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -221,14 +221,18 @@ class SmartProtocol(BaseProtocol):
         step = self._multi_request_batch_size
         if step == 1:
             # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
+            for method, params in requests.items():
+                req = self.get_smart_request(method, params)
                 resp = await self._transport.send(req)
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp["result"]
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
             return multi_result
 
         for batch_num, i in enumerate(range(0, end, step)):
-- 
2.43.0


From f0bd426e6766e3e15310e7f34d5386dfe6308663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 02/45] fix: do not send an empty batch of requests

---
 kasa/protocols/smartprotocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 1b41e86..80e6f9a 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -235,7 +235,8 @@ class SmartProtocol(BaseProtocol):
                 multi_result[method] = result
             return multi_result
 
-        for batch_num, i in enumerate(range(0, end, step)):
+        # Requests that are only sent singly must not leave an empty batch behind
+        for batch_num, i in enumerate(range(0, len(multi_requests), step)):
             requests_step = multi_requests[i : i + step]
 
             smart_params = {"requests": requests_step}
-- 
2.43.0


From 4ed5d46ff659c62e32ff9269ec444e210907e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 03/45] fix: page the lists of methods that are queried
 individually

---
 kasa/protocols/smartprotocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 80e6f9a..8c46cf5 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -317,7 +317,12 @@ class SmartProtocol(BaseProtocol):
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp.get("result")
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
         return multi_result
 
     async def _execute_query(
-- 
2.43.0


From ff43fa87b822851362193d6259c7f67f33883162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:50 +0000
Subject: [PATCH 04/45] fix: wrap the KLAP sequence number at the signed 32 bit
 limit

Packing the sequence number raised struct.error once it passed 2**31-1, and
every later request on the session failed the same way.
---
 kasa/transports/klaptransport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/klaptransport.py b/kasa/transports/klaptransport.py
index 8253e0a..dd95792 100644
--- a/kasa/transports/klaptransport.py
+++ b/kasa/transports/klaptransport.py
@@ -530,7 +530,8 @@ class KlapEncryptionSession:
 
     def encrypt(self, msg: bytes | str) -> tuple[bytes, int]:
         """Encrypt the data and increment the sequence number."""
-        self._seq += 1
+        # The sequence number is a signed 32 bit counter
+        self._seq = self._seq + 1 if self._seq < 0x7FFFFFFF else -0x80000000
         self._generate_cipher()
 
         if isinstance(msg, str):
-- 
2.43.0


From 3c64369de704bb95bb6b16f7a69d3183e9f8da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:50 +0000
Subject: [PATCH 05/45] fix: report HTTP client timeouts as TimeoutError

The builtin TimeoutError raised when aiohttp's total timeout expires was
shadowed by the library's own TimeoutError, so it surfaced as a plain
KasaException and was not retried.
---
 kasa/httpclient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..5b9d924 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,8 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        # The builtin error, which TimeoutError from .exceptions shadows here
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:  # noqa: UP041
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From 2a1e0001cada22f9eacc57980a940f9726b4cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 06/45] fix: encrypt camera requests again after a plain
 session was replaced by a secure one

---
 kasa/transports/sslaestransport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index eeb2980..491a5c2 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -473,6 +473,7 @@ class SslAesTransport(BaseTransport):
         lsk = self.generate_encryption_token("lsk", local_nonce, server_nonce, pwd_hash)
         ivb = self.generate_encryption_token("ivb", local_nonce, server_nonce, pwd_hash)
         self._encryption_session = AesEncyptionSession(lsk, ivb)
+        self._send_secure = True
         self._state = TransportState.ESTABLISHED
         _LOGGER.debug("Handshake2 complete ...")
 
-- 
2.43.0


From af5b209212c5e4b0894dc95735d7895fb682144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 07/45] fix: report unknown error codes of clear-text HTTPS
 devices as device errors

---
 kasa/transports/ssltransport.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..8c1c9b7 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -117,7 +117,14 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
         if error_code == SmartErrorCode.SUCCESS:
             return
 
-- 
2.43.0


From e3c0dc6ab67f44c811d9b691306647358f8ec6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 08/45] fix: report legacy cameras as unsupported instead of
 raising KeyError

---
 kasa/device_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..44bd5ed 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,13 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (cls := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(
+            f"Unsupported device of type {device_type.value}",
+            discovery_result=sysinfo,
+        )
+    return cls
 
 
 def get_device_class_from_family(
-- 
2.43.0


From 12b4411c640f91ce2347f95c82c211c832b0a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 09/45] fix: treat malformed discovery responses as invalid
 devices

---
 kasa/discover.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..771edde 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -387,6 +387,13 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             self.invalid_device_exceptions[ip] = ex
             self._handle_discovered_event()
             return
+        except Exception as ex:
+            _LOGGER.debug("[DISCOVERY] Malformed response from %s: %s", ip, ex)
+            kex = KasaException(f"Unable to read response from device: {ip}: {ex}")
+            kex.__cause__ = ex
+            self.invalid_device_exceptions[ip] = kex
+            self._handle_discovered_event()
+            return
 
         self.discovered_devices[ip] = device
 
-- 
2.43.0


From 0019710033f872bc519389ff4809a646f76933a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 10/45] fix: keep the update results of strip sockets apart

The results of modules a strip socket shares with its parent were merged
into the parent's dictionary, so all sockets showed the usage, schedule and
countdown of the last one.
---
 kasa/iot/iotdevice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..fea6593 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -425,12 +425,13 @@ class IotDevice(Device):
             for k, v in response.items():
                 # The same module could have results in different responses
                 # i.e. smartlife.iot.common.schedule for Usage and
-                # Schedule, so need to call update(**v) here. If a module is
+                # Schedule, so need to merge v here. If a module is
                 # not supported the response
                 # {'err_code': -1, 'err_msg': 'module not support'}
                 # become top level key/values of the response so check for dict
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    # The previous results may be shared with the parent and siblings
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From d0f74a50d8ff1a6ef58f08e33e98da51af5fe9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 11/45] fix: redact sensitive data of singly sent requests in
 the logs

Only the responses of batched requests were redacted.
---
 kasa/protocols/smartcamprotocol.py | 10 ++++++++--
 kasa/protocols/smartprotocol.py    | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..fecf084 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -19,7 +19,8 @@ from ..transports.sslaestransport import (
     SMART_RETRYABLE_ERRORS,
     SmartErrorCode,
 )
-from .smartprotocol import SmartProtocol
+from .protocol import redact_data
+from .smartprotocol import REDACTORS, SmartProtocol
 
 _LOGGER = logging.getLogger(__name__)
 
@@ -166,10 +167,15 @@ class SmartCamProtocol(SmartProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            data = (
+                redact_data(response_data, REDACTORS)
+                if self._redact_data
+                else response_data
+            )
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         if "error_code" in response_data:
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 8c46cf5..a3ba9a5 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -291,7 +291,9 @@ class SmartProtocol(BaseProtocol):
                         _LOGGER.error(
                             "No method key in response for %s, skipping: %s",
                             self._host,
-                            response_step,
+                            redact_data(response_step, REDACTORS)
+                            if self._redact_data
+                            else response_step,
                         )
                     # These will end up being queried individually
                     continue
@@ -352,10 +354,15 @@ class SmartProtocol(BaseProtocol):
         response_data = await self._transport.send(smart_request)
 
         if debug_enabled:
+            data = (
+                redact_data(response_data, REDACTORS)
+                if self._redact_data
+                else response_data
+            )
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(data),
             )
 
         self._handle_response_error_code(response_data, smart_method)
-- 
2.43.0


From 801fb1cf2ac978cbdfb6031edeb91ec45e867348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 12/45] fix: reject NaN for number features

NaN compares false with both limits, so it passed the range check and was
sent to the device.
---
 kasa/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/feature.py b/kasa/feature.py
index 0c4c6e2..423fdd6 100644
--- a/kasa/feature.py
+++ b/kasa/feature.py
@@ -248,7 +248,7 @@ class Feature:
         if self.type == Feature.Type.Number:  # noqa: SIM102
             if not isinstance(value, int | float):
                 raise ValueError("value must be a number")
-            if value < self.minimum_value or value > self.maximum_value:
+            if not self.minimum_value <= value <= self.maximum_value:
                 raise ValueError(
                     f"Value {value} out of range "
                     f"[{self.minimum_value}, {self.maximum_value}]"
-- 
2.43.0


From d41c5f76bbfc677ef750fbb5ccfeb28c1fd53276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 13/45] fix: send the alarm volume in the device's form when
 given as a number

---
 kasa/smart/modules/alarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..77f0a45 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,9 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
+        target_volume = self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = target_volume
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From 1cbed1c94536a803896261588fabba45d87603f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 14/45] fix: do not send light_on to SMART lights when
 brightness is zero

---
 kasa/smart/modules/light.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/light.py b/kasa/smart/modules/light.py
index d548811..7f658a3 100644
--- a/kasa/smart/modules/light.py
+++ b/kasa/smart/modules/light.py
@@ -117,13 +117,14 @@ class Light(SmartModule, LightInterface):
     async def set_state(self, state: LightState) -> dict:
         """Set the light state."""
         state_dict = asdict(state)
+        # The devices know device_on, not light_on
+        del state_dict["light_on"]
         # brightness of 0 turns off the light, it's not a valid brightness
         if state.brightness == 0:
             state_dict["device_on"] = False
             del state_dict["brightness"]
         elif state.light_on is not None:
             state_dict["device_on"] = state.light_on
-            del state_dict["light_on"]
         else:
             state_dict["device_on"] = True
 
-- 
2.43.0


From 9abe61ebba40f7acecc6fe1b5d30279331cd39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 15/45] fix: repeat the initialization of a SMART device whose
 first update failed

---
 kasa/smart/smartdevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..89f5045 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -265,7 +265,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -274,6 +273,8 @@ class SmartDevice(Device):
             if cloud_mod := self.modules.get(Module.Cloud):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
+        # Set only after the initialization so that it is repeated if it failed
+        self._last_update_time = now
         resp = await self._modular_update(first_update, now)
 
         children_changed = await self._update_children_info()
-- 
2.43.0


From 789d5ba86d7141a618551920861ab775178d997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 16/45] fix: keep the data of child modules that are not due in
 an update

---
 kasa/smart/smartchilddevice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..82db79d 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -101,7 +101,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Modules that were not due keep their data
+            self._last_update.update(resp)
 
         for module in self.modules.values():
             await self._handle_module_post_update(
-- 
2.43.0


From 318c44aa9950eb5a5ee35c7f4722cc648b9e3999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 17/45] fix: a child that does not answer does not break the
 update of its camera hub

---
 kasa/smartcam/smartcamdevice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..9292526 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -105,6 +105,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
+        initial_response = None
         try:
             initial_response = await child_protocol.query(
                 {"get_connect_cloud_state": None}
-- 
2.43.0


From 0734453b87bacf084ae1a1ddfb07471819ad8d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 18/45] fix: save a light preset to its own place when effects
 precede it

The devices count the effects stored among the presets, so leaving them
out of the index overwrote another preset or an effect.
---
 kasa/iot/modules/lightpreset.py   | 3 ++-
 kasa/smart/modules/lightpreset.py | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..55db46d 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -134,7 +134,8 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
+        # The list of the device may have effects before the preset
+        index = self._presets[preset_name].index
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..f38a05b 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -28,6 +28,7 @@ class LightPreset(SmartModule, LightPresetInterface):
 
     _presets: dict[str, LightState]
     _preset_list: list[str]
+    _state_indices: dict[str, int]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
         super().__init__(device, module)
@@ -38,10 +39,11 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        self._state_indices = {}
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for state_index, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -53,6 +55,8 @@ class LightPreset(SmartModule, LightPresetInterface):
                 color_temp = preset_state.get("color_temp")
                 hue = preset_state.get("hue")
                 saturation = preset_state.get("saturation")
+                # The list of the device may have effects before the preset
+                self._state_indices[f"Light preset {index + 1}"] = state_index
                 self._presets[f"Light preset {index + 1}"] = LightState(
                     brightness=preset_state["brightness"],
                     color_temp=color_temp,
@@ -139,14 +143,15 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the preset with preset_name with the new preset_info."""
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
-        index = list(self._presets.keys()).index(preset_name)
         if self._brightness_only:
+            index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
             return await self.call("set_preset_rules", {"brightness": bright_list})
         else:
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
+            index = self._state_indices[preset_name]
             return await self.call(
                 "edit_preset_rules", {"index": index, "state": new_info}
             )
-- 
2.43.0


From 2ff9f3961c68465522cf36a293a624bd86db5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 19/45] fix: send the values of dimmer button actions and fade
 types

The names of the enum members were sent, like set_ActionType.LongPress.
---
 kasa/iot/iotdimmer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iotdimmer.py b/kasa/iot/iotdimmer.py
index 6b22d64..8b0ccfc 100644
--- a/kasa/iot/iotdimmer.py
+++ b/kasa/iot/iotdimmer.py
@@ -204,9 +204,9 @@ class IotDimmer(IotPlug):
          (nothing, instant, gentle, change preset)
         :param index int: in case of preset change, the preset to select
         """
-        action_type_setter = f"set_{action_type}"
+        action_type_setter = f"set_{action_type.value}"
 
-        payload: dict[str, Any] = {"mode": str(action)}
+        payload: dict[str, Any] = {"mode": action.value}
         if index is not None:
             payload["index"] = index
 
@@ -217,7 +217,7 @@ class IotDimmer(IotPlug):
     @requires_update
     async def set_fade_time(self, fade_type: FadeType, time: int) -> dict:
         """Set time for fade in / fade out."""
-        fade_type_setter = f"set_{fade_type}_time"
+        fade_type_setter = f"set_{fade_type.value}_time"
         payload = {"fadeTime": time}
 
         return await self._query_helper(self.DIMMER_SERVICE, fade_type_setter, payload)
-- 
2.43.0


From 6ee7341e0756587b481ae0a7d09e55b52f03f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 20/45] fix: accept raw light effect names that happen to be
 valid base64

---
 kasa/smart/modules/lighteffect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..5eb6565 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -40,7 +40,7 @@ class LightEffect(SmartModule, SmartLightEffect):
                 effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS[effect["id"]]
             else:
                 # Otherwise it might be b64 encoded or raw string
-                with contextlib.suppress(binascii.Error):
+                with contextlib.suppress(binascii.Error, UnicodeDecodeError):
                     effect["scene_name"] = base64.b64decode(
                         effect["scene_name"]
                     ).decode()
-- 
2.43.0


From dc421362acf81e376f1732e9f5687f9c019735a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 21/45] fix: keep the consumables of several vacuums apart

---
 kasa/smart/modules/consumables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..0485ff1 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -6,10 +6,14 @@ import logging
 from collections.abc import Mapping
 from dataclasses import dataclass
 from datetime import timedelta
+from typing import TYPE_CHECKING
 
 from ...feature import Feature
 from ..smartmodule import SmartModule
 
+if TYPE_CHECKING:
+    from ..smartdevice import SmartDevice
+
 _LOGGER = logging.getLogger(__name__)
 
 
@@ -86,7 +90,9 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    def __init__(self, device: SmartDevice, module: str) -> None:
+        super().__init__(device, module)
+        self._consumables: dict[str, Consumable] = {}
 
     def _initialize_features(self) -> None:
         """Initialize features."""
-- 
2.43.0


From 139c431dbc7a58858f5bc1f9f97b0f304c0278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:40 +0000
Subject: [PATCH 22/45] fix: follow the reported on time when the device clock
 is set back

---
 kasa/iot/iotdevice.py     | 4 +---
 kasa/iot/iotstrip.py      | 4 +---
 kasa/smart/smartdevice.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index fea6593..8cfffc7 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -643,9 +643,7 @@ class IotDevice(Device):
         on_time = self._sys_info["on_time"]
 
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..251b13c 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -467,9 +467,7 @@ class IotStripPlug(IotPlug):
         time = self._parent.time
 
         on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 89f5045..365b65c 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -629,9 +629,7 @@ class SmartDevice(Device):
 
         on_time = cast(float, on_time)
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
-- 
2.43.0


From dbc019ef77065ca3ca76764e0954665d6a0220fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:40 +0000
Subject: [PATCH 23/45] fix: raise ValueError for fixed offsets a legacy device
 has no time zone for

---
 kasa/iot/iottimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index 6553834..b1164ef 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -35,7 +35,7 @@ async def get_timezone_index(tzone: tzinfo) -> int:
     for i in range(110):
         if _is_same_timezone(tzone, await get_timezone(i)):
             return i
-    raise ValueError("Device does not support timezone %s", name)
+    raise ValueError(f"Device does not support timezone {tzone}")
 
 
 async def get_matching_timezones(tzone: tzinfo) -> list[str]:
-- 
2.43.0


From d2ceec6709d9bf39a612678781d8202ec0858114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 24/45] fix: report an idle thermostat with a low battery as
 idle

---
 kasa/smart/modules/temperaturecontrol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/temperaturecontrol.py b/kasa/smart/modules/temperaturecontrol.py
index 5b08046..616c2d8 100644
--- a/kasa/smart/modules/temperaturecontrol.py
+++ b/kasa/smart/modules/temperaturecontrol.py
@@ -93,12 +93,13 @@ class TemperatureControl(SmartModule):
 
         states = self.states
 
+        # Discard known extra states, and report on unknown extra states
+        states.discard("low_battery")
+
         # If the states is empty, the device is idling
         if not states:
             return ThermostatState.Idle
 
-        # Discard known extra states, and report on unknown extra states
-        states.discard("low_battery")
         if len(states) > 1:
             _LOGGER.warning("Got multiple states: %s", states)
 
-- 
2.43.0


From b88660e891e85baa51e96ccfaa7477e30978dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 25/45] fix: keep the reported vacuum errors in the update data

---
 kasa/smart/modules/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index 376e0d3..d6ba45c 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -240,7 +240,7 @@ class Clean(SmartModule):
                 "Multiple error codes, using the first one only: %s", errors
             )
 
-        error = errors.pop(0)
+        error = errors[0]
         try:
             self._error_code = ErrorCode(error)
         except ValueError:
-- 
2.43.0


From 137523f8709610403fb6a1dc634f279f4ea01a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 26/45] fix: process vacuum cleaning records without changing
 the update data

---
 kasa/smart/modules/cleanrecords.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..d4932b9 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -87,11 +87,15 @@ class Records(DataClassDictMixin):
     @classmethod
     def __pre_deserialize__(cls, d: dict) -> dict:
         if ldr := d.get("lastest_day_record"):
-            d["lastest_day_record"] = {
-                "timestamp": ldr[0],
-                "clean_time": ldr[1],
-                "clean_area": ldr[2],
-                "dust_collection": ldr[3],
+            # Keep the data of the update as it is
+            return {
+                **d,
+                "lastest_day_record": {
+                    "timestamp": ldr[0],
+                    "clean_time": ldr[1],
+                    "clean_area": ldr[2],
+                    "dust_collection": ldr[3],
+                },
             }
         return d
 
-- 
2.43.0


From 688809813819cd482e8c5dd26500d78a6bd78c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:27 +0000
Subject: [PATCH 27/45] fix: report the charging state of camera batteries

---
 kasa/smartcam/modules/battery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index d6bd97f..083cfdc 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -110,4 +110,4 @@ class Battery(SmartCamModule):
     @property
     def battery_charging(self) -> bool:
         """Return True if battery is charging."""
-        return self._device.sys_info["battery_voltage"] != "NO"
+        return self._device.sys_info["battery_charging"] != "NO"
-- 
2.43.0


From db05b0810310b2e2cb81c6aa02913c7b068731fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:57 +0000
Subject: [PATCH 28/45] fix: look up the feature of an attribute anew, a lookup
 before the first update was cached for good

---
 kasa/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/module.py b/kasa/module.py
index afd1e12..7781b60 100644
--- a/kasa/module.py
+++ b/kasa/module.py
@@ -246,6 +246,7 @@ class Module(ABC):
         )
 
 
+@cache
 def _get_feature_attribute(attribute: property | Callable) -> FeatureAttribute | None:
     """Check if an attribute is bound to a feature with FeatureAttribute."""
     if isinstance(attribute, property):
@@ -262,7 +263,6 @@ def _get_feature_attribute(attribute: property | Callable) -> FeatureAttribute |
     return None
 
 
-@cache
 def _get_bound_feature(
     module: Module, attribute: str | property | Callable
 ) -> Feature | None:
-- 
2.43.0


From 7f999ff62fc7a8db67df766b2eb7697140da0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:20 +0000
Subject: [PATCH 29/45] fix: a datagram from another port does not hide its
 host's answer to discovery

---
 kasa/discover.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 771edde..a1b8319 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -348,6 +348,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
+        # Only answers to the discovery queries count
+        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
+            return
         self.seen_hosts.add(ip)
 
         device: Device | None = None
@@ -361,11 +364,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             if port == self.discovery_port:
                 json_func = Discover._get_discovery_json_legacy
                 device_func = Discover._get_device_instance_legacy
-            elif port == Discover.DISCOVERY_PORT_2:
+            else:
                 json_func = Discover._get_discovery_json
                 device_func = Discover._get_device_instance
-            else:
-                return
             info = json_func(data, ip)
             if self.on_discovered_raw is not None:
                 self.on_discovered_raw(
-- 
2.43.0


From a141b56b5064d2914cc7c5d1dfcc06a0a269808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:20 +0000
Subject: [PATCH 30/45] fix: do not process the data of unsupported modules of
 legacy devices

---
 kasa/iot/iotdevice.py | 4 +++-
 kasa/iot/iotstrip.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 8cfffc7..231575d 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -323,7 +323,9 @@ class IotDevice(Device):
 
         self._set_sys_info(_extract_sys_info(self._last_update))
         for module in self._modules.values():
-            await module._post_update_hook()
+            # There is no data to process for unsupported modules
+            if module.is_supported:
+                await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 251b13c..d2362a8 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -384,7 +384,9 @@ class IotStripPlug(IotPlug):
         """
         await self._modular_update({})
         for module in self._modules.values():
-            await module._post_update_hook()
+            # There is no data to process for unsupported modules
+            if module.is_supported:
+                await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
-- 
2.43.0


From f02b73f526b6509e861b09fc70a34307c21f60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 31/45] fix: send the turn-on behavior of bulbs under the names
 the device has

---
 kasa/iot/iotbulb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..3a5b5b6 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -74,6 +74,11 @@ class TurnOnBehavior(DataClassDictMixin):
 class TurnOnBehaviors(DataClassDictMixin):
     """Model to contain turn on behaviors."""
 
+    class Config(BaseConfig):
+        """Serialization config."""
+
+        serialize_by_alias = True
+
     #: The behavior when the bulb is turned on programmatically.
     soft: Annotated[TurnOnBehavior, Alias("soft_on")]
     #: The behavior when the bulb has been off from mains power.
-- 
2.43.0


From ade0dab275d1e5a1ca84acb16c5137ea5c3d81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 32/45] fix: former save_preset accepts every index of the
 device's list

---
 kasa/iot/modules/lightpreset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 55db46d..da57ef2 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -164,7 +164,8 @@ class LightPreset(IotModule, LightPresetInterface):
         if len(self._presets) == 0:
             raise KasaException("Device does not supported saving presets")
 
-        if preset.index >= len(self._presets):
+        # The list of the device may have effects between the presets
+        if preset.index >= len(self.data["preferred_state"]):
             raise KasaException("Invalid preset index")
 
         return await self.call("set_preferred_state", preset.to_dict())
-- 
2.43.0


From 1cdfffd914b20ebe446f714c3b0d5e4f9b6a44ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 33/45] fix: read the night mode settings of the LED where
 devices report them

---
 kasa/smart/modules/led.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/led.py b/kasa/smart/modules/led.py
index 1733c3c..3c478c2 100644
--- a/kasa/smart/modules/led.py
+++ b/kasa/smart/modules/led.py
@@ -43,10 +43,12 @@ class Led(SmartModule, LedInterface):
     @property
     def night_mode_settings(self) -> dict:
         """Night mode settings."""
+        # Not all devices have a night mode, and not all night modes have offsets
+        night_mode = self.data.get("night_mode", {})
         return {
-            "start": self.data["start_time"],
-            "end": self.data["end_time"],
-            "type": self.data["night_mode_type"],
-            "sunrise_offset": self.data["sunrise_offset"],
-            "sunset_offset": self.data["sunset_offset"],
+            "start": night_mode.get("start_time"),
+            "end": night_mode.get("end_time"),
+            "type": night_mode.get("night_mode_type"),
+            "sunrise_offset": night_mode.get("sunrise_offset"),
+            "sunset_offset": night_mode.get("sunset_offset"),
         }
-- 
2.43.0


From 886c8175c2d028999ed34e8569ecb37523ce9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 34/45] fix: brightness of an effect activated since the
 effects were last read

---
 kasa/smart/modules/lighteffect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 5eb6565..e1df9f6 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -119,6 +119,9 @@ class LightEffect(SmartModule, SmartLightEffect):
 
         If *effect_id* is None, return the data for active effect.
         """
+        if effect_id is None:
+            # The rules are updated rarely, the device info has the active effect
+            effect_id = self._device._info.get("dynamic_light_effect_id")
         if effect_id is None:
             effect_id = self.data["current_rule_id"]
 
-- 
2.43.0


From 12ae047aaf9d49db1b5875e9c72fe811d6b40640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:54 +0000
Subject: [PATCH 35/45] fix: time and timezone of sockets of legacy strips

---
 kasa/iot/iotstrip.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index d2362a8..6c4b4be 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -448,6 +448,18 @@ class IotStripPlug(IotPlug):
         info = self._get_child_info()
         return info["alias"]
 
+    @property
+    @requires_update
+    def time(self) -> datetime:
+        """Return current time of the strip."""
+        return self._parent.time
+
+    @property
+    @requires_update
+    def timezone(self) -> tzinfo:
+        """Return the current timezone of the strip."""
+        return self._parent.timezone
+
     @property  # type: ignore
     @requires_update
     def next_action(self) -> dict:
-- 
2.43.0


From ecdb11dbcdeb6003335e3c8ae0b6f21b1c98197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 36/45] fix: changing a bulb's turn-on preset sets the mode as
 documented

---
 kasa/iot/iotbulb.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index 3a5b5b6..929c294 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -6,7 +6,7 @@ import logging
 import re
 from dataclasses import dataclass
 from enum import Enum
-from typing import Annotated, cast
+from typing import Annotated, Any, cast
 
 from mashumaro import DataClassDictMixin
 from mashumaro.config import BaseConfig
@@ -69,6 +69,13 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        """Set the attribute, changing the preset sets the mode, too."""
+        changed = name == "preset" and name in self.__dict__
+        super().__setattr__(name, value)
+        if changed:
+            self.mode = BehaviorMode.Last if value is None else BehaviorMode.Preset
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
-- 
2.43.0


From 91cbf7fa3d95324834cc11c44aa9e5875121cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 37/45] fix: cli schedule list no longer fails after listing
 the rules

---
 kasa/cli/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..2c9923c 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -26,7 +26,7 @@ async def _schedule_list(dev, type):
     sched = dev.modules[type]
     for rule in sched.rules:
         print(rule)
-    else:
+    if not sched.rules:
         error(f"No rules of type {type}")
 
     return sched.rules
-- 
2.43.0


From f42afaf814270ab7fce363071bb3b4dad55ae5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 38/45] fix: cli presets modify refuses negative indexes

---
 kasa/cli/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..2acb117 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -159,7 +159,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         return
 
     max_index = len(light_preset.preset_states_list) - 1
-    if index > len(light_preset.preset_states_list) - 1:
+    if not 0 <= index <= max_index:
         error(f"Invalid index, must be between 0 and {max_index}")
         return
 
-- 
2.43.0


From 409fb094ce31ec83e00aa10709d5a9d64f54ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 39/45] fix: cli search by alias tries as often as asked and
 ends when discovery fails

---
 kasa/cli/discover.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..a140b2c 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -369,17 +369,22 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    task = asyncio.create_task(do_discover())
     await found_event.wait()
-    return found_device[0] if found_device else None
+    if not found_device:
+        await task
+        return None
+    return found_device[0]
-- 
2.43.0


From 910c48480b5b487556177b72f6806ff67cdb4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:57 +0000
Subject: [PATCH 40/45] fix: cli turn-on-behavior, schedule list and schedule
 delete get their device

---
 kasa/cli/light.py    | 2 +-
 kasa/cli/schedule.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index 2acb117..aa6ac58 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -188,10 +188,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 2c9923c..dfd6b6c 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,8 +19,8 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
@@ -33,8 +33,8 @@ async def _schedule_list(dev, type):
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From 1789df0b1e4081b30c3737b74fe3fd932f06eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:57 +0000
Subject: [PATCH 41/45] fix: cli presets modify sets the color temperature

---
 kasa/cli/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index aa6ac58..232284c 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -179,7 +179,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         preset.hue = hue
     if saturation is not None and preset.saturation is not None:
         preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
+    if temperature is not None and preset.color_temp is not None:
         preset.color_temp = temperature
 
     echo(f"Updating preset {preset_name} to: {preset}")
-- 
2.43.0


From e5f76110afdd8a81ca7244aa42c7b1d1c078143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 42/45] fix: cli time does not ask about time zones the device
 supports exactly

---
 kasa/cli/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index e2cb4c1..bb42c2f 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -145,6 +145,8 @@ async def _get_timezone(dev, timezone, skip_confirm) -> zoneinfo.ZoneInfo:
         if not matches:
             error(f"Device cannot support {timezone} timezone.")
         first = matches[0]
+        if first == timezone:
+            return tzinfo
         msg = (
             f"An exact match for {timezone} could not be found, "
             + f"timezone will be set to {first}"
-- 
2.43.0


From ccf5269dcf70b64e4bd1c23a5d1fecd62c668114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:16 +0000
Subject: [PATCH 43/45] fix: give the time of a water leak alert for sensors of
 a hub

Sensors attached to a hub have no time module, so that reading the
timestamp of the last alert raised a KeyError.
---
 kasa/smart/modules/waterleaksensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..881c9fb 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -84,5 +84,7 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        # Sensors attached to a hub have no time module of their own
+        time_mod = self._device.modules.get(Module.Time)
+        tz = time_mod.timezone if time_mod else self._device.timezone
         return datetime.fromtimestamp(ts, tz=tz)
-- 
2.43.0


From ce3aa35bf88d696719ccd5eb6d071b040e0f61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:48 +0000
Subject: [PATCH 44/45] fix: unsupported devices found by discovery are logged
 with their data unredacted

---
 kasa/discover.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index a1b8319..93a52f9 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -906,8 +906,13 @@ class Discover:
             device_class := get_device_class_from_family(type_, https=conn_params.https)
         ) is None:
             _LOGGER.debug("Got unsupported device type: %s", type_)
+            data = (
+                redact_data(info, NEW_DISCOVERY_REDACTORS)
+                if Discover._redact_data
+                else info
+            )
             raise UnsupportedDeviceError(
-                f"Unsupported device {config.host} of type {type_}: {info}",
+                f"Unsupported device {config.host} of type {type_}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
@@ -916,9 +921,14 @@ class Discover:
             _LOGGER.debug(
                 "Got unsupported connection type: %s", config.connection_type.to_dict()
             )
+            data = (
+                redact_data(info, NEW_DISCOVERY_REDACTORS)
+                if Discover._redact_data
+                else info
+            )
             raise UnsupportedDeviceError(
                 f"Unsupported encryption scheme {config.host} of "
-                + f"type {config.connection_type.to_dict()}: {info}",
+                + f"type {config.connection_type.to_dict()}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
-- 
2.43.0


From a982e2c151656b3b3bb18dd87c0bf5c908286def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:21 +0000
Subject: [PATCH 45/45] fix: responses of robot vacuums are logged unredacted
 by their transport

---
 kasa/transports/ssltransport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 8c1c9b7..19f3c57 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -157,7 +157,8 @@ class SslTransport(BaseTransport):
                 + f"status code {status_code}"
             )
 
-        _LOGGER.debug("Response with %s: %r", status_code, resp_dict)
+        # The protocol logs the response with its sensitive data redacted
+        _LOGGER.debug("Device %s responded with status %s", self._host, status_code)
 
         await self._handle_response_error_code(resp_dict, "Error sending request")
 
-- 
2.43.0

