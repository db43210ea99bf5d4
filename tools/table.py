P = [
 dict(id="C01", title="A query is retried exactly as its failures demand",
  statement="A query makes at least one and at most retry_count + 1 transport attempts and returns the first successful response; connection failures, retryable errors and timeouts are retried, while authentication errors and every other library or foreign error end the query at once with that very error. Before the next attempt, and before an error reaches the caller, the transport session is reset once for every failed attempt that ended in a library error other than a connection failure. A back-off pause separates attempts after a timeout (and, for SMART protocols, after a retryable error), and there is none after the last attempt.",
  over=["inputs", "fault_sequences"], quant="every retry count and every sequence of transport outcomes",
  why="The tests inject one error class with fixed retry counts; they cannot cover arbitrary mixed sequences of outcomes for arbitrary retry counts.",
  files=["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py"],
  mech=[("retry loop of the legacy protocol", "kasa/protocols/iotprotocol.py IotProtocol._query"), ("retry loop of the SMART protocol", "kasa/protocols/smartprotocol.py SmartProtocol._query")]),
 dict(id="C02", title="Device error codes become the documented outcome, whatever the number",
  statement="For a SMART or camera request, error code 0 is the only success; the retryable codes raise the retryable error, the authentication codes raise AuthenticationError, and any other or missing code raises a plain DeviceError, each carrying and showing its code, or the unknown-error code for numbers the library does not know. In a multi-method request a per-method error does not fail the query: that method's entry is its error code and the other methods keep their own results. A batch-level JSON decode or unknown error is retried without batching.",
  over=["inputs"], quant="every integer error code, or none, at batch and at method level, for single and multi requests",
  why="The tests parametrise over the codes in the enum for one request shape; unknown integers, missing codes and combinations of method outcomes are unbounded.",
  files=["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/exceptions.py"],
  mech=[("error classification", "kasa/protocols/smartprotocol.py SmartProtocol._handle_response_error_code"), ("camera error classification", "kasa/protocols/smartcamprotocol.py SmartCamProtocol._handle_response_error_code"), ("code tables", "kasa/exceptions.py")]),
 dict(id="C03", title="A multi-method request is answered method for method in any batching",
  statement="A successful multi-method query returns exactly one entry per requested method, holding the device's own answer to that method, whatever the batch size, wherever the device stops answering inside a batch and whichever method keys it leaves out. Each method is sent with its own parameters (on a camera in the form its kind of method takes), batched at most once, by default five at a time and never in an empty or oversized batch, methods that cannot be batched are only sent singly, and a method answered in a batch (even without a result) is not sent again. Once the device fails to decode a batch, all methods are asked for singly from then on.",
  over=["inputs", "configurations", "fault_sequences"], quant="every batch size, every truncation point of every batch, every pattern of missing method keys and per-method errors, for request sets mixing batchable and unbatchable methods",
  why="The tests use uniform responses that always answer the whole batch, so partial answers combined with batch boundaries are never exercised.",
  files=["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  note="Request sets are enumerated (up to four methods, all mixes of batchable and unbatchable ones): bounded in the number of methods, unbounded in everything else.",
  mech=[("batching", "kasa/protocols/smartprotocol.py SmartProtocol._execute_multiple_query"), ("methods that cannot be batched", "kasa/protocols/smartprotocol.py FORCE_SINGLE_REQUEST")]),
 dict(id="C04", title="Paged lists come back whole and in order",
  statement="When a result announces a total and a start index, the returned list contains the device's items from the beginning, contiguous, in order and without repeats, until the announced total is reached or the device delivers an empty page. Each further page is requested exactly from where the list ends and only while items are missing, so paging makes progress and stops. Other fields of the result, other methods of the same query, and results that announce no total are left as they came, whether the method was batched or sent singly.",
  over=["inputs", "histories"], quant="every announced total, every first page and every sequence of page sizes",
  why="The tests use a handful of totals and constant page sizes; the device may choose any page size each time.",
  files=["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  mech=[("list paging", "kasa/protocols/smartprotocol.py SmartProtocol._handle_response_lists"), ("page requests", "kasa/protocols/smartprotocol.py SmartProtocol._get_list_request, kasa/protocols/smartcamprotocol.py SmartCamProtocol._get_list_request")]),
 dict(id="C05", title="A hub or strip child is addressed through its parent and answers for itself",
  statement="Every query for a child device is one parent request addressed to that child, carrying each of the caller's methods with its own parameters and the caller's retry count. The caller gets exactly one entry per answered method with that child's own result; a failed method of a single request raises the documented error, and in a multi-method request appears as its error code. Closing a child never closes the parent's connection.",
  over=["inputs"], quant="every device id, every result and error code per method, every order of the answers, single and multi-method requests",
  why="The tests check a few fixed payloads; arbitrary error codes per method and arbitrary result values are not sampled.",
  files=["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  mech=[("hub children", "kasa/protocols/smartprotocol.py _ChildProtocolWrapper"), ("camera hub children", "kasa/protocols/smartcamprotocol.py _ChildCameraProtocolWrapper")]),
 dict(id="C06", title="The legacy autokey cipher is exact for every message",
  statement="Encrypting a text gives a four byte big-endian length of its UTF-8 form followed by that many bytes, each the exclusive or of the plaintext byte with the previous cipher byte, starting from the key 171. Decrypting such a body gives back the text for every text of every length.",
  over=["inputs"], quant="every text of every length and every byte position",
  why="The tests check samples; the chaining must hold at every position of every message.",
  files=["kasa/transports/xortransport.py"],
  mech=[("encryption", "kasa/transports/xortransport.py XorEncryption.encrypt, _xor_payload"), ("decryption", "kasa/transports/xortransport.py XorEncryption.decrypt, _xor_encrypted_payload")]),
 dict(id="C07", title="The legacy TCP transport frames, times out and recovers",
  statement="A send opens a connection to the configured host and port only when none is open, writes the request as one frame, reads the four byte length and then exactly that many bytes, and returns the decoded answer. Connecting and the exchange are limited by the configured timeout. Every failure becomes its documented error (unreachable or refusing host: connection failure; other network errors: retryable; expiry of the limit: timeout), a cancellation passes through unchanged, and after any failure no connection is left open and the next send starts afresh; closing always succeeds, whatever the stream does, and closes the connection.",
  over=["inputs", "fault_sequences", "crash_points"], quant="every failure at every awaited step, every announced length, every sequence of sends",
  why="A mocked stream in the tests fails at one chosen call; failures at each await and the state they leave behind are not enumerated.",
  files=["kasa/transports/xortransport.py"],
  mech=[("connecting", "kasa/transports/xortransport.py XorTransport._connect"), ("exchange", "kasa/transports/xortransport.py XorTransport._execute_send, send"), ("closing", "kasa/transports/xortransport.py XorTransport.close, close_without_wait")]),
 dict(id="C08", title="KLAP messages are chained, signed and readable for every sequence number",
  statement="From any handshake seeds and credential hash both sides derive the same session. Each message uses the next sequence number as a signed 32-bit counter (wrapping at its limit), its frame is the SHA-256 signature over signature key, sequence number and ciphertext followed by the ciphertext, and the answer to that message is readable with the same sequence number. No message fails because of the value the counter has reached.",
  over=["inputs", "histories"], quant="every pair of seeds, every credential hash, every counter value and every message",
  why="The counter starts anywhere in the 32-bit range; the tests never reach its limits.",
  files=["kasa/transports/klaptransport.py"],
  mech=[("session keys", "kasa/transports/klaptransport.py KlapEncryptionSession._key_derive, _iv_derive, _sig_derive"), ("messages", "kasa/transports/klaptransport.py KlapEncryptionSession.encrypt, decrypt")]),
 dict(id="C09", title="A KLAP session exists only after mutual proof of the credentials",
  statement="Before any request the transport completes a two step handshake with a fresh 16 byte challenge: it accepts the device only if its proof matches the configured, the factory default or the blank credentials, tried in that order, and then proves the same credentials back. A proof that matches nothing is an authentication error; a refused or malformed step is another library error; nothing is sent after a failed step. A live session is reused, and a handshake is repeated exactly after the session expired, was reset, or the device rejected a request; a rejected request (security error) is retryable, other statuses are library errors.",
  over=["inputs", "histories", "fault_sequences"], quant="every credential, seed, device proof, cookie life time, elapsed time and failing step",
  why="The tests use fixed credentials and a fixed clock; orders of failures, expiry and reset across several sends are not explored.",
  files=["kasa/transports/klaptransport.py"],
  mech=[("handshake", "kasa/transports/klaptransport.py KlapTransport.perform_handshake1, perform_handshake2, perform_handshake"), ("session use", "kasa/transports/klaptransport.py KlapTransport.send, _handshake_session_expired, reset"), ("hash variants", "kasa/transports/klaptransport.py KlapTransport, KlapTransportV2 static methods")]),
 dict(id="C10", title="An AES session is established, logged in and renewed before any request",
  statement="A request is sent only inside a session set up by a handshake and a login, to the token URL of that login, with the handshake's session cookie, and reaches the device unchanged; the device's answer comes back unchanged. The login carries the configured credentials (SHA-1 user name; plain or SHA-1 password by login version) or the stored hash; only when the device rejects them as a login error are the factory credentials tried, once, after a new handshake. Handshake and login are repeated exactly when the session expired (device life time less the 20 minute buffer), was reset, or an authentication error occurred; every failing step ends the send with the documented error for its code or status, errors of the HTTP client pass through, and a later send recovers.",
  over=["inputs", "histories", "fault_sequences"], quant="every credential, key, cookie, life time, elapsed time, error code and failing step",
  why="The tests fake one device with one timeout; combinations of expiry, rejected logins and error codes at each step are not explored.",
  files=["kasa/transports/aestransport.py"],
  mech=[("session state", "kasa/transports/aestransport.py AesTransport.send, perform_handshake, _handshake_session_expired"), ("login", "kasa/transports/aestransport.py AesTransport.perform_login, try_login, _get_login_params, hash_credentials"), ("passthrough", "kasa/transports/aestransport.py AesTransport.send_secure_passthrough, AesEncyptionSession")]),
 dict(id="C11", title="A camera session is opened only to a device that proves it knows the password",
  statement="A secure camera login sends a fresh 8 byte challenge with the configured user name first and the factory camera user only if that is rejected; unless the device answers with the correct digest over the password (SHA-256 or MD5 form), the send fails with an authentication error and nothing more is sent. The client then proves the password back, and from there every request goes to the session's token URL, encrypted, with a sequence number that starts at the device's value and grows by one, and a tag computed over the frame. A device that offers no secure login gets the plain MD5 login instead; a blocked device is reported as such; after a reset or an authentication error the next send logs in again and follows a changed scheme; a stored credentials hash reproduces the same login.",
  over=["inputs", "histories", "fault_sequences"], quant="every credential, challenge, device proof, start sequence number, error code, status and failing step",
  why="The tests use one fake camera with fixed nonces; wrong proofs at each form, orders of failing steps and scheme changes across sends are not explored.",
  files=["kasa/transports/sslaestransport.py"],
  mech=[("handshake", "kasa/transports/sslaestransport.py SslAesTransport.perform_handshake1, perform_handshake2, perform_handshake"), ("requests", "kasa/transports/sslaestransport.py SslAesTransport.send_secure_passthrough, generate_tag, send"), ("plain login", "kasa/transports/sslaestransport.py SslAesTransport.try_send_less_secure_login, send_unencrypted")]),
 dict(id="C12", title="The HTTP client limits, serialises and classifies every exchange",
  statement="A post sends the given URL, payload, headers, parameters and cookies once, after dropping cookies of earlier exchanges, limited in total by the configured timeout, and returns the status with the raw body, or with the parsed JSON when JSON was sent and the status is 200. Connection failures become connection errors, any kind of timeout becomes the library's TimeoutError, anything else a library error, each with its cause; cancellation passes through. Once a device has dropped a connection, later requests keep a quarter of a second apart; a session made by the client is reused and closed with it; a session given by the user is never closed, and the device's cookies can be read by name after each answer.",
  over=["inputs", "histories", "fault_sequences"], quant="every status, body, failure at each step, and elapsed time between requests",
  why="The tests raise chosen exceptions from one call; which await fails and what the client does afterwards is not explored.",
  files=["kasa/httpclient.py"],
  mech=[("requests", "kasa/httpclient.py HttpClient.post"), ("session ownership", "kasa/httpclient.py HttpClient.client, close")]),
 dict(id="C13", title="Clear-text HTTPS and hub-style transports log in, send and classify correctly",
  statement="The clear-text HTTPS transport logs in before the first request with the configured user name and the upper case MD5 of the password, or the stored hash; a rejected login is tried once more with the factory credentials. Requests go unchanged to the session's token URL until the device's session time is over or an authentication error or reset ends it; retryable codes raise the retryable error, authentication codes AuthenticationError, any other code a DeviceError. The legacy camera transport posts the encrypted request as form data with basic authentication and returns the decrypted answer; its failures are retryable and cancellation passes.",
  over=["inputs", "histories", "fault_sequences"], quant="every credential, token, error code, status and elapsed time",
  why="The tests use fixed credentials and a few codes; unknown codes, rejected logins followed by other failures and expiry times are not explored.",
  files=["kasa/transports/ssltransport.py", "kasa/transports/linkietransport.py"],
  note="The legacy camera transport is covered within a bound (three request texts and answers, every failure kind).",
  mech=[("login", "kasa/transports/ssltransport.py SslTransport.perform_login, try_login"), ("requests", "kasa/transports/ssltransport.py SslTransport.send_request, send"), ("legacy cameras", "kasa/transports/linkietransport.py LinkieTransportV2.send")]),
 dict(id="C14", title="Connection parameters select the right protocol, transport and device class",
  statement="For every device family, encryption type, HTTPS flag and strictness the documented protocol, transport and device class is chosen, or none for unsupported combinations. A device reached through connect has the class its sysinfo or configuration calls for, unknown ones raise UnsupportedDeviceError, and any failure while connecting closes the connection; one made directly uses the protocol and configuration given, else the default ones of its class. Trying all connections tries every supported combination at most once until one works, reports each attempt, closes each failed one and returns the first working device or nothing; cancellation passes through.",
  over=["inputs", "configurations", "fault_sequences"], quant="every combination of connection parameters, every sysinfo type and child layout, every failing attempt",
  why="The tests go through the combinations of their fixtures; unsupported and unusual combinations, and failures in the middle of connecting, are not covered.",
  files=["kasa/device_factory.py", "kasa/discover.py"],
  mech=[("protocol table", "kasa/device_factory.py get_protocol"), ("class tables", "kasa/device_factory.py get_device_class_from_family, get_device_class_from_sys_info"), ("connecting", "kasa/device_factory.py connect, _connect"), ("trying", "kasa/discover.py Discover.try_connect_all")]),
 dict(id="C15", title="Discovery reports every answering host once, as what it is",
  statement="Any datagram from a discovery port, however malformed, makes its host reported exactly once: as a device with the announced class, connection parameters, model and port and the caller's credentials and timeout, as unsupported, or as invalid; it never raises into the event loop, and later answers of a reported host and datagrams from other ports are ignored. Searching a network returns the devices found and runs each callback once per host; discovering a single host returns its device, raises the error its answer calls for, or a timeout; both send probes to the target, port and interface asked for in every round until the target has answered, always close the socket, and a search that is cancelled or fails with a library error closes the devices found. Probes are well-formed for both protocol generations, and what a device encrypts for them is decrypted.",
  over=["inputs", "histories"], quant="enumerated answer shapes of both protocol generations, ports and callers' options",
  why="The tests replay recorded answers; malformed answers and their position among others are unbounded.",
  files=["kasa/discover.py"], level="exploration",
  note="The answers are enumerated from a grammar of well and ill-formed shapes (bounded, not proved for every datagram).",
  mech=[("answers", "kasa/discover.py _DiscoverProtocol.datagram_received"), ("searches", "kasa/discover.py Discover.discover, discover_single, _DiscoverProtocol.wait_for_discovery_to_complete"), ("device construction", "kasa/discover.py Discover._get_device_instance, _get_device_instance_legacy"), ("probes", "kasa/discover.py _DiscoverProtocol.do_discover, _AesDiscoveryQuery")]),
 dict(id="C16", title="Sensitive data of device answers does not reach the logs",
  statement="Every field of the protocols' tables of sensitive fields (ids, MAC addresses, names, SSIDs, locations, pairing codes) is masked in its documented form wherever it is nested in a device's answer before the protocols, their transports or discovery write the answer to the log, for batched, single, child and paged requests and for devices discovered, supported or not. All other fields are logged unchanged, the answer given to the caller is not modified, and unexpected values are hidden rather than making logging fail.",
  over=["inputs"], quant="every value of every sensitive field and every nesting of objects and lists",
  why="The tests check that one name is hidden in one log line; each field, nesting and way of sending needs its own assurance.",
  files=["kasa/protocols/protocol.py", "kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/transports/ssltransport.py", "kasa/discover.py"],
  note="Depth is covered by an inductive step; field tables and ways of sending are enumerated.",
  mech=[("masking", "kasa/protocols/protocol.py redact_data, mask_mac"), ("tables", "kasa/protocols/iotprotocol.py REDACTORS, kasa/protocols/smartprotocol.py REDACTORS, kasa/discover.py NEW_DISCOVERY_REDACTORS, DECRYPTED_REDACTORS"), ("log statements", "kasa/protocols/smartprotocol.py SmartProtocol._execute_query, _execute_multiple_query")]),
 dict(id="C17", title="Energy readings are in the stated unit whatever the firmware reports",
  statement="Power, voltage, current, energy and totals are given in W, V, A and kWh whether the device reports base or milli/watt-hour units, in whichever order, and None if it does not measure them. Daily and monthly statistics ask for the given (or current) period and give every entry once, in kWh or Wh as asked; the current day and month are those of the entries of that day and month; a power strip reports the sums of its sockets and their average voltage. Features for voltage, current and totals are offered exactly when the device measures them, and erasing statistics is one command, refused for devices without it.",
  over=["inputs"], quant="every reading, every mix of reported units and missing fields, both SMART versions",
  why="The tests use fixtures of a few devices; the mixes of units and missing fields, and the arithmetic for all values, are not sampled.",
  files=["kasa/emeterstatus.py", "kasa/iot/modules/emeter.py", "kasa/iot/modules/usage.py", "kasa/iot/iotstrip.py", "kasa/smart/modules/energy.py"],
  note="Lists of statistics hold at most three entries and strips at most three sockets (bounded); the readings are arbitrary.",
  mech=[("unit conversion", "kasa/emeterstatus.py EmeterStatus.__getitem__"), ("statistics", "kasa/iot/modules/emeter.py Emeter._convert_stat_data"), ("strips", "kasa/iot/iotstrip.py StripEmeter"), ("SMART energy", "kasa/smart/modules/energy.py Energy._post_update_hook, status")]),
 dict(id="C20", title="A feature only passes acceptable values to its setter",
  statement="Setting a feature calls the setter of the feature's own container exactly once with exactly the given value (actions get none) and returns its result or error, but only if the feature has a setter, a number lies within the feature's limits, and a choice is one of the offered choices; otherwise a ValueError is raised and the device is not touched. The value of a feature is read from its own container, shown with its name, id, unit, limits or choices, and a read-only sensor cannot be given a setter.",
  over=["inputs"], quant="every value, every limit and list of choices, every kind of feature",
  why="The tests set the minimum or one listed choice; values around arbitrary limits are not sampled.",
  files=["kasa/feature.py"],
  mech=[("setting", "kasa/feature.py Feature.set_value"), ("limits", "kasa/feature.py Feature.minimum_value, maximum_value"), ("reading", "kasa/feature.py Feature.value")]),
 dict(id="C22", title="A setter of a SMART device sends exactly the requested change or refuses it",
  statement="A setter of a SMART module (fan, speaker, child lock and protection, frost protection, temperature control and unit, auto off, LED, alarm, vacuum cleaning, mopping and dust bin, power protection, on/off transitions) or light (brightness, color, color temperature, state) sends exactly one command of the documented name that carries exactly the requested change in the device's own form, keeps the other settings of the same command as they were reported, and returns the device's answer; values outside the documented limits or choices raise ValueError or TypeError with nothing sent. The data of the last update and the caller's arguments are not modified. A failing command reaches the caller.",
  over=["inputs"], quant="every value of every setter, every reported state it depends on, success and failure",
  why="The tests set one or two values per setter on recorded devices; limits, the conversion of every value and what else is sent are not sampled.",
  files=["kasa/smart/modules"],
  mech=[("simple values", "kasa/smart/modules/fan.py, speaker.py, childlock.py, childprotection.py, frostprotection.py, temperaturecontrol.py, autooff.py, led.py"), ("alarms", "kasa/smart/modules/alarm.py Alarm.play, set_alarm_volume"), ("vacuums", "kasa/smart/modules/clean.py, mop.py, dustbin.py"), ("lights", "kasa/smart/modules/light.py, color.py, colortemperature.py, brightness.py, lighttransition.py"), ("power protection", "kasa/smart/modules/powerprotection.py")]),
 dict(id="C23", title="A command to a legacy device is one verified exchange",
  statement="Every command of a legacy device sends exactly one request naming its module, command and arguments, and succeeds only with an answer that has this module and command and no error code at either level, returning the command's own result; everything else, communication failures included, raises a KasaException. Commands of a strip's socket are addressed to that socket alone; switching a strip switches every socket not yet in that state, each at most once, and the strip is on when any socket is. Scanning and joining networks fall back to the onboarding module only if the first one fails.",
  over=["inputs"], quant="every error code, missing key, payload and socket state",
  why="The tests fake well-formed answers; combinations of missing keys and error codes at each level are not sampled.",
  files=["kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/iot/iotplug.py"],
  mech=[("commands", "kasa/iot/iotdevice.py IotDevice._query_helper, _create_request"), ("sockets", "kasa/iot/iotstrip.py IotStripPlug._query_helper, IotStrip.turn_on, turn_off")]),
 dict(id="C24", title="Updating a legacy device asks for all it supports and keeps every answer apart",
  statement="An update asks for the sysinfo and the query of every module not known to be unsupported, each once, in requests that stay within the answer size the device can build; a new device is asked for its sysinfo alone first. Afterwards each module's data is the device's newest answer, unsupported modules are remembered and not offered, and results handed out earlier are unchanged. Each socket of a strip keeps its own data, and the features are there from the first update on.",
  over=["inputs", "histories"], quant="every estimated size, set of unsupported modules and answer, over successive updates",
  why="The fixtures of the tests fit one request and give all sockets the same data.",
  files=["kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/iot/iotmodule.py"],
  mech=[("update", "kasa/iot/iotdevice.py IotDevice.update, _modular_update"), ("merging", "kasa/iot/iotmodule.py _merge_dict"), ("sockets", "kasa/iot/iotstrip.py IotStrip.update, IotStripPlug._update")]),
 dict(id="C25", title="SMART modules are polled when due, backed off, and give out only valid data",
  statement="A SMART module is asked in an update if it was never asked or its interval has passed: its own minimum interval (none: always), one day for children of hubs, 30 seconds times the number of failures in a row after failures, never once ten in a row failed; a success ends this. After a setter marked to refresh, whether it worked or not, it is asked in the next update. Its data is the device's answer to its own query, else its parent's, the answers by name if it has several queries (optional ones that failed left out), the device info if it has none; an error answer raises a DeviceError with the device's code, and no data before an update a KasaException; guarded values of a module whose last update failed are not given out.",
  over=["inputs", "histories"], quant="every interval, elapsed time, failure count, mix of answers and errors",
  why="The tests step a frozen clock through one schedule; arbitrary intervals and mixes of own, parent and failed data are not sampled.",
  files=["kasa/smart/smartmodule.py"],
  mech=[("schedule", "kasa/smart/smartmodule.py SmartModule._should_update, update_interval, disabled"), ("refresh", "kasa/smart/smartmodule.py allow_update_after"), ("data", "kasa/smart/smartmodule.py SmartModule.data, raise_if_update_error")]),
 dict(id="C26", title="Updating a SMART device keeps every answer and survives failures",
  statement="An update asks exactly the modules that are due in one query; if that fails for a reason other than authentication or cancellation each query is asked once by itself, and one that fails marks only its own modules. Every answer is kept, data of modules not asked stays, each asked module notes the time and its success or failure and processes its new data once; without device info the update fails; a cancelled update ends at once and changes no data. A new device, or one whose first update failed or was cancelled anywhere, has all modules of its components, their data and their features after an update that works; children updated by themselves follow the same rules.",
  over=["inputs", "histories", "fault_sequences"], quant="every mix of due and backed off modules, of failing queries, of times, and every failing step of the first update",
  why="The tests fail one chosen call; which of the queries fails, and what the next update does then, is not explored.",
  files=["kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smart/smartmodule.py"],
  note="The modules of the update contracts are three test modules and the real device module; the first update uses five real components.",
  mech=[("update", "kasa/smart/smartdevice.py SmartDevice.update, _modular_update, _handle_modular_update_error"), ("first update", "kasa/smart/smartdevice.py SmartDevice._negotiate, _initialize_modules"), ("children", "kasa/smart/smartchilddevice.py SmartChildDevice._update")]),
 dict(id="C27", title="The children of a SMART device are those it reports, each with its own data",
  statement="After each successful update the children of a hub or strip are exactly those in the newest list of the device that have an id and known components; children added or removed between updates appear and disappear, one still listed stays the same object, and each has its own newest info and its own answers, asked through its own id. Children of strips are asked when due, those of hubs when new; a child that does not answer is marked alone and disturbs neither its parent nor the other children. A camera hub has both SMART and camera children of the types their categories call for, and leaves out unknown ones; pairing scans for the hub's categories as long as asked, adds exactly the devices found and reports those that then are children, unpairing removes exactly the one named.",
  over=["inputs", "histories", "fault_sequences"], quant="orders, additions, removals, odd entries and silent children over two updates, enumerated",
  why="The fixtures have constant child lists that always answer.",
  files=["kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcamchild.py"],
  note="Lists of up to three children, two updates (bounded histories).",
  mech=[("children", "kasa/smart/smartdevice.py SmartDevice._create_delete_children, _update_children_info"), ("camera hubs", "kasa/smartcam/smartcamdevice.py SmartCamDevice._try_create_child, _initialize_children")]),
 dict(id="C21", title="A setter of a legacy light, dimmer or sensor sends exactly the change asked for",
  statement="Setting color, color temperature, brightness, state, on or off of legacy bulbs, light strips and dimmers, a dimmer's times, limits, buttons and fade times, the LED, ambient light, motion sensor, rules, cloud, turn-on behavior, alias or MAC sends exactly one command to the documented service with exactly the requested change (with transition where given, a dimmer's transition of 0 as 1 ms); values out of the documented limits of the light's model, wrong types and abilities the light lacks raise an error with nothing sent. What is read is what the device reports; a light that is off reports the state it will turn on with, one with an active effect the effect's brightness; motion is reported beyond the threshold when enabled. Turn-on behavior whose preset is given becomes that preset, without one the last state.",
  over=["inputs"], quant="every value, ability, reported state and effect, and each model's range of color temperatures",
  why="The tests set a few valid values of a few models; limits, conversions and combinations of state fields are not sampled.",
  files=["kasa/iot/iotbulb.py", "kasa/iot/iotdimmer.py", "kasa/iot/iotlightstrip.py", "kasa/iot/modules"],
  mech=[("bulbs", "kasa/iot/iotbulb.py IotBulb._set_light_state, _set_hsv, _set_color_temp"), ("lights", "kasa/iot/modules/light.py Light.set_state"), ("dimmers", "kasa/iot/iotdimmer.py IotDimmer.set_dimmer_transition, kasa/iot/modules/dimmer.py"), ("sensors", "kasa/iot/modules/motion.py, ambientlight.py")]),
 dict(id="C29", title="Device time is read and set as the same point in time, in its zone",
  statement="The time of a device is the point in time it reports, in the zone it reports: a legacy device's by the index of its firmware (UTC for unknown ones), a SMART device's or camera's by region, or by its offset if the region is unknown. Setting the time sends the given point in time, naive times in the device's zone, with offset and region of the date; a legacy device gets the date's fields, with the index of a zone of the same name or the same offsets all year when its zone is known to differ, and zones it has none for raise ValueError with nothing sent.",
  over=["inputs"], quant="every date and time stamp, every index, fixed offsets; named zones enumerated",
  why="The tests set the current time in a few zones; unknown regions, zones without counterpart and dates all over the calendar are not sampled.",
  files=["kasa/iot/modules/time.py", "kasa/iot/iottimezone.py", "kasa/smart/modules/time.py", "kasa/smartcam/modules/time.py", "kasa/cachedzoneinfo.py"],
  note="Reading and setting in named zones of SMART devices and cameras is covered for enumerated zones and times (bounded).",
  mech=[("legacy", "kasa/iot/modules/time.py Time.set_time, time; kasa/iot/iottimezone.py get_timezone_index, get_timezone"), ("SMART", "kasa/smart/modules/time.py Time.set_time, _post_update_hook"), ("cameras", "kasa/smartcam/modules/time.py Time._post_update_hook, set_time")]),
 dict(id="C30", title="on_since is steady while a device stays on, and follows real changes",
  statement="on_since of a device or socket is None while it is off or does not report an on time. Otherwise it is the device's time less the reported on time, except that a value read before without being off in between is kept while the new one differs from it, in either direction, by at most five seconds. A strip is on since the first of its sockets that are on; a child without a clock uses its parent's time.",
  over=["inputs", "histories"], quant="every device time, on time and on/off sequence over three readings",
  why="The tests step a clock by fixed amounts forward; times in between, clocks set back and switching are not sampled.",
  files=["kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/smart/smartdevice.py"],
  note="Histories of three readings; strips of at most three sockets (bounded).",
  mech=[("devices", "kasa/iot/iotdevice.py IotDevice.on_since, kasa/smart/smartdevice.py SmartDevice.on_since"), ("strips", "kasa/iot/iotstrip.py IotStrip.on_since, IotStripPlug.on_since")]),
 dict(id="C32", title="Light effects and presets are set, saved and reported as the device has them",
  statement="Setting an effect by name sends that effect of the device or of the table, with the brightness and transition asked for and everything else unchanged, off disables it, and unknown names raise ValueError with nothing sent; the effect, list and brightness reported are those of the device, scene names encoded or not, also when the effect was changed by someone else. The presets are those of the device with effects left out; setting one sends its values, saving one stores the new values at its own index of the device, the current one is the first equal to the light's state, and unknown ones raise ValueError. Effect tables and update data are not modified.",
  over=["inputs"], quant="every name form, brightness, transition and list of presets mixed with effects",
  why="The tests use recorded lists where index and position agree and names are well-formed.",
  files=["kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py", "kasa/smart/modules/lightpreset.py", "kasa/iot/modules/lighteffect.py", "kasa/iot/modules/lightpreset.py"],
  note="Bulbs have two scenes, lights at most three presets (bounded); numbers are arbitrary.",
  mech=[("scenes", "kasa/smart/modules/lighteffect.py LightEffect.set_effect, set_brightness"), ("strip effects", "kasa/smart/modules/lightstripeffect.py, kasa/iot/modules/lighteffect.py"), ("presets", "kasa/smart/modules/lightpreset.py, kasa/iot/modules/lightpreset.py")]),
 dict(id="C34", title="What a SMART module reports is what the device reports, converted as documented",
  statement="Values of sensors, lights, thermostats, vacuums and settings are those of the device's answer, with the documented conversions: a fan that is off has speed 0, warnings and states are mapped, a thermostat with no active state is idle whatever its battery, the first error of a vacuum counts and unknown codes become the unknown ones, consumables have used and remaining time and percentages of their own vacuum, records and alerts are points in time in the device's zone (its hub's, for sensors of a hub). Light state and transitions are those of the light's abilities. Reading and processing never asks the device and never changes the data of the update, so that doing it again gives the same.",
  over=["inputs"], quant="every number under every key; states, codes, abilities and combinations enumerated",
  why="The tests read recorded data once; values, state combinations and second readings are not sampled.",
  files=["kasa/smart/modules"],
  note="Cleaning records are covered for enumerated numbers (bounded).",
  mech=[("sensors and settings", "kasa/smart/modules"), ("thermostat", "kasa/smart/modules/temperaturecontrol.py TemperatureControl.mode, states; thermostat.py"), ("vacuum", "kasa/smart/modules/clean.py Clean._post_update_hook, error, status; cleanrecords.py; consumables.py"), ("lights", "kasa/smart/modules/light.py Light._post_update_hook, lighttransition.py")]),
 dict(id="C35", title="A firmware update starts only when one is known, and is followed to its end",
  statement="A check asks the device for its latest firmware and gives what it answers, a failed or malformed answer as unknown; an update is available if the last check found a newer one and the device is connected to the cloud. update() raises KasaException with nothing sent unless an update is known to be available; otherwise it starts the download once, asks for the state until the device reports the end, tolerating polls that fail, waits as long as the device asks for while it upgrades, passes each state to the callback, whose failure ends nothing, and returns the last one. Automatic updates are switched without changing their time.",
  over=["inputs", "fault_sequences"], quant="answers, clouds, progress states and failing polls enumerated; sizes, times and waits arbitrary",
  why="The tests mock one update that succeeds.",
  files=["kasa/smart/modules/firmware.py"],
  note="Updates of at most three polls (bounded).",
  mech=[("check", "kasa/smart/modules/firmware.py Firmware.check_latest_firmware, update_available"), ("update", "kasa/smart/modules/firmware.py Firmware.update, get_update_state")]),
 dict(id="C31", title="Camera modules send exactly the change asked for and report the camera's data",
  statement="Switching lens mask, LED and the detections of a camera, its siren, name and motor sends exactly one command to the documented section with exactly the requested change (playing a sound with settings first sends those); sounds, volumes and durations out of the documented limits raise ValueError with nothing sent. What is read is the module's own answer, an error code or missing answer raises; a camera is on unless its lens is masked, and stays on if it has no mask. Streaming addresses carry the percent-encoded user and password of the given, else configured, else stored credentials, and do not exist without them or for children of hubs.",
  over=["inputs"], quant="every number, switch, error code and combination of siren settings; credentials enumerated",
  why="The tests use recorded cameras with valid values and one pair of credentials.",
  files=["kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcammodule.py", "kasa/smartcam/modules"],
  note="Streaming addresses are covered for pairs of eight texts (bounded).",
  mech=[("data", "kasa/smartcam/smartcammodule.py SmartCamModule.query, data"), ("siren", "kasa/smartcam/modules/alarm.py Alarm.play, _validate_and_get_config"), ("privacy", "kasa/smartcam/modules/camera.py Camera.is_on, set_state; lensmask.py"), ("addresses", "kasa/smartcam/modules/camera.py Camera.stream_rtsp_url, _get_credentials")]),
 dict(id="C28", title="A device's kind, identity and own commands are those it reports and documents",
  statement="The kind of a device follows from its family, components, category or description in the documented order; model, region, firmware with build, brand, alias, network, address, location and signal are those it reports (a socket's or child's own, the rest its parent's), decoded and formatted as documented (unknown kinds, missing types and addresses as defaults or KasaException). Setting the alias or address, switching, rebooting, resetting, changing credentials, scanning and joining networks send exactly the documented command with exactly the given values, encoded where required; joining needs credentials, is sent once, and the loss of the connection it causes is no error while one the device reports is. Legacy devices try their second service when the first fails.",
  over=["inputs"], quant="families, component sets, categories, descriptions and outcomes enumerated; numbers and names arbitrary",
  why="Every fixture is one device; combinations of components, missing fields and failing commands are not sampled.",
  files=["kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcamchild.py", "kasa/iot/iotdevice.py"],
  mech=[("kind", "SmartDevice._get_device_type_from_components, IotDevice._get_device_type_from_sys_info, SmartCamDevice._get_device_type_from_sysinfo"), ("identity", "_get_device_info of SmartDevice, SmartCamDevice, SmartCamChild, IotDevice"), ("commands", "kasa/smart/smartdevice.py SmartDevice.wifi_join, update_credentials; kasa/iot/iotdevice.py IotDevice.wifi_scan, wifi_join")]),
 dict(id="C33", title="Queries to one device never overlap",
  statement="While a query of a protocol runs, including its retries, batches, pages, back-off pauses and session resets, another query of the same device or of one of its children waits and does not reach the transport. However a query ends, with an answer, an error or cancellation, the next one proceeds.",
  over=["schedules", "fault_sequences"], quant="every number of retries and outcome of every attempt; another query tried at every pause",
  why="The tests send one query at a time.",
  files=["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
  note="Batches and pages are covered for enumerated sizes (bounded).",
  mech=[("lock", "kasa/protocols/iotprotocol.py IotProtocol.query, kasa/protocols/smartprotocol.py SmartProtocol.query"), ("children", "kasa/protocols/smartprotocol.py _ChildProtocolWrapper.query")]),
 dict(id="C19", title="A stored configuration connects the same way, with the credentials asked for",
  statement="Storing a device configuration and reading it back gives the same settings; unset ones and the HTTP client are not stored. Storing with a credentials hash stores that hash and no credentials, with an empty hash neither, without credentials everything but these, and does not change the configuration. Connection parameters from texts are those named, unknown ones raise KasaException; a transport made from the credentials hash of another uses the same secrets.",
  over=["inputs"], quant="every host, port, user, password and hash; settings present or absent, families and encryptions enumerated",
  why="The tests store a few configurations; combinations of settings and credentials are not sampled.",
  files=["kasa/deviceconfig.py", "kasa/transports"],
  mech=[("storing", "kasa/deviceconfig.py DeviceConfig.to_dict_control_credentials, DeviceConnectionParameters.from_values"), ("hash", "credentials_hash of the transports in kasa/transports")]),
 dict(id="C36", title="Features show, limit and set what is documented, and are offered when usable",
  statement="A device offers exactly the features documented for the abilities it reports, each with its documented type, category, unit, limits, choices and precision and with the value of its own attribute. Setting one calls its own setter once with exactly the given value; numbers out of the limits and unknown choices raise ValueError with nothing set. Asking a module for the feature of one of its attributes gives the one it offers for it at that time, or none.",
  over=["inputs"], quant="every number and limit; every module and combination of the abilities that decide about a feature enumerated",
  why="The tests go over the features recorded devices have; abilities, limits and setters are not combined.",
  files=["kasa/feature.py", "kasa/module.py", "kasa/iot", "kasa/smart", "kasa/smartcam"],
  mech=[("offering", "_initialize_features of the devices and modules"), ("setting", "kasa/feature.py Feature.set_value"), ("lookup", "kasa/module.py Module.get_feature, _get_bound_feature")]),
 dict(id="C37", title="A device has exactly the modules its abilities call for",
  statement="After an update a device has exactly the modules documented for the components (for some modules: readings) it reports, its kind, and its place as a child of a hub or strip; a light or thermostat stands for exactly the documented combinations, and services a legacy device answers as unsupported are dropped without harm to the rest. In an update each module asks exactly the documented question and no more often than documented; legacy services known to be unsupported are not asked again.",
  over=["inputs", "configurations"], quant="every component version; every module with its components and readings present or absent, alone and beside all others; every kind of device",
  why="The tests go over the components of recorded devices; a module whose component, reading or kind is missing is not exercised.",
  files=["kasa/smart", "kasa/smartcam", "kasa/iot"],
  mech=[("SMART modules", "kasa/smart/smartdevice.py SmartDevice._initialize_modules"), ("camera modules", "kasa/smartcam/smartcamdevice.py SmartCamDevice._initialize_modules"), ("legacy modules", "kasa/iot/iotdevice.py IotDevice._modular_update, _initialize_modules of the classes"), ("questions", "query of the modules")]),
 dict(id="C38", title="Names, ids and addresses lead to the right child, attribute or class",
  statement="A child device is found by its id or, ignoring case, its name, a socket by its exact name or its place, and nothing else is found; what is not there raises as documented. Old names of attributes and classes yield exactly what replaced them (or AttributeError where the device lacks it), and whatever needs an update raises KasaException before the first one without sending anything, except what discovery already told. A device can always be shown, its state lists each feature's name with its value, and changing its host changes its configuration too.",
  over=["inputs", "configurations"], quant="every name in the documented tables for every device class, every place and host; names of children enumerated",
  why="The tests look up a few names on recorded devices.",
  files=["kasa/device.py", "kasa/__init__.py", "kasa/interfaces", "kasa/iot/iotdevice.py", "kasa/protocols/iotprotocol.py"],
  mech=[("old names", "kasa/device.py Device.__getattr__, kasa/__init__.py __getattr__, kasa/interfaces/light.py, energy.py"), ("children", "kasa/device.py Device.get_child_device, get_plug_by_name, get_plug_by_index"), ("needs an update", "kasa/iot/iotdevice.py requires_update"), ("shown", "kasa/device.py Device.__repr__, state_information")]),
 dict(id="C39", title="A kasa command does what its arguments ask to the device or child named",
  statement="`kasa` connects exactly as its options (or KASA_ variables) say - by host, type, connection parameters, alias or discovery, with the given port, timeouts, target and credentials -, refuses conflicting or incomplete options before touching a device, updates the device once unless the command needs none and disconnects it in the end; failures are reported once with exit code 1, results and failures printed as JSON and nothing else if asked, and discovery commands list every device with its outcome, redacted if asked. A command acts once on the device, or on the child chosen by name, id, index or prompt, with exactly the values given: light values, presets, turn on behavior, effects, features (on the device, or its child, as named), power, led, alias, reboot, reset and credentials, time and time zone, energy and usage statistics, schedule rules, wifi, hub pairing, vacuum consumables and raw commands; without a value it shows and returns the present one and changes nothing. What the device lacks or the arguments forbid is refused with a message and exit code 1 (or as misuse) and changes nothing.",
  over=["inputs", "configurations"], quant="every combination of the drawn options, values, children, modules and failures; numbers symbolic where the code computes with them",
  why="The tests run most commands with one valid and one invalid value on recorded devices; several commands were never run at all.",
  files=["kasa/cli"],
  mech=[("choosing the device", "kasa/cli/main.py cli, discover.py find_dev_from_alias"), ("choosing the child", "kasa/cli/common.py pass_dev_or_child, _get_child_device"), ("errors and output", "kasa/cli/common.py CatchAllExceptions, echo, error, json_formatter_cb")]),
]
NOT_APPLICABLE = {}
