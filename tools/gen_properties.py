#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so it is readable); run to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every message survives serialisation and parsing unchanged",
     "Every message that can be constructed (any type, valid name, optional numeric id, any arguments, including empty and arbitrary binary ones) serialises to a single line containing no raw newline, carriage return, NUL or escape byte, and parsing that line yields an equal message: same type, name, id and argument bytes in the same order. A copy of a message equals the original, and changing the copy's arguments does not change the original. Names or ids that could not be represented on the wire are refused when the message is constructed, not when it is sent.",
     ["inputs"], "all message types, names, ids and argument lists of any length over all byte values",
     "tests round-trip a handful of literal messages; the guarantee is over all byte strings and argument counts",
     ["katcp/core.py"],
     [("Message construction, formatting and escaping", "katcp/core.py Message.__init__/format_argument/__bytes__/_escape_match/copy"),
      ("MessageParser", "katcp/core.py MessageParser.parse/_parse_arg/_unescape_match")],
     observe=["bytes(message)", "parser result"])
prop("C02", "The parser accepts exactly the protocol grammar and fails cleanly",
     "For every byte string offered as a line, the parser either returns the one message the protocol grammar assigns to it (type character, name, optional bracketed decimal id, whitespace-separated arguments with the eight defined escapes undone exactly once) or raises the library's syntax error; it never raises anything else and never accepts a line outside the grammar. Runs of spaces and tabs separate arguments, trailing whitespace is ignored, and the escape for an empty argument yields an empty argument.",
     ["inputs"], "all byte strings",
     "tests parse a few dozen literal lines; malformed and non-ASCII lines are sampled thinly",
     ["katcp/core.py"],
     [("grammar recogniser", "katcp/core.py MessageParser.parse, NAME_RE, WHITESPACE_RE"),
      ("argument unescaping", "katcp/core.py MessageParser._parse_arg/_unescape_match")])
prop("C03", "Typed values survive encoding and decoding",
     "For every parameter type and every protocol major version, packing a value of the type's own kind that it accepts and unpacking the result yields an equal value (integers of any size, all finite and infinite floats, both booleans, any encodable text, with byte strings coming back as the text they encode, both LRU values, addresses with a valid host, structs of values their format represents, discrete and multi-discrete choices up to order). Timestamps round-trip to within one millisecond under protocol version 4 and one microsecond under version 5. Unpacking bytes that do not encode a value of the type (numbers being read as Python reads number literals) raises a value error and never returns a wrong value.",
     ["inputs", "configurations"], "all values of every type, all majors",
     "tests pack and unpack a few literal values per type",
     ["katcp/kattypes.py"],
     [("encode/decode pairs", "katcp/kattypes.py Int/Float/Bool/Str/Discrete/Lru/Address/Timestamp/TimestampOrNow/StrictTimestamp/Struct/Regex/DiscreteMulti")])
prop("C04", "Types enforce their declared constraints on the way in and out",
     "A value outside a type's declared constraints (below the minimum, above the maximum, not in the allowed set, not matching the pattern, not a legal reading of the type) is refused both when packing and when unpacking, and a value inside them is never refused; bounds are inclusive. A missing value yields the declared default if there is one, is accepted as absent when unpacking if the type is optional, and is refused otherwise.",
     ["inputs", "configurations"], "all constraint settings and all values, both directions",
     "tests check a couple of in-range and out-of-range literals per type",
     ["katcp/kattypes.py"],
     [("pack/unpack with check and default", "katcp/kattypes.py KatcpType.pack/unpack/get_default and the check methods")])
prop("C05", "Typed handlers get exactly their declared arguments or a named failure",
     "A handler declared with parameter types is called only when the message supplies exactly the declared parameters, with each argument decoded by its own type and in its own position (trailing repeated parameters collect all remaining arguments, omitted optional or defaulted ones get their default); otherwise the caller gets a failure naming the offending parameter or the wrong count, and the handler body does not run. A handler's declared return values are likewise encoded by position, and a result of the wrong count, or with a value its declared type does not accept, becomes a failure rather than a malformed reply.",
     ["inputs", "configurations"], "all signatures and all argument lists",
     "tests use a few fixed signatures; the guarantee covers every signature, count and value combination",
     ["katcp/kattypes.py"],
     [("argument unpacking and packing", "katcp/kattypes.py unpack_types/pack_types/Parameter"),
      ("decorators", "katcp/kattypes.py request/return_reply/send_reply/inform/make_reply/async_make_reply")])
prop("C06", "Every request gets exactly one reply with its own name and id",
     "For every request that reaches the server, exactly one reply is sent, to the client that made the request and carrying that request's name and message id, whatever the handler does: returns a reply, raises a declared failure, raises any other exception, returns something that is not a valid reply, returns a pending result that later succeeds or fails, or takes responsibility for replying, now or later (and then replies once, through its request handle). Requests with no handler get a reply of 'invalid' and a handler failure becomes 'fail'; informs or replies sent by a client never produce a reply.",
     ["inputs", "histories", "schedules"], "all handler outcomes, message contents (including non-UTF-8 arguments) and completion orders",
     "tests exercise one or two handlers per outcome with ASCII arguments",
     ["katcp/server.py"],
     [("request dispatch", "katcp/server.py DeviceServerBase.handle_message/handle_request/create_exception_reply_and_log"),
      ("reply plumbing", "katcp/server.py DeviceServerBase.reply/ClientConnection.reply/ClientRequestConnection"),
      ("handler thread", "katcp/server.py MessageHandlerThread.on_message/run")])
prop("C07", "Everything sent through a request handle is tied to that request",
     "All informs and the reply that a handler sends through the request object it is given go to the requesting client with the request's own name and message id and the given arguments in the given order, whatever other requests are in progress. Once the reply has been sent, any further reply or inform through the same request object is refused and nothing reaches the client.",
     ["histories", "inputs"], "all sequences of inform/reply calls on any number of concurrent request handles",
     "tests check one inform and one reply; not arbitrary call sequences or interleavings",
     ["katcp/server.py"],
     [("ClientRequestConnection", "katcp/server.py ClientRequestConnection.inform/reply/reply_with_message/_post_reply"),
      ("server inform/reply helpers", "katcp/server.py DeviceServerBase.inform/reply/reply_inform, ClientConnection.inform/reply/reply_inform")])
prop("C08", "No input from one peer stops message handling or reorders it",
     "A line that cannot be parsed, a line with arbitrary bytes, or a message whose handling raises never ends the processing of that connection or of any other: all later well-formed lines are still delivered, each exactly once and in the order received, whatever the split of the byte stream into packets and whichever line terminator is used. This holds for the server and for the client.",
     ["inputs", "histories", "fault_sequences"], "all byte streams, packetisations and handler failures",
     "tests send a few literal bad lines, all ASCII, one packet at a time",
     ["katcp/server.py", "katcp/client.py"],
     [("server line loop", "katcp/server.py KATCPServer._line_read_loop"),
      ("server dispatch and handler thread", "katcp/server.py DeviceServerBase.on_message/handle_message, MessageHandlerThread"),
      ("client line loop", "katcp/client.py DeviceClient._line_read_loop/handle_message")])
prop("C09", "A sensor reads back what was last set and notifies every observer once",
     "After a sensor is set, reading it yields exactly the timestamp, status and value last set, and every attached observer has been told exactly once, in order, about each set, with that same reading; detached observers hear nothing more. Formatting a reading and setting a sensor of the same type from the formatted form reproduces the reading (timestamps to the protocol's resolution) for every status and both protocol majors, and every status name maps to one status and back.",
     ["inputs", "histories"], "all sensor types, values, statuses, majors and attach/detach/set sequences",
     "tests check single sets with one observer for a few types",
     ["katcp/core.py"],
     [("Sensor state and observers", "katcp/core.py Sensor.set/set_value/read/notify/attach/detach"),
      ("formatting", "katcp/core.py Sensor.format_reading/set_formatted/read_formatted/parse_value/parse_type")])
prop("C10", "Sampling strategies emit exactly the updates they promise",
     "A newly started strategy first emits the current reading; after that 'auto' emits every update, 'event' emits exactly the updates whose value or status differs from the last emitted, 'differential' emits exactly those whose value moved by more than the threshold from the last emitted (or whose status changed), and 'period' emits the current reading once per period. The rate-limited variants never emit two updates closer together than the minimum period, always emit a pending change as soon as that minimum allows, and emit at least once per maximum period; no update is ever emitted that is not the sensor's reading at that moment.",
     ["histories", "schedules", "inputs"], "all update sequences, timings and strategy parameters",
     "tests drive each strategy with one or two hand-timed updates",
     ["katcp/sampling.py"],
     [("strategies", "katcp/sampling.py SampleAuto/SampleEvent/SampleDifferential/SamplePeriod/SampleEventRate/SampleDifferentialRate")])
prop("C11", "Sampling configuration is validated, atomic and reported truthfully",
     "A request to change a sensor's sampling strategy either succeeds, after which the client's strategy for each named sensor is exactly the requested one and the reply reports it, or fails with a reply explaining why and leaves every client's strategies exactly as they were; a bulk request takes effect for all named sensors or for none. Unknown sensors, unknown strategies, strategies the protocol version does not allow and parameters that are missing, superfluous, unparsable or out of range (including not-a-number) are all refused, and a query without a strategy changes nothing and reports the current one.",
     ["inputs", "histories"], "all sampling requests from any prior configuration",
     "tests try a few valid and invalid literal requests on one sensor",
     ["katcp/server.py", "katcp/sampling.py"],
     [("request handling", "katcp/server.py DeviceServer.request_sensor_sampling/_handle_sensor_sampling/_handle_bulk_set_sensor_sampling"),
      ("strategy construction and reporting", "katcp/sampling.py SampleStrategy.get_strategy/get_sampling_formatted and constructors")])
prop("C12", "Cancelled sampling stops for good and leaves nothing behind",
     "Once a client's sampling of a sensor has been replaced, set to none, cleared, or ended by the client disconnecting or the sensor being removed, no further update from it reaches any client, no timer of it stays scheduled and the sensor keeps no observer for it, even if the strategy had only just been started or an update was already queued. Other clients' and other sensors' strategies are not affected.",
     ["histories", "schedules"], "all interleavings of start, update, timer expiry, cancellation, disconnect and sensor removal",
     "tests cancel a settled strategy once; no interleaving with start-up or queued updates",
     ["katcp/sampling.py", "katcp/server.py"],
     [("strategy lifecycle", "katcp/sampling.py SampleStrategy.start/cancel/attach/detach, cancel_timeouts, update_in_ioloop"),
      ("server tables", "katcp/server.py DeviceServer.clear_strategies/on_client_disconnect/remove_sensor/request_sensor_sampling_clear")])
prop("C13", "Every client request completes exactly once with its own outcome",
     "Every asynchronous request issued through a client completes exactly once: with the reply that answers it, or with a failure reply when it could not be sent, timed out, or the connection or client went away first; it never stays pending for ever and never completes twice. Replies and informs are routed to the request they answer, by message id when present and otherwise to the oldest outstanding request of that name sent without one, and to no other; late or unsolicited ones disturb nothing, and once a request has completed the client keeps no record of it.",
     ["histories", "schedules", "fault_sequences"], "all interleavings of sends, replies, informs, timeouts, disconnects and stop",
     "tests check one or two requests with simple orders of events",
     ["katcp/client.py"],
     [("request table", "katcp/client.py AsyncClient._push_async_request/_pop_async_request/_peek_async_request/_msg_id_for_name"),
      ("completion paths", "katcp/client.py AsyncClient.callback_request/future_request/handle_reply/handle_inform/_handle_timeout/_fail_waiting_requests/_do_fail_callback/stop")])
prop("C14", "The client detects the server protocol and honours it",
     "The client takes protocol version and features from the server's version announcement (new-style or old-style) or from an explicit preset, which later announcements never override, and reports the protocol as received only then. Message ids are put on outgoing requests exactly when the server is known to support them and the caller did not decline, ids chosen automatically are never reused, an explicit demand for an id the server cannot honour is refused, and times are converted to the unit of the detected version.",
     ["histories", "inputs"], "all announcement sequences, preset choices and request options",
     "tests cover two literal version strings and default options",
     ["katcp/client.py"],
     [("protocol detection", "katcp/client.py DeviceClient.inform_version_connect/inform_build_state/_set_v4_protocol/_set_protocol_from_inform/preset_protocol_flags"),
      ("message id policy", "katcp/client.py DeviceClient._get_mid_and_update_msg/_next_id/request")])
prop("C15", "Protocol flags round-trip and are internally consistent",
     "Formatting a set of protocol flags and parsing the result yields equal flags for every version and every set of flags (single printable ASCII characters), and parsing any byte string either yields flags consistent with it or the unknown version. A flag that its version does not define is refused, each feature is reported exactly when its flag is present, and the sampling strategies allowed are exactly those of the major version.",
     ["inputs", "configurations"], "all version numbers, flag sets and byte strings",
     "tests parse half a dozen literals",
     ["katcp/core.py", "katcp/kattypes.py", "katcp/server.py"],
     [("ProtocolFlags", "katcp/core.py ProtocolFlags.__init__/__str__/parse_version/strategy_allowed/supports")])
prop("C16", "The inspecting client's model mirrors the server's interface",
     "After a synchronisation, the client's index of requests and sensors contains exactly what the server reported, with its descriptions, units, types and parameters; the change notification names exactly the items added, removed or changed since the previous one. A synchronisation that fails part way leaves the previous model intact and is retried, so that no change goes unreported, and sensor and request objects handed out reflect the current description.",
     ["histories", "fault_sequences"], "all sequences of server interface changes and inspection failures",
     "tests follow a few hand-written interface changes without failures in between",
     ["katcp/inspecting_client.py"],
     [("inspection", "katcp/inspecting_client.py InspectingClientAsync.inspect/inspect_requests/inspect_sensors"),
      ("index maintenance", "katcp/inspecting_client.py _update_index/_difference/future_get_sensor/future_get_request, _state_loop")])
prop("C17", "Reconnection and resynchronisation delays stay bounded and grow",
     "Every delay produced by the exponential back-off lies between zero and the configured maximum plus nothing more, never below the guaranteed fraction of the current step, the underlying step grows by the configured factor on each failure until capped at the maximum, and a success resets it to the initial value. Invalid settings are refused.",
     ["inputs", "histories"], "all settings, random draws and failure/success sequences",
     "tests check one setting with mocked randomness",
     ["katcp/inspecting_client.py"],
     [("ExponentialRandomBackoff", "katcp/inspecting_client.py ExponentialRandomBackoff")])
prop("C18", "Sensor trees keep parents consistent with their children",
     "At every moment a boolean tree's parent is true exactly when all of its children are true, at every depth, after any sequence of adding, removing and updating sensors; an aggregate's rule is applied on every update of a child it was given, with all its children, and to no other parent. The parent and child relations always mirror each other, removing links stops the updates they caused, and sensors registered or deregistered in any order end in the same tree.",
     ["histories", "inputs"], "all tree shapes and operation sequences",
     "tests build one or two small trees with a few updates",
     ["katcp/sensortree.py"],
     [("generic tree links and propagation", "katcp/sensortree.py GenericSensorTree"),
      ("boolean rule", "katcp/sensortree.py BooleanSensorTree"),
      ("aggregates with delayed registration", "katcp/sensortree.py AggregateSensorTree")])
prop("C19", "Query replies list exactly the matching items and count them",
     "For every query request of a device server (help, sensor list, sensor value, client list, version list, timeout hints), the informs sent before the reply describe exactly the items that match the query, each once and, for named items, in sorted order, and the count in the reply equals the number of informs. An exact name matches only itself, a pattern between slashes matches exactly the names it matches as a regular expression, no name matches everything, and an unknown name or bad pattern yields a failure with no informs.",
     ["inputs", "configurations"], "all sensor/request populations and filter arguments",
     "tests query fixed devices with three or four sensors",
     ["katcp/server.py"],
     [("queries", "katcp/server.py DeviceServer.request_help/request_sensor_list/request_sensor_value/request_client_list/request_version_list/request_request_timeout_hint"),
      ("name filter", "katcp/server.py construct_name_filter")])
prop("C20", "Asynchronous waits resolve exactly when their condition holds",
     "A wait on an event, on a state, on any of several futures or on some of several futures resolves exactly when its condition first holds, with the value that made it hold, and with a timeout error exactly when its timeout passes first; a wait started when the condition already holds resolves at once. Every waiter registered is released, clearing an event affects only later waiters, and a state can only take its declared values.",
     ["histories", "schedules"], "all sequences of waits, sets, clears, resolutions and timeouts",
     "tests check a few linear orders",
     ["katcp/core.py"],
     [("AsyncEvent and AsyncState", "katcp/core.py AsyncEvent/AsyncCallbackEvent/AsyncState"),
      ("combinators", "katcp/core.py until_any/until_some/future_timeout_manager/until_later")])
prop("C21", "Time units follow the protocol version everywhere",
     "Wherever a time or period crosses the wire (sensor readings, sampling periods, log informs, timeouts converted by the client and typed timestamps; timeout hints and the strict timestamp type are defined in seconds), it is in milliseconds under protocol version 4 and in seconds from version 5 on, and converting to the wire unit and back gives the same time to within the wire resolution. Log informs carry level, timestamp, logger name and text in that order.",
     ["inputs", "configurations"], "all times and both protocol majors at every conversion point",
     "tests check isolated literals at some of the conversion points",
     ["katcp/core.py", "katcp/kattypes.py", "katcp/sampling.py", "katcp/server.py", "katcp/client.py"],
     [("timestamp types", "katcp/kattypes.py Timestamp/TimestampOrNow"),
      ("sampling period", "katcp/sampling.py SampleStrategy.get_strategy/get_sampling_formatted/SamplePeriod"),
      ("log informs and client conversion", "katcp/server.py DeviceServerBase.create_log_inform, katcp/client.py DeviceClient.convert_seconds")])
prop("C22", "Device logging honours the level set and names levels consistently",
     "A log message is sent to clients if and only if its level is at or above the device's current log level, with the level's own name; setting the level by any valid name takes effect and is reported back by the log-level request, and an invalid name is refused and changes nothing. Level names and level numbers map one to one, and a log inform received by a client is forwarded to Python logging at the corresponding severity.",
     ["inputs", "histories"], "all levels, names and messages",
     "tests check a few levels",
     ["katcp/server.py"],
     [("DeviceLogger", "katcp/server.py DeviceLogger"), ("log-level request", "katcp/server.py DeviceServer.request_log_level")])
prop("C23", "A resource exposes exactly the requests and sensors its rules allow",
     "A resource client offers exactly those requests its configuration allows (excluded ones never; under control everything else; without control only those always allowed), under predictable names, keeps that set in step as the server's interface changes, and never offers a request the server does not have. Sampling strategies a user sets on a resource or container are kept across reconnections and applied to sensors that appear later, setting a strategy on one sensor does not touch others, and readings reach every registered listener in order.",
     ["histories", "configurations"], "all rule combinations and interface change sequences",
     "tests use one configuration and a static interface; the stable suite excludes the resource client tests entirely",
     ["katcp/resource_client.py", "katcp/resource.py"],
     [("request and sensor tables", "katcp/resource_client.py KATCPClientResource._add_requests/_remove_requests/_add_sensors/_remove_sensors"),
      ("strategy cache and listeners", "katcp/resource_client.py KATCPClientResource.set_sampling_strategies/reapply_sampling_strategies, katcp/resource.py KATCPSensor/KATCPResource")])
prop("C24", "Servers offer exactly the requests their protocol flags permit",
     "A request handler that declares a minimum protocol version or required protocol flags is offered by a server exactly when the server's declared protocol meets that requirement, in help and in dispatch alike, through any chain of subclasses; handlers without such a declaration are always offered. Every offered handler has documentation, and redefining or disabling a handler in a subclass affects only that subclass.",
     ["configurations", "programs"], "all class hierarchies, protocol declarations and requirements",
     "tests define two or three fixed classes",
     ["katcp/core.py", "katcp/server.py", "katcp/kattypes.py"],
     [("metaclasses", "katcp/core.py DeviceMetaclass/DeviceServerMetaclass"),
      ("requirement decorators", "katcp/kattypes.py minimum_katcp_version/has_katcp_protocol_flags/request_timeout_hint")])
prop("C25", "Server-wide announcements and connection tables are exact",
     "A message broadcast by the server reaches every client connected at that moment exactly once and no one else; a newly connected client first receives the version announcements of the server's protocol, before anything else. The server's client list and client table contain exactly the connections that are open, an orderly disconnection tells the client why as the last thing before closing (also when the client is slow to read, within the disconnection timeout, whatever else is sent meanwhile), and a connection that fails while being written to is removed without affecting the others.",
     ["histories", "fault_sequences"], "all sequences of connects, disconnects, broadcasts and write failures",
     "tests use one or two well-behaved clients",
     ["katcp/server.py"],
     [("connection handling", "katcp/server.py KATCPServer._handle_stream/_disconnect_client/_stream_closed_callback/send_message/mass_send_message"),
      ("announcements", "katcp/server.py DeviceServer.on_client_connect/on_client_disconnect, DeviceServerBase.mass_inform")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
