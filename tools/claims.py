NOT_APPLICABLE = {}
TABLE['C15'] = ('proof', 'Every clause is an obligation on ProtocolFlags (constructor, str, parse_version, eq, supports, '
                'strategy_allowed) for all integers, all flag sets and all byte strings. Trusted: the VC generator, '
                'z3/cvc5, contracts of sorted/join/int/regex. The same clauses also run as executable contracts on '
                'concrete values (bounded, not counted as proved).')
TABLE['C01'] = ('proof', 'Every clause is an obligation on Message (constructor, format_argument, bytes, copy, ==, the helper '
                'constructors) and on parse(bytes(m)), for all types, names, ids and argument lists of any length (generic-'
                'element argument). Trusted: the VC generator, z3/cvc5, the documented semantics of re.sub/re.split/join; '
                'equality is proved for argument lists of up to two elements plus list equality of the host. The same '
                'clauses also run on concrete messages (bounded, not counted).')
TABLE['C02'] = ('proof', 'Contracts on MessageParser.parse (all byte strings, arguments through the contract of _parse_arg), '
                '_parse_arg (all byte strings) and _unescape_match (all 257 escapes). Trusted: the VC generator, z3/cvc5, '
                'the documented semantics of re.sub/re.split. An independent grammar also runs on concrete lines (bounded, '
                'not counted).')
TABLE['C17'] = ('proof', 'Class invariant of ExponentialRandomBackoff (established by the constructor, preserved by failed() and '
                'success()) plus postconditions for every setting and every draw, over the reals; history coverage is by '
                'induction over the invariant. Floats are treated as reals; assertions are assumed enabled.')
TABLE['C24'] = ('proof', 'Contracts on the handler-collecting metaclasses and the requirement decorators: a handler is offered '
                'exactly when the declared protocol meets its requirement, for all versions, all flag sets and up to three '
                'required flags, through every three-level chain of redefinition, disabling, inheritance and protocol change '
                '(with an untouched sibling), and for every request of the library itself. Trusted: the VC generator\'s class '
                'semantics, z3. Help and dispatch over real connections are additionally run on generated hierarchies '
                '(bounded, not counted).')
TABLE['C22'] = ('proof', 'Contracts on every method of DeviceLogger, on the log-level request and on create_log_inform: any '
                'level name (all byte and text strings), any current and message level, with and without a Python logger. '
                'Message texts are a fixed set of formats (literal, with arguments, invalid formats). Trusted: the VC generator, '
                'z3, the logging module contract. Log calls and requests on a running server also run (bounded, not counted).')
TABLE['C21'] = ('proof', 'Contracts on every function through which a time or period crosses the wire: Timestamp(OrNow) both ways '
                'for all times, byte strings and majors, Sensor.format_reading/read_formatted/set_formatted, both inform formatters, '
                'create_log_inform, the sampling handlers (period in and out, for any period literal, strategies replaced by a '
                'recording contract), sensor-value, timeout hints, convert_seconds and the inspecting client. Floats are reals. '
                'The same clauses also run against live servers (bounded, not counted).')
TABLE['C03'] = ('proof', 'Round-trip and refusal contracts on every parameter type through pack/unpack and encode/decode, for every '
                'value of the kind (all integers, all reals plus the infinities, all texts and byte strings, all ASCII hosts '
                'with any port) and every byte string, majors symbolic. Discrete types use fixed choice sets (multi: every '
                'ordered subset of three). Floats are reals; repr/float, struct, Decimal and UTF-8 by their documented '
                'contracts. The same clauses also run on concrete values against an independent reading of the bytes '
                '(bounded, not counted).')
TABLE['C04'] = ('proof', 'Contracts on check/pack/unpack of every type with constraints (any bounds and any value for the numeric '
                'types, any two choices and any text for discrete ones, any text against five patterns), on the missing-value '
                'rules of KatcpType.pack/unpack/get_default for an arbitrary constraint (check/encode/decode of the type '
                'replaced by recording contracts with both outcomes), and on Parameter. Multi-discrete lists: up to three '
                'items. Floats are reals. The same clauses also run on concrete values (bounded, not counted).')
TABLE['C05'] = ('other', 'Contracts on unpack_types, pack_types, every request/inform/unpack_message decorator form (stacked with '
                'return_reply either way), return_reply with direct and pending results and send_reply. Types are ghost types '
                'with arbitrary accept/refuse outcomes, values and versions; all obligations discharged, but the number of '
                'declared parameters is bounded by three and of supplied arguments by five, hence not called a proof for every '
                'signature. The same clauses also run on random signatures of library types on a live server (bounded).')
TABLE['C06'] = ('proof', 'Contracts on DeviceServerBase.handle_message/handle_request, create_exception_reply_and_log, reply, the '
                'connection and request-handle plumbing, return_future and MessageHandlerThread.on_message/run: one reply with the '
                'request\'s name and id for each of 13 kinds of handler outcome (any body, any failure text, any or no id), '
                'returned at once or through a future resolved before, between or after the loop runs, concurrent or not; any '
                'unknown name; informs and replies. Queue of the handler thread for up to three messages. Trusted: the VC '
                'generator, z3, tornado futures. Whole servers (also with a handler thread) run as executable contracts '
                '(bounded, not counted).')
TABLE['C07'] = ('proof', 'Contracts on ClientRequestConnection and on the connection beneath it: the effect of every operation (inform, '
                'reply, reply_with_message, make_reply; through attributes or methods saved earlier) from the two states of a handle, '
                'and the state it leaves, so every history follows by induction; three-step interleavings of two handles (same or '
                'different clients, names and reply objects) show non-interference. Any ids, any byte/ASCII text arguments (up to '
                'three; sampled integers). Trusted: the VC generator, z3. Overlapping scripts also run on live servers (bounded, '
                'not counted).')
TABLE['C08'] = ('proof', 'Loop contracts (Hoare rule: an arbitrary iteration from an arbitrary earlier one) on the read loops of server and '
                'client, coroutines interpreted with real suspension: any line text, either terminator, ready or pending reads, parse '
                'failures of any kind, handlers that return, raise, or fail later, read errors and closing; contracts on the client\'s '
                'dispatch and on the handler thread. Trusted: tornado\'s read_until_regex (packets), the VC generator, z3. Byte streams '
                'in random packets also run against live servers and clients (bounded, not counted).')
TABLE['C25'] = ("proof", "All clauses are discharged for any number of connections in any states; the stream (tornado) is an assumed contract, the flush of an orderly disconnection included.")
TABLE['C11'] = ('proof', 'strategy factory and the three sampling handlers under contract: any names (any number in a bulk request), strategies, parameters and any strategies before')
TABLE['C10'] = ('proof', 'every transition (start, update, each timer, period) of every strategy from every state of its invariant, for all times and readings')
TABLE['C12'] = ('proof', 'cancel from every state of every strategy, and every way the server ends sampling, for any number of clients and sensors')
TABLE['C09'] = ('proof', 'set/set_value with any observers (any number, which may come and go meanwhile), attach, detach, every status/type name, and the formatted round trip of every type under both majors, over the real types; observers that raise and sets nested in observers are excluded')
TABLE['C19'] = ('proof', 'every query request on any population of sensors, requests, clients or extra versions, for any argument: the collection looped over holds exactly the matching items in order, one inform each, and the count is its size; re.compile/search as an unknown relation')
TABLE['C20'] = ('other', 'every operation on events and states from every state (flag, waiters of every kind, deadlines, reacting waiters), until_any of up to three and until_some of up to two futures with any other waiters on them, the timeout manager and the client waits; the number of futures of one combinator call is bounded, everything else is not')
TABLE['C13'] = ('other', 'Contracts on callback_request, future_request, blocking_request, handle_reply, handle_inform, _handle_timeout, _fail_waiting_requests, '
                'stop, disconnect and the close callback, run from the real constructor and connection code over a ghost stream and ioloop: every kind of id, timeout, '
                'callback and outcome, with any ids, times and timeouts, another request outstanding before and after; all obligations discharged, but with at most three '
                'requests outstanding at once, hence not called a proof for any number. Random longer histories run on the real client (bounded).')
TABLE['C14'] = ('proof', 'announcement handlers from every state (no protocol, any protocol, preset or not) for any text, any version and features, repeated and contradicting announcements, restart; the '
                'id policy of every request api, for every option, any id of the caller and any counter value, other requests outstanding or not; conversion for any time and version. What a version string says is C15\'s contract')
TABLE['C18'] = ('other', 'boolean trees: every operation from any state of the tree invariant, any number of sensors, links and parents (proved); calls with several children at once (at most two) and '
                'aggregates (two over three sensors, every order of setting up and two further operations) bounded; random longer histories on the real code')
TABLE['C23'] = ('other', 'the real resource client, sensors, container and groups on ghost inspecting clients: request rules for any names and any rule sets; strategies set before, during and after '
                'whatever happens to the sensor and the link, readings of any value through up to three listeners, two children (three when one is added) in a container - bounded in the number of sensors and steps; '
                'random longer histories on the real code over sockets')
TABLE['C16'] = ('other', 'the real client and its synchronisation loop on a ghost wire client: first synchronisation, one change after it, lookups in between, with a failure or malformed answer at every '
                'point, and events while a synchronisation is under way; descriptions are arbitrary, names bounded to two of a kind; random longer histories with more items on the real code over sockets')
