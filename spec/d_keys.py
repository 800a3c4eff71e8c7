QP = 'bin/router/src/query_planner'
prop('C19', 'Only identical operations, requests and entities share a plan or an answer',
 'Two operations use the same cached plan only if they are the same operation up to name and the order of arguments and variables. Two requests share a response, two subgraph requests share a call, and two representations share an entity only if they agree in everything that decides the result: operation, variables, extensions and the headers considered; for a subgraph request method, endpoint, body and headers; for an entity its values.',
 ['inputs'], 'every pair of operations of five families, of requests, of subgraph requests and of entity representations built from the stated pieces',
 'sharing goes wrong only for a particular pair among all pairs of inputs, and then one client silently gets the result of another',
 [QP + '/ast', PL + '/normalize.rs', PL + '/mod.rs', EX + '/executors/dedupe.rs', EX + '/response/value.rs'],
 [('hash of an operation', QP + '/ast/hash.rs'), ('hash of an operation', QP + '/ast/operation.rs'), ('fingerprint of a request', PL + '/mod.rs'), ('fingerprint of a subgraph request', EX + '/executors/dedupe.rs'), ('hash of an entity', EX + '/response/value.rs')],
 [run('h_key_operation', family=f, timeout=200, reach=['same', 'different'], thorough=dict(full=1)) for f in range(5)] + [run('h_key_request', timeout=200, reach=['same', 'different']), run('h_key_subgraph', reach=['same', 'different']), run('h_key_entity', reach=['same', 'different'])],
 '77 to 270 operations per family (nesting of inline fragments, kinds and nesting of argument values, variables with types and defaults, @skip and @include, aliases, introspection), all pairs; pairs of requests with up to two headers, 3 header policies, variables and extensions; pairs of representations with 24 scalar values or 13 objects and 5 selections. ',
 'Collisions of the 64-bit hashes themselves, operations of other shapes.', ['fed', 'keys'], ['requests whose variables or extensions differ only in order may or may not share'], ['keys', 'printed operations', 'hash of requests'])
prop('C20', 'A request in flight is shared without losing, mixing up or repeating an answer',
 'While equal requests overlap, one of them executes and the others get its answer; no request gets an answer of another key or of an execution that had ended before the request began. When the executing request fails or is cancelled, another one takes over, so every request that is not cancelled gets an answer, and only its own failure.',
 ['schedules', 'histories'], 'every order of polling, cancelling and ending of up to 3 requests within 5 steps, with each choice of keys, delays and failures, and with answers that are streams',
 'tests run one interleaving of two requests; a lost wake-up or a stale entry needs a cancellation at a particular point',
 [EX + '/executors/inflight.rs'], [('executions in flight', EX + '/executors/inflight.rs')],
 [run('h_inflight', timeout=300, reach=['shared', 'own'], thorough=dict(steps=6))],
 '3 requests, 2 keys, 5 scheduling steps (then to the end in order), one cancellation. ', 'More requests; parallel threads (the steps interleave at awaits).', ['fed', 'keys'], [], ['who executed', 'answers', 'requests that wait'])
prop('C21', 'Events of a subgraph subscription arrive as sent, in order, however they are cut',
 'Whatever the positions at which the network cuts a stream of server-sent events or multipart parts, each complete event is delivered once, in order, unchanged and without waiting for later bytes; heartbeats, comments and unknown events are not. The stream ends when the subgraph completes it or the connection ends, fails when the connection fails, and goes on otherwise.',
 ['inputs', 'fault_sequences'], 'every stream from the stated forms of events and envelopes, every position of one or two cuts or every byte apart, every point at which the stream stops, with silence, end or failure',
 'tests use a few chunks; a delimiter cut at one particular byte, or inside the text of an event, breaks a stream',
 [EX + '/executors/sse.rs', EX + '/executors/multipart_subscribe.rs'], [('server-sent events', EX + '/executors/sse.rs'), ('multipart', EX + '/executors/multipart_subscribe.rs')],
 [run('h_sse_in', events=1, cuts=1, vary=1, reach=['event', 'ends', 'waits']), run('h_sse_in', events=1, cuts=0, mode=1, vary=0, reach=['event', 'ends', 'waits', 'failed']), run('h_sse_in', events=2, cuts=1, vary=0, reach=['event', 'ends', 'waits'], thorough=dict(cuts=2)),
  run('h_multipart_in', events=1, cuts=0, mode=1, vary=0, reach=['event', 'ends', 'waits', 'failed']), run('h_multipart_in', events=2, cuts=1, vary=0, reach=['event', 'ends', 'waits']), run('h_multipart_in', events=1, vary=1, reach=["event", "ends", "waits"])] +
 [run('h_sse_in', tier='thorough', timeout=800, events=2, cuts=0, mode=1, vary=1), run('h_multipart_in', tier='thorough', timeout=800, events=1, cuts=0, mode=1, vary=1), run('h_sse_in', tier='thorough', timeout=400, events=1, mode=1, cuts=1, vary=0)],
 'up to 2 events of 8 (server-sent) or 9 (multipart) forms with 9 texts (two symbolic characters, boundaries and line breaks in text, multi-byte text), LF and CRLF, 6 content types, 3 preambles. ',
 'More events, lines that end with CR alone, custom scalars, the buffer between a subgraph and its consumers.', ['stream'], ['a part has ended at the latest with the line of the next delimiter'], ['events delivered', 'end of the stream'])
prop('C22', 'A client of a subscription reads exactly the responses that were produced',
 'A client that reads the stream of its subscription by the rules of its protocol (server-sent events, incremental delivery, multipart over HTTP) gets each response once, in order and with the same JSON, without bytes held back, and learns of the end exactly when the subscription ends, whatever the heartbeats between responses.',
 ['inputs', 'schedules'], 'every sequence of up to 2 responses from the stated texts, with pauses and heartbeats in between, in the three protocols',
 'a response with a line break or the boundary in it breaks the framing of its protocol only then',
 [PL + '/sse.rs', PL + '/multipart_subscribe.rs'], [('server-sent events', PL + '/sse.rs'), ('multipart', PL + '/multipart_subscribe.rs')],
 [run('h_stream_out', events=2, reach=['ends', 'open'])],
 '2 responses of 8 texts (two symbolic characters, line breaks of each kind between tokens, boundaries in text, multi-byte text), a pause before each, heartbeats never or always due. ',
 'More responses, websockets.', ['stream'], ['the receiver of multipart needs the next delimiter to know that a part has ended only if it does not parse the JSON', 'the heartbeat timer is due at once or never'], ['bytes sent to the client'])
