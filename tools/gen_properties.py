#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, run, commit both."""
import json, os

BACK = "derive/src/rpc/backend_impl.rs"
IMPL = "derive/src/rpc/impl_rpc.rs"
PROXY = "src/rpc/servers/proxy.rs"
AX = "src/rpc/servers/axum.rs"
CORE = "core/src/rpc/mod.rs"
SRV = "core/src/rpc/server.rs"
GEN = "core/src/rpc/codegen/mod.rs"
TS = "src/rpc/clients/static/websocket_client.ts"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

NOTEST = "No existing test executes a request: the whole RPC runtime (server and client) is only compiled, never run. "

prop("C01", "Each call runs once and is answered once",
 "Every well-formed method call received over a connection is executed exactly once and answered with exactly one reply on that connection, carrying the call's own id and the value that execution returned. No reply is ever sent that no received request asked for. A call whose connection goes away while it is queued or running is executed at most once and never answered twice.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "every interleaving of any number of connections, every fragmentation and delay of the traffic, every mix of calls, streams, cancels and junk, every instant of connection loss",
 NOTEST + "A sampled test would fix one schedule; duplicated or dropped replies depend on which task runs next and on when the peer goes away.",
 [BACK, IMPL, PROXY, AX, CORE],
 [("request dispatch and reply", IMPL), ("serial request loop", PROXY), ("frame <-> request bridging", AX)],
 ["frames received by the client", "executions recorded inside the backend's methods"])

prop("C02", "Calls run one at a time, in each connection's order",
 "Method bodies of one backend never overlap: whatever the number of connections, results and final state equal those of executing the calls one after another in some order. Calls sent on one connection run in the order they were sent and are answered in that order.",
 ["schedules", "histories"],
 "every interleaving of concurrent clients, including methods that suspend in the middle of a read-modify-write",
 NOTEST + "Overlap or reordering only shows under particular interleavings of several connections with methods that suspend.",
 [PROXY, IMPL, AX], [("one task owns the backend and awaits each request before taking the next", PROXY)],
 ["start/end of every method body", "reply order per connection", "final backend state"],
 [("backend", "the user's state, borrowed mutably by each call", PROXY)])

prop("C03", "Streams deliver every item once, in order, to their caller",
 "For a stream call whose connection stays up and which is not cancelled, the caller receives exactly the items the stream produced, each once, in production order, under the call's own id, all of them if the stream ends. If the connection goes away or the stream is cancelled, what was received is a gap-free prefix of that sequence.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "every number of concurrent streams and calls, every pacing of the items (immediate, delayed, bursty), every interleaving and network delay",
 NOTEST + "Lost, duplicated or reordered items need several tasks emitting concurrently into one connection.",
 [IMPL, PROXY, AX], [("one task per stream forwarding items to the connection's channel", IMPL), ("connection writer", AX)],
 ["items seen by the client vs items yielded by the stream"])

prop("C04", "No stream or slow call starves the rest",
 "However fast, long-lived or endless a stream is, even one that always has its next item ready, calls are still answered, other streams keep delivering, and the stream itself can still be cancelled, each within a bounded time, also when the server has a single worker thread. While a method is suspended, streams that are already running keep delivering.",
 ["schedules", "inputs", "configurations"],
 "every mix of always-ready, endless, paced and idle streams with slow and fast calls on one worker",
 NOTEST + "It is a liveness property over all schedules; a stream that never suspends has to be tried on a single worker to matter.",
 [IMPL, PROXY], [("each stream runs as its own task and yields between items", IMPL)],
 ["time from request to reply", "time between items", "time from cancel to silence"])

prop("C05", "Cancel ends exactly the stream it names",
 "After a cancel has been processed - at the latest when a request sent after it on the same connection has been answered - no further item of that stream is delivered, and the stream is dropped in bounded time. No other stream or call is affected, and cancelling an id that names no running stream (unknown, finished, or a method call) does nothing and gets no reply. Starting a stream under an id that is still in use ends the earlier one, so that every running stream can be cancelled.",
 ["schedules", "histories"],
 "every order of start, items, completion, cancel, repeated cancel and id reuse, over every interleaving",
 NOTEST + "Whether a cancel races with items, completion or an id being reused depends on the schedule.",
 [BACK, IMPL, SRV, PROXY], [("abort of the stream's task", BACK), ("map from id to running stream", SRV)],
 ["items after the cancel", "drop of the stream object"],
 [("subscribers", "running streams by request id", SRV)])

prop("C06", "Connections never see or disturb each other's requests",
 "Request ids are private to a connection: when several connections use the same ids at the same time, each receives only replies and items of its own requests. A cancel, an id reuse or an error on one connection never ends, delays indefinitely or alters a call or stream of another.",
 ["schedules", "histories", "configurations"],
 "any number of connections that use equal, overlapping or disjoint ids, in every interleaving",
 NOTEST + "It needs at least two simultaneous connections whose ids collide; every generated client starts counting at 1.",
 [PROXY, BACK, AX], [("per-connection reply channel and per-connection stream map", PROXY)],
 ["frames received per connection, attributed by a tag unique to each request"],
 [("subscribers", "running streams, keyed by connection and id", PROXY)])

prop("C07", "A vanishing client harms nobody else",
 "A client may disappear at any instant - during the handshake, in the middle of a frame, with calls queued or running, with streams open, with or without a close message - and all calls and streams of other connections still complete correctly. The backend keeps accepting and serving new connections afterwards.",
 ["schedules", "fault_sequences", "crash_points"],
 "every instant and manner of loss (close frame, FIN, reset, silent loss) of any number of connections",
 NOTEST + "The failing instant (after the request was queued, before its reply is sent) is a matter of timing.",
 [IMPL, PROXY, AX], [("reply to a gone connection is discarded", IMPL), ("serving task outlives every connection", PROXY)],
 ["replies and items of the surviving connections", "a probe connection opened after the faults"])

prop("C08", "Streams are released when their connection or server ends",
 "Once the server has learnt that a connection is gone, all streams started over it are dropped within bounded time, even streams that never produce another item, and even when a request of that connection was still queued. When all handles to a served backend are gone, the backend itself and all its streams are dropped. A stream map that is dropped by its owner stops all its streams.",
 ["schedules", "fault_sequences", "crash_points"],
 "every instant of loss or shutdown relative to stream start, items, idle periods and queued requests",
 NOTEST + "A leak needs a stream that is idle at the moment of loss; nothing observable fails in an ordinary run.",
 [PROXY, SRV, IMPL, AX], [("drop of the per-connection stream map aborts its tasks", SRV), ("disconnect notification", PROXY)],
 ["drop of every stream object", "drop of the backend", "number of live tasks"])

prop("C09", "A malformed request gets one error reply and nothing else",
 "A text message that is not a valid request - not JSON, wrong shape, missing or bad id, unknown namespace or method, wrong number or type of arguments - gets exactly one error reply, carrying the request's id whenever the message is an exec request with a valid id and no id otherwise, in order with the other replies. It executes nothing, changes no state, leaves running streams alone, and the connection stays usable; non-text messages are ignored.",
 ["inputs", "schedules", "histories"],
 "every malformed message at every position among calls, streams and cancels",
 NOTEST + "The space of malformed messages and of what they can disturb is unbounded.",
 [AX, CORE, BACK, PROXY], [("decode errors travel through the same queue as requests", AX), ("dispatch error reply", BACK)],
 ["error frames vs malformed messages sent", "backend executions"])

prop("C10", "Failures inside user code stay contained",
 "A result or stream item that cannot be serialised yields an error reply with the call's id in its place, and the stream continues with its next item. A stream that panics ends only itself, and a method that panics fails only its own call, which is answered by an error reply with its id. All other calls, streams and connections, present and future, are served as if the failure had not happened.",
 ["inputs", "schedules", "fault_sequences"],
 "every placement of failing results, failing items and panics among concurrent work, including panics after a suspension",
 NOTEST + "It quantifies over where the failure falls in the concurrent history.",
 [IMPL, PROXY, CORE, "core/src/rpc/error.rs"], [("fallback to an error reply", CORE), ("stream task isolation", IMPL), ("panic containment in the serving task", PROXY)],
 ["reply to the failing call", "service of all other requests"])

prop("C11", "A slow or stalled reader delays nobody else and loses nothing",
 "A client that reads slowly or stops reading for any time delays no other connection. When it reads again it receives everything it is owed, complete, unaltered and in order, however the network splits, merges or delays the bytes of requests and replies.",
 ["schedules", "fault_sequences"],
 "every pattern of short reads and writes, window exhaustion, stalls and latencies on every connection",
 NOTEST + "Backpressure and fragmentation never occur in a unit test.",
 [AX, PROXY], [("unbounded per-connection reply queue", PROXY), ("independent reader and writer halves", AX)],
 ["latency of other connections during the stall", "frames received after it"])

prop("C12", "A client promise settles only with its own reply",
 "A request made through the generated client resolves with the data of the first reply that carries its own id and never with that of another request, and settles at most once, whatever the order of the replies, however many requests and streams are in flight, and even if replies are duplicated or carry unknown ids. Ids of requests and streams issued by one client never repeat.",
 ["schedules", "histories", "inputs"],
 "every number of overlapping requests, every reply order, duplicates and unknown ids",
 "The client is a static text to the Rust tests: nothing runs it. Mix-ups need overlapping requests answered out of order.",
 [TS], [("id counter and per-request filter", TS)], ["value of every settled promise vs the value sent for its id"])

prop("C13", "Client messages are sent once, in order, whatever the connection does",
 "Every message the client issues - before the first connection, while connecting, while the server is refusing, or while connected - is put on an open connection exactly once and in the order of issue. A message that has been put on a connection is never sent again, also not after that connection is lost.",
 ["schedules", "fault_sequences", "histories"],
 "every relative timing of issuing, connecting, refusal, loss and reconnection",
 "The client is a static text to the Rust tests: nothing runs it. Losing or doubling a message needs a connection event between issue and send.",
 [TS], [("sending is deferred until the socket is open", TS)], ["messages received by the server vs messages issued"])

prop("C14", "The client reconnects with its stated back-off",
 "While anything is still waiting for data and the connection is refused or lost, the client keeps trying to reconnect, waiting 100, 200, 1000 and then always 3000 ms before successive attempts and starting again at 100 ms once a connection has been open. Asking for something while it waits may connect at once. Once the server is reachable and stays so, a client with something waiting is connected within one such wait, and requests made from then on succeed.",
 ["fault_sequences", "schedules", "crash_points"],
 "every sequence of refusals, losses, server restarts and outages of any length",
 "The client is a static text to the Rust tests: nothing runs it. The schedule over outages needs a clock nobody fakes.",
 [TS], [("reopen timer", TS)], ["times of connection attempts", "success of requests after recovery"],
 [("reopenCount", "attempts since the last open connection", TS)])

prop("C15", "Every client request settles",
 "Every promise returned by the generated client settles in bounded time once the server is reachable: it resolves with the reply, or rejects if the server answers with an error or the connection that carried the request is lost. No request is left pending for ever.",
 ["schedules", "fault_sequences", "crash_points"],
 "every instant of connection loss or server restart relative to every request, every error reply",
 "The client is a static text to the Rust tests: nothing runs it. It is a liveness property over fault sequences.",
 [TS], [("reply dispatch", TS), ("socket close handling", TS)], ["state of every promise after faults have stopped"])

prop("C16", "The client holds one connection and ignores abandoned ones",
 "The client never has more than one connection opening or open at a time, closes it once the last request or subscriber that waited for data has gone and nothing is left to be sent, and does not reconnect while idle. Late events of a connection it has abandoned never affect the current one, so requests issued one after the other, each after the previous one settled, all succeed on a healthy network.",
 ["schedules", "histories"],
 "every timing of closing handshakes against new requests, every sequence of idle and busy periods",
 "The client is a static text to the Rust tests: nothing runs it. The stale close event races with the opening of the next connection.",
 [TS], [("open/close/reopen state machine", TS)], ["sockets alive at each instant", "outcome of sequential requests"])

prop("C17", "Client stream subscribers get their stream, until they stop",
 "Every subscriber of a stream obtained from the generated client is called with exactly the items of that stream that arrive between its subscription and its unsubscription, in order, and with nothing of other streams or requests. Unsubscribing one subscriber never affects another. Closing the stream cancels it on the server if its connection is still up or yet to be opened.",
 ["schedules", "histories"],
 "every interleaving of several streams, subscribers, unsubscriptions and closings with arriving items",
 "The client is a static text to the Rust tests: nothing runs it.",
 [TS], [("subscription set and id filter", TS)], ["items passed to each callback", "cancel requests received by the server"])

prop("C18", "End to end, a request takes effect at most once",
 "Across connection loss, reconnection, refusals and server outages, each request issued through the generated client is executed at most once, and if its promise resolved it was executed exactly once and resolved with the value that execution returned. Requests carried by one connection are executed in the order in which they were issued.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "every placement of losses and outages on both sides of the wire",
 NOTEST + "Nothing runs client and server together; double execution needs a loss between execution and reply.",
 [TS, AX, PROXY, IMPL], [("send-once client", TS), ("serial server", PROXY)], ["executions on the server vs settled promises on the client"])

prop("C19", "Every generated function reaches the method it names",
 "Each function of the generated client calls the backend method of the same name in the namespace of that name with the arguments as passed, and yields that method's result or that stream's items: for methods without arguments, namespaces with a custom name, equal method names in different namespaces, and whatever the order in which the linker registered the types and methods.",
 ["schedules", "programs", "inputs"],
 "every registration order, every function of the client, JSON-representable argument values",
 "Tests compare generated text; no generated function has ever been called against a backend.",
 [GEN, SRV, IMPL, BACK, TS], [("client function generation", GEN), ("namespace/method tagged request decoding", IMPL), ("namespace dispatch", BACK)],
 ["method executed and arguments received per client function called"])

prop("C20", "The generated client does not depend on registration order",
 "The generated client contains exactly the namespaces of the backend it is generated for, with each of their types and functions exactly once, and it loads and behaves the same for every order in which types and methods were registered. Generating twice gives the same text.",
 ["schedules", "programs"],
 "every order in which static registration (decided by the linker) can present the members",
 "Tests see the single order their binary was linked in.",
 [SRV, GEN, "core/src/lib.rs", "derive/src/impl_inventory.rs"], [("registry iteration, grouping by namespace", SRV)],
 ["names exported by the generated client per registration order"])

prop("C21", "Finished streams retain nothing on the server",
 "What the server retains for the streams of a connection is bounded by the number of streams still running on it: entries of streams that have ended, failed or been cancelled are discarded at the latest when the next stream is started, however many streams a long-lived connection has started.",
 ["histories", "schedules"],
 "every history of started, ended, failed and cancelled streams on a connection that stays open",
 NOTEST + "The growth is invisible in a short run.",
 [SRV, BACK], [("removal of finished entries", BACK)], ["number of retained entries after each stream start"],
 [("subscribers", "running streams by request id", SRV)])

PURE = "Only a handful of hand-written types are compared as text; "
prop("C30", "A derived schema accepts exactly what serde accepts",
 "For every supported struct or enum definition and serde attribute set, the generated schema accepts a JSON value exactly when deserialising it into the Rust type succeeds.",
 ["programs", "inputs"], "all supported definitions, all JSON values",
 PURE + "schemas are never run.", ["derive/src/impl_struct.rs", "derive/src/impl_enum/mod.rs"], [("schema expansion", "derive/src/impl_struct.rs")], ["generated schema text"])
prop("C31", "Schema and TypeScript type of a Rust type agree",
 "For every supported definition, the generated schema and the generated TypeScript type describe the same set of values.",
 ["programs"], "all supported definitions", PURE + "the two texts are never compared with each other.",
 ["derive/src/impl_struct.rs", "derive/src/impl_enum/mod.rs", "core/src/build_ins.rs"], [("type_def and schema expansion", "derive/src/impl_struct.rs")], ["generated texts"])
prop("C32", "Built-in types map to schemas with their exact value range",
 "The schema of every built-in type accepts exactly the JSON encodings of its values, including numeric limits.",
 ["inputs"], "all values of all built-in types", PURE + "no schema is evaluated.", ["core/src/build_ins.rs"], [("impl_primitive and friends", "core/src/build_ins.rs")], ["schema text"])
prop("C33", "Documentation comments reach the generated client intact",
 "Every documentation comment on an exported type appears once with that type in the generated client and never changes the meaning of the generated code.",
 ["programs"], "all comment texts", PURE + "comments that contain comment terminators are not tried.", ["derive/src/docs.rs", "core/src/rpc/server.rs"], [("doc expansion", "derive/src/docs.rs")], ["generated text"])
prop("C34", "Unsupported definitions are rejected at compile time",
 "A definition the generator cannot represent (unit structs, empty enums, wrong receivers, non-stream sync methods, missing namespace, duplicates) fails to compile with a diagnostic and never produces a wrong client.",
 ["programs"], "all Rust definitions", "The ui tests sample eleven definitions.", ["derive/src/args.rs", "derive/src/rpc/args.rs", "derive/src/lib.rs"], [("abort! diagnostics", "derive/src/rpc/args.rs")], ["compiler output"])
prop("C35", "Generation terminates for recursive types",
 "Generating the client terminates and yields a loadable client for types that refer to themselves directly or mutually.",
 ["programs"], "all recursive type definitions", PURE + "no recursive type is generated.", ["core/src/build_ins.rs", "derive/src/impl_struct.rs"], [("lazy references", "derive/src/impl_struct.rs")], ["generation result"])
prop("C36", "Values survive the JSON round trip between client and server",
 "Every value of an argument or result type that passes the schema arrives on the other side as the same value.",
 ["inputs"], "all values of all supported types, including maps, sets and 64/128-bit integers", PURE + "no value is sent.", ["core/src/build_ins.rs", TS, CORE], [("serde_json / JSON.stringify", CORE)], ["values on both sides"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
