#!/usr/bin/env python3
"""Emits /verif/properties.jsonl and /verif/MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, technique, level_note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, technique=technique, level_note=level_note, state=state or [])

ENC = "pkg/encoding/"
COMMON = "Assurance is for the executions explored (counts in evidence), not a proof; trusts the Go runtime, the race detector and the harness's independent reference codecs."
PROPS = [
P("C01", "Varint codec is exactly the protocol's encoding for every 64-bit value",
  "Encoding any unsigned 64-bit integer produces exactly the SPOP/peers variable-length encoding, and both the slice decoder and the stream decoder return that integer back while consuming exactly the encoded bytes, whatever bytes follow. A truncated encoding is reported as an unterminated sequence and a too small destination as insufficient space. No input makes the codec panic, read past the input or write outside the destination.",
  ["inputs"], "every uint64, every byte string offered to the decoders, every destination size",
  "One value (0x1234) is encoded and decoded by the tests; length-class boundaries, 64-bit extremes, truncation and short buffers are never reached.",
  [ENC+"varint.go"], [("PutVarint / Varint / ReadVarint", ENC+"varint.go")], ["return values and bytes of the exported codec functions"],
  "runtime monitoring: differential monitor against an independent reference codec, canary-guarded buffers, race/checkptr build",
  "Every class boundary (+-3), every power of two (+-2), all 0..70000 and seeded random values and byte strings are compared with an independent codec. "+COMMON),
P("C02", "Key/value writing and scanning are exact inverses, writes all-or-nothing",
  "Whatever sequence of typed key/values is written to a buffer of any size, every write either appends exactly the protocol encoding of that one entry or returns an error and leaves what was written so far untouched, without panicking. Scanning the result yields the same names, types and values in the same order and then ends without error, the typed accessors agree with the generic one, and the name comparison methods all agree with byte equality.",
  ["inputs", "histories"], "all sequences of typed writes, all key/value lengths, all destination sizes including exactly full and one byte short",
  "Tests write a single string pair into a 16 KB buffer; no other type, no boundary length and no full buffer is exercised.",
  [ENC+"kvwriter.go", ENC+"kvscanner.go", ENC+"encoding.go"], [("KVWriter.Set*", ENC+"kvwriter.go"), ("KVScanner.Next, KVEntry accessors", ENC+"kvscanner.go")],
  ["KVWriter.Bytes/Off after every call", "KVScanner.Next/KVEntry accessors"],
  "runtime monitoring: reference-model monitor checked after every call of generated write histories, every buffer size around the need",
  "Each call's outcome and the whole buffer are compared with a reference encoder after every step. "+COMMON),
P("C03", "Action lists are encoded exactly, whatever their size, order or failures",
  "For every sequence of set and unset actions of any type, scope, name and value length, starting from any buffer, the produced bytes are exactly the protocol encoding of the successful actions in call order. Growing the output never loses, reorders or changes earlier actions. An action that is refused with an error leaves no trace in the output.",
  ["inputs", "histories"], "all action sequences, name/value lengths, initial buffer sizes and offsets, valid and invalid addresses",
  "The test encodes one string action into a large buffer; growth, the other types, failures and length boundaries are unreached.",
  [ENC+"actionwriter.go"], [("grow, varintLen, actionHeader, Set*/Unset", ENC+"actionwriter.go")], ["ActionWriter.Bytes/Off after every call"],
  "runtime monitoring: reference-model monitor of generated action histories with an independent encoder and decoder",
  "Output compared byte for byte with a reference encoder after every action, over growth boundaries. "+COMMON),
P("C04", "Decoding hostile SPOE payloads never panics and reports malformation",
  "For every byte string, scanning it as messages and key/values terminates without panicking and never exposes a byte outside the string, even when the slice has spare capacity. Exactly the entries before the first malformation are delivered; a truncated or ill-typed payload ends in an error that stays reported, and a well-formed one ends without error.",
  ["inputs"], "all byte strings (random, mutated valid, truncated at every offset), all spare capacities, all argument counts",
  "No test decodes a malformed payload; the space of byte strings is unbounded.",
  [ENC+"kvscanner.go", ENC+"messagescanner.go", ENC+"varint.go"], [("bounds handling in KVScanner.Next and MessageScanner.Next", ENC+"kvscanner.go, "+ENC+"messagescanner.go"), ("Error()", ENC+"kvscanner.go")],
  ["scan results, Error(), panics, slices escaping the input"],
  "runtime monitoring: differential monitor against an independent tolerant parser over mutated/truncated/hostile inputs with poisoned spare capacity",
  "Truncation at every offset and structured/random mutation of generated payloads. "+COMMON),
P("C05", "Every message of a NOTIFY reaches the handler once, in order, with its own args",
  "When HAProxy sends a frame with any number of messages, each with any number of arguments including none, the handler is called exactly once per message in frame order, sees that message's name and exactly that message's arguments, and all actions go into the one reply in order. How many of a message's arguments the handler chooses to read has no influence on what it sees of the other messages. A frame that is malformed anywhere is never acknowledged.",
  ["inputs", "histories"], "all message/argument counts and types, all handler consumption patterns",
  "Tests send at most one message per frame, with at most one argument; HAProxy bundles all messages bound to the same event.",
  ["spop/protocol.go", ENC+"messagescanner.go", ENC+"kvscanner.go"], [("onNotify loop and Discard", "spop/protocol.go"), ("per-message argument count", ENC+"kvscanner.go")],
  ["handler invocations through a running Agent; ACK frames on the wire"],
  "runtime monitoring: online monitor of handler call traces and ACKs against the sent frame, seeded consumption patterns",
  "A protocol-level client drives the real Agent; handler views are compared with what was sent. "+COMMON),
P("C06", "Struct unmarshalling sets exactly the matching fields, safely",
  "Unmarshalling key/values into a struct sets each tagged field to the value of its key with the matching type, leaves fields without a key alone except optional pointers, which become nil, ignores unknown keys and reports any type mismatch, unsupported field or malformed input as an error. It never panics, whatever struct type and payload it is given. Values stored in the struct stay unchanged when the source buffer is overwritten, and bytes and pointers taken from a struct keep their contents when it is filled again.",
  ["inputs", "programs"], "all supported field types x wire types x presence/order/duplication, reused structs, struct shapes built at run time, malformed payloads",
  "Tests cover four happy cases and four errors; pooled structs, aliasing, most type pairs and unsettable fields are untested.",
  [ENC+"kvunmarshal.go"], [("Unmarshal, setFieldValue, setValue", ENC+"kvunmarshal.go")], ["struct contents after Unmarshal, after source overwrite, errors, panics"],
  "runtime monitoring: reference-model monitor over reflect-generated struct types and payloads, source buffer poisoned after decode",
  "The full field-type x wire-type matrix plus seeded struct/payload histories. "+COMMON),
P("C07", "Pooled encoders and scanners are exclusively owned and come back clean",
  "An object obtained from any of the acquire functions belongs to its caller alone until it is released, under any number of concurrent users, and shows no trace of earlier use: no leftover name, value, error, position or data. Work done with it gives the same result as with a freshly constructed one.",
  ["schedules", "histories"], "all interleavings of acquire/use/release by many goroutines, with objects released in every state including after errors",
  "No test shares the pools between goroutines or reuses an object that saw an error.",
  [ENC+"actionwriter.go", ENC+"kvwriter.go", ENC+"kvscanner.go", ENC+"messagescanner.go"], [("sync.Pool Acquire*/Release*", "pkg/encoding")],
  ["object state right after acquire; results under concurrency; race detector reports"],
  "runtime monitoring: ownership and cleanliness monitor under concurrent stress with the Go race detector",
  "Ownership table keyed by object identity plus content oracle, under -race. "+COMMON),
P("C08", "The slice buffer is a faithful FIFO of bytes",
  "For every sequence of writes, reads, growth and resets that stays within the announced space, the buffer hands back exactly the bytes written, in order and once, its length is written minus read, and growing guarantees the requested space without changing unread bytes. After a reset it behaves like a new buffer of at least the same size.",
  ["histories"], "all operation sequences, sizes and offsets",
  "The package has no tests of its own.",
  ["pkg/buffer/slicebuf.go"], [("SliceBuffer offsets, Grow", "pkg/buffer/slicebuf.go")], ["ReadBytes/WriteBytes/Len after each operation"],
  "runtime monitoring: model-based monitor (reference byte queue) over generated operation histories",
  "Model compared after every operation. "+COMMON),
P("C09", "Every request frame gets exactly one matching reply with its own actions",
  "Each NOTIFY whose handler finishes and whose reply fits is answered by exactly one ACK carrying the same stream and frame identifiers and exactly the actions this handler call produced, under any number of concurrent connections and requests. No reply, argument or action of one request or connection ever shows up in another.",
  ["schedules", "inputs", "histories"], "all interleavings of connections/requests, identifier values, payload sizes, handler durations",
  "Unit tests make one exchange on one connection; the end-to-end run checks only the first argument's name.",
  ["spop/protocol.go", "spop/frames.go", "spop/frame.go", "spop/scheduler.go"], [("frame pool ownership", "spop/frame.go"), ("onNotify/AckFrame", "spop/protocol.go, spop/frames.go"), ("async scheduler", "spop/scheduler.go")],
  ["handler view, ACK frames per connection"],
  "runtime monitoring: exactly-once/isolation checker over recorded histories with unique tokens, race-detector build, TCP and in-memory transports",
  "Unique tokens make every leak attributable; several worker counts (CPU affinity) and GOMAXPROCS values. "+COMMON),
P("C10", "The byte stream an agent writes is always a sequence of whole valid frames",
  "On every connection, whatever the peer sends and whenever it stops, the bytes written by the agent parse as whole frames of a valid type with a correct length, final flag and well-formed contents: at most one AGENT-HELLO which comes first, ACKs, and at most one AGENT-DISCONNECT as the last frame. Frames are never interleaved with each other, even when several requests of one connection are processed at once; only the end of the connection may cut the last one.",
  ["schedules", "fault_sequences"], "all interleavings of concurrent replies and teardown on one connection, all transports that may delay between writes",
  "Tests never have two frames in flight on one connection nor end a connection while a reply is being written.",
  ["spop/frame.go", "spop/frames.go", "spop/protocol.go", "spop/agent.go"], [("frame.writeTo", "spop/frame.go"), ("AckFrame/AgentDisconnectFrame writers", "spop/frames.go"), ("protocolClient.Close", "spop/protocol.go")],
  ["every byte written to the connection"],
  "runtime monitoring: strict online stream parser over everything the agent writes, with write-level delay injection at the transport",
  "The transport yields between the agent's writes so unsynchronised frame writers are interleaved. "+COMMON),
P("C11", "Connection opening and frame-size negotiation are enforced both ways",
  "A connection starts with HAPROXY-HELLO or is closed without calling the handler; a valid HELLO offering 256 to 2^31-1 bytes is answered by one AGENT-HELLO with version 2.0, that frame size and no capability that was not offered, and any other or missing offer is refused without an AGENT-HELLO. Afterwards frames up to exactly the negotiated size are accepted, a longer one closes the connection without reaching the handler, and the agent never writes a frame longer than negotiated. A second HELLO gets no AGENT-HELLO and changes none of that; a HELLO marked as health check gets its AGENT-HELLO and the connection is closed.",
  ["inputs", "histories"], "all offers, all frame sizes around the limits (below, at, above, smaller and larger than the initial buffer), all first frames",
  "Three offers and three read sizes are tested in isolation, and the write side limit only with one oversized offer.",
  ["spop/protocol.go", "spop/frame.go", "spop/frames.go"], [("onHAProxyHello", "spop/protocol.go"), ("readFrom limit", "spop/frame.go"), ("AckFrame.writeTo limit", "spop/frames.go")],
  ["frames on the wire, handler calls, connection close"],
  "runtime monitoring: protocol-conformance monitor over generated sessions at quiescence (virtual-time bubbles)",
  "Offers and frame sizes at all boundaries; negative facts are decided at quiescence, not by timeouts. "+COMMON),
P("C12", "Panics, malformed frames and broken connections stay contained in the agent",
  "A panicking handler costs at most that request, and a malformed or hostile frame or an abruptly broken connection costs at most that connection: the agent process survives, allocates no memory for data that was only announced, keeps accepting connections and keeps answering all other requests. This holds however often such failures happen and whichever bytes are sent.",
  ["fault_sequences", "inputs", "schedules"], "all byte streams, all handler panics, all disconnect points, repeated without bound",
  "One end-to-end case panics once; no malformed frame and no repetition beyond the worker count is tested.",
  ["spop/agent.go", "spop/scheduler.go", "spop/protocol.go"], [("wrapPanic in Agent.Serve, queueWorker and onNotify", "spop/agent.go, spop/scheduler.go, spop/protocol.go")],
  ["victim connections' replies while attackers fail; process survival"],
  "runtime monitoring with fault injection: hostile-peer campaign with victim connections as liveness oracle at quiescence",
  "Far more failures than workers are injected; victims must still be served. "+COMMON),
P("C13", "A handler's context lives exactly as long as its connection",
  "The context given to a handler carries the agent's base context, is not cancelled while its connection is alive, and is cancelled once that connection ends: by HAPROXY-DISCONNECT, end of stream or reset, or by cancellation of the base context. This holds even when all workers are occupied by handlers waiting for it, as long as the agent's request queue is not full, and the end of one connection never cancels the handlers of another.",
  ["schedules", "fault_sequences", "histories"], "all orders of requests, disconnects and connection endings over several connections, including full occupation of the workers",
  "One end-to-end case waits for one cancellation; early cancellation, isolation and saturation are not tested.",
  ["spop/protocol.go", "spop/agent.go", "spop/scheduler.go"], [("WithCancelCause per connection, Close, onHAProxyDisconnect", "spop/protocol.go")],
  ["ctx.Done observed in handlers relative to connection events"],
  "runtime monitoring: online monitor of context state at quiescent points of virtual-time executions",
  "Cancellation and non-cancellation are both decided at quiescence in virtual time. "+COMMON),
P("C14", "Saturation never loses, duplicates or wedges requests",
  "However many requests arrive at once and however few workers are free, every request is handled exactly once and answered as long as handlers return and peers read their replies; nothing is lost, duplicated or stuck when the internal queue fills up, and the agent then continues with new requests. A request is handled while other handlers are still blocked, as long as one worker is free.",
  ["schedules", "histories"], "all arrival orders, burst sizes around the queue capacity and beyond, worker counts, handler blocking patterns",
  "Tests never have more requests outstanding than the queue holds.",
  ["spop/scheduler.go", "spop/protocol.go"], [("bounded queue Put/Get with condition variables", "spop/scheduler.go"), ("queueWorker", "spop/scheduler.go")],
  ["handler start/finish events, ACKs, quiescent states"],
  "runtime monitoring: conservation and progress checker at quiescence, several worker counts via CPU affinity, gate-controlled handlers",
  "A wedge shows up as a quiescent state with outstanding requests, without wall-clock verdicts. "+COMMON),
P("C15", "Behaviour depends only on the byte stream, not on its segmentation",
  "For both the SPOE agent and the peer server, how the transport splits or merges the incoming bytes, one byte at a time, in arbitrary pieces or everything at once including data right behind the opening handshake, changes neither what the handlers see nor what is answered. A stream that ends inside a message delivers everything before it and nothing of it.",
  ["inputs", "schedules"], "all chunkings of all valid sessions, all cut points",
  "Tests deliver each message in one write and never cut one.",
  ["spop/frame.go", "peers/protocol.go", "peers/handler.go", "peers/peers.go"], [("io.ReadFull in readFrom", "spop/frame.go"), ("rawMessage.ReadFrom", "peers/protocol.go"), ("Handshake.ReadFrom", "peers/handler.go")],
  ["handler trace and reply bytes per chunking"],
  "runtime monitoring: metamorphic trace comparison across transport chunkings and every cut offset",
  "The same session is replayed under many segmentations and every truncation point. "+COMMON),
P("C16", "Stick-table messages are encoded and decoded exactly as HAProxy does",
  "Every table definition with data types in protocol order and every entry update for it, for all key types and scalar, rate and dictionary data types, is encoded to exactly HAProxy's wire format and decodes back to an equal value consuming exactly the encoded bytes, into a new or an already used value, so that values following each other never shift. Encoding never changes the value being encoded.",
  ["inputs"], "all key types x data type sets x values, including length-class boundaries, negative numbers, empty and one-byte dictionary values",
  "Five hand-picked values round-trip; dictionary edge cases, most data types and wire exactness are untested.",
  ["peers/sticktable/sticktables.go", "peers/sticktable/values.go", "peers/sticktable/constants.go"], [("Definition/EntryUpdate Marshal/Unmarshal", "peers/sticktable/sticktables.go"), ("MapKey/MapData codecs", "peers/sticktable/values.go"), ("DataType.New/IsDelay", "peers/sticktable/constants.go")],
  ["marshalled bytes, unmarshalled values, consumed counts"],
  "runtime monitoring: differential monitor against an independent codec of HAProxy's peers format",
  "Reference codec written from HAProxy's peers format; interoperability itself is watched by C26. "+COMMON),
P("C17", "Stick-table codecs are total: bad input or short buffers give errors",
  "Decoding any byte string as a table definition or as an entry update of any definition never panics, never allocates memory out of proportion to the input, and reports truncated or invalid content as an error rather than inventing data. Encoding into a buffer that is too small returns an error instead of panicking or silently truncating.",
  ["inputs"], "all byte strings, all definitions including invalid key types and sizes, all destination sizes",
  "No test decodes malformed input or encodes into a short buffer.",
  ["peers/sticktable/sticktables.go", "peers/sticktable/values.go", "peers/sticktable/constants.go"], [("length checks in Unmarshal/Marshal", "peers/sticktable/values.go, peers/sticktable/sticktables.go"), ("KeyType.New/DataType.New", "peers/sticktable/constants.go")],
  ["panics, allocation volume, errors, consumed counts"],
  "runtime monitoring: differential monitor against a tolerant reference parser with allocation metering over hostile inputs",
  "Truncation at every offset, hostile lengths and random mutation. "+COMMON),
P("C18", "A peer session delivers every entry update once, in order, fully attributed",
  "For any valid sequence of table definitions, entry updates of all four kinds and control messages, the handler receives every update exactly once in wire order with the table selected most recently, its key, data, expiry, and its update id: the explicit one, or its predecessor's plus one modulo 2^32. Delivered updates are never altered afterwards, and sessions running side by side do not influence each other.",
  ["histories", "inputs", "schedules"], "all message sequences, table switches, id wraps, concurrent sessions",
  "Tests receive a single explicit-id update for one table.",
  ["peers/protocol.go", "peers/peers.go", "peers/sticktable/sticktables.go"], [("StickTableUpdateMessageType.OnMessage", "peers/protocol.go"), ("lastTableDefinition/lastEntryUpdate", "peers/protocol.go")],
  ["HandleUpdate trace versus sent history; retained updates re-checked at the end"],
  "runtime monitoring: exactly-once/order checker over recorded update histories against an executable session model",
  "Sessions are generated and encoded by an independent codec. "+COMMON),
P("C19", "No peer can take down or disturb the peer server",
  "Whatever bytes a remote peer sends and whenever it disconnects, at most its own connection is closed: the process survives, allocates no memory for data that was only announced, keeps accepting peers and keeps delivering the updates of all other sessions. No update is delivered from a message that is malformed.",
  ["inputs", "fault_sequences", "schedules"], "all byte streams at any point of a session, all disconnect points",
  "No test sends a malformed message; the server has no panic barrier.",
  ["peers/protocol.go", "peers/peers.go", "peers/sticktable/values.go"], [("rawMessage.ReadFrom", "peers/protocol.go"), ("error returns of the decoders", "peers/sticktable")],
  ["process survival, victim sessions' updates, allocation volume"],
  "runtime monitoring with fault injection: hostile-peer campaign with victim sessions as oracle and allocation metering",
  "Any panic in the server terminates the monitored process and is attributed to the journaled case. "+COMMON),
P("C20", "Concurrent pushes form a valid ordered stream without loss",
  "With any number of goroutines pushing entries, batches and table definitions over one peer connection while heartbeats and control replies are sent too, the outgoing bytes parse as whole messages, every successful push appears exactly once with its content intact and is on the wire when the call returns, and each goroutine's pushes keep their order. Update ids increase by one in wire order, batches stay contiguous, and a push that fails leaves nothing on the wire and does not block or corrupt later ones. On a working connection no valid definition of up to 4 KiB and no valid entry of up to 64 KiB is refused.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of writers with each other and with protocol replies, all entry sizes including unencodable ones",
  "Tests use one goroutine, small entries and never look at the outgoing bytes of the server.",
  ["peers/writer.go", "peers/protocol.go"], [("Writer mutex, shared scratch buffer, nextUpdateID", "peers/writer.go"), ("lockedWrite", "peers/protocol.go")],
  ["every byte written to the connection; call/return events with written offsets"],
  "runtime monitoring: recorded-history checker (exactly-once, order, flush-on-return) over concurrent pushes, race-detector build with transport delays",
  "Unique keys identify each push on the wire. "+COMMON),
P("C21", "Peer liveness: heartbeats are sent and silent peers are dropped",
  "After the handshake the server lets no more than 3 seconds pass without sending something for as long as the connection lasts. Once a peer has sent nothing for 5 seconds while no callback is running for it, its connection is closed and its context cancelled, whether it still reads or not, while one that reads and sends any message at least every 5 seconds is never dropped for inactivity.",
  ["histories", "schedules"], "all message timings over arbitrarily long sessions, all message kinds as signs of life",
  "No test runs a session long enough to see a heartbeat or an inactivity timeout.",
  ["peers/protocol.go"], [("resetHeartbeat/heartbeat", "peers/protocol.go"), ("resetLastMessage/lastMessage", "peers/protocol.go")],
  ["send times, close time and context state in virtual time"],
  "runtime monitoring: timed-trace monitor in virtual time (synctest bubbles), hours of simulated session",
  "Timing is exact because the clock is virtual. "+COMMON),
P("C22", "Peer handler lifecycle: handshake first, close once and last",
  "For every accepted peer connection one handler is obtained, told about the handshake exactly once with exactly the announced fields and a context that leads to its own connection and lives as long as it, before any update, and closed exactly once as its last callback, however the connection ends: end of stream, reset, protocol error, inactivity, write failure or base context cancellation. The first bytes sent to the peer are the success status line even if the handler pushes data from within its handshake callback, and a connection that does not send three well-formed handshake lines never gets it.",
  ["histories", "schedules", "fault_sequences"], "all ways and moments of ending a connection, all handshake texts, pushes at any moment",
  "Tests do not observe Close at all and never end a connection in a controlled way.",
  ["peers/peers.go", "peers/protocol.go", "peers/handler.go"], [("protocolClient.Close", "peers/protocol.go"), ("peerHandshake", "peers/protocol.go"), ("Handshake.ReadFrom/WriteTo", "peers/handler.go")],
  ["handler callback trace, first bytes on the wire"],
  "runtime monitoring: lifecycle automaton over callback traces at quiescence in virtual time, all endings injected",
  "Every way of ending is injected at several moments. "+COMMON),
P("C23", "Cancelling the base context stops accepting and cancels all handlers",
  "When the base context of an agent or of a peer server is cancelled, its listener is closed, Serve returns an error promptly, and the contexts of all its connections are cancelled, whatever they are doing. Until then, and for ever without a base context, Serve keeps accepting however many connections come and go, unless its listener is closed or fails for good, which ends Serve with an error, too. A connection that is broken when it is accepted does not end Serve, and a server whose Serve has ended because of its listener can be served again.",
  ["schedules", "histories"], "all moments of cancellation, numbers and states of connections",
  "Unit tests never observe Serve returning.",
  ["spop/agent.go", "peers/peers.go"], [("BaseContext watcher closing the listener", "spop/agent.go, peers/peers.go")], ["Serve return, listener state, contexts at quiescence"],
  "runtime monitoring: shutdown monitor at quiescence in virtual time plus real TCP listeners",
  "Cancellation is injected at many points of generated sessions. "+COMMON),
P("C24", "Concurrent use of agent, peer server and writers is free of data races",
  "Serving any number of SPOE and peer connections concurrently, with handlers, pushes, heartbeats, disconnects, timeouts and shutdown overlapping, performs no unsynchronised conflicting memory access and no invalid pointer conversion inside the library; the same holds for goroutines that use encoders, decoders and text forms on objects of their own, or only read shared ones; provided the application's own handlers are race free.",
  ["schedules"], "all interleavings of library goroutines",
  "The existing suite is not run under the race detector and has little concurrency within a connection.",
  ["spop/scheduler.go", "spop/protocol.go", "spop/frame.go", "peers/protocol.go", "peers/writer.go", "pkg/encoding/kvscanner.go"], [("queue lock, frame pool, writer mutex, timers", "spop, peers")],
  ["race detector and checkptr reports"],
  "sanitizer: Go race detector and checkptr over combined concurrent stress with several GOMAXPROCS and worker counts",
  "Any report is a violation; reports are deduplicated by stack pair. A clean run is not proof of race freedom. "+COMMON),
P("C25", "Values exchanged with a real HAProxy over SPOE arrive unchanged",
  "With a real HAProxy attached, every argument HAProxy passes to the handler has the type and value HAProxy computed, and every variable the handler sets or unsets has exactly that value or is absent when HAProxy evaluates it, for all value types, scopes and sizes within the negotiated frame size, over sequential and concurrent requests and several messages per event.",
  ["inputs", "configurations", "schedules"], "all argument/variable types and values, several HAProxy configurations",
  "The end-to-end tests check one integer variable and one argument name.",
  ["spop/protocol.go", "spop/frames.go", ENC+"actionwriter.go", ENC+"kvscanner.go"], [("whole SPOE path", "spop, pkg/encoding")], ["HTTP responses echoing the variables; handler view of known request data"],
  "runtime monitoring: end-to-end echo oracle with the installed HAProxy as independent implementation",
  "Uses the installed HAProxy 2.8; a missing or failing HAProxy is an error of the check, never a violation. "+COMMON),
P("C26", "Stick-table contents exchanged with a real HAProxy agree on both sides",
  "With a real HAProxy attached as peer, every entry the library pushes appears in HAProxy's table with the same key, data and a matching expiry, and the last update the handler receives for a key equals what HAProxy's own table holds, for all key types and for counter, rate and server-name data. The session stays up while this goes on.",
  ["inputs", "histories", "configurations"], "all key types, data types and values, several tables per connection",
  "The end-to-end tests check one pushed counter, one expiry and a count, and ignore the values received.",
  ["peers/protocol.go", "peers/writer.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go"], [("whole peers path", "peers")], ["HAProxy's show table output versus handler updates and pushes"],
  "runtime monitoring: end-to-end convergence oracle against the installed HAProxy's own table dump",
  "Uses the installed HAProxy 2.8; a missing or failing HAProxy is an error of the check, never a violation. "+COMMON),
P("C27", "Peer control messages are answered and classified correctly",
  "Each synchronisation request is answered by exactly one partial-synchronisation message; heartbeats, synchronisation notices and acknowledgements are accepted silently in any order and number without disturbing updates. An error message, an unknown class or type, or an entry update before any table definition ends the session without delivering anything further.",
  ["histories", "inputs"], "all sequences of the 65536 class/type pairs around valid traffic",
  "Tests never send a control, error or unknown message.",
  ["peers/protocol.go", "peers/constants.go"], [("messageHandler and OnMessage switches", "peers/protocol.go")], ["replies on the wire, session state, HandleUpdate trace at quiescence"],
  "runtime monitoring: session automaton monitor over generated control sequences, all class/type pairs, at quiescence in virtual time",
  "All class/type pairs are enumerated in the thorough tier and covered by class representatives plus samples in quick. "+COMMON),
P("C28", "Test transports behave like reliable connections and readers",
  "The in-memory connection pair shipped for tests delivers all bytes of each direction in order and unchanged under concurrent use of both ends, and after closing either end pending operations on both ends finish and later ones fail instead of hanging or losing data. The repeating reader yields exactly the endless repetition of its data for every read size, and end of stream for empty data.",
  ["schedules", "inputs"], "all read/write sizes and interleavings, all close moments",
  "Tests transfer three bytes each way and read three sizes.",
  ["pkg/testutil/pipeconn.go", "pkg/testutil/reader.go"], [("rwPipe/rwPipeConn", "pkg/testutil/pipeconn.go"), ("RepeatReader", "pkg/testutil/reader.go")], ["bytes per direction, results after Close, reader output"],
  "runtime monitoring: stream-equality and termination monitor under concurrent stress, race-detector build",
  "Model is the plain byte sequence. "+COMMON),
P("C29", "Ended connections and finished requests leave nothing behind",
  "Once a connection has ended and its callbacks have returned, the agent and the peer server have closed its transport and keep no goroutine, no registration with the base context and, apart from a fixed number, no memory of it. While a connection lives, requests, updates and pushes that are finished keep no goroutine and no memory either, so resource use depends on what is open and not on what has been.",
  ["histories", "schedules"], "all histories of connections and requests, ways of ending, numbers",
  "Tests open one connection and end with the process.",
  ["spop/agent.go", "spop/protocol.go", "spop/scheduler.go", "spop/frame.go", "peers/peers.go", "peers/protocol.go", "peers/writer.go"],
  [("per-connection contexts, goroutines and timers", "spop/agent.go, spop/protocol.go, peers/peers.go, peers/protocol.go")],
  ["transport state, number of goroutines, base context registrations, reachability (weak pointers), live heap, open files"],
  "runtime monitoring: leak monitor at quiescence with weak pointers, goroutine, registration, heap and file descriptor counts",
  "The number of goroutines and registrations is compared with that before the connections; a fixed number of values (queue slots and workers) may stay reachable. Heap growth is judged over five segments. "+COMMON),
P("C30", "Keys, values and identifiers are rendered as text faithfully and totally",
  "The text of every stick-table key and value determines it: numbers and addresses read back as the same value, strings are unchanged and different values of a type never share a text. The text of an update contains its id, its key and each value behind HAProxy's name of its data type, and that of every protocol identifier is unique. No rendering panics, blocks or changes what is rendered, also when done concurrently.",
  ["inputs", "schedules"], "all keys, values, updates and identifiers",
  "Tests never render anything.",
  ["peers/sticktable/values.go", "peers/sticktable/sticktables.go", "peers/sticktable/constants.go", "peers/sticktable/constants_string.go", "peers/constants_string.go"],
  [("String methods", "peers/sticktable, peers")], ["the texts"],
  "runtime monitoring: parse-back and injectivity monitor over generated values, all identifiers enumerated, race-detector build",
  "Texts are parsed back or compared for equality of values; formats are not prescribed otherwise. "+COMMON),
P("C31", "Handshakes and agent frames write themselves whole, exactly, or fail honestly",
  "Writing a handshake, AGENT-HELLO, AGENT-DISCONNECT or ACK with whatever fields produces exactly its protocol encoding in one piece, or an error and nothing, which is the case when it exceeds the largest frame or its callback fails. The count returned is always what the writer took, a failure of the writer is returned and ends the writing, and neither it nor a panic nor concurrent use affects other messages. A handshake that is written reads back equal, consuming exactly its bytes, and a real HAProxy accepts the handshake made for connecting to it.",
  ["inputs", "faults", "schedules"], "all field values, all write failures, concurrent writers",
  "Tests write a few fixed values to buffers that never fail.",
  ["spop/frames.go", "spop/frame.go", "peers/messages.go"],
  [("WriteTo", "spop/frames.go: AgentHelloFrame, AgentDisconnectFrame, AckFrame; peers/messages.go: Handshake.WriteTo, ReadFrom, NewHandshake")], ["the bytes", "counts and errors returned"],
  "runtime monitoring: reference encoder and failing writers around the exported WriteTo methods, real HAProxy as receiver, race-detector build",
  "An AGENT-HELLO of more than 60000 bytes may be refused. "+COMMON),
P("C32", "Test helpers provide what they promise and take it away again",
  "A process, temporary file, listener or HAProxy obtained from the shipped test helpers works as requested once the call has returned and until the test ends, and is gone afterwards, without files, processes or goroutines left behind, whether the test passes, fails, panics or is skipped. One that cannot be started fails its test, and a failed test shows what its processes printed. The allocation helpers fail a test exactly when the function allocates a different number of times than announced.",
  ["histories", "faults"], "all helpers, ways for a test to end and for a process to start late, end early or not start",
  "The repository's tests use the helpers, in tests that pass and with a HAProxy that starts.",
  ["pkg/testutil/haproxy.go", "pkg/testutil/subprocess.go", "pkg/testutil/testfile.go", "pkg/testutil/net.go", "pkg/testutil/allocs.go"],
  [("HAProxyConfig.Run, RunProcess, TempFile, TCPListener, TCPPort", "pkg/testutil"), ("WithNAllocations", "pkg/testutil/allocs.go")],
  ["files, processes, descriptors and goroutines before, during and after the test", "outcome and output of the test", "answers of the HAProxy"],
  "runtime monitoring: tests run in processes of their own and watched from inside and outside for outcome, output and leftovers; programs that take HAProxy's place inject late, partial and failed starts; race-detector build",
  "A HAProxy that does not start within the helper's own time is tried again four times, as the machine may be busy. "+COMMON),
]

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    claimed = [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip() and not l.startswith("#")]
    na = []
    checks = []
    for p in PROPS:
        if p["id"] not in claimed:
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks drive the exported API of /repo through the Go module in /verif/harness (replace => /repo), built with the race detector; no hooks in /repo are needed. VERIF_TIER selects quick or thorough."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        import re
        n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
if __name__ == "__main__":
    main()
