#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than the jsonl)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A polling request body is delivered exactly",
  "For every sequence of packets a client encodes into one polling request body, in the text payload encoding (lengths counted in bytes, binary as base64) or in the binary payload encoding, the application receives exactly those messages: same number, order, text or binary kind, and bytes. This holds for any message size and content, and however the bytes of the body are split across network reads.",
  ["inputs"], "all packet sequences, both payload encodings, all message sizes and bytes, all splits of the body into reads",
  "The payload tests decode five fixed packets from one in-memory reader; none has base64 padding, none is longer than one read buffer, none arrives in pieces.",
  ["engine/payload.go", "engine/polling.go"],
  [("payload decoding in both formats", "engine/payload.go"), ("POST branch of the polling handler", "engine/polling.go")],
  ["message event of the engine server", "HTTP response to the POST"])

p("C02", "A poll response carries exactly the emitted message",
  "Every message the server emits to a polling client reaches it in poll responses encoded the way that poll asked for - binary payload, base64 text payload, or a JSONP script - so that a conforming decoder recovers exactly the emitted kind, type and bytes. Each response is labelled with the content type of its encoding, and a JSONP response is one valid JavaScript call ___eio[j](\"...\"); whose single string argument is the payload.",
  ["inputs", "configurations"], "all messages (kind, size, bytes, including quotes, newlines, HTML and non-ASCII text) and all three response encodings",
  "No test performs a poll: the response branch of the polling handler, its content types and the JSONP writer are never executed by the test suite.",
  ["engine/polling.go", "engine/payload.go"],
  [("GET branch of the polling handler and the three response writers", "engine/polling.go"), ("packet encoders", "engine/payload.go")],
  ["HTTP response to the GET"])

p("C03", "Hostile engine input is refused and contained",
  "Whatever bytes a peer sends as a polling request body or as WebSocket frames, the server never panics, never hangs the request, and never allocates memory far out of proportion to the bytes it received. A polling body that is malformed or cut short is answered with an HTTP error and nothing of it reaches the application; nor does anything of a WebSocket message that is cut short by its connection breaking, or whose first byte names no packet type. The session that sent a bad body, and every other session, keeps working.",
  ["inputs", "fault_sequences"], "all byte strings as bodies and frames, including mutated and truncated valid payloads and absurd length fields",
  "The tests feed only well-formed payloads; rejection paths, truncation and length-field abuse are never exercised.",
  ["engine/payload.go", "engine/polling.go", "engine/websocket.go", "engine/server.go"],
  [("header parsing and payload reading", "engine/payload.go"), ("unknown packet types are rejected", "engine/server.go")],
  ["HTTP status", "message events", "allocated bytes", "panics"])

p("C04", "Only valid handshakes create sessions",
  "A request opens a session only if it carries the supported protocol version, a known transport, no session id, and an origin accepted by every configured origin checker; the first packet that client receives is an open packet with a session id never handed out before, the configured ping interval and timeout in milliseconds, and the websocket upgrade. Every other request that does not belong to a live session is answered with an HTTP 4xx error, opens nothing, runs no callback, and leaves existing sessions undisturbed; so is an upgrade request of a live session whose origin a checker refuses. Servers in one process do not affect each other: each has its own settings, checkers and sessions.",
  ["inputs", "histories", "configurations"], "all request lines (version, transport, session id, method, origin), all origin-checker combinations, all ping settings, in any order with live and ended sessions",
  "No test sends a request to the server; the handshake, its validation and the open packet are untested.",
  ["engine/server.go", "engine/session.go", "engine/transport.go"],
  [("request validation and dispatch", "engine/server.go"), ("session id generation and registry", "engine/session.go"), ("origin checks", "engine/transport.go")],
  ["HTTP status", "open callback", "first packet received"])

p("C05", "Messages arrive exactly once and in order",
  "On a session that stays on one transport (polling or WebSocket), every message one side successfully sends is delivered to the other exactly once, in sending order, with kind and bytes unchanged, in both directions and for bursts larger than any internal buffer, however long a sender has to wait for a slow client. Handlers of one session run one at a time in arrival order. What was emitted on a WebSocket before the application closes the session is still delivered. If the client stops taking messages for longer than the server is willing to wait, the session is closed instead of going on with a message missing.",
  ["histories", "schedules", "inputs"], "all histories of sends, polls, posts and handler delays on one session, all message contents",
  "Tests exercise one polling connection with a zero-size buffer and no real session; bursts, back-pressure and write timeouts are never reached.",
  ["engine/emitter.go", "engine/polling.go", "engine/websocket.go", "engine/server.go", "engine/socket.go"],
  [("single emitter goroutine with a bounded queue", "engine/emitter.go"), ("single reader goroutine per session", "engine/server.go")],
  ["messages received by a protocol-level client", "message events"])

p("C06", "An upgrade loses, repeats and reorders nothing",
  "When a client upgrades a session from polling to WebSocket while both sides keep sending, every message sent before, during and after the upgrade is delivered exactly once and in order in both directions, whatever the interleaving of the upgrade steps with sends, polls, posts and slow handlers, and however late within the session's timeouts the steps come. The upgrade completes, is announced exactly once, and the session keeps its id and its connected namespaces.",
  ["schedules", "histories"], "all interleavings of probe, pause, confirmation, emits, outstanding or absent polls, posts and handler executions",
  "No test performs an upgrade; the hand-over of queued packets between transports is untested.",
  ["engine/server.go", "engine/socket.go", "engine/emitter.go", "engine/barrier.go", "engine/polling.go", "engine/websocket.go"],
  [("upgrade procedure", "engine/server.go"), ("pause barrier of the emitter and reader", "engine/barrier.go"), ("draining of both queues", "engine/polling.go")],
  ["messages received by a protocol-level client", "message and upgrade events"])

p("C07", "An abandoned upgrade leaves the session intact",
  "If an upgrade attempt is cut off at any step, or the peer sends something other than the probe or the confirmation, or a request names a transport the session cannot change to, then the session goes on using its current transport with every message of both directions delivered exactly once and in order. A later correct upgrade of the same session still succeeds, and the failed attempt leaves nothing running.",
  ["fault_sequences", "histories", "schedules"], "all points at which an attempt can fail, any number of failed attempts, any traffic before, during and after",
  "No test performs an upgrade, let alone a failing one.",
  ["engine/server.go", "engine/polling.go", "engine/socket.go"],
  [("error branches of the upgrade procedure", "engine/server.go"), ("resume of the paused connection", "engine/polling.go")],
  ["messages received by a protocol-level client", "message, upgrade and close events"])

p("C08", "Pings are answered and only silent sessions expire",
  "Every ping a client sends is answered by exactly one pong with the same kind and payload, in order with the other traffic. A session from which nothing arrives for ping interval plus ping timeout is closed at that moment, and a session from which some packet arrives within every such period is never expired, on either transport and after an upgrade.",
  ["schedules", "configurations", "histories"], "all ping settings and all timings of pings, messages and silence",
  "The only timing test checks one 10 ms read deadline on a bare connection; no session ever lives through a heartbeat period in the tests.",
  ["engine/server.go", "engine/socket.go", "engine/polling.go", "engine/websocket.go"],
  [("read deadline refreshed for every packet", "engine/socket.go"), ("ping branch of the packet handler", "engine/server.go")],
  ["pong packets", "close event and its time"])

p("C09", "Every connect is matched by exactly one disconnect",
  "Each time a client joins a namespace its connect handler runs once, and its disconnect handler runs exactly once afterwards - on the client's disconnect or close packet, loss of the connection, expiry, or the application closing the socket - and never for a namespace the client is not in; likewise the transport-level open and close callbacks run exactly once per session. No event handler of a namespace runs before its join or after its disconnect handler, and handlers may use the socket they are given without hanging. Once a session has ended every emit on it returns an error.",
  ["histories", "schedules", "fault_sequences"], "all histories of joins, leaves, repeated leaves, events and every way of ending a session, on both transports",
  "No test runs a server with a client; connect and disconnect handlers never run in the tests.",
  ["server.go", "socket.go", "handle.go", "engine/server.go", "engine/socket.go"],
  [("namespace attach and detach", "socket.go"), ("close handling", "server.go"), ("close event", "engine/server.go")],
  ["connect, disconnect, event, open and close callbacks", "errors returned by emits"])

p("C10", "Sessions do not affect one another",
  "What the server emits to a session is received by that session's client only, and what a client sends is handled with that session's socket only, whatever the number of concurrent sessions. A client that stops reading, stalls in the middle of a request, or whose connect handler has not returned yet does not keep other clients from connecting or from exchanging messages.",
  ["schedules", "histories"], "all populations of sessions on both transports, any subset of them stalled, any interleaving of their operations",
  "No test has two sessions.",
  ["engine/server.go", "engine/session.go", "server.go", "socket.go"],
  [("session registry", "engine/session.go"), ("socket registry", "server.go"), ("accept loop", "engine/server.go")],
  ["messages received by each client", "sockets passed to handlers", "completion of handshakes"])

p("C11", "The default parser speaks the protocol and round-trips",
  "For every connect, disconnect, event, ack and error packet - any namespace path, ack id, non-empty event name, JSON-representable arguments, and binary arguments at any argument position - the encoder writes the socket.io revision 4 frames: one header text frame followed by the attachments in placeholder order, and leaves the packet as it was. Feeding those frames, or any equivalent frames a conforming peer may write (JSON escapes, insignificant white space), to a decoder yields one packet of the same type, namespace, id, event name, arguments and attachments.",
  ["inputs"], "all packets in the stated domain; error data other than bare numbers (which the protocol itself cannot tell from an id)",
  "The parser tests use seven fixed packets with plain ASCII names, never decode a binary packet end to end, and compare decoded packets by type, namespace and id only.",
  ["parser_default.go", "packet.go"],
  [("encoder", "parser_default.go"), ("decoder, event and placeholder extraction", "parser_default.go")],
  ["frames written", "decoded packets and arguments"])

p("C12", "The msgpack parser round-trips, one frame per packet",
  "For every packet whose arguments msgpack can represent, the msgpack encoder writes exactly one frame - a well-formed msgpack map of type, nsp, data and id for events and acks, a JSON object for connect, disconnect and error - and decoding it yields a packet of the same type, namespace, id, event name and arguments. A session using this parser puts exactly one message on the wire per packet. The msgp interfaces of a packet (appending to a slice, writing to and reading from a stream in any pieces) do the same for packets that follow one another.",
  ["inputs"], "all packets with msgpack-representable arguments, ids and namespaces",
  "The msgpack tests decode single fixed argument lists and never run a packet through encoder, transport and decoder.",
  ["parser_msgp.go", "packet.go", "socket.go"],
  [("packet marshalling", "packet.go"), ("encoder and decoder", "parser_msgp.go"), ("packet emission", "socket.go")],
  ["frames written", "messages on the wire", "decoded packets and arguments"])

p("C13", "Packet decoders survive garbage and stay in sync",
  "Fed any sequence of text and binary frames, a packet decoder of either parser never panics, never blocks while its packets are consumed, and never allocates far out of proportion to its input; a binary packet is produced only after exactly the announced number of attachments. After any rejected or incomplete input the next complete packet is decoded correctly, and a server or client receiving such frames reports errors, to an error handler if there is one, and keeps the session usable.",
  ["inputs", "histories"], "all frame sequences, including mutated valid packets, missing and surplus attachments",
  "The tests feed decoders only well-formed packets.",
  ["parser_default.go", "parser_msgp.go", "packet.go", "server.go"],
  [("frame decoding", "parser_default.go"), ("packet unmarshalling", "packet.go"), ("message event handling", "server.go")],
  ["errors returned", "packets produced", "panics", "allocated bytes"])

p("C14", "Handlers receive the arguments that were sent",
  "When an event or acknowledgement arrives, the handler's parameters receive the sent arguments in order, converted to the parameter types: socket parameters are injected at any position and consume no argument, binary parameters take the binary arguments in order, pointer parameters point to the value, and a variadic parameter takes an array argument. If an argument cannot be converted the handler does not run, the namespace's error handler (if it has one) runs exactly once, no ack is sent, and the session goes on.",
  ["inputs", "programs"], "all handler signatures over the supported parameter kinds and all argument lists, with both parsers",
  "The callback tests call five fixed signatures with one literal argument list each, and never through a server.",
  ["callback.go", "parser_default.go", "parser_msgp.go", "server.go", "handle.go"],
  [("reflective call", "callback.go"), ("argument unmarshalling", "parser_default.go"), ("argument unmarshalling", "parser_msgp.go")],
  ["values seen by handlers", "error handler calls"])

p("C15", "Each acknowledgement reaches exactly its own callback",
  "An ack callback passed to an emit runs at most once, only for the acknowledgement of that very emission in the same session and namespace, with exactly the values the peer acknowledged; duplicate, unknown or foreign ack ids run nothing. Every event received with an ack id and handled without error is answered by exactly one ack with that id and namespace carrying the handler's results in order, also when the handler returns nothing or a binary value.",
  ["histories", "schedules", "inputs"], "all histories of emissions with callbacks across namespaces and sessions, and of acks in any order, repeated, missing or forged",
  "No test emits with a callback or processes an ack packet.",
  ["handle.go", "socket.go", "server.go", "client.go"],
  [("ack id allocation and lookup", "handle.go"), ("ack packet handling and replies", "server.go")],
  ["ack callbacks run", "ack packets on the wire"])

p("C16", "Namespaces are separate",
  "An event runs exactly the handler registered last for its name in the namespace it is addressed to, and only while that client is joined to that namespace; everything emitted through a namespace's socket carries that namespace, and an emit for a namespace the client has not joined returns an error and sends nothing. Joining a namespace the server has is confirmed with a connect packet, which precedes whatever its connect handler emits; an event or ack addressed to one the server does not have is answered with an error packet for it and runs nothing. Servers in one process keep theirs apart.",
  ["histories", "inputs"], "all sets of namespaces and handlers (including same event names in several namespaces) and all histories of joins, leaves and events",
  "No test dispatches a packet to a namespace.",
  ["server.go", "socket.go", "handle.go", "client.go"],
  [("packet dispatch", "server.go"), ("attached namespaces", "socket.go")],
  ["handlers run", "packets on the wire"])

p("C17", "Concurrent emits never interleave their frames",
  "When several goroutines emit on the same session at the same time, to any namespaces and with any number of binary attachments, including the replies the library itself sends, the frames of each packet arrive contiguously and in order, so that the peer decodes exactly the emitted packets. The emits of one goroutine arrive in the order it made them.",
  ["schedules", "inputs"], "all interleavings of concurrent emits, any attachment counts",
  "No test emits, sequentially or concurrently.",
  ["socket.go", "engine/socket.go", "engine/emitter.go"],
  [("emission of header and attachment frames", "socket.go"), ("emitter queue", "engine/emitter.go")],
  ["frames received by a protocol-level client"])

p("C18", "Concurrent use of sockets and servers is race-free",
  "Sockets may be used from any goroutine at any time - emitting, emitting errors, closing, reading and setting headers, asking for addresses and ids - while traffic, acknowledgements, an upgrade or a disconnect is in progress, a server may serve any number of requests at once, and a server, connection, session or client may be closed by several goroutines at one instant, without a data race, deadlock or crash.",
  ["schedules"], "all interleavings of API calls with traffic, upgrade and close",
  "The tests are single-threaded apart from one polling connection, and run without upgrade, close or concurrent callers.",
  ["engine/socket.go", "engine/server.go", "engine/emitter.go", "socket.go", "server.go", "handle.go"],
  [("locks of session, socket and ack registries", "socket.go"), ("connection swap under lock", "engine/server.go")],
  ["race detector reports", "panics", "stuck calls"])

p("C19", "A failed emit has no effect",
  "If an emit returns an error - an argument that cannot be encoded, a failing binary marshaler, a namespace that is not joined, a closed session - then nothing of it reaches the peer, and later emits, acknowledgements and events work as if it had never been made. An emit never panics on an encodable or unencodable argument, including nil, and every emit that returned no error on a healthy session is delivered.",
  ["inputs", "histories"], "all argument lists, encodable or not, at any point of a session's history, with both parsers",
  "No test emits a packet through a socket.",
  ["socket.go", "parser_default.go", "parser_msgp.go", "handle.go"],
  [("packet encoding before emission", "socket.go"), ("binary argument marshalling", "parser_default.go")],
  ["errors returned by emits", "frames received by the peer"])

p("C20", "The client follows the server's protocol",
  "A dialed client fails cleanly if the first packet is not an open packet; otherwise it exposes the server's session id, joins a namespace when and only when the server's connect packet for it arrives - however early that is - and dispatches events, acks and errors to that namespace's handlers. It sends a ping every ping interval, and when the server closes, disappears, or stays silent for ping interval plus ping timeout, the disconnect handler of every joined namespace runs exactly once and later emits return errors. A client may be dialed again after a session has ended or been closed, even while the end of that session is still being processed: the handlers of each session are given its own sockets, and the end of one does not disturb the next.",
  ["histories", "schedules", "fault_sequences"], "all server packet sequences and timings, including packets sent immediately after the open packet, and all ways the server can end",
  "No test dials; client.go is not executed by the test suite.",
  ["client.go", "engine/client.go", "engine/transport.go"],
  [("dial, ping and read loops", "engine/client.go"), ("packet dispatch", "client.go")],
  ["client callbacks", "packets written by the client"])

p("C21", "Header values belong to one session and survive upgrade",
  "A socket's header lookup returns the value the client's handshake request carried or the value the application last set on that socket, before and after an upgrade of the session; setting a header affects no other session and not the request. The socket's remote and local address and its id are those of its own client connection.",
  ["histories", "configurations"], "all header sets, set operations and upgrades over any number of sessions",
  "No test reads or sets a header.",
  ["engine/socket.go", "engine/transport.go", "engine/server.go", "engine/polling.go", "engine/websocket.go"],
  [("header cloning and copying", "engine/transport.go"), ("header accessors", "engine/socket.go")],
  ["header lookups", "addresses"])

p("C22", "An ended session leaves nothing behind",
  "After a session ends for any reason, requests naming its id are answered with an error, requests of it that were pending return, its network connection is closed, no goroutine of it survives, and its memory is given back while the server goes on. After the server is closed no further request opens a session, and once its sessions have ended no goroutine of the server survives.",
  ["histories", "fault_sequences"], "all ways of ending a session at any point of its history (including during the handshake and an upgrade)",
  "No test opens or ends a session.",
  ["engine/server.go", "engine/socket.go", "engine/emitter.go", "engine/session.go", "engine/client.go"],
  [("session removal", "engine/session.go"), ("emitter shutdown", "engine/emitter.go"), ("server shutdown", "engine/server.go")],
  ["HTTP status", "goroutines", "connection state"])

p("C23", "A polling connection honours deadlines, pause and close",
  "Packets written to a polling connection come out of polls, and posted packets come out of reads, in order and exactly once, each at most once across reads, polls and the drain operations. A read, write or poll blocks only until a packet or room is available, its deadline passes, or the connection is paused or closed, and then reports exactly that condition; a pause releases pending and later polls with a noop until it is resumed, and queued packets survive it.",
  ["histories", "schedules"], "all histories of reads, writes, polls, posts, deadline changes, pauses, resumes, drains and closes on one connection",
  "One test walks a single fixed sequence with a zero-size buffer and never posts, polls or drains.",
  ["engine/polling.go", "engine/transport.go"],
  [("channel selects of read, write and poll", "engine/polling.go"), ("pause channel", "engine/polling.go")],
  ["packets and errors returned", "poll responses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
