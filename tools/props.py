#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Packets survive encode/decode unchanged and are framed exactly",
  "Every packet the library can build - connection, heartbeat, session, message, request, response and raw data, with their acknowledgements - decodes from its own encoding to a packet of the same kind with the same packet id and the same content, both from a complete buffer and from a byte stream. Decoding consumes exactly the packet's own bytes, so packets written back to back come out one by one, unchanged and in order, however the stream is fragmented and however few bytes the writer accepts at a time.",
  ["inputs"],"all packet ids, flags, identifiers, consistency levels and payload/custom bytes; all fragmentations of the stream and all partial writes",
  "The one codec test encodes a single header; no test covers any payload-carrying kind, a boundary value of an id or length field, or a fragmented stream.",
  ["packet/packet.go","packet/decode.go","packet/factory.go","packet/packet_conn.go","packet/packet_sess.go","packet/packet_data.go"],
  [("big-endian header + per-kind Encode/Decode","packet/packet.go, packet/packet_*.go"),("EncodeToWriter loop over short writes","packet/packet.go"),("DecodeFromReader dispatch on the type byte","packet/decode.go")],
  ["packet.Encode / Decode / DecodeFromReader / EncodeToWriter"])
p("C02","Malformed bytes from the peer never crash or wedge the decoder",
  "Whatever bytes arrive from the other side, decoding them either yields a packet or returns an error: it never panics, never loops and never reads past the length the packet announces. A stream that ends in the middle of a packet yields an error, never a packet built from missing bytes.",
  ["inputs"],"all byte sequences, including every announced length, truncation point and unknown kind",
  "Tests only feed well-formed packets produced by the library itself.",
  ["packet/decode.go","packet/packet_conn.go","packet/packet_sess.go","packet/packet_data.go"],
  [("length checks before slicing","packet/packet_*.go"),("io.ReadFull of exactly the announced length","packet/packet_*.go")],
  ["packet.Decode / DecodeFromReader"])
p("C03","Identifiers are never handed out twice",
  "An identifier source never returns the same identifier twice, whatever the interleaving of its users, and a source configured for one parity only ever returns identifiers of that parity, so the two sides of a connection, using opposite parities, can never choose the same identifier. A source that allots the smallest free identifier never returns one that is in use or reserved, and no source returns the id of the default stream.",
  ["inputs","schedules"],"all starting values, modes and numbers of calls",
  "No test exercises the id package; a collision needs a particular random start or interleaving.",
  ["pkg/id/id.go","pkg/id/factory.go"],
  [("atomic increment by 2 (odd/even) or 1","pkg/id/id.go")],["IDFactory.GetID"])
p("C04","Handshake agrees on one client identity and delivers metadata",
  "When a connection is established, both ends report the same client id - the one the server's delegate returns, which is asked with the id the client wants, or one the server allots when the delegate leaves it open, or the client's own when it does not ask for one - and the server sees exactly the metadata the client sent. If the server side refuses the client, the client's connect fails with the refusal and neither side is left connected.",
  ["inputs","configurations","schedules"],"all metadata, requested ids, delegate decisions and handshake schedules",
  "Existing tests connect once with default options and never refuse a client or compare identities.",
  ["conn/conn_client.go","conn/conn_server.go","packet/packet_conn.go"],
  [("CONN/CONNACK handshake with client id and error","conn/conn_client.go connect, conn/conn_server.go handleInConnPacket")],
  ["Conn.ClientID/Meta, NewClientConn/NewServerConn error"])
p("C05","A connection delivers every packet once, in order, both ways",
  "Every packet written to an established connection is read at the other side exactly once, unchanged and in the order it was written, in both directions at once, starting from the very first packet after the handshake and up to the last one written before its writer closes, unless the reader closes first.",
  ["inputs","schedules"],"all payloads, interleavings of the two sides' goroutines and handshake/traffic overlaps",
  "The benchmark reads a stream of packets on one schedule and does not check content, order or the first packet.",
  ["conn/conn_base.go","conn/conn_client.go","conn/conn_server.go"],
  [("channel pipeline readPkt -> handlePkt -> writePkt","conn/conn_base.go"),("FSM gate on CONNED","conn/conn_*.go")],["Conn.Read/Write"])
p("C06","Closing a connection terminates both sides cleanly, exactly once",
  "After either side, or both at once, close a connection - possibly several times, with traffic in flight - both sides become closed, readers on both sides are told so, the transport is closed, and each side's offline notification is given exactly once and only after its online notification. Nothing panics, blocks forever or keeps running afterwards.",
  ["schedules","histories"],"all interleavings of closes by both sides with traffic and with each other",
  "Tests close once, at rest, and never look at what is left behind.",
  ["conn/conn_base.go","conn/conn_client.go","conn/conn_server.go"],
  [("4-way close handshake","handleOutDisConnPacket/handleInDisConnPacket"),("finiOnce","conn/conn_*.go fini")],["Close, Read, ConnOffline"])
p("C07","Losing the transport tears the connection down, never hangs it",
  "If the transport fails - at any byte of the stream, during the handshake, traffic or the close exchange - the affected side notices, its pending connect or read returns an error, its offline notification is given exactly once if it had been online, and no goroutine stays behind. Bytes of a packet cut short are never delivered as a packet.",
  ["crash_points","fault_sequences","schedules"],"all byte positions of the cut in either direction and all phases",
  "No test breaks a connection; the chaos test needs a privileged packet-drop tool and is not run.",
  ["conn/conn_base.go","conn/conn_client.go","conn/conn_server.go"],
  [("readPkt/writePkt error -> IOErr event -> fini","conn/conn_base.go")],["Read error, ConnOffline"])
p("C08","Heartbeats keep live connections up and expire dead ones",
  "A server drops a client from which no heartbeat has come for twice the client's announced heartbeat interval, whether or not that client still answers, and not before; a client that is merely idle keeps the connection up indefinitely by heartbeating within the interval it announced. The interval the server enforces is the one the client announced.",
  ["configurations","histories"],"all announced intervals, silences and times of the last packet",
  "Tests finish within seconds; no heartbeat is ever sent in them.",
  ["conn/conn_client.go","conn/conn_server.go","packet/packet_conn.go"],
  [("cyclic heartbeat timer","conn/conn_client.go"),("hbTick reset on each packet","conn/conn_server.go"),("heartbeat exponent encoding","packet/packet_conn.go")],["server ConnOffline / client liveness"])
p("C09","Each opened stream is accepted exactly once, with its own id and meta",
  "Every successful OpenStream is matched at the other end by exactly one accepted stream with the same stream id, the opener's peer name and the opener's metadata, which both ends then report; streams opened by either side, even simultaneously, have pairwise distinct ids and none takes the id of the stream an end starts with. While no more than 32 opened streams await acceptance, every open succeeds; opening a stream on a closed or lost connection fails, and then no stream is accepted.",
  ["inputs","schedules"],"all numbers of openers on both sides, meta and peer values and interleavings",
  "Tests open streams one at a time, from one side, and do not compare ids or metadata.",
  ["multiplexer/dialogue_mgr.go","multiplexer/dialogue.go","application/end.go"],
  [("session/sessionack negotiation","multiplexer/dialogue.go"),("odd/even id factories","multiplexer/dialogue_mgr.go")],["OpenStream/AcceptStream, StreamID, Meta, Peer, ListStreams"])
p("C10","Streams are isolated from each other",
  "What is sent on a stream - requests, messages or raw bytes - is only ever seen by the peer of that same stream, never by another stream or by the end's own default stream. Closing a stream, or leaving it unread while its buffers (32 packets of each sort) have room, has no effect on the traffic, deadlines and timeouts of the others.",
  ["inputs","schedules","histories"],"all pairs of streams, payloads and interleavings of close and traffic",
  "Tests use one stream at a time.",
  ["multiplexer/dialogue_mgr.go","application/end.go","application/stream.go"],
  [("routing by session id","multiplexer/dialogue_mgr.go readPkt"),("per-stream channels","application/stream.go")],["Read/Receive/Call per stream"])
p("C11","Closing a stream ends it at both sides, once, and only it",
  "When either side, or both, close a stream, operations on it at both sides end with an error - data already received before the close may still be read - it disappears from both sides' stream lists, its offline notification is given exactly once at each side after its online notification, and the connection and its other streams stay usable. Closing again is harmless, and no goroutine of the stream stays behind.",
  ["schedules","histories"],"all interleavings of close by either or both sides with traffic on the stream",
  "Tests close whole ends, not streams, and never look at the remaining ones.",
  ["multiplexer/dialogue.go","multiplexer/dialogue_mgr.go","application/stream.go","application/end.go"],
  [("dismiss/dismissack exchange","multiplexer/dialogue.go"),("fini once","application/stream.go")],["stream ops' errors, ListStreams, delegate"])
p("C12","Every call gets the response to its own request, once",
  "Each RPC call, synchronous or asynchronous, in either direction and however many are outstanding at once, completes exactly once, with the data and custom bytes or the error that the handler produced for that very request, in whatever order the handlers finish. A handler's error with a non-empty text reaches its caller as an error with the same text, and a response without error never becomes one.",
  ["inputs","schedules"],"all request/response bytes, numbers of outstanding calls, completion orders and interleavings",
  "Tests issue one call at a time and check one fixed echo.",
  ["application/rpc.go","application/stream.go"],
  [("shub keyed by packet id","application/rpc.go doRPC"),("response packet reuses the request's id","application/stream.go handleInRequestPacket")],["Call/CallAsync results"])
p("C13","A request runs the right handler, exactly once, with its own content",
  "A request whose method is registered at the receiving end runs that method's handler exactly once with the caller's data, custom bytes, method name and identifiers; a hijacker whose pattern matches the method takes the call instead of a registered handler, and others do not see it. A call to a method nobody handles returns an error and runs nothing, leaving the stream fully usable.",
  ["inputs","configurations"],"all method names, patterns, registrations and payloads",
  "Tests register one method and call it.",
  ["application/rpc.go","application/stream.go"],
  [("localRPCs / hijackRPC lookup","application/stream.go handleInRequestPacket"),("remote method table","application/rpc.go")],["handler invocations, Call error"])
p("C14","Timeouts and cancellation end a call promptly and only that call",
  "A call whose response does not arrive within its timeout returns a timeout error at that time, and a call whose context ends returns the context's error then; neither returns such an error earlier. The handler's context ends then too. The late response is discarded: it completes no other call and the stream stays usable. All this holds when the transport takes no data and every queue is full.",
  ["histories","schedules","configurations"],"all relative orders of response, timeout and cancellation",
  "Tests never let a call expire.",
  ["application/rpc.go","application/message.go"],
  [("shub timeouts","application/rpc.go doRPC"),("ctx.Done select","application/rpc.go")],["Call/Publish error and completion time"])
p("C15","Published messages arrive once, in order, unchanged",
  "Every message published on a stream is received by the peer exactly once, in publication order, with the same data, topic, custom bytes and identifiers, whether published synchronously or asynchronously.",
  ["inputs","schedules"],"all contents, sync/async mixtures and interleavings",
  "Tests publish one fixed message and look at its value only.",
  ["application/message.go","application/stream.go"],
  [("messageCh / Receive","application/stream.go, application/message.go")],["Publish/Receive"])
p("C16","Publish reports exactly what the receiver acknowledged",
  "A publish at the default consistency completes exactly once: successfully only after the receiver marked that message done, with the receiver's (non-empty) error text if the receiver marked it failed, and with a timeout or context error if neither happens in time. Acknowledging one message never completes another, and acknowledgements may come in any order; an at-most-once publish completes without waiting for any.",
  ["schedules","histories","inputs"],"all orders of done/error/timeout/cancel over several outstanding messages",
  "Tests acknowledge one message at once, successfully.",
  ["application/message.go","application/stream.go"],
  [("shub keyed by packet id, MessageAck","application/message.go, application/stream.go")],["Publish/PublishAsync results"])
p("C17","Raw reads return exactly the written bytes, in order",
  "A stream read and written as a raw connection is a byte stream: what one side reads is exactly the concatenation of what the other wrote, for any chunk sizes and read-buffer sizes including zero, with no byte lost, repeated, reordered or altered; a read returns as soon as at least one byte is available and never reports more bytes than it stored. What was written before the writer closed the stream can still be read, and only then is its end reported. The caller's buffers are neither changed by a write nor kept after it.",
  ["inputs","schedules"],"all chunkings of writes, all read-buffer sizes and contents",
  "The raw tests read one buffer of one size.",
  ["application/raw.go","application/stream.go"],
  [("cache for the unread rest of a packet","application/raw.go Read")],["Read/Write"])
p("C18","Deadlines time out reads and writes exactly when set",
  "A read or write whose deadline has passed fails with a timeout error instead of waiting, a waiting read or write fails at its deadline and not before, also when the deadline was set or moved while it waited, and data that arrived before the deadline is not lost by it. Moving the deadline into the future, or clearing it, makes the stream usable again; read and write deadlines do not affect each other.",
  ["histories","configurations"],"all sequences of setting, extending, clearing deadlines, reads, writes and arrivals",
  "The raw tests check single deadlines against a mock on one schedule.",
  ["application/raw.go"],
  [("deadline timers and dlReadChList","application/raw.go")],["Read/Write errors, SetDeadline"])
p("C19","Shutdown or transport loss completes every pending operation",
  "While the unread backlog fits the buffers: when an end is closed, its peer closes, or the transport is lost, every operation then blocked on it or on any of its streams - call, publish, receive, read, accept, open - returns with an error instead of hanging, and every later one fails at once. Nothing panics, and no goroutine of the closed end stays behind.",
  ["schedules","crash_points","fault_sequences"],"all kinds of pending operation crossed with all causes and moments of shutdown",
  "Tests close ends with nothing pending.",
  ["application/end.go","application/stream.go","multiplexer/dialogue_mgr.go","conn/conn_base.go"],
  [("shub.Close / closed channels in fini","application/stream.go"),("teardown cascade conn -> multiplexer -> end","fini in each layer")],["operations' errors"])
p("C20","A reconnecting client restores service after any disconnection",
  "A client end created with reconnection redials after losing its connection, as often as needed until it succeeds or is closed; afterwards calls, messages and new streams work again, and methods and hijackers registered before the loss still serve the server's calls. A call, message, accept, read or write started while it is disconnected is carried out on the next connection or fails with the dial's error. Closing it ends it for good: it stops redialling and blocked accepts and receives return.",
  ["fault_sequences","histories","schedules"],"all numbers and moments of connection losses and failed dials, before, between and during operations",
  "The only reconnect test needs a privileged packet-drop tool and is not run.",
  ["client/end_retry.go","client/end.go"],
  [("redial loop and re-registration","client/end_retry.go reinit")],["RetryEnd operations"])
p("C21","Options combine field by field, the last one set winning",
  "When several option values are given to one operation, each setting takes the value from the last option that sets it, options that leave it unset never override it, and the option values passed in are not modified by the combination. Settings given this way take effect in the operation.",
  ["inputs","configurations"],"all numbers and combinations of set and unset fields",
  "No test passes more than one option value.",
  ["options/call_options.go","options/publish_options.go","options/openstream_options.go","options/hijack_options.go","client/end_options.go","server/end_options.go"],
  [("Merge* functions","options/*.go, client/end_options.go, server/end_options.go")],["merged options"])
p("C22","Delegates hear of every connection and stream exactly once each way",
  "A delegate is told of each connection and each opened stream coming online exactly once and, after that, of it going offline exactly once, with the right identifiers and metadata, however the connection or stream ends. A connection or stream that never came online is never reported offline.",
  ["histories","schedules","fault_sequences"],"all ways and interleavings of connections and streams starting and ending",
  "Tests install no counting delegate.",
  ["conn/conn_client.go","conn/conn_server.go","multiplexer/dialogue_mgr.go","application/end.go","delegate/delegate.go"],
  [("ConnOnline/ConnOffline","conn/conn_*.go"),("DialogueOnline/DialogueOffline","multiplexer/dialogue_mgr.go, application/end.go")],["delegate callbacks"])
p("C23","An end that waits for remote methods gets exactly those",
  "An end created to wait for remote methods is returned only once its peer has registered all of them on the connection's own stream, whatever the order, repetitions and other methods registered beside, and soon after that; if the connection is lost or closed first, creating it fails instead. Methods given as options to an end are registered before it is returned. With remote methods checked, a call to a method which the peer has not registered on that stream fails without sending anything, and one to a method registered since is served. The delegate is told each registration by the peer once.",
  ["histories","schedules","fault_sequences"],"all sequences of registrations, before and after the wait begins, and moments of losing the connection",
  "Tests register one method and wait for it on one schedule.",
  ["application/end.go","application/stream.go","application/rpc.go","client/end.go","server/end.go"],
  [("wait for registrations with sub syncs","application/end.go NewEnd"),("remoteRPCs","application/stream.go handleInRegisterPacket")],["NewEnd, Register, Call"])
p("C24","A listener accepts every client that connects, exactly once",
  "Given as many waiting accepts as connecting clients, every client that completes its handshake with a listener is returned by exactly one accept as an end that leads to that very client with its id and metadata, in whatever order clients finish; a client that leaves, sends garbage or says nothing makes at most one accept fail, in bounded time, its transport is closed, and no other client is affected. Closing the listener makes waiting and later accepts fail and further clients be refused, and leaves accepted ends working. Failing to listen or dial is reported with its error.",
  ["schedules","fault_sequences","inputs"],"all mixes and interleavings of well-behaved and failing clients, accepts and the listener's close",
  "Tests connect one well-behaved client at a time over a real port.",
  ["server/server.go","server/end.go","client/end.go","conn/conn_server.go"],
  [("handshake per connection, results over ch","server/server.go AcceptEnd")],["Listen, AcceptEnd, Accept, Close, NewEnd"])
p("C25","Ends and streams report who and what they are",
  "Both sides of a stream report the same client id (the connection's), the same stream id (1 for the connection's own, others unique on the connection), and the same metadata and peer, those it was opened with (for the connection's own the client's metadata). The side that opened it, for the connection's own the client, reports being the initiator and the other the recipient; local and remote address are the transport's. All this stays so when streams are closed or the connection ends. Requests and messages made by a stream carry its ids. A reconnecting client reports what its current connection does.",
  ["inputs","histories","fault_sequences"],"all metadata and peers, orders of opening and closing streams from either side, losses and reconnections",
  "Tests never look at a stream's side, addresses or peer, and no test reconnects.",
  ["application/stream.go","application/raw.go","application/end.go","multiplexer/dialogue.go","multiplexer/dialogue_mgr.go","conn/conn_base.go","client/end_retry.go"],
  [("side and ids of dialogues","multiplexer/dialogue.go"),("forwarding to the current end","client/end_retry.go")],["ClientID, StreamID, Side, Meta, Peer, LocalAddr, RemoteAddr, Addr"])
for x in P: print(json.dumps(x))
