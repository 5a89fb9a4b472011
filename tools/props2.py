prop("C12", "Delegates see every connection and stream come and go exactly once",
 "The server's delegate gets at most one GetClientID and one ConnOnline per connection, ConnOnline before its end is returned to the application and with that end's client id and meta, and exactly one ConnOffline, after it, once that connection is over - for whatever reason - and none for a connection it rejected or that never completed the handshake. A stream accepted from the peer gets one DialogueOnline and later exactly one DialogueOffline with the same stream id, and no stream gets DialogueOffline twice; every stream given to the server's AcceptStreamFunc is given to its ClosedStreamFunc exactly once after it ended. The client's delegate gets exactly one ConnOffline for a connection that was established, and none for one the server refused.",
 ["schedules", "fault_sequences", "crash_points", "histories"], "every way and instant in which connections and streams begin, are refused, fail or are closed, by either side, alone or all at once",
 "The tests install a delegate only to print; pairing of online and offline under failures, refusals and racing closes is never looked at.",
 CONN + MUX, [("onlined flag and offline delegate calls at teardown", "conn/conn_server.go, conn/conn_client.go, multiplexer/dialogue.go, multiplexer/dialogue_mgr.go DialogueOnline/DialogueOffline")],
 ["calls of ServerDelegate and ClientDelegate methods"])

prop("C13", "A handshake agrees on identity or fails on both sides in bounded time",
 "When NewEnd returns an end at the client, the server's accepted end has the same client id and the client's meta; the id is the one the server's delegate assigned from the id the client asked for, or a library-chosen non-zero one not in use. When the delegate refuses the id or the connection, the client's NewEnd returns that error's text and no end is accepted. With a peer that is silent, slow, closes, is reset or answers garbage, both the client's NewEnd and the server's handshake return an error in bounded time and release the connection; a client never reports success unless a server accepted it.",
 ["schedules", "fault_sequences", "inputs", "crash_points"], "every point of the handshake at which either side fails, stalls or misbehaves, any number of simultaneous handshakes, every meta size, wanted id and delegate decision, every segmentation and delay",
 "The tests perform one successful handshake on loopback; no refusal, delay, failure or hostile peer is tried.",
 CONN + ["client/end.go", "server/end.go"], [("conn / conn ack exchange with timeouts", "conn/conn_client.go connect, conn/conn_server.go wait and handleInConnPacket")],
 ["result and duration of NewEnd and AcceptEnd", "End.ClientID, End.Meta", "ServerDelegate.GetClientID/ConnOnline"])

prop("C21", "A listener hands out each connection once and a bad client delays no one",
 "Every connection made to a listener with a blocked AcceptEnd is handed out exactly once: as one usable end, or as one error if its handshake fails; clients connecting at the same time each get their own end. A client that is silent, slow, broken or refused neither blocks nor breaks the acceptance of others or the listener, and an accept that fails for itself (no descriptors left) costs one AcceptEnd an error and nothing else. Close of the listener makes every blocked AcceptEnd return an error, and ends accepted before stay usable.",
 ["schedules", "fault_sequences", "histories"], "every number and timing of good and bad clients and concurrent acceptors, every interleaving of their handshakes, failures at any point, and close of the listener at any point",
 "The tests accept one well-behaved client at a time; concurrent handshakes, stalled clients and close during acceptance are never run.",
 ["server/server.go", "server/end.go", "conn/conn_server.go"], [("one goroutine per handshake, results over a channel", "server/server.go accept, deliver, AcceptEnd, Close")],
 ["AcceptEnd results", "use of accepted ends", "Close"])

prop("C18", "Whatever a peer sends harms nothing but its own connection",
 "Whatever packets or bytes a peer sends after or during the handshake - malformed, truncated, lost, duplicated, out of order, of an unexpected kind, with wrong ids or absurd lengths - the process neither crashes nor hangs nor allocates memory that was only announced, and other connections of the same process work on unaffected. On the affected connection every pending operation still returns in bounded time once the end is closed or the connection breaks, Close itself completes, and the socket and all goroutines are released.",
 ["inputs", "schedules", "histories"], "every packet sequence a peer can produce in answer to real traffic, at every state of the connection, its streams and pending operations",
 "The tests only ever connect two well-behaved ends; no invalid, unexpected or missing packet is tried.",
 CONN + MUX + ["packet/decode.go", "application/stream.go"], [("length checks, state machines and id lookups on incoming packets", "packet/decode.go legal, conn handleIn*, multiplexer handlePkt, application handleIn*")],
 ["process liveness", "operations and Close on the affected end", "traffic of an unrelated connection", "sockets and goroutines"])

prop("C09", "Deadlines stop blocked reads and writes on time, and only those",
 "On every end and stream a Read or Write whose deadline has passed - set before or during the call, by the same or another goroutine, alone or with SetDeadline - returns within a small bound with an error that is os.ErrDeadlineExceeded and reports Timeout; no Read or Write reports it while no deadline in effect has passed. A later deadline replaces an earlier one, also one that already passed, the zero time clears it, and one in the past acts at once. An exceeded deadline loses no byte: a timed-out Write wrote nothing, a timed-out Read consumed nothing, and the byte stream and everything else on the connection work on. Deadlines of a closed stream do no harm.",
 ["schedules", "histories", "inputs"], "every interleaving of setters, readers and writers, deadlines in the past, now, soon, late, moved and cleared, with queues full, empty and in between, stalls and clock granularity",
 "The tests set one deadline and look at one blocked call after a fixed sleep; deadlines that are moved, cleared or expire while calls begin and data arrives are never tried.",
 ["application/raw.go", "application/stream.go"], [("deadline channels per direction", "application/raw.go setDeadline, waitDeadline, releaseDeadline, Read, Write")],
 ["result and duration of Read and Write", "bytes on both sides", "os.ErrDeadlineExceeded, net.Error.Timeout"])

prop("C14", "A healthy connection stays up for ever, a silent client is noticed in time",
 "As long as client and server are alive and the network delivers within the heartbeat interval, a connection stays usable however long it is idle, paused or clogged by an application that does not consume, and timeouts of pending operations still fire meanwhile. The client sends heartbeats at its interval; the server acknowledges each once, reports each to its delegate, and honours every interval a client may announce: it never gives up before two intervals without a heartbeat, and a client that falls silent without closing (crash of its host, partition) is given up within two intervals plus the bounded close - four if the server's own application held up what was received -: Receive ends, ConnOffline is called once, the socket is closed. If the network heals afterwards the client learns of it.",
 ["schedules", "fault_sequences", "histories", "inputs"], "every rhythm of heartbeats, announced interval, pattern of idle times, partitions, host crashes and stalled consumers over minutes to hours of simulated time",
 "The tests live for seconds; no heartbeat interval ever elapses, no peer falls silent, nothing is ever clogged for long.",
 CONN, [("heartbeat timers", "conn/conn_client.go sendHeartbeat, conn/conn_server.go handleInHeartbeatPacket, waitHB, waitHBTimeout"), ("announced interval", "packet/packet_conn.go")],
 ["Receive, Publish, PublishAsync on both ends", "ServerDelegate.Heartbeat, ConnOffline", "heartbeat acknowledgements on the wire", "state of the sockets"])

prop("C15", "A RetryEnd comes back with everything registered, until it is closed",
 "While its connection is undisturbed no operation of a RetryEnd fails and it dials only once. Once the connection is lost it reconnects by itself, and in bounded time after the last fault (server crash and restart, reset, partition, refused, black-holed, rejected or broken attempts) it is connected exactly once and usable again: operations succeed with the new client id, the server reaches every method and the hijack in their latest version, EndReOnline was called for the new end, and each connection got one ConnOnline and one ConnOffline. While it is open no operation returns io.EOF; after Close every pending and later operation returns in bounded time, nothing dials again and every socket and goroutine is released. A failed NewRetryEnd returns the error and leaves nothing behind.",
 ["schedules", "fault_sequences", "crash_points", "histories"], "every sequence and timing of server crashes, restarts, connection losses, failing and slow reconnect attempts, losses during a reconnect, concurrent use of every operation, registrations and Close at any moment",
 "The only retry test restarts nothing: it needs servers that crash, dials that hang and losses in the middle of a reconnect, over minutes.",
 ["client/end_retry.go", "client/end.go"], [("replacement of the end under a lock with restored registrations", "client/end_retry.go reinit, replace, restore, ConnOffline"), ("retry of operations on a lost end", "client/end_retry.go Call, Publish, Register, Receive, OpenStream ...")],
 ["results and duration of RetryEnd operations", "dialer calls", "server's calls of registered methods", "ClientDelegate ConnOnline, ConnOffline, EndReOnline", "sockets and goroutines"])

prop("C20", "A call reaches the handler in effect, and registration options hold",
 "A call of a method on a stream is answered by what was in effect at the callee at some instant during the call: the hijack if it has no pattern or its pattern (or, inverted, the lack of a match) selects the method, else the latest function registered under that name on that stream, else the error that no such rpc exists. Register overwrites; when it returns nil the peer has it, when it fails the method is gone; an invalid hijack pattern is an error that changes nothing. NewEnd with methods to wait for returns exactly when the peer has registered all of them, or with an error once the connection is lost; pre-registered methods are in effect from the start; with the check option a call of a method the peer did not announce fails at once, and of an announced one never does. RemoteRegistration is called once per registration with its method, client and stream id.",
 ["schedules", "histories", "inputs", "fault_sequences"], "every interleaving of registrations, overwriting, hijacks and calls on all streams of both sides, every method name and pattern, slow handlers, registrations that are abandoned, methods that come late or never",
 "The tests register one method before one call; overwriting, hijack patterns, waiting, checking and anything concurrent are not tried.",
 ["application/rpc.go", "application/stream.go", "application/end.go"], [("lookup of hijack and registered functions", "application/stream.go handleInRequestPacket, application/rpc.go Register, Hijack"), ("waiting for and checking remote registrations", "application/end.go NewEnd, application/stream.go handleInRegisterPacket, hasRemoteRPC")],
 ["results of Call and CallAsync", "results of Register, Hijack, NewEnd", "delegate RemoteRegistration"])

prop("C17", "Packets survive encoding, whatever the transport does to the bytes",
 "A packet of any type with any content the packet factory and the layers can give it - every flag, id, heartbeat interval, payload of any length, valid UTF-8 text, error, deadline - that is encoded and decoded again, through buffers or through a reader and writer, equals the original in type, id and every field the protocol carries. From a byte stream that is split, delayed and merged in any way, consecutive packets come out one by one, in order, none bleeding into the next; a stream or buffer that ends in the middle of a packet yields every complete packet before it and then an error, never a packet that was not sent.",
 ["inputs", "schedules", "fault_sequences", "crash_points"], "every packet type and content, every sequence of packets, every segmentation and timing of the stream, every offset at which it ends",
 "The tests round-trip a handful of packets with fixed contents through a memory buffer; short reads, packets that follow one another, truncation and unusual fields are not tried.",
 ["packet/decode.go", "packet/packet.go", "packet/packet_conn.go", "packet/packet_sess.go", "packet/packet_data.go"], [("header and payload encoding of each packet type", "packet/packet_*.go Encode, Decode, DecodeFromReader"), ("framing", "packet/decode.go Decode, DecodeFromReader, EncodeToWriter")],
 ["packet.Encode, Decode, EncodeToWriter, DecodeFromReader results"])
