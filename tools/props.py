#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

APP = ["application/stream.go", "application/message.go", "application/rpc.go", "application/raw.go", "application/end.go"]
MUX = ["multiplexer/dialogue.go", "multiplexer/dialogue_mgr.go"]
CONN = ["conn/conn_base.go", "conn/conn_client.go", "conn/conn_server.go"]

prop("C01", "A publish reports exactly what the receiver did with that message",
 "An at-least-once Publish returns nil only after the peer's application received exactly that message on that stream and called Done on it, and if the peer called Error on it the publisher gets that error's text. On a healthy connection with no timeout, deadline or cancellation given, it returns nothing else, whatever the number of concurrent publishers and the order in which messages are acknowledged.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of publishers, receivers and acknowledgers on both sides, every delivery timing of the transport, every mix of Done and Error, immediate and late, and failures of the connection at any point",
 "The tests publish sequentially from one goroutine to one receiver that calls Done at once on loopback; concurrent publishers with reordered acknowledgements, and acknowledgements racing timeouts or the loss of the connection, are never run.",
 APP[:2] + ["application/structs.go"], [("sync hub keyed by packet id, completed by the message ack packet", "application/message.go Publish, application/stream.go handleInMessageAckPacket")],
 ["return value of Publish", "Receive, Message.Done, Message.Error on the peer"])

prop("C02", "Messages arrive at most once, intact, in order and none is lost",
 "Every message received on a stream was published by the peer on that same stream, with the same id, payload, topic, custom data and timeout, and is received at most once. Messages published one after another by one publisher are received in that order, and while the stream and connection stay healthy every accepted message (at-most-once ones included) is eventually received, however slowly the receiver consumes.",
 ["schedules", "histories", "inputs", "fault_sequences"], "every sequence and size of messages, every interleaving of publishers and receivers, every transport timing, window size and segmentation, and connection failures at any point (which may cut a tail, never create a gap)",
 "The tests send a few equal messages through a fast loopback with a prompt receiver; loss, duplication and reordering need full queues, slow receivers, segmentation and specific interleavings.",
 APP[:2] + MUX + CONN, [("ordered relay through stream, dialogue and connection queues with back pressure", "application/stream.go handleInMessagePacket, multiplexer/dialogue.go relay, conn/conn_base.go")],
 ["Publish/PublishAsync arguments", "messages returned by Receive"])

prop("C03", "A call returns the response of one execution of its own request",
 "A Call that returns without error returns the data and custom data which the peer's function registered under that method produced for exactly that request, under that request's id and method, and that function ran exactly once for it; an error set by the function reaches the caller as that error text and a call of an unregistered method fails. No request is executed twice, altered, or on another stream or by another method's function, and on a healthy connection a call without timeout, deadline or cancellation always returns its own function's result.",
 ["schedules", "histories", "inputs", "fault_sequences"], "every interleaving of concurrent and nested callers and handlers on both sides and several streams, every payload, every handler duration and outcome, every transport timing and connection failure point",
 "The tests call one echo function sequentially; cross-talk between concurrent calls, late responses, nested calls in both directions and failures in mid-call are never run.",
 APP, [("request/response correlation by packet id", "application/rpc.go Call, application/stream.go handleInRequestPacket, doRPC, handleInResponsePacket")],
 ["arguments and results of Call", "invocations of registered functions"])

prop("C04", "An asynchronous call or publish completes exactly once with its result",
 "Every CallAsync and every at-least-once PublishAsync that returns no error delivers exactly one completion, on the handle's Done channel and carrying that same handle with its own request or message, in bounded time once the peer answered, a limit passed or the connection ended. That completion carries the same outcome the synchronous variant would have returned: the response with its data and no error, or the error.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of completions, timeouts, cancellations, stream closes and connection failures, with caller-provided or library-made channels",
 "The tests never use CallAsync and use PublishAsync only in a benchmark loop; double or missing completion needs an answer racing a timeout, cancellation or close.",
 APP[:3], [("synchub callback and done channel", "application/rpc.go CallAsync, application/message.go PublishAsync")],
 ["Call.Done, Call.Error, Call.Response, Publish.Done, Publish.Error"])

prop("C05", "A stream's raw bytes are read exactly as the peer wrote them",
 "The bytes returned by successive Reads on a stream are exactly the bytes passed to successful Writes by the peer, in order, without loss, duplication or alteration, whatever the sizes of the writes and of the read buffers and however slow the reader is. Read reports io.EOF only after the stream or connection ended, and after a Close by the writer on a healthy connection only once every byte written before it has been read.",
 ["schedules", "inputs", "histories", "fault_sequences"], "every sequence of write and read-buffer sizes, reader speed, interleaving, transport segmentation and window, and close or failure point",
 "The unit tests push single packets into an internal channel and the bench streams equal blocks without checking them; boundaries between packets and buffers, full queues and close racing data are not sampled.",
 ["application/raw.go", "application/stream.go"] + MUX, [("packet cache between Reads, blocking hand-over, flush on close", "application/raw.go Read/Write, application/stream.go handleInStreamPacket, Close")],
 ["bytes passed to Write, returned by Read", "errors of Read"])

prop("C06", "Each opened stream pairs with one accepted stream and stays isolated",
 "A successful OpenStream makes exactly one stream appear at the peer (through AcceptStream or the accept function), with the same stream id, meta and peer name, opposite side and the end's client id, and no stream appears that was not opened. The end and every stream report the local and remote address of the connection they run on. Data sent on a stream, from the very first byte on and in both directions, comes out of its counterpart only, and closing one stream leaves the others and the end itself fully usable.",
 ["schedules", "histories", "inputs"], "every interleaving of concurrent opens from both ends, accepts, closes and traffic on several streams, every meta (empty to larger than a segment), and every transport timing",
 "The tests open at most one stream at a time from one side; crossed opens from both ends, data overtaking the acceptance, and close of one stream under traffic of others are not run.",
 MUX + ["application/end.go"], [("session handshake and dialogue id agreement", "multiplexer/dialogue.go, multiplexer/dialogue_mgr.go OpenDialogue/handlePkt")],
 ["OpenStream, AcceptStream, Stream.Meta/Peer/Side/StreamID/ClientID", "traffic on every stream"])

prop("C07", "No blocked operation outlives the connection or its stream",
 "When the connection fails in any way the transport reports (reset, half-closed, read or write error, timeout, death of the peer process) or either end is closed, every operation in progress or started afterwards on that end and its streams - Publish, Call and their asynchronous forms, Receive, Read, Write, OpenStream, AcceptStream, Register, deadline setters and Close - returns in bounded time, with an error (or data received before) rather than success. Receive and Read report io.EOF.",
 ["schedules", "fault_sequences", "crash_points"], "every kind and instant of failure or close relative to every operation in progress, including while queues are full or nobody consumes, and in every interleaving of the teardown",
 "The tests only close an idle pair of ends; a failure in the middle of blocked operations, with full queues or during the handshake of a stream, is never injected.",
 APP + MUX + CONN, [("done/close channels at each layer, sync hub close", "application/stream.go finish/fini, multiplexer/dialogue.go fini, conn/conn_base.go")],
 ["return of every public blocking operation"])

prop("C08", "Timeouts, deadlines and cancellation bound callers and reach handlers",
 "A Call, CallAsync, Publish or PublishAsync given a timeout (as an option or on the request or message), a context deadline or a cancellable context returns with an error promptly after the earliest of them passes and not before it, even if the peer never answers. A remote function whose caller gave up because of such a limit or cancellation finds its context done in bounded time - but not while the caller still waits - and a late answer disturbs nothing.",
 ["schedules", "inputs", "histories"], "every limit kind and length (including already expired ones and several at once), every handler duration around it, every interleaving of the limit with the answer, on a healthy connection",
 "The tests set no limit that expires; the races of answer against limit and the propagation to the handler are never exercised.",
 APP[:3] + ["packet/packet_message.go", "packet/packet_app.go"], [("sync hub timeout and context, deadline in the request packet, request cancel packet", "application/rpc.go, application/stream.go handleInRequestCancelPacket")],
 ["elapsed time and error of limited operations", "ctx.Err() inside registered functions"])

prop("C10", "No schedule, fault or misuse of a closed end crashes the process",
 "No sequence of public operations, however interleaved with each other, with incoming traffic, with timeouts and with connection failures or closes on either side, and no bytes sent by a peer, make the library panic (nil dereference, send on or close of a closed channel, concurrent map access, index out of range) or deadlock. Operations on a closed end or stream return errors and Close may be called any number of times from any goroutine.",
 ["schedules", "histories", "fault_sequences", "crash_points", "inputs"], "all interleavings of all public operations with all failure and close points, shared or own timers, all buffer sizes",
 "A panic needs a specific interleaving of teardown and use; the tests tear down only idle ends.",
 APP + MUX + CONN + ["packet/decode.go", "client/end_retry.go", "server/server.go"], [("channel ownership and closing discipline", "application/stream.go, multiplexer/dialogue.go, conn/conn_base.go")],
 ["process survival", "progress of the whole system"])

prop("C11", "Close completes, is noticed by the peer, and everything is released",
 "End.Close and Stream.Close return in bounded time, whatever is in flight and even when the peer is dead or silent, and on a healthy connection what was written, published or acknowledged before is still delivered to a peer that consumes, and the counterpart notices: its pending and later operations report the end. After both ends of a connection are closed, or the connection died and the end was closed, every socket is closed and no goroutine started for it survives.",
 ["schedules", "fault_sequences", "crash_points"], "every instant of close or failure relative to all traffic, both sides closing in any order or at once, peers that are dead, silent or closing themselves",
 "Leaks and hangs on close appear only for closes that race traffic, failures or the peer's own close; the tests close idle ends and never count goroutines.",
 APP + MUX + CONN + ["server/end.go", "client/end.go"], [("dismiss handshake with timeout, disconnect handshake, closing order", "multiplexer/dialogue.go Close/CloseWait, conn/conn_client.go, conn/conn_server.go Close, application/end.go Close")],
 ["return of Close", "socket closure", "live goroutines after the end"])

prop("C16", "A flood into slow consumers neither loses data nor deadlocks",
 "When both sides publish, call and write much faster than the peer's applications consume, on several streams at once, senders are slowed down (their operations block) rather than data being dropped, and everything accepted is eventually delivered. The two directions and the different streams never block each other into a deadlock as long as every application keeps consuming, however slowly.",
 ["schedules", "histories", "inputs"], "every mix of floods in both directions over several streams, every queue and transport window size, every consumer speed",
 "The tests never fill a queue; the circular waits need all buffers of both directions full at once.",
 APP + MUX + CONN, [("back pressure by blocking hand-over, non-blocking replies", "application/stream.go reply, multiplexer/dialogue.go relay/sendUp/sendDown, conn/conn_base.go")],
 ["completion of all operations", "delivery of all data"])

prop("C19", "Identifiers are never shared by two live things",
 "Within one connection no two streams open at the same time have the same stream id, no two messages or requests created at either end have the same id, and none is zero. The ids of both sides of a stream, and the client id of both ends and all their streams, agree.",
 ["schedules", "histories"], "every interleaving of creation on both ends and concurrent creation on one end",
 "The tests look at no id; collisions need concurrent allocation or both sides allocating.",
 ["pkg/id/id.go", "packet/packet.go", "multiplexer/dialogue_mgr.go", "application/message.go", "application/rpc.go"], [("atomic counters with parity per side", "pkg/id/id.go")],
 ["Message.ID, Request.ID, Stream.StreamID, ClientID"])

exec(open(os.path.join(H, "tools", "props2.py")).read()) if os.path.exists(os.path.join(H, "tools", "props2.py")) else None
P.sort(key=lambda d: d["id"])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
