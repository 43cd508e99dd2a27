#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
SMALL="optional: RMC_SIM_MAX_PACKET/RMC_SIM_MAX_PAYLOAD shrink the per-connection buffers so that wrap-around and buffer-full states are reached in short runs"
prop("C01","Each subscription delivers in order, without gaps or duplicates",
 "Within one subscription (from the control connection being established until it is closed), the packets a subscriber hands to its application from one publisher are consecutive packets in the order the publisher queued them: none skipped, none repeated, none reordered. This holds whichever mix of multicast, late, duplicated, reordered and retransmitted copies arrives, and whatever other publishers send in between. A packet is handed over as soon as it and everything before it in the subscription have arrived.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of multicast arrivals, TCP retransmissions, timers and application dispatch calls, for any number of publishers, under any loss/duplication/reordering/delay of datagrams and any segmentation of the TCP stream",
 "The unit tests feed a handful of hand-written pid sequences to the list code; the protocol test runs one publisher and one subscriber over a loopback that neither loses nor reorders. Duplicates that race with retransmissions, several publishers sharing the ready queue, and reconnects are never produced.",
 ["sub.c","rmc_sub_read.c","rmc_sub_packet.c"],
 [("duplicate filter and sorted reception list","sub.c: sub_packet_is_duplicate, sub_packet_received"),("promotion of consecutive packets to the ready queue","sub.c: sub_process_received_packets"),("dispatch queue","rmc_sub_packet.c: rmc_sub_get_next_dispatch_ready, rmc_sub_packet_dispatched")],
 ["packets returned by rmc_sub_get_next_dispatch_ready","datagrams and TCP bytes handed to the subscriber"],SMALL,
 [("max_pid_ready","highest pid promoted to the ready queue","rmc_sub.h: sub_publisher_t")])
prop("C02","A delivered payload is byte-identical to the queued payload",
 "Every packet handed to a subscriber's application carries exactly the length and bytes of the packet the publisher queued, whether it travelled by multicast or was retransmitted over the control connection. This holds for every payload length up to the maximum, every way the control stream is cut into reads and writes, and every fill level of the buffers in between.",
 ["inputs","schedules","fault_sequences"],
 "all payload lengths 0..maximum, all short reads/writes and segment boundaries on the control connection, all positions of a command relative to the end of the internal buffers",
 "The protocol test never retransmits, so the TCP path, partial commands and buffer wrap-around are not executed end to end; the buffer unit test uses a few fixed offsets.",
 ["circular_buffer.c","rmc_protocol.c","rmc_pub_write.c","rmc_sub_read.c"],
 [("retransmission encoding","rmc_pub_write.c: rmc_pub_resend_packet"),("stream decoding","rmc_protocol.c: rmc_conn_tcp_read, rmc_conn_process_tcp_read; rmc_sub_read.c: process_cmd_packet"),("ring buffer","circular_buffer.c")],
 ["rmc_sub_packet_payload / rmc_sub_packet_payload_len","bytes written to the control connection"],SMALL)
prop("C03","Every packet reaches every live subscriber within bounded time",
 "Every packet the publisher transmits while a subscriber's control connection is accepted and stays open is eventually handed to that subscriber's application, however many datagrams are lost. Once faults stop, all outstanding packets arrive within a bounded time, even if the publisher keeps sending new ones. Only loss of the connection ends this obligation.",
 ["schedules","fault_sequences","histories"],
 "all loss/duplication/reordering/delay patterns, stalls, partitions that heal, short and blocked TCP writes, and publishing patterns that continue or stop after the faults",
 "The tests never lose a datagram, so no packet is ever retransmitted end to end; liveness under continuous traffic or a full retransmission buffer cannot be sampled by a few fixed runs.",
 ["pub.c","rmc_pub_timeout.c","rmc_pub_write.c","rmc_sub_read.c","rmc_protocol.c"],
 [("per-subscriber in-flight lists","pub.c: pub_packet_sent, pub_get_timed_out_packets"),("retransmission timer","rmc_pub_timeout.c: rmc_pub_timeout_process, rmc_pub_timeout_get_next"),("TCP retransmission","rmc_pub_write.c: rmc_pub_resend_packet, rmc_pub_write")],
 ["packets handed to the subscriber application","datagrams sent by the publisher"],SMALL)
prop("C04","The publisher releases each queued payload exactly once and not too early",
 "A payload accepted for sending is released exactly once, unmodified in address and length: never before it has been transmitted and every subscriber owed it has received or been sent it reliably or has disconnected, and never twice. Once the system is idle every transmitted payload has been released, also when there were no subscribers, and deleting the publisher releases whatever is left.",
 ["schedules","histories","fault_sequences","crash_points"],
 "every order of acknowledgements, retransmissions, connects, disconnects and shutdown, for any number of subscribers including zero",
 "Unit tests drive the bookkeeping with a fixed script and two subscribers; acknowledgement/disconnect/retransmission races and shutdown with traffic outstanding are not exercised.",
 ["pub.c","rmc_pub_packet.c","rmc_pub_read.c","rmc_pub_context.c","rmc_pub_write.c"],
 [("reference count per packet","pub.c: pub_packet_sent, pub_packet_ack, pub_reset_subscriber"),("release on disconnect and delete","rmc_pub_read.c: rmc_pub_close_connection; rmc_pub_context.c: rmc_pub_delete_context")],
 ["payload release callback","memory of the publisher context"])
prop("C05","The subscriber frees every payload exactly once with the owner's user data",
 "Every payload buffer a subscriber allocates for an incoming packet is either released exactly once through the application's release function, with the user data given at initialisation, or kept by the application on request. Nothing is leaked or released twice when packets are dispatched, when connections close with packets undelivered, or when the subscriber is shut down.",
 ["schedules","histories","fault_sequences","crash_points"],
 "every order of arrivals, dispatches, keep-payload dispatches, disconnects, deactivation and deletion, with packets waiting or out of order at that moment",
 "Existing tests do not track allocations and never close a connection or context with packets pending.",
 ["sub.c","rmc_sub_packet.c","rmc_sub_read.c","rmc_sub_context.c"],
 [("release on dispatch","rmc_sub_packet.c: rmc_sub_packet_dispatched"),("release on disconnect","sub.c: sub_reset_publisher"),("release on shutdown","rmc_sub_context.c: rmc_sub_deactivate_context")],
 ["payload allocation and release callbacks","memory of the subscriber context"])
prop("C06","Control messages arrive once, in order and intact",
 "Each control message a subscriber's call accepted is handed to the publisher's callback exactly once, in order and byte-identical while the control connection lasts, regardless of acknowledgements sharing the connection and of how the stream is cut up. A message whose call was refused is never delivered, in whole or in part.",
 ["inputs","schedules","fault_sequences"],
 "all message lengths, all interleavings with acknowledgements, short writes/reads, buffer-full states, disconnects",
 "No existing test sends a control message.",
 ["rmc_sub_write.c","rmc_pub_read.c","rmc_protocol.c","circular_buffer.c"],
 [("encoding","rmc_sub_write.c: rmc_sub_write_control_message"),("decoding","rmc_pub_read.c: process_control_message")],
 ["control message callback of the publisher","return values of the two send calls"],SMALL)
prop("C07","A slow, dead or misbehaving peer does not hold up the others",
 "A subscriber that stalls, stops reading, floods, disconnects or misbehaves does not stop the publisher from serving its other subscribers: their retransmissions and deliveries still happen within bounded time. Likewise a subscriber keeps receiving from healthy publishers whatever another publisher does, and no call of the library blocks.",
 ["schedules","fault_sequences","configurations"],
 "every combination of healthy peers with peers whose connection is stalled, partitioned, reset, full or violating the protocol",
 "The tests have one well-behaved publisher and one well-behaved subscriber.",
 ["rmc_pub_timeout.c","rmc_pub_write.c","rmc_connection.c","rmc_sub_timeout.c","rmc_protocol.c"],
 [("per-connection buffers and non-blocking sockets","rmc_connection.c"),("retransmission loop over subscribers","rmc_pub_timeout.c: rmc_pub_timeout_process"),("per-publisher acknowledgement list","rmc_sub_timeout.c")],
 ["deliveries at the healthy peers while another peer is faulty"],SMALL)
prop("C08","Throttling suspends and resumes exactly as configured",
 "With throttling configured, queueing is refused as busy exactly while traffic is suspended; suspension begins only when a queue call finds at least the suspend threshold of transmitted, unreleased packets, and ends as soon as their number is at or below the resume threshold, by acknowledgement, retransmission or disconnect alike. With throttling off traffic is never suspended, and a publisher with no subscriber left never stays suspended.",
 ["schedules","histories","configurations","fault_sequences"],
 "all threshold pairs, all orders of queueing, transmission, acknowledgement, retransmission and disconnect, including disconnect of the last subscriber",
 "Throttling is not tested at all.",
 ["rmc_pub_packet.c","rmc_pub_context.c","rmc_pub_read.c","pub.c"],
 [("suspend test","rmc_pub_packet.c: rmc_pub_queue_packet"),("resume test","rmc_pub_packet.c: rmc_pub_packet_ack")],
 ["return value of the queue call","rmc_pub_traffic_suspended after every call"])
prop("C09","A subscriber holds at most one subscription per publisher and re-subscribes",
 "An announcement from a publisher without a subscription leads to a subscription if the application accepts it and to none if it declines; a subscriber never holds two control connections to the same publisher, and the completion callback fires exactly once per established connection with the announced address, port and node id. After a failed or lost connection the next announcement re-subscribes, so that once faults stop every accepted publisher is subscribed within bounded time.",
 ["schedules","fault_sequences","histories"],
 "all timings of announcements against connection set-up, refusal, time-out, reset and close; all accept/decline decisions; more publishers than slots",
 "The protocol test subscribes once, on an undisturbed loopback.",
 ["rmc_sub_read.c","rmc_sub_write.c","rmc_connection.c","rmc_pub_read.c"],
 [("announce handling","rmc_sub_read.c: process_multicast_read, decode_unsubscribed_multicast"),("connect and completion","rmc_connection.c: rmc_conn_connect_tcp_by_address, rmc_conn_complete_connection; rmc_sub_write.c: rmc_sub_write"),("accept","rmc_connection.c: rmc_conn_process_accept; rmc_pub_read.c: rmc_pub_read")],
 ["connect attempts, callbacks and registered connections of each subscriber"])
prop("C10","Poll callbacks always describe exactly what the library needs polled",
 "Each descriptor is added once with a unique index, modified only while added, and removed exactly once while still open, before it is closed; the requested actions always let all pending work complete, both for level-triggered pollers and for one-shot pollers that re-arm only on modify, and write interest is requested only when there is something to write or a connection to complete. After deactivation nothing remains registered.",
 ["schedules","fault_sequences","histories"],
 "every history of connects, reads, writes, short writes, errors and closes, with level-triggered and one-shot event loops",
 "The test program ignores re-arm calls and uses a level-triggered loop; a missing or wrong registration only shows up as a hang under particular interleavings.",
 ["rmc_connection.c","rmc_pub_write.c","rmc_sub_write.c","rmc_sub_read.c","rmc_pub_read.c","rmc_pub_packet.c","rmc_pub_context.c","rmc_sub_context.c"],
 [("registration of connections","rmc_connection.c"),("write interest","rmc_pub_write.c, rmc_sub_write.c"),("re-arm after reads","rmc_sub_read.c, rmc_pub_read.c")],
 ["the three poll callbacks","descriptors the simulated kernel sees open"])
prop("C11","Descriptors, slots and counters never leak or drift",
 "Between calls the descriptors a context holds open are exactly those it has registered for polling, no descriptor is closed twice or used after close, and the reported subscriber, publisher and socket counts match. A failed activation releases everything and can be retried, a full connection table only defers further peers until a slot is free, and after deactivation and deletion no descriptor or memory remains.",
 ["fault_sequences","histories","crash_points"],
 "every failing system call at every point of activation, connect, accept, completion and close, and every history of connects and disconnects",
 "The tests never make a system call fail and never check descriptors or memory after shutdown.",
 ["rmc_connection.c","rmc_pub_context.c","rmc_sub_context.c"],
 [("slot allocation and release","rmc_connection.c: _get_free_slot, rmc_conn_close_connection"),("activation error paths","rmc_pub_context.c: rmc_pub_activate_context; rmc_sub_context.c: rmc_sub_activate_context")],
 ["simulated kernel's descriptor table","count getters","allocator"])
prop("C12","Announcements are sent on time, unaltered, and never delivered as data",
 "While announcing is enabled and the event loop runs, an announcement goes out every interval, never faster, carrying exactly the bytes the announce callback produced, and none when the callback declines or announcing is off; a subscriber's announce callback sees those bytes with the publisher's address, port and node id. Announcements are never handed to an application as data and never need acknowledgement.",
 ["schedules","inputs","fault_sequences"],
 "all announce payloads and intervals, all interleavings with data traffic, blocked or failing multicast sends and the memory reuse between producing and sending an announcement",
 "The tests send announcements without payload and never look at one.",
 ["rmc_pub_timeout.c","rmc_pub_packet.c","rmc_pub_write.c","rmc_sub_read.c","rmc_pub_context.c","pub.c"],
 [("announce timer","rmc_pub_timeout.c: rmc_pub_timeout_process; rmc_pub_context.c: rmc_pub_set_announce_interval"),("pid 0 packets","pub.c: pub_queue_no_acknowledge_packet, pub_packet_sent"),("reception","rmc_sub_read.c: decode_unsubscribed_multicast")],
 ["datagrams sent","announce callbacks on both sides"])
prop("C13","Timer contract: reported deadlines are exact and always make progress",
 "The next deadline reported is never later than the moment the oldest pending acknowledgement (50 ms), retransmission (100 ms) or announcement falls due, never earlier than the first of them, and 'none' exactly when nothing is pending. An application that calls the timeout function at those deadlines sees received packets acknowledged and lost packets retransmitted when due and not before, and each due call makes progress unless the peer's connection is blocked.",
 ["schedules","histories"],
 "all interleavings of receptions, acknowledgements and announcements from several peers, and arbitrary clock origins",
 "Timers are only exercised by wall-clock runs with one peer; ordering between several peers' deadlines is never tested.",
 ["rmc_pub_timeout.c","rmc_sub_timeout.c","rmc_sub_packet.c","sub.c","pub.c"],
 [("deadline computation","rmc_pub_timeout.c: rmc_pub_timeout_get_next; rmc_sub_timeout.c: rmc_sub_timeout_get_next"),("acknowledgement list order","rmc_sub_packet.c: rmc_sub_packet_received"),("timed out packets","pub.c: pub_get_timed_out_packets")],
 ["results of the two get-next calls","times of acknowledgements and retransmissions on the wire"])
prop("C14","Only packets really received are ever acknowledged",
 "A subscriber acknowledges a packet only if it received that packet in the current subscription, and acknowledges every packet it received by multicast. A publisher gives up a packet for one subscriber only because of that subscriber's own acknowledgement, a retransmission to it, or its disconnect.",
 ["schedules","histories","fault_sequences"],
 "every order of receptions, merges of acknowledgement ranges, reconnects and slot reuse, with several publishers and subscribers",
 "The interval unit test checks a few fixed sequences in isolation and never the acknowledgements really sent.",
 ["sub.c","rmc_sub_timeout.c","rmc_sub_write.c","rmc_pub_read.c","pub.c"],
 [("received intervals","sub.c: sub_packet_add_to_received_interval"),("sending acknowledgements","rmc_sub_timeout.c, rmc_sub_write.c: rmc_sub_write_interval_acknowledgement"),("processing","rmc_pub_read.c: process_cmd_ack_interval; pub.c: pub_packet_ack")],
 ["acknowledgements on the control connection"],SMALL)
prop("C15","Malformed or foreign input is contained",
 "Truncated, oversized, inconsistent or foreign datagrams and arbitrary bytes on a control connection never crash or hang a publisher or subscriber, never corrupt its memory and never deliver data that was not published. At worst the offending connection is reported as failed and can be closed; traffic with other peers is unaffected.",
 ["inputs","schedules","fault_sequences"],
 "all byte strings as datagrams and control streams, at any time, in any segmentation, alongside regular traffic",
 "No test feeds malformed input.",
 ["rmc_sub_read.c","rmc_pub_read.c","rmc_protocol.c","pub.c"],
 [("datagram length checks","rmc_sub_read.c: process_multicast_read"),("command dispatch","rmc_protocol.c: rmc_conn_process_tcp_read"),("acknowledgement ranges","rmc_pub_read.c: process_cmd_ack_interval")],
 ["crashes, sanitizer reports, non-returning calls","deliveries and service to the regular peers"],SMALL)
prop("C16","Restart and reconnect start from a clean slate",
 "When a publisher or subscriber stops or crashes and starts again, or a connection is lost and re-established, the new subscription begins afresh: nothing received, buffered, pending or acknowledged under an earlier connection is delivered, resent or acknowledged in it, and delivery works again without manual action. Reuse of a connection slot carries nothing over from its previous user.",
 ["crash_points","histories","fault_sequences"],
 "crash, shutdown, reset or close of either side at any point of any history, followed by restart, with slots and addresses reused",
 "No test disconnects or restarts anything.",
 ["rmc_connection.c","sub.c","pub.c","rmc_pub_read.c","rmc_sub_read.c","rmc_sub_write.c"],
 [("connection reset","rmc_connection.c: rmc_conn_reset_connection"),("publisher state reset","sub.c: sub_init_publisher, sub_reset_publisher"),("subscriber state reset","pub.c: pub_init_subscriber, pub_reset_subscriber")],
 ["deliveries after a reconnect","first bytes on a new control connection"],SMALL)
prop("C17","Publisher callbacks identify subscribers correctly and come in pairs",
 "The connect callback is invoked once per accepted control connection with the peer's real address and port; rejecting it closes the connection and the subscriber is owed nothing. Every admitted connection gets exactly one disconnect callback, with the same address and port, when it ends for whatever reason, and control messages are reported with the address and port of the connection they came in on.",
 ["schedules","fault_sequences","histories"],
 "all histories of connects, rejections, resets, closes and shutdown with any number of subscribers",
 "The test program ignores the callbacks' arguments and never disconnects.",
 ["rmc_connection.c","rmc_pub_read.c"],
 [("accept","rmc_connection.c: rmc_conn_process_accept"),("callbacks","rmc_pub_read.c: rmc_pub_read, rmc_pub_close_connection, process_control_message")],
 ["connect, disconnect and control message callbacks"])
prop("C18","Each queued packet is multicast exactly once and in queue order",
 "Every packet accepted for sending is put on the multicast group exactly once, in the order of the queue calls, with consecutive packet ids and its own payload, and without delay once the socket is writable, even when sends would block or fail temporarily. Retransmissions go only over the control connection of a subscriber that did not acknowledge.",
 ["schedules","fault_sequences"],
 "all patterns of blocked and failing sends, bursts, announcements interleaved with data, and timer activity",
 "The loopback test never sees a send fail or block.",
 ["rmc_pub_write.c","pub.c","rmc_pub_packet.c"],
 [("send loop","rmc_pub_write.c: process_multicast_write, send_single_multicast_packet"),("queue order","pub.c: pub_queue_packet, pub_next_queued_packet")],
 ["datagrams sent by the publisher"])
prop("C19","'Nothing pending' is reported exactly when nothing is pending",
 "The pending query reports idle only if every accepted packet has been transmitted and every connected subscriber has acknowledged, or been fully sent over its control connection, everything it is owed; once faults stop and queueing ends it becomes idle within bounded time. The reported queue length is the number of accepted packets not yet transmitted.",
 ["schedules","histories","fault_sequences"],
 "every moment of every history, with any number of subscribers",
 "The test program polls it at exit only, with one subscriber and no loss.",
 ["rmc_pub_write.c","rmc_pub_packet.c","pub.c"],
 [("pending query","rmc_pub_write.c: rmc_pub_context_get_pending"),("queue length","rmc_pub_packet.c: rmc_pub_queue_length")],
 ["rmc_pub_context_get_pending and rmc_pub_queue_length after every call"],SMALL)
prop("C20","Size limits are enforced and refused calls have no effect",
 "Every payload up to the documented maximum is accepted and deliverable by multicast and by retransmission alike; a larger one is refused. A refused call of any kind (too large, busy, not connected, no room, bad argument, bad thresholds) changes nothing: no ownership is taken, no packet id is used up, nothing is sent.",
 ["inputs","schedules","configurations"],
 "all payload lengths around the limits, in any buffer state, with loss forcing the retransmission path",
 "No test sends a maximum-size packet, forces its retransmission or checks a refusal.",
 ["rmc_pub_packet.c","rmc_pub_write.c","rmc_sub_write.c","reliable_multicast.h","rmc_pub_context.c"],
 [("size check","rmc_pub_packet.c: rmc_pub_queue_packet; rmc_pub_write.c: send_single_multicast_packet"),("room check","rmc_pub_write.c: rmc_pub_resend_packet; rmc_sub_write.c: rmc_sub_write_control_message")],
 ["return values and resulting wire traffic and releases"],SMALL)
prop("C21","Transient system call failures are survived",
 "When a socket call fails temporarily (would block, interrupted, out of buffers or descriptors, connection aborted, unreachable, option refused), the library reports or absorbs the failure without crashing, blocking, corrupting memory or disturbing other peers or healthy connections; an event call in which nothing failed reports no failure, and once the condition clears all outstanding work completes without outside help.",
 ["fault_sequences","schedules"],
 "every failing call at every point, for level-triggered and one-shot event loops",
 "No test makes a system call fail.",
 ["rmc_connection.c","rmc_pub_write.c","rmc_pub_read.c","rmc_sub_read.c","rmc_protocol.c"],
 [("error handling","rmc_connection.c: rmc_conn_process_accept, rmc_conn_complete_connection, rmc_conn_connect_tcp_by_address; rmc_pub_write.c: send_single_multicast_packet; rmc_sub_read.c: multicast_read")],
 ["progress after injected failures"])
prop("C22","Configured addresses, interfaces and user data are honoured",
 "A publisher sends every datagram to the configured multicast group and port, through the configured interface and with the lifetime (TTL) last set since activation, listens for subscribers on the configured address and port (or a free port if none is given), and announces exactly that address, port and its node id. A subscriber joins the configured group on the configured interface and port, reacts only to publishers of that group even when other groups share the port or the host, and connects exactly to the announced address, or to the datagram's source address if none is announced, and takes the data of such a publisher as that publisher's. Callbacks get the user data given at initialisation or set last. This also holds after deactivation and re-activation.",
 ["configurations","histories","fault_sequences"],
 "all combinations of explicit and default interface, listen address and port, one or several groups and ports, several contexts on one host, address and port ranges, and failing socket calls during activation and restarts",
 "The tests use one group, default interfaces and one fixed port, and never run contexts of two groups side by side.",
 ["rmc_pub_context.c","rmc_sub_context.c","rmc_pub_write.c","rmc_sub_read.c","rmc_connection.c"],
 [("activation","rmc_pub_context.c: rmc_pub_activate_context; rmc_sub_context.c: rmc_sub_activate_context"),("datagram header and destination","rmc_pub_write.c: send_single_multicast_packet"),("address substitution","rmc_sub_read.c: process_multicast_read")],
 ["socket options, bind addresses and destinations seen by the simulated kernel","announce and completion callbacks"])
prop("C23","Logging shows what happens and never changes it",
 "Whatever the logging settings (level 0 to 6 set by call or by the RMC_LOG_LEVEL environment variable, colours on, off or automatic, any log file or the standard output, time stamps on or off, all changeable while contexts are running), and even when writing to the log file fails, every call returns the same result and has the same effects on connections, deadlines, callbacks and the data sent and delivered. Exactly the messages up to the level set are written, to the file set last, with colour codes only if colours are on, stamped with the milliseconds since rmc_log_set_start_time was called (zero if it was not); an illegal level is refused and leaves the level unchanged.",
 ["configurations","histories","fault_sequences"],
 "every log call site in every state the system can reach, under every setting, every change of settings while running and every failure of the log file",
 "The tests run at one level to a terminal or pipe; no test compares behaviour with and without logging or lets the log file fail.",
 ["rmc_log.c","rmc_log.h","rmc_connection.c","rmc_pub_write.c","rmc_sub_read.c"],
 [("logging","rmc_log.c: rmc_log, rmc_set_log_level, rmc_log_set_file; rmc_log.h: RMC_LOG_* macros"),("results taken from errno after logging","rmc_connection.c: rmc_conn_process_tcp_write; rmc_pub_write.c: send_single_multicast_packet; rmc_sub_read.c: multicast_read")],
 ["results, deadlines, callbacks, system calls and traffic of two runs that differ only in logging","log output"])
prop("C24","Behaviour depends only on parameters, calls and input",
 "What a context does is determined by its parameters, the calls made and the data, readiness and elapsed time it sees. It does not depend on the previous contents of memory or stack (nothing uninitialised is used), on the addresses of memory blocks, on the numbers the system gives to descriptors (zero included), on how long the host has been up (the origin of the monotonic clock), or on contexts that existed earlier in the same process.",
 ["schedules","histories","fault_sequences","configurations"],
 "every reachable state combined with every content of memory, numbering of descriptors, origin of the clock and history of earlier contexts",
 "The tests run each scenario once, in a fresh process with mostly zeroed memory, small descriptors and one clock origin.",
 ["pub.c","sub.c","rmc_pub_context.c","rmc_sub_context.c","rmc_connection.c","rmc_list_template.h","time.c"],
 [("initialisation","rmc_pub_context.c: rmc_pub_init_context; rmc_sub_context.c: rmc_sub_init_context; rmc_connection.c: rmc_conn_init_connection_vector, _reset_connection; pub.c: pub_init_context, pub_init_subscriber; sub.c: sub_init_context, sub_init_publisher"),("time arithmetic","rmc_pub_timeout.c; rmc_sub_timeout.c; time.c")],
 ["results, deadlines, callbacks, system calls and traffic of two runs that differ only in these circumstances"])
prop("C30","The ring buffer behaves as a byte queue for every call sequence",
 "Taken alone, the byte ring buffer returns the bytes put in, in order, for every sequence of allocate, trim, free and read operations.",
 ["inputs"],"all operation sequences on one buffer",
 "The unit test runs a fixed script.",["circular_buffer.c"],[("ring buffer","circular_buffer.c")],["its own API"])
prop("C31","The list container behaves as a sequence for every call sequence",
 "Taken alone, the generic list keeps its elements in the documented (sorted or positional) order for every sequence of operations.",
 ["inputs"],"all operation sequences on one list",
 "The unit test runs a fixed script.",["rmc_list_template.h"],[("list","rmc_list_template.h")],["its own API"])
prop("C32","The protocol dissector decodes every captured frame without overrunning",
 "The packet-analyser plug-in shows every field of every captured datagram and control stream correctly and never reads beyond the captured bytes.",
 ["inputs"],"all captured frames","It is not built or tested here.",["rmc_wireshark_plugin.c"],[("dissector","rmc_wireshark_plugin.c")],["dissector output"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
