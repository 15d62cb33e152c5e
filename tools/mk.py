#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe), technique=technique))

ONE = "The existing protocol tests run one publisher and one subscriber on a lossless loopback with a fixed schedule and (nearly) one packet; "
WORLD = "stateful simulation fuzzing with a delivery ledger"
SCRIPT = "scripted-peer stateful fuzzing against a model"
MODEL = "model-based property testing"

prop("C01", "Every subscription delivers in order, without gaps, exactly once",
 "The packets a subscriber hands to its application for one subscription to one publisher are a contiguous run of that publisher's packets, in the order they were queued, each exactly once. This holds whatever datagrams are lost, duplicated, delayed or reordered, and whichever packets arrive over the control connection instead. Once the network is quiet and timers were served, the run reaches the publisher's last packet.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of queueing, sending, loss, duplication, reordering, resending, acknowledging, joining and leaving with 1-2 publishers and 1-3 subscribers",
 ONE + "order under loss, duplication and late joins is never exercised.",
 ["sub.c", "rmc_sub_read.c", "rmc_pub_timeout.c", "pub.c"],
 [("reordering and duplicate filter", "sub.c"), ("packet intake", "rmc_sub_read.c"), ("resend over the control connection", "rmc_pub_timeout.c")],
 ["rmc_sub_get_next_dispatch_ready()", "rmc_sub_packet_payload()"], WORLD)

prop("C02", "Delivered payloads are the bytes and length that were queued",
 "Each packet handed to a subscribing application carries exactly the payload bytes and payload length given to the publisher when it was queued, for every length from 0 to the documented maximum and on both delivery paths (multicast and resend). Several packets arriving together, or split at any point, do not change that.",
 ["inputs", "schedules"], "payload lengths 0..65312 with boundary bias, content, both delivery paths, batching and splitting",
 "The tests send small fixed strings and check them on the multicast path only.",
 ["rmc_sub_read.c", "rmc_pub_write.c", "rmc_pub_timeout.c", "rmc_protocol.c"],
 [("datagram encode", "rmc_pub_write.c"), ("datagram and resend decode", "rmc_sub_read.c"), ("resend encode", "rmc_pub_timeout.c")],
 ["rmc_sub_packet_payload()", "rmc_sub_packet_payload_len()"], WORLD)

prop("C03", "A lost packet reaches every connected subscriber in bounded time",
 "When a packet's datagram does not reach a connected subscriber, the packet is resent over that subscriber's control connection and becomes ready there within the resend timeout (100 ms after it was sent) plus transfer time and poll latency, while both sides serve their deadlines and sockets. Continuous further traffic, other subscribers' losses and other subscribers' acknowledgements do not postpone it.",
 ["schedules", "fault_sequences", "histories"], "loss patterns (including total multicast loss), traffic patterns and subscriber sets",
 ONE + "no datagram is ever lost, so the resend path never runs under load.",
 ["rmc_pub_timeout.c", "pub.c", "rmc_pub_write.c"],
 [("search for overdue packets", "pub.c"), ("resend", "rmc_pub_timeout.c"), ("deadline", "rmc_pub_timeout.c")],
 ["rmc_pub_timeout_get_next()", "rmc_pub_timeout_process()"], WORLD)

prop("C04", "The publisher releases each payload exactly once, and not too early",
 "A queued payload is given back through the application's release function exactly once, with the pointer and length it was queued with. That does not happen before the packet was sent and every subscriber that was connected when it was sent has acknowledged it, been resent it, or disconnected; once all of them have, it has happened. Deleting the context releases whatever is left.",
 ["histories", "schedules", "fault_sequences"], "all histories of queueing, sending, acknowledging, resending, joining, disconnecting, and context deletion",
 "The tests free payloads of single packets with one subscriber and never leave packets queued or in flight.",
 ["pub.c", "rmc_pub_write.c", "rmc_pub_read.c", "rmc_pub_timeout.c", "rmc_pub_context.c"],
 [("reference count", "pub.c"), ("acknowledgement intake", "rmc_pub_read.c"), ("deletion", "rmc_pub_context.c")],
 ["payload_free callback"], WORLD)

prop("C05", "Every payload buffer a subscriber allocates is owned by exactly one side",
 "Every buffer obtained from the application's allocation function is given back exactly once: by the library through the release function, or by the application that kept the payload when it dispatched the packet. Allocation and release get the user data of the context and the length asked for, and no buffer is touched after it was given back, on any path including duplicates, failed reads, disconnects and context deletion.",
 ["histories", "fault_sequences"], "all histories of reception, duplicates, disconnects, dispatching with and without keeping the payload, deactivation",
 "Duplicates, disconnects with packets pending and teardown with packets ready are never reached by the tests.",
 ["rmc_sub_read.c", "rmc_sub_packet.c", "rmc_sub_context.c", "sub.c"],
 [("payload allocation on intake", "rmc_sub_read.c"), ("dispatch", "rmc_sub_packet.c"), ("reset of a publisher", "sub.c")],
 ["payload_alloc and payload_free callbacks"], WORLD)

prop("C06", "Teardown gives back every descriptor, poll registration and byte of memory",
 "After a context is deactivated and deleted, every descriptor it opened is closed exactly once, every poll registration it made was removed, and every byte of memory it allocated is freed, whatever connections, packets, and timers existed at that moment. While running, repeated connect, transfer and disconnect cycles do not make descriptors or memory grow.",
 ["histories", "crash_points"], "teardown at any point of any history; repeated cycles",
 "The tests exit the process instead of tearing down, and no leak is ever looked for.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c", "rmc_sub_packet.c"],
 [("deactivate and delete", "rmc_pub_context.c, rmc_sub_context.c"), ("connection close", "rmc_connection.c")],
 ["descriptors, heap and poll registrations"], WORLD)

prop("C07", "Poll callbacks describe exactly the descriptors and interest in use",
 "Poll registrations are added once, modified only while they exist, and removed once while the descriptor is still open, each with the context's user data and a stable index; no callback refers to a descriptor that is not open. Read interest is kept on every listening, receiving and control socket as long as it is in use, and write interest is requested when there is something to write (or a connection attempt to complete) and dropped once there is not, for level-triggered and for one-shot pollers.",
 ["histories", "schedules"], "all histories, with level-triggered and one-shot poll loops",
 "The test programs ignore redundant modifications and use one poller type on one history.",
 ["rmc_connection.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_sub_read.c", "rmc_pub_read.c", "rmc_pub_context.c", "rmc_sub_context.c"],
 [("poll bookkeeping per connection", "rmc_connection.c"), ("re-arming", "rmc_sub_read.c, rmc_pub_read.c, rmc_pub_write.c, rmc_sub_write.c")],
 ["poll_add, poll_modify and poll_remove callbacks"], WORLD)

prop("C08", "A subscriber acknowledges exactly what it received, and in time",
 "The acknowledgements a subscriber writes cover every packet that it took from multicast (neither a duplicate nor older than the first one it took), cover no packet that it did not receive, and are written on the control connection of the packet's publisher no later than the acknowledgement timeout (50 ms) after the packet came in, provided deadlines are served. Packets that came over the control connection need no acknowledgement.",
 ["histories", "schedules"], "arrival orders, gaps, duplicates and timing for one or several publishers",
 "The tests acknowledge one contiguous interval of one publisher.",
 ["sub.c", "rmc_sub_timeout.c", "rmc_sub_write.c", "rmc_sub_read.c"],
 [("received intervals", "sub.c"), ("acknowledgement timer", "rmc_sub_timeout.c")],
 ["acknowledgement commands on the control connection"], SCRIPT)

prop("C09", "The publisher accounts every acknowledgement to the right subscriber",
 "A packet counts as pending until each subscriber connected when it was sent has acknowledged it, was resent it, or left; acknowledgements of one subscriber never settle another subscriber's packets, and acknowledging unknown, already settled or not yet sent packets changes nothing. The counters reported for queued and unacknowledged packets and unsent bytes always match that.",
 ["inputs", "histories"], "arbitrary acknowledgement intervals (overlapping, repeated, out of range) from several subscribers",
 "The tests acknowledge each packet once from one subscriber.",
 ["rmc_pub_read.c", "pub.c", "rmc_pub_context.c"],
 [("acknowledgement intake", "rmc_pub_read.c"), ("in-flight lists", "pub.c"), ("counters", "rmc_pub_context.c")],
 ["rmc_pub_context_get_pending()", "payload_free callback"], SCRIPT)

prop("C10", "Only overdue packets are resent, once, and only to those who miss them",
 "A packet is resent to a subscriber only if that subscriber was connected when it was sent, has not acknowledged it, and the resend timeout has passed since it was sent; it is resent to it at most once, byte for byte the packet that was multicast, in ascending order. A packet sent over multicast is never multicast again, and packets go out in the order queued with consecutive ids.",
 ["histories", "schedules"], "acknowledgement and timer schedules over several subscribers",
 ONE + "no resend is ever observed, let alone its absence.",
 ["rmc_pub_timeout.c", "pub.c", "rmc_pub_write.c"],
 [("resend", "rmc_pub_timeout.c"), ("overdue search", "pub.c")],
 ["packet commands on the control connection", "datagrams"], SCRIPT)

prop("C11", "Timer deadlines are exact and serving them always makes progress",
 "The next deadline a context reports is the earliest time at which it has something to do (an announcement, a resend, an acknowledgement), or 'none' when nothing is due; it is never later than that. (A resend or acknowledgement for which its connection has no room counts again once data has been written.) Serving timers at or after a deadline does what is due, so the reported deadline moves into the future and a loop that sleeps until the deadline never spins; serving them before the deadline does nothing. Setting the time of day changes none of this.",
 ["schedules", "histories"], "all histories, timers served early, on time and late",
 "The tests only observe that something arrives in the end.",
 ["rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c"],
 [("publisher timers", "rmc_pub_timeout.c"), ("subscriber timers", "rmc_sub_timeout.c")],
 ["rmc_pub_timeout_get_next()", "rmc_sub_timeout_get_next()"], SCRIPT)

prop("C12", "Throttling suspends at the high mark and resumes at the low mark",
 "With throttling configured (suspend threshold above the resume threshold), a queueing call that finds at least the suspend threshold of packets sent and not yet acknowledged suspends traffic after taking its packet; from then on queueing is refused with the busy error until the number of unacknowledged packets has fallen to the resume threshold or below. Acknowledgements, resends and departures of subscribers all count towards resuming, so that traffic never stays suspended with the backlog gone, and nothing refused is ever sent or released.",
 ["histories", "configurations"], "thresholds (including equal, zero and inverted ones) and all histories of queueing, sending, acknowledging, leaving",
 "No test configures throttling.",
 ["rmc_pub_packet.c", "rmc_pub_read.c", "rmc_pub_timeout.c", "rmc_pub_context.c", "rmc_pub_write.c"],
 [("suspend check", "rmc_pub_packet.c"), ("resume checks", "rmc_pub_read.c, rmc_pub_timeout.c")],
 ["rmc_pub_queue_packet()", "rmc_pub_traffic_suspended()"], SCRIPT)

prop("C13", "Announcements go out on schedule, as the application shaped them",
 "While an announce interval is set and traffic is not suspended by throttling, a publisher that serves its deadlines multicasts an announcement once per interval, carrying its node id, its actual control address and port, the unsequenced packet id, and the payload that the announce callback produced at that moment (none when it has no callback); if the callback declines nothing is sent that time. Interval 0 stops announcing. Announcements never use up packet ids, are never acknowledged or resent, and never reach applications as data.",
 ["configurations", "schedules", "histories"], "intervals, callback payloads, callback refusals, mixture with traffic",
 "The tests announce with one interval and look at the first announcement only.",
 ["rmc_pub_timeout.c", "rmc_pub_packet.c", "rmc_pub_write.c", "rmc_sub_read.c"],
 [("announce timer", "rmc_pub_timeout.c"), ("unsequenced queueing", "rmc_pub_packet.c")],
 ["datagrams", "announce callbacks"], SCRIPT)

prop("C14", "An announcement leads to exactly one subscription, and only if accepted",
 "On receiving an announcement from a publisher that it is not connected or connecting to, a subscriber offers it to its announce callback with the publisher's address, port, node id and payload, and connects to that address exactly when accepted (or when it has no callback). At most one control connection per publisher exists at a time; once it is up, the subscription-complete callback is called once with the same address, port and node id. A failed, refused or broken connection leaves the subscriber able to subscribe on a later announcement.",
 ["histories", "fault_sequences", "inputs"], "announcement sequences, connection outcomes (immediate, delayed, refused, broken), callback decisions, several publishers",
 "The tests make one subscription to one publisher that succeeds at once.",
 ["rmc_sub_read.c", "rmc_connection.c", "rmc_sub_write.c"],
 [("announce intake", "rmc_sub_read.c"), ("connect and completion", "rmc_connection.c, rmc_sub_write.c")],
 ["announce and subscription-complete callbacks", "connections"], SCRIPT)

prop("C15", "Subscriber admission and departure are reported truthfully",
 "For every control connection a publisher accepts, its connect callback is called once with the subscriber's address and port; a rejected subscriber is closed at once, receives nothing and is never counted. For every admitted subscriber that goes away, however that happens (also while data are being written to it), the disconnect callback is called exactly once with the same address and port (for a rejected one it is not specified), and the subscriber count reflects the admitted subscribers at every moment.",
 ["histories", "fault_sequences"], "connect, reject, close, reset and protocol-error sequences of several subscribers",
 "The tests accept one subscriber and never see it leave.",
 ["rmc_pub_read.c", "rmc_connection.c", "rmc_pub_context.c"],
 [("accept", "rmc_connection.c, rmc_pub_read.c"), ("close", "rmc_pub_context.c, rmc_pub_read.c")],
 ["connect and disconnect callbacks", "rmc_pub_get_subscriber_count()"], SCRIPT)

prop("C16", "Control messages arrive once, in order, whole, and at the right publisher",
 "A control message that a subscriber's call accepted is given to the addressed publisher's control message callback exactly once, with the bytes and length sent, the subscriber's address and port, in the order sent on that connection. A message that cannot be sent (unknown or unconnected publisher, no room) is refused with an error and leaves no trace on the connection.",
 ["inputs", "histories", "schedules"], "message sizes, send patterns, buffer fill levels and segmentations, addressing by node id and by address",
 "No test sends a control message.",
 ["rmc_sub_write.c", "rmc_pub_read.c", "rmc_protocol.c"],
 [("message write", "rmc_sub_write.c"), ("message intake", "rmc_pub_read.c")],
 ["control message callback"], WORLD)

prop("C17", "Hostile multicast input neither harms nor fools a subscriber",
 "Datagrams of any content and size, from any source, do not crash the subscriber, make it access memory out of bounds, leak, loop, or stop it from receiving valid packets. A datagram that is not a valid packet of a publisher it is connected to is never delivered, and does not change which valid packets are delivered; bytes of a datagram beyond the payload length it states are ignored.",
 ["inputs", "histories"], "arbitrary and mutated datagrams interleaved with valid traffic",
 "The tests only ever receive well-formed datagrams.",
 ["rmc_sub_read.c"],
 [("datagram validation", "rmc_sub_read.c")],
 ["rmc_sub_read()", "delivered packets"], "mutation-based and structure-aware fuzzing with a differential oracle")

prop("C18", "Hostile control bytes neither harm nor stop a publisher",
 "Whatever bytes a subscriber sends on its control connection, the publisher does not crash, access memory out of bounds, leak, or spend time out of proportion, and its other subscribers, their acknowledgement state and its multicast traffic are unaffected. A malformed command (an unknown one, or one too large to ever be received) is answered, when it is read, by an error and the end of that connection.",
 ["inputs", "histories"], "arbitrary and mutated command streams, segmented arbitrarily, next to well-behaved subscribers",
 "The tests only ever receive well-formed acknowledgements.",
 ["rmc_pub_read.c", "rmc_protocol.c", "rmc_connection.c", "circular_buffer.c"],
 [("command decoding", "rmc_connection.c, rmc_pub_read.c")],
 ["rmc_pub_read()"], "mutation-based and structure-aware fuzzing with a differential oracle")

prop("C19", "Hostile control bytes neither harm nor stop a subscriber",
 "Whatever bytes a publisher sends on the control connection, the subscriber does not crash, access memory out of bounds, leak, or spend time out of proportion, and what it delivers from other publishers is unaffected. Malformed commands end with an error and that connection's end; valid packets before them are delivered.",
 ["inputs", "histories"], "arbitrary and mutated command streams, segmented arbitrarily, next to a well-behaved publisher",
 "The tests only ever receive well-formed packets.",
 ["rmc_sub_read.c", "rmc_protocol.c", "rmc_connection.c", "circular_buffer.c"],
 [("command decoding", "rmc_connection.c, rmc_sub_read.c")],
 ["rmc_sub_read()"], "mutation-based and structure-aware fuzzing with a differential oracle")

prop("C20", "How the byte stream is cut never changes what it means",
 "The effect of a sequence of control commands on either side (deliveries, acknowledgements, messages, callbacks) is the same however the stream is cut into reads and writes: byte by byte, in fragments that straddle commands, or all at once, with any number of commands per read and at every buffer position.",
 ["inputs", "schedules"], "command sequences and their segmentations, receive buffer positions including wrap-around",
 "On loopback the tests get each command in one read.",
 ["rmc_connection.c", "rmc_protocol.c", "circular_buffer.c", "rmc_pub_read.c", "rmc_sub_read.c"],
 [("command dispatch over the receive buffer", "rmc_connection.c"), ("partial writes", "rmc_connection.c")],
 ["callbacks and deliveries"], "metamorphic testing: same stream, different segmentation")

prop("C21", "A slow, stuck or dead subscriber does not hold up the others",
 "With one subscriber that reads nothing, acknowledges nothing, fills its connection, or disappears, the publisher keeps sending, and keeps resending to, and settling acknowledgements of, the others exactly as if it were not there. When that subscriber becomes responsive or disconnects, everything owed to it is delivered or released.",
 ["fault_sequences", "schedules"], "stalls, full connections, resets at any point, next to well-behaved subscribers",
 "The tests have one well-behaved subscriber.",
 ["rmc_pub_timeout.c", "rmc_pub_write.c", "rmc_pub_read.c", "pub.c"],
 [("resend loop over subscribers", "rmc_pub_timeout.c")],
 ["deliveries at the other subscribers", "payload_free callback"], SCRIPT)

prop("C22", "A subscriber keeps publishers apart",
 "A subscriber connected to several publishers attributes each packet to the connection of the publisher that sent it, and loss, disconnection, restart, and id reuse by one publisher do not change what is delivered from or acknowledged to another. Packets from publishers to which it is not connected are not delivered.",
 ["histories", "schedules"], "2-4 publishers with overlapping ids, interleaved traffic, connects, disconnects and restarts",
 "The tests have one publisher.",
 ["rmc_sub_read.c", "rmc_connection.c", "sub.c", "rmc_sub_context.c"],
 [("publisher lookup", "rmc_sub_read.c"), ("per-connection state", "rmc_sub_context.c")],
 ["deliveries per publisher", "acknowledgements per connection"], SCRIPT)

prop("C23", "The circular buffer is a bounded first-in first-out byte queue",
 "Under any sequence of allocating and filling, reading (whole, at an offset, or in place), freeing and trimming, the buffer holds exactly the bytes stored and not yet removed, in order, up to one byte less than its size; it refuses what does not fit without changing, and never touches memory outside its storage. An allocation that is not empty has at least its first byte in the first segment it returns.",
 ["inputs", "histories"], "operation sequences, sizes, wrap positions",
 "The unit test walks one fixed sequence on one size; trimming and offset reads of wrapped data are not reached.",
 ["circular_buffer.c", "circular_buffer.h"],
 [("index arithmetic", "circular_buffer.c")],
 ["circ_buf_*() results"], MODEL)

prop("C24", "The generic list behaves as a sequence",
 "Under any sequence of pushes, pops, insertions, sorted insertions, unlinking, deletions, searches and traversals in both directions, the list holds exactly the elements put in and not taken out, in the order the operations define, with a matching size and consistent links, and each node is allocated and released exactly once.",
 ["histories"], "operation sequences over one or more lists with custom and default node allocation",
 "The unit test runs fixed sequences on short lists.",
 ["rmc_list.h", "rmc_list_template.h"],
 [("list template", "rmc_list_template.h")],
 ["list functions"], MODEL)

prop("C25", "Received-id bookkeeping is the exact set of ids, as maximal intervals",
 "After any order of receptions and acknowledgements, the recorded intervals are exactly the maximal runs of the ids received and not yet acknowledged, in ascending order, each with the time its oldest id was received; the oldest unacknowledged reception reported is the oldest of all.",
 ["inputs", "histories"], "insertion orders of distinct ids, with passing time and acknowledgements in between",
 "The unit test tries a few insertion orders and never lets time pass.",
 ["sub.c"],
 [("interval insertion and merging", "sub.c")],
 ["interval list contents"], MODEL)

prop("C26", "The subscriber engine orders and deduplicates like its reference model",
 "For any sequence of receptions, duplicate queries and processing steps, the packets made ready are the contiguous run that starts at the lowest id known when first processed, in order, each with its payload, length and user data; a packet is called a duplicate exactly when it was received before or precedes that run. Resetting gives back every payload that was not made ready exactly once and leaves the slot usable for a new publisher.",
 ["histories", "inputs"], "receive, query, process, hand-out and reset histories",
 "The unit test feeds fixed sequences.",
 ["sub.c"],
 [("reordering", "sub.c"), ("duplicate filter", "sub.c")],
 ["engine functions"], MODEL)

prop("C27", "The publisher engine tracks and releases packets like its reference model",
 "For any sequence of queueing, sending, acknowledging, joining, leaving and timeout queries, ids are consecutive and sent in order, a packet is held for exactly the subscribers present when it was sent, is released exactly once when the last of them acknowledges or leaves, and timeout queries report exactly the subscribers and packets that are overdue, oldest first.",
 ["histories"], "engine histories with up to five subscribers",
 "The unit test runs one fixed history.",
 ["pub.c"],
 [("in-flight lists and reference count", "pub.c"), ("overdue search", "pub.c")],
 ["engine functions", "release callback"], MODEL)

prop("C28", "What goes over the wire has the one documented layout",
 "Every datagram and every control command has exactly the documented little-endian layout with truthful field values: id, node id, payload length, control address and port of the publisher, and payload for packets; first and last id for acknowledgements; length and payload for control messages. An independent implementation of that layout can exchange packets, acknowledgements and messages with the library in both directions.",
 ["inputs", "configurations"], "field values, payload lengths, addresses, ports, node ids; both directions",
 "The tests only run the library against itself, so symmetric layout errors are invisible.",
 ["rmc_internal.h", "rmc_protocol.h", "rmc_pub_write.c", "rmc_pub_timeout.c", "rmc_sub_write.c", "rmc_sub_timeout.c", "rmc_sub_read.c", "rmc_pub_read.c"],
 [("wire structures", "rmc_internal.h, rmc_protocol.h")],
 ["bytes on the wire"], "differential testing against an independent codec")

prop("C29", "Connection slots are bounded, and a reused slot carries nothing over",
 "A context holds at most the configured number of connections and refuses further ones without disturbing those it has. A slot freed by a disconnect can be used again for any number of cycles, and nothing of its earlier use (unread or unsent bytes, acknowledgement state, packets, addresses, node id) shows in its later use.",
 ["histories", "configurations"], "capacity 1-4, more peers than slots, connect and disconnect cycles with partial data left behind",
 "The tests use one slot once.",
 ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c"],
 [("slot search and reset", "rmc_connection.c")],
 ["connection indexes, deliveries, wire bytes"], SCRIPT)

prop("C30", "API calls validate their arguments and keep what they were given",
 "Calls with missing or out-of-range arguments, or in a state that does not allow them, return the documented error and change nothing; accessors return what was set (user data also through callbacks from then on, node id, limits, counts); a node id that is left to the library is not 0 and differs from those chosen at other times. This holds in any order of configuration, activation, use, deactivation, and repetition.",
 ["inputs", "histories", "configurations"], "call sequences with valid and invalid arguments in every state",
 "The tests make each call once, correctly.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_packet.c", "rmc_sub_packet.c", "rmc_sub_write.c", "rmc_pub_timeout.c", "rmc_sub_timeout.c"],
 [("argument checks and accessors", "rmc_pub_context.c, rmc_sub_context.c")],
 ["return values"], MODEL)

prop("C31", "Logging never changes behaviour, and its level and target are honoured",
 "The observable behaviour of publishers and subscribers (wire bytes, callbacks, results, timing) is the same at every log level. A message is written exactly when its level is at or below the level set, to the configured file, and setting an invalid level is refused or ignored without harm.",
 ["configurations", "histories"], "log levels, histories repeated under different levels",
 "The tests run at one level.",
 ["rmc_log.c", "rmc_log.h"],
 [("level filter", "rmc_log.c"), ("log macros", "rmc_log.h")],
 ["log file contents", "behaviour trace"], "metamorphic testing: same history, different log level")

prop("C32", "Transient system call failures lose nothing",
 "When a socket call fails transiently (would block, interrupted, no buffers) or writes only a part, the operation reports it and the same work succeeds when repeated: no queued packet, resend, acknowledgement or control message is lost, sent twice or corrupted, and no other connection is affected. A permanent failure affects only its own connection or operation, and leaks nothing; a write to a connection that the peer has closed does not end the process (SIGPIPE).",
 ["fault_sequences"], "injected failures and short writes at any socket call of a history",
 "No test injects a failure.",
 ["rmc_pub_write.c", "rmc_pub_timeout.c", "rmc_connection.c", "rmc_sub_write.c", "rmc_sub_timeout.c", "rmc_sub_read.c"],
 [("error paths of sends and reads", "rmc_connection.c, rmc_pub_write.c")],
 ["wire bytes, deliveries, releases"], "fault-injection fuzzing with a delivery ledger")

prop("C33", "Contexts use exactly the addresses they are configured with",
 "A publisher multicasts only to its configured group and port, through its configured interface (if any) and with the time-to-live that was set, and accepts subscribers only on its configured control address and port (any free port if that is 0; the announced port is the one it listens on). A subscriber takes in every datagram sent to its group and port on its interface and none sent to another group or port, and connects only to announced addresses. Contexts with other settings, on the same host or elsewhere, are not affected; several subscribers of one host can share a group and port.",
 ["configurations", "histories"], "groups, ports, interfaces, control addresses and TTLs of 1-3 publishers and 1-4 subscribers on multi-homed hosts with two networks",
 "The tests use one group, one port and the loopback interface.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_connection.c"],
 [("socket setup", "rmc_pub_activate_context(), rmc_sub_activate_context()"), ("datagram destination", "rmc_pub_write.c"), ("connection setup", "rmc_conn_connect_tcp_by_address()")],
 ["destination, interface and TTL of datagrams", "listening address", "who receives what"], "simulation fuzzing against a reachability model")

prop("C34", "The library may be called from its callbacks",
 "From the connect, disconnect, control message and announce callbacks of a publisher an application may queue packets and close connections (also the one the callback is about, unless its departure is being reported), and from the announce callback change the announce interval; from the payload release callback it may queue packets. From the announce, subscription complete and packet ready callbacks of a subscriber it may take and dispatch packets, send control messages and close connections (also the one the callback is about); from its buffer allocation and release functions it may take and dispatch packets and send control messages. All other guarantees (delivery, release, polling, reports, resources) hold in such histories as they do without.",
 ["histories", "schedules"], "histories in which applications call the library from callbacks at random, at any nesting up to 3",
 "The callbacks of the tests only count and copy.",
 ["rmc_pub_read.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_pub_timeout.c", "rmc_pub_write.c", "rmc_pub_context.c", "rmc_connection.c"],
 [("control message dispatch", "process_control_message()"), ("packet ready callback", "process_cmd_packet(), decode_subscribed_multicast()"), ("connection teardown", "rmc_pub_close_connection(), rmc_sub_close_connection()")],
 ["callbacks, deliveries, releases, poll interest, descriptors"], WORLD)

prop("C35", "Read and write calls report truthfully what they did",
 "The operation that rmc_pub_read(), rmc_pub_write(), rmc_sub_read() and rmc_sub_write() report through op_res is the documented code of what the call did: an accepted or completed connection, data read or written over TCP, a disconnect, a multicast packet written, received from a subscribed publisher, from a publisher whose connection is not complete, or an ignored loopback packet. RMC_ERROR is reported when the call did none of these and failed, together with a nonzero return value; success is never reported for a call that failed, nor for an index that has no connection. A null op_res is allowed and changes nothing.",
 ["histories", "fault_sequences"], "every read and write call of simulated and scripted histories, with failing calls, disconnects, stray datagrams and unused indexes",
 "The tests print the operation and look at no value.",
 ["rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_protocol.c", "reliable_multicast.h"],
 [("operation codes", "reliable_multicast.h"), ("dispatch of reads and writes", "rmc_pub_read(), rmc_pub_write(), rmc_sub_read(), rmc_sub_write()")],
 ["op_res and return value"], "stateful fuzzing against the observed system calls")

prop("C36", "The Wireshark dissector shows what is on the wire",
 "The dissector plugin shows every field of every datagram, announcement, ack, control message and resent packet exactly once, with the value that is on the wire, and names every command. The INFO column gives the node id, control address (the sender's if the announced one is 0), control port, payload length, and packet id or 'announce' of a datagram, and the acked interval, message size or number of resent packets of a control segment. The source address is marked with * exactly if the announced control address is 0, and the PROTOCOL column names the protocol. This does not depend on how TCP cuts the commands into segments or on whether a protocol tree is asked for. After an announcement the announced control port is dissected, except where another dissector already has it. Truncated or corrupt data never makes it read outside the data, loop, or use unregistered fields.",
 ["inputs", "histories"], "datagrams and control streams of 1-8 commands, payloads of 0-65395 bytes, any segmentation, one in eight truncated, corrupt or random data",
 "The plugin is not built or run by any test.",
 ["rmc_wireshark_plugin.c"],
 [("datagram dissection", "dissect_packet_offset()"), ("control stream dissection", "dissect_rmc_tcp(), dissect_rmc_ack_interval(), dissect_rmc_ctl_msg()"), ("control port registration", "dissect_packet_offset(), proto_reg_handoff_rmc()")],
 ["fields and INFO column shown, dissectors registered, memory errors"], "structured fuzzing of the plugin on a stand-in for Wireshark's interface, against the generated fields")

prop("C37", "Log records say what was logged, when, and look as configured",
 "A record that is to be written consists of the tag of its level, the milliseconds since the configured start time, the connection index (blank, UDP, CTL or the number), source file and line, and the formatted message, and goes completely to the log file that is set at that time (stdout by default). Levels above the configured one write nothing and evaluate nothing; the level is initially that of RMC_LOG_LEVEL in the environment, none if that is absent or invalid. Colour sequences are written exactly if colours are switched on, or are automatic and the log file is a terminal, also after the file was changed or reset; the colour is off before the message begins. The start time reads back as it was set.",
 ["inputs", "histories"], "sequences of level, file (plain or pseudo-terminal), colour, start time and clock changes and records of any index, length and argument; any value of RMC_LOG_LEVEL",
 "No test reads the log.",
 ["rmc_log.c", "rmc_log.h"],
 [("record format", "rmc_log()"), ("file and colours", "rmc_log_set_file(), rmc_log_use_color()"), ("initial level", "_rmc_log_level"), ("start time", "rmc_log_set_start_time(), rmc_log_get_start_time()")],
 ["bytes written to each log file", "level and start time"], "model-based fuzzing against a reference formatter")

prop("C38", "Contexts share no state: their calls may overlap",
 "Publisher and subscriber contexts of one process share no state: a call on one context may be in progress, before or after any system call or heap operation in it and in its callbacks, while calls are made on others, as from threads that each use a context of their own. Everything that is sent and delivered, and the contexts and user data that callbacks get, are those of the context called.",
 ["schedules", "histories"], "2-6 contexts; while a call on one is at a system call, a heap operation or a callback, 1-2 calls on others run to completion, up to 300 times per history; interleavings between those points, and memory ordering, are not explored",
 "The tests use one context per process.",
 ["rmc_pub_write.c", "rmc_sub_read.c", "rmc_pub_read.c", "rmc_sub_write.c", "rmc_pub_timeout.c", "rmc_sub_timeout.c", "rmc_connection.c", "rmc_protocol.c"],
 [("datagram assembly", "send_single_multicast_packet()"), ("datagram buffer", "multicast_read()"), ("TCP reads and writes", "rmc_conn_tcp_read(), rmc_conn_process_tcp_write()"), ("announcements and acks", "rmc_pub_timeout.c, rmc_sub_timeout.c")],
 ["datagrams, deliveries, callback arguments, memory errors"], "simulation fuzzing with calls injected into calls")

NA = {}
LEVEL_NOTE = ("Generated-input search over the real library code compiled with address and bounds sanitizers; sockets, clock and heap are simulated in-process "
    "(ld --wrap), so every history is deterministic, replayable and shrunk. Absence of a violation covers the cases generated only, and trusts the simulator's model of Linux sockets.")

def main():
    r = subprocess.run(["bash", os.path.join(V, "build.sh")], capture_output=True, text=True)
    have = subprocess.run([r.stdout.strip().splitlines()[-1], "list"], capture_output=True, text=True).stdout.split()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "technique"}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
                evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
    m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the library's own sources are compiled unchanged and its libc calls redirected at link time. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(checks), "checks,", len(na), "without")
main()
