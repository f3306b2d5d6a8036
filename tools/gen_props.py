#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only to make the JSON lines easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/salticidae/"
prop("C01", "Serialised values read back exactly, and every view shows the unread bytes",
 "Any sequence of values (integers of every width and sign, strings, byte arrays, raw bytes, serialisable objects) written to a data stream is read back equal and in order, whatever reads are interleaved with the writes. At every moment the reported size, the data pointer, the hex text, the hash, every copy or move of the stream and every conversion to a byte array or string describe exactly the bytes not read yet. Integers passed through the little-endian helpers are laid out little-endian in the bytes.",
 ["inputs", "histories"], "all interleavings of typed puts, gets, copies, moves, swaps, clears and conversions",
 "The suite serialises a handful of fixed messages, reads them back whole and never looks at a partly consumed stream.",
 [I+"stream.h", I+"type.h"], [("DataStream put/get operators", I+"stream.h"), ("htole/letoh", I+"type.h")])
prop("C02", "Reads past the end are refused and untrusted sizes cannot over-allocate",
 "Asking a data stream for more bytes than it holds, through any read operation of the C++ or C interface, is reported as a failure (exception, false flag or null), and a refused integer or raw-byte read leaves the remaining bytes available for a later smaller read. Decoding arbitrary bytes as a 256-bit value, a bit set, a network address or a hash list either yields a value or fails with an exception, never touches memory outside the input and never allocates memory out of proportion to the input's size.",
 ["inputs"], "all byte strings, all requested lengths (including ones near the integer limits), all truncation points",
 "No test reads a truncated stream or a declared size larger than the data.",
 [I+"stream.h", "src/stream.cpp", I+"msg.h"], [("bounds checks of operator>> and get_data_inplace", I+"stream.h"), ("datastream_get_*", "src/stream.cpp"), ("parse_hash_list", I+"msg.h")])
prop("C03", "256-bit values and bit sets keep their value, order and bits",
 "A 256-bit value built from 32 bytes serialises to those same bytes from every construction path, equality is equality of those bytes, the hash agrees with equality, and 'less than' is the strict total order of the little-endian numbers. A bit set behaves like an array of booleans under set, unset, flip, get, clear, copy and load, operations on one bit never change another, and serialising then unserialising any bit set (any length, including zero and non-multiples of the word size) preserves its length and every bit.",
 ["inputs", "histories"], "all byte contents, all lengths, all operation sequences, several word widths",
 "test_bits checks three fixed lengths with one operation pattern; ordering and unusual lengths are never exercised.",
 [I+"stream.h"], [("Blob", I+"stream.h"), ("_Bits", I+"stream.h")])
prop("C04", "Hex text and digests are exact",
 "Encoding bytes as hex and decoding them again is the identity, decoding is case-insensitive, and any text that is not an even number of hex digits is rejected with an exception. SHA-256 and SHA-1 digests equal the standard ones for every input, do not depend on how the input is split into updates, and a digest object that has been reset behaves like a new one.",
 ["inputs"], "all byte strings, all texts, all ways of splitting an input",
 "Hex decoding is only used on well-formed constants in the suite and digests are only used implicitly.",
 [I+"stream.h", I+"crypto.h", "src/stream.cpp"], [("get_hex/load_hex/from_hex", I+"stream.h"), ("SHA1/SHA256", I+"crypto.h")])
prop("C05", "Messages survive the wire encoding and corruption is detected",
 "Serialising a message and parsing its header and payload back gives the same magic number, opcode, length and payload with a valid checksum, in the documented little-endian layout. Changing any payload or checksum byte of the serialised form makes checksum verification fail, copying, moving, assigning or swapping messages never changes their serialised form, and a payload can be taken from a message exactly once. A hash list written into a payload is read back identically.",
 ["inputs", "histories"], "all payloads, opcodes and magic numbers, all single- and multi-byte corruptions, all copy/move/swap sequences",
 "test_msg serialises two fixed messages and never corrupts one.",
 [I+"msg.h", "src/msg.cpp"], [("MsgBase", I+"msg.h")])
prop("C06", "The segmented buffer is a byte FIFO with push-back at the front",
 "Whatever segments (including empty ones) are appended at the back or put back at the front, and whatever sizes are popped, the segmented buffer yields exactly the model sequence of bytes: nothing lost, duplicated or reordered, and its reported size always equals the number of bytes left. Taking a whole segment returns exactly the unread part of the front segment; copying and moving buffers preserves the content.",
 ["histories"], "all sequences of push, rewind, pop(n), move_pop, copy, move, swap and clear",
 "The buffer is only exercised through sockets with whole-message reads, never at segment boundaries of its own.",
 [I+"buffer.h"], [("SegBuffer", I+"buffer.h")])
prop("C07", "The multi-producer single-consumer queue never loses, duplicates or reorders",
 "For every interleaving of any number of producers and one consumer, each element accepted by the queue is dequeued exactly once, elements of one producer come out in the order that producer put them in, and an element put back by the consumer is the next one it dequeues. A bounded enqueue that is refused leaves the queue unchanged, it is refused only when no block is free, storage is reused without growing beyond what the capacity allows, and a dequeue that starts when an enqueue has returned and its element is still inside does not report empty, so once producers are quiet the consumer can drain the queue completely.",
 ["schedules", "histories"], "all interleavings of producer and consumer steps at the granularity of atomic operations, all capacities, all rewind/dequeue patterns",
 "test_queue runs whatever interleavings the kernel happens to produce on blocks of 4096 elements; block hand-over races are hit rarely and never systematically.",
 [I+"queue.h"], [("MPSCQueue", I+"queue.h"), ("FreeList", I+"queue.h")], hook="queue block size override for harness builds")
prop("C08", "The multi-producer multi-consumer queue delivers each element exactly once",
 "For every interleaving of any number of producers and consumers, each element accepted by the queue is dequeued by exactly one consumer with the value that was put in, nothing is invented, no dequeue reports empty although completed enqueues outnumber the dequeues begun, every operation finishes once the others stop interfering, and when everybody is quiet the queue can be drained completely and then reports empty. A bounded enqueue only reports failure without having stored the element.",
 ["schedules", "histories"], "all interleavings of producers and consumers at the granularity of atomic operations, all capacities",
 "test_queue samples a few kernel schedules with blocks of 4096 elements.",
 [I+"queue.h"], [("MPMCQueue", I+"queue.h"), ("FreeList", I+"queue.h")], hook="queue block size override for harness builds")
prop("C09", "An event-driven queue never leaves elements behind without a wake-up",
 "Whenever an element is enqueued into an event-driven queue whose handler drains it (or asks to be called again), the handler is eventually run on its event loop and sees the element, for every interleaving of enqueues with handler runs, and whether the handler was registered before or after the enqueue. A handler that asks to be called again is called again even if nothing further is enqueued.",
 ["schedules"], "all interleavings of producers with the notification, re-arming and draining steps of the consumer; all burst sizes",
 "A lost wake-up needs one exact interleaving of the flag, the notification descriptor and the dequeue; ordinary runs mask it by later traffic.",
 [I+"event.h"], [("MPSCQueueEventDriven / MPMCQueueEventDriven", I+"event.h"), ("NotifyFd", I+"event.h")])
prop("C10", "Cross-thread calls run exactly once, in order, with their result or error",
 "Every asynchronous or synchronous call posted to another thread's event loop is executed exactly once on that loop, calls posted by one thread run in the order posted, and the captured state is destroyed exactly once. A synchronous call returns only after execution, with exactly the value set by the callee or the exception it threw, and after a stop every later call fails with an error instead of running.",
 ["schedules", "inputs"], "all interleavings of callers with the executing loop, all mixes of async, sync, throwing and value-returning calls, all burst sizes",
 "The suite only uses cross-thread calls indirectly, at low concurrency.",
 [I+"event.h"], [("ThreadCall", I+"event.h"), ("ThreadNotifier", I+"event.h")])
prop("C11", "Owned objects are destroyed exactly once, when the last owner goes",
 "For every sequence (and, for the atomic variant, every interleaving between threads) of copy, move, assign, swap, reset, cast and weak-reference operations on the owning and reference-counted pointers, an object stays alive while any strong owner exists, is destroyed exactly once when the last one goes, and all bookkeeping memory is released when the last weak reference goes. Upgrading a weak reference yields a live owner while one exists and null afterwards, the reported count equals the number of strong owners, and a pointer whose object was moved away is null.",
 ["histories", "schedules"], "all operation sequences over several pointers to several objects; all interleavings of threads sharing the atomic variant",
 "No test targets the pointer types; a miscount only shows as a leak or a rare crash.",
 [I+"ref.h"], [("BoxObj, RcObjBase, WeakObjBase", I+"ref.h"), ("_RCCtl/_ARCCtl", I+"ref.h")])
prop("C12", "A plain connection delivers the bytes written, in order, under any I/O splitting",
 "The messages written to one side of an unencrypted connection arrive at the other side's handlers complete, uncorrupted, in order and exactly once, whatever sizes the operating system accepts or returns per call, whenever it reports 'would block', and however many writers, workers, chunk sizes and buffer limits are configured. No combination of full buffers and readiness events stalls the flow while both ends are alive.",
 ["fault_sequences", "schedules", "configurations"], "all splittings of sends and receives, all would-block points, all chunk, buffer and worker settings that can hold a maximal message",
 "Loopback tests nearly always see full-size sends and receives and never reach the buffer limits.",
 ["src/conn.cpp", I+"conn.h", I+"buffer.h", I+"network.h"], [("_send_data/_recv_data", "src/conn.cpp"), ("on_read", I+"network.h"), ("MPSCWriteBuffer", I+"buffer.h")])
prop("C13", "An encrypted connection delivers the bytes written under any I/O splitting",
 "With TLS enabled, the messages written to one side arrive at the other side's handlers complete, uncorrupted, in order and exactly once, whatever the transport accepts or returns per call and however large or small the messages, chunks and buffers are, including when the sender is blocked in the middle of a record. No such condition kills or stalls a connection between two healthy ends, and the application bytes never appear in clear on the wire.",
 ["fault_sequences", "schedules", "configurations"], "all splittings of transport I/O, all would-block points, all chunk and buffer settings, all message sizes up to the limit",
 "The TLS tests exchange small messages over an unloaded loopback, so retries of partial records never happen.",
 ["src/conn.cpp", I+"crypto.h", I+"conn.h"], [("_send_data_tls/_recv_data_tls/handshake", "src/conn.cpp"), ("TLS", I+"crypto.h")])
prop("C14", "Messages reach the right handler once, in order, on the user's loop",
 "Every message sent on an established connection (directly or deferred, from any thread) is handed exactly once to the handler registered for its opcode, with its exact payload and its connection, on the thread running the user's event loop, and messages sent by one thread on one connection are handled in sending order. This holds when the receiver's bounded message queue fills up, for every burst size, and messages with an unregistered opcode or a payload its handler cannot parse do not disturb the handling of messages on other connections; a send that is refused because of a full bounded send buffer delivers nothing. The per-connection counters equal the messages and bytes actually sent and handled.",
 ["schedules", "inputs", "configurations"], "all message mixes, sender threads, queue sizes, burst sizes and handler speeds",
 "Existing tests use default queue sizes that are never filled and one sender per connection.",
 [I+"network.h"], [("MsgNetwork::on_read and incoming queue", I+"network.h"), ("reg_handler/send_msg", I+"network.h")])
prop("C15", "Hostile bytes on a connection are contained",
 "Whatever bytes a remote end sends, the process neither crashes nor delivers a message that was not validly encoded: a header announcing more than the maximum message size closes that connection with an oversized-message error, a message whose checksum does not match is dropped while every valid message before and after it is still delivered, and an unparsable payload only affects its own connection. Other connections of the same network keep working throughout.",
 ["inputs", "fault_sequences"], "all byte streams and all ways of cutting them into packets, mixed with valid traffic, and disconnects at any byte",
 "The suite only ever sends well-formed traffic produced by the library itself.",
 [I+"network.h", "src/conn.cpp"], [("MsgNetwork::on_read", I+"network.h"), ("reg_handler error path", I+"network.h")])
prop("C16", "Every connection reports one start and one end, and releases everything",
 "Each established connection makes its callback report 'connected' exactly once before any of its messages is handled, and 'disconnected' exactly once after that (messages already received may still be handled later), on the user's loop, whoever ends it (local terminate, remote close, error) and however many times or concurrently it is ended; a failed attempt reports at most one end and never a start, and an unreachable address is given up at the connect timeout. After the end the descriptor is closed exactly once, no later write or terminate on the dead handle does harm, and when the network is stopped and destroyed all descriptors, threads and connection objects are released.",
 ["histories", "schedules", "fault_sequences"], "all sequences of connect, accept, send, terminate, remote close, reset, refused and timed-out connects and stop, in every overlap",
 "Tests open a few connections and tear them down once in an orderly way.",
 ["src/conn.cpp", I+"conn.h"], [("worker_terminate/disp_terminate/del_conn", "src/conn.cpp"), ("update_conn", I+"conn.h"), ("stop_workers", I+"conn.h")])
prop("C17", "With TLS, a connection is only used after its certificate was accepted",
 "On a TLS network no message is handled and no message is answered on a connection before the connection callback has accepted it, the certificate shown to the callback is exactly the one the remote end proved possession of, and a connection whose callback returns false is closed without any message from it ever being handled. A remote end that fails the handshake, speaks plain text, presents no certificate, or (when certificates are checked against a CA) presents one that the CA did not sign never produces a connected connection, and does not disturb other connections.",
 ["inputs", "histories", "fault_sequences"], "all accept/reject decisions, all certificates, all malformed or truncated handshakes, data sent right behind the handshake",
 "The TLS test has one connection per side with a callback that checks one fixed certificate.",
 [I+"conn.h", "src/conn.cpp", I+"crypto.h"], [("update_conn", I+"conn.h"), ("_recv_data_tls_handshake", "src/conn.cpp"), ("TLSContext::set_verify", I+"crypto.h")])
prop("C18", "Two peers that know each other end up with exactly one working link",
 "When two nodes have registered each other and at least one of them keeps trying to connect, they eventually hold one established link on which messages flow both ways, whichever side connects first, even if both connect at the same moment, and after that link breaks for any reason, or one of them vanished without a word and returns, they re-establish one. Of two crossing attempts both sides keep the same one, and no superfluous established connection survives.",
 ["schedules", "histories", "fault_sequences"], "all orders and overlaps of the two sides' connection attempts, handshake messages, link failures, and restarts",
 "The peer tests run a few fixed scenarios; crossing handshakes and failures at each handshake step are left to chance.",
 [I+"network.h"], [("ping_handler/pong_handler/finish_handshake", I+"network.h"), ("on_dispatcher_setup/teardown", I+"network.h"), ("conn_peer/start_active_conn", I+"network.h")])
prop("C19", "Messages queued for a peer survive reconnection without corrupting the stream",
 "Messages sent to a registered peer while no link is up are delivered, once and in order, after the link is established, ahead of messages the same thread sends later. When a link breaks at any moment, the accepted messages of which nothing has been handed to the operating system are sent on the next link in the order they were queued, and the receiver never sees a corrupted or duplicated message, nor a reordered one within a link: what is delivered is the accepted sequence, with at most messages missing that had been handed to the operating system wholly or partly.",
 ["schedules", "fault_sequences", "histories"], "all break points relative to the bytes of a message stream, all reconnect orders",
 "The reconnect scenario sends one message at a time on an idle link, so nothing is ever pending or half sent at a break.",
 [I+"network.h", "src/conn.cpp"], [("finish_handshake buffer hand-over", I+"network.h"), ("PeerNetwork::_send_msg", I+"network.h")])
prop("C20", "The peer registry answers exactly and errors carry the caller's ticket",
 "Adding, deleting, addressing and connecting peers behaves like a set: a peer is known from the time its addition is processed until its deletion is, adding a known peer or using an unknown one (or connecting without an address) reports the matching error exactly once with the ticket returned by that call, and a successful operation reports none. Deleting a peer closes its link and stops attempts to reach it, withdrawing its address stops the attempts too, sending to an unknown peer is refused, and the number of attempts to establish a link after a request respects the requested limit (none, that many, or unlimited, with a delay between them).",
 ["histories", "inputs"], "all sequences of registry operations from several threads, all retry limits, all states of the link",
 "The scenarios use each operation once, in the intended order, and never count attempts.",
 [I+"network.h"], [("add_peer/del_peer/conn_peer/set_peer_addr/has_peer", I+"network.h"), ("recoverable_error", I+"conn.h")])
prop("C21", "Nodes that are not registered never become peers",
 "Whatever handshake messages, addresses, nonces or certificates a remote node presents, it is never reported as an established peer and never receives messages addressed to a peer unless its identity (the address it claims, or with certificate-based identities the hash of the certificate it proved) is registered; an unregistered one that claims an identity is reported through the unknown-peer callback with the address it claimed (and its certificate) and is disconnected promptly (one that answers a manual connection is reported the same way), and one that never identifies itself is disconnected within the connection timeout. A registered peer's established link and its queued messages are unaffected by strangers that do not claim its address.",
 ["inputs", "histories"], "all handshake messages in all orders, claimed addresses, nonces, certificates, repeated and truncated handshakes",
 "One scenario has one unknown node sending one honest handshake.",
 [I+"network.h"], [("ping_handler identity check", I+"network.h"), ("PeerId", I+"network.h")])
prop("C22", "A client network routes by client address, and only to live clients",
 "On a client-server network a message sent to a client's address is delivered to the live connection from that address and to no other client, a request's reply can be sent by the address it came from, and sending to an address with no live connection is refused with an error (for deferred sends, reported once with the returned ticket). Clients leaving, returning or being replaced on the same address never make messages reach the wrong client.",
 ["histories", "schedules"], "all sequences of clients connecting, disconnecting and reconnecting (also from the same address) mixed with sends by address",
 "No existing test uses the client network at all.",
 [I+"network.h"], [("ClientNetwork", I+"network.h")])
prop("C23", "Network addresses parse, print and compare exactly",
 "An IPv4 address and port given as numbers, text or socket address denote the same address, print as exactly that dotted address and port, survive serialisation, compare equal exactly when both parts are equal and hash consistently. Text without a port, with a non-numeric, negative or out-of-range port, or with an unresolvable host is rejected with an invalid-address error, through the C++ and the C interface alike.",
 ["inputs"], "all addresses and ports, all malformed texts",
 "Tests use a handful of fixed well-formed addresses.",
 [I+"netaddr.h", "src/netaddr.cpp"], [("NetAddr", I+"netaddr.h"), ("netaddr_new_from_*", "src/netaddr.cpp")])
prop("C24", "Options take the values given, from file and command line, in order",
 "For any set of declared options, loading a configuration file and then a command line gives each option the last value it was given (the command line after the file), list options all their values in order, and flags the value true exactly if given, by long or short name, ignoring unknown names and lines without '=' in files; positional arguments are left alone. Malformed numbers, unknown command-line options, missing arguments, over-long lines and duplicate declarations are reported by exceptions and never crash or silently change another option.",
 ["inputs", "configurations"], "all option declarations, files and argument vectors",
 "The suite only parses valid test parameters.",
 ["src/util.cpp", I+"util.h"], [("Config::load/parse/update", "src/util.cpp"), ("OptVal classes", I+"util.h")])
prop("C25", "Text helpers neither truncate nor alter text",
 "Formatted strings equal what the C formatter produces for every format, argument and result length; splitting a text by a delimiter and joining the parts again gives the text back with no part containing the delimiter; trimming removes exactly the leading and trailing blanks. Log lines and error texts contain the formatted message complete, every error code has its own text, and randomised delays stay within the documented range.",
 ["inputs"], "all texts, delimiters, lengths around internal buffer sizes, error codes",
 "Tests never format long strings or check error texts.",
 ["src/util.cpp", I+"util.h"], [("vstringprintf/split/trim", "src/util.cpp"), ("SalticidaeError, Logger", I+"util.h")])
prop("C26", "Timers and descriptor events fire exactly as armed",
 "A timer fires exactly once per arming, not before its delay, in deadline order, and never after it was disarmed, cleared, re-armed for later or destroyed; descriptor events fire only for the directions armed and while armed; a timed descriptor event reports either readiness or, after its timeout without readiness, a timeout once. Moving or swapping event objects, also from inside a callback, carries their arming and callback along so that each callback runs with its own object.",
 ["histories", "schedules"], "all sequences of arm, disarm, clear, move, swap, set-callback and destroy interleaved with the passage of time and readiness, also issued from inside callbacks",
 "Event objects are only used in their simplest way by the tests.",
 [I+"event.h"], [("TimerEvent, FdEvent, TimedFdEvent, SigEvent, CheckEvent", I+"event.h")])
prop("C27", "The C interface does what the C++ interface does",
 "Every operation of the C interface on byte arrays, streams, 256-bit values, addresses, messages, peer ids, queues, timers and cross-thread calls has the same observable result as the corresponding C++ operation on the same history, including failures, which appear as the documented flag, null or error code instead of an exception. A message built through the C interface is received by a C++ network (and the other way round) with the same opcode, magic number and payload, and send functions return whether the message was accepted.",
 ["inputs", "histories"], "all sequences of C calls mirrored by C++ calls",
 "One C test program exercises one message exchange.",
 ["src/stream.cpp", "src/msg.cpp", "src/network.cpp", "src/netaddr.cpp", "src/event.cpp", "src/type.cpp"], [("C bindings", "src/stream.cpp"), ("network bindings", "src/network.cpp")])
prop("C28", "Keys and certificates survive export and import",
 "A private key or certificate exported as DER bytes or to a PEM file and loaded again is the same key or certificate (same DER, same public key), password-protected files open with the right password only, and a network refuses a certificate that does not belong to its key. A self-signed certificate carries, and verifies with, the key it was made from. Malformed, truncated or missing inputs and unwritable destinations are rejected with an exception, never crash and leave no file open.",
 ["inputs", "fault_sequences"], "generated keys and certificates, all truncations and corruptions of their encodings",
 "Tests load two fixed PEM files.",
 [I+"crypto.h", "src/crypto.cpp"], [("PKey, X509, TLSContext", I+"crypto.h")])
prop("C29", "Idle links stay up, dead ones are noticed in time",
 "An established link between two healthy peers is kept, without being reported as ended or established again, for as long as the network delivers their traffic, however idle or busy it is and whatever ping period and connection timeout (longer than the time two heartbeats take) are configured. When one end of a link stops answering without closing (its host is gone, or the network drops everything), the other reports the end of the link within the connection timeout after the last heartbeat it sent, closes it and, if it was asked to keep trying, connects again once the other is reachable.",
 ["schedules", "fault_sequences", "configurations"], "all ping periods and connection timeouts, traffic patterns, moments at which either direction of a link falls silent",
 "The tests last a few seconds with the default heartbeat of 30 seconds, so no heartbeat is ever sent.",
 [I+"network.h"], [("send_ping/ping_timer/pong_handler", I+"network.h"), ("tcall_reset_timeout", I+"network.h"), ("worker timeout", I+"conn.h")])
prop("C30", "A multicast reaches every listed peer once per listing, or is reported",
 "A multicast to a list of known peers is delivered to each of them exactly as often as it is listed, and to nobody else, with its content intact and in order with the other deferred sends and multicasts of the same thread. If the send buffer of some listed peer is full, the others still get the message; if a listed peer is unknown, those listed before it still get it; in either case exactly one error with the ticket that the call returned and the matching code is reported, and otherwise none.",
 ["inputs", "histories", "schedules"], "all peer lists (repeated, unknown, deleted, not yet connected peers), buffer limits, interleavings with other sends, connection set-up and I/O splits",
 "One example multicasts to a fixed set of connected peers; no test observes failures.",
 [I+"network.h"], [("PeerNetwork::_multicast_msg", I+"network.h"), ("PeerNetwork::_send_msg_deferred", I+"network.h")])
prop("C31", "A slow receiver slows its senders, and buffers keep to their limits",
 "While the user of a network does not handle messages, the network takes from each connection no more than its message queue, receive buffer and the transport can hold, and a sender with a bounded send buffer is refused after that plus its own limit, not before its limit, while one without a limit is never refused. However long this lasts no connection is ended by it and what the stalled network itself sends still goes out, and once messages are handled again everything that was accepted is handled, in order and exactly once, and sending works again.",
 ["schedules", "inputs", "configurations"], "all queue, receive-buffer, chunk and send-buffer limits, message sizes, numbers of senders, moments and lengths of the stall, I/O splits",
 "No existing test has a receiver that stops handling messages.",
 [I+"network.h", I+"conn.h", "src/conn.cpp"], [("MsgNetwork::on_read / incoming_msgs", I+"network.h"), ("ConnPool::Conn::write", I+"conn.h"), ("make_recv_space, _recv_data", "src/conn.cpp")])
prop("C32", "Listening and connecting survive failures of the system's calls",
 "Listening at a free port serves there (and no longer at the previous port), and at a port that is taken or not available it reports the listening error to the caller. A failure to accept, to set up or to start a connection, whatever its cause and duration, is reported as the matching error (with the ticket, or as an exception of the synchronous call), is never fatal, leaves no descriptor open and no other connection disturbed, and an attempt that is refused or not answered within the connection timeout is given up and its connection terminated. Once the cause is gone, waiting clients are served and peers that keep trying get their link.",
 ["fault_sequences", "histories", "schedules"], "all sequences of listens, arriving clients, outgoing connections and peer retries with failures of socket, bind, listen, accept, setsockopt and connect at any call, single or lasting",
 "No existing test makes a system call fail or listens twice.",
 ["src/conn.cpp", I+"conn.h", I+"network.h"], [("accept_client, conn_server, _listen, _connect", "src/conn.cpp"), ("ConnPool::listen/connect", I+"conn.h"), ("start_active_conn", I+"network.h")])
prop("C33", "A link is always attributed to the peer it belongs to",
 "At any moment and from any thread, handler or callback, a peer network asked about a connection (whose it is, that peer's address, its certificate, which connection is the current link of a peer, its own identity) answers with what is true of the registered peer at the other end, or with nothing if the connection is not (or no longer) the link of a registered peer; it never names another peer, an outdated address or a deleted peer, and never touches a peer that is gone. A message sent through the connection that is named as the link of a peer reaches that peer, and when nobody else is connected no inbound connection is counted as pending.",
 ["schedules", "histories", "fault_sequences"], "all histories of additions, deletions, address changes, connections, cuts and messages among two or three nodes, with questions at every point, all schedules and I/O splits",
 "No existing test asks about a connection while peers change.",
 [I+"network.h"], [("PeerNetwork::Conn::get_peer_id/get_peer_addr", I+"network.h"), ("PeerNetwork::get_peer_conn/get_npending", I+"network.h"), ("finish_handshake, del_peer", I+"network.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3: print(p["id"], n)
