#!/usr/bin/env python3
"""The property list in one place; writes properties.jsonl and MANIFEST.json (a property is claimed when rules/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I, H, C, F = "schedules", "inputs", "histories", "configurations", "fault_sequences"
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, observe=observe))


I_ = "include/"
prop("A01", "No socket is freed or reused while one of its handlers is pending",
     "Every asynchronous read, write, connect, accept handshake, timer wait and queued task that a socket starts keeps that socket marked as busy until its handler has run or been dropped. "
     "A socket that is still busy is never reported as obsolete, so its owner neither frees nor reuses it under a pending handler.",
     [S, H, C], "all interleavings of completions with closing, and all call sites that start an operation, in every build configuration",
     "A missing hold only shows when the owner frees the object in the window between the start of the operation and its completion; the tests run a handful of schedules on an idle machine.",
     [I_ + "tracked_executor.h", I_ + "timer.h", I_ + "tcp/socket.h", I_ + "udp/socket.h", I_ + "tcp/ssl/ssl.h", I_ + "tcp/websocket/websocket.h"],
     [("shared call indicator copied into every handler", I_ + "tracked_executor.h: tracked_executor"), ("busy test before freeing", I_ + "socket.h: socket::obsoleted")])
prop("A02", "A closed socket is finalised once, after its last handler",
     "After a socket is closed, its close notification, the final transport close and the mark that lets the owner free it happen exactly once and only when no other handler of it is pending. "
     "The owner can free it only after the close and after-close notifications have run.",
     [S, H, C], "all orders in which outstanding handlers finish after a close, and all configurations", "The order of late completions relative to the deferred close is a schedule the tests cannot choose.",
     [I_ + "socket.h", I_ + "tracked_executor.h"],
     [("deferred-close timer that re-arms until it is the last asynchronous call", I_ + "socket.h: socket::timer_handler"), ("last-call test", I_ + "tracked_executor.h: is_last_async_call")])
prop("A03", "The pool frees or reuses only unreferenced obsolete sockets, once",
     "A socket leaves the active table at most once into the list of discarded sockets, and is freed or handed out again only when nobody else holds a reference to it and it is obsolete. "
     "Every table is examined and changed only while its own lock is held.",
     [S, H], "all interleavings of deleting, finding, freeing, reusing and clearing, over arbitrary histories of additions and removals",
     "A premature free needs a reference taken in a window of microseconds; tests create and delete sockets from one place at a time.",
     [I_ + "object_pool.h"], [("unique and obsolete test under the discard-list lock", I_ + "object_pool.h: free_object, invalid_object_pop"), ("erase-then-append hand-over", I_ + "object_pool.h: del_object, clear_obsoleted_object")])
prop("B01", "Reads, writes and their completions run serialised per socket",
     "All code that starts a transport read or write, and every completion of one, runs inside the socket's own input/output serialisation domain, so two threads never touch a connection's read or write state at once. "
     "Message delivery runs inside a second such domain.",
     [S, C], "all thread interleavings with any number of service threads, in every configuration", "A handler outside the serialisation domain works whenever only one thread happens to run; tests rarely run two handlers of a socket at once.",
     [I_ + "tcp/socket.h", I_ + "udp/socket.h", I_ + "socket.h", I_ + "tcp/websocket/websocket.h", I_ + "tcp/ssl/ssl.h", I_ + "udp/reliable_socket.h"],
     [("strand-wrapped handlers", I_ + "tcp/socket.h: do_recv_msg, do_send_msg"), ("dispatch into the strand", I_ + "socket.h: send_msg, recv_msg")])
prop("B02", "At most one write in flight, and no queued message is left unsent",
     "A socket has at most one transport write outstanding. Whenever a write finishes, fails or finds nothing to send, the sender either starts the next write or gives up the sending role and looks at the queue again, so a message queued concurrently is never stranded on a healthy link.",
     [S, H, F], "all interleavings of message submission with write completion, including failures", "The stranded-message window lies between emptying the queue and giving up the sending role; tests do not control it.",
     [I_ + "socket.h", I_ + "tcp/socket.h", I_ + "udp/socket.h", I_ + "udp/reliable_socket.h"],
     [("atomic sending role", I_ + "socket.h: test_and_set_sending, clear_sending"), ("re-check after release", I_ + "tcp/socket.h: do_send_msg")])
prop("B03", "Messages keep their order; priority messages go to the front",
     "Messages accepted for sending are put behind all earlier ones unless the caller asked for priority, in which case they go to the front, and both sending and delivering take messages from the front. This holds for every overload of every send function.",
     [I, H, C], "all sequences of submissions and drains, all send overloads", "Each overload is a separate instantiation, and the tests use two or three of them with one sender.",
     [I_ + "container.h", I_ + "socket.h", I_ + "config.h"], [("queue operations", I_ + "container.h: queue"), ("front or back insertion", I_ + "socket.h: do_direct_send_msg")])
prop("C01", "Message queues are locked, and their byte count equals their content",
     "Every public operation on a message queue takes the queue's lock before it looks at or changes the content and releases it on every path. The byte count always equals the total size of the messages held, whatever sequence of operations led there.",
     [S, H, I], "all operations in any order from any thread, for every message type", "An accounting error only shows after a particular mixture of operations, as a send buffer that never opens or never closes again.",
     [I_ + "container.h", I_ + "config.h", I_ + "base.h"], [("lock guard in every public operation", I_ + "container.h: queue"), ("running byte total", I_ + "container.h: enqueue_, try_dequeue_, move_items_*_")])
prop("C02", "The send buffer bound is enforced unless the caller opts out",
     "A send call that does not allow overflow adds nothing once the queued bytes have reached the configured bound, and says so; a call that allows overflow is never refused for the bound. Discarding old messages to make room happens only down to the size the application chose and reports what was discarded.",
     [I, H, C], "all send functions and overloads, all buffer states", "Each send function tests the bound in its own macro expansion; the tests never fill a buffer.",
     [I_ + "socket.h", I_ + "config.h"], [("bound test in every send function", I_ + "config.h: TCP_SEND_MSG, UDP_SEND_MSG"), ("shrink or refuse", I_ + "socket.h: shrink_send_buffer")])
prop("D01", "Receiving never stalls and pauses while the receive buffer is full",
     "On a started link without a read error, after each read the next read is started exactly once, or, when the received bytes waiting for the application exceed the bound, a timer is armed that restarts reading once they fit again. A link that reports a read error hands it to the application and reads no further.",
     [S, H, I], "all sequences of reads, errors and buffer states", "A stalled link shows only after the buffer was full at one particular moment; the tests never fill the receive buffer.",
     [I_ + "socket.h", I_ + "tcp/socket.h", I_ + "udp/socket.h"], [("read continuation", I_ + "tcp/socket.h: recv_handler"), ("resume timer", I_ + "socket.h: handled_msg, check_receiving")])
prop("D02", "Each message is delivered once, in order, one delivery at a time",
     "Every unpacked message is either consumed in place or put into the receive queue, and a delivery task is queued when none is active. Deliveries never overlap; a message the application declines is kept and offered again before any later one; an accepted message is never offered again.",
     [S, H], "all interleavings of receiving and delivering, all patterns of declined messages", "Overlapping or lost deliveries need a decline or a new arrival at one exact moment.",
     [I_ + "socket.h"], [("delivery flag and re-post", I_ + "socket.h: do_dispatch_msg, dispatch_msg"), ("retry timer", I_ + "socket.h: timer_handler")])
prop("E01", "Unpackers never read or write outside their buffer, whatever the peer sends",
     "For every byte sequence a peer can send, every unpacker keeps its write position, read position and remaining length inside its buffer, and rejects a message length that is smaller than a header or larger than the buffer before using it.",
     [I, H], "all byte streams, all split points, all unpackers", "The space of malformed streams is unbounded and the tests only send well-formed ones.",
     [I_ + "ext/unpacker.h"], [("length checks before use", I_ + "ext/unpacker.h: parse_msg, completion_condition, peek_msg")])
prop("E02", "Packers refuse oversized messages and write the length they announce",
     "A packer never produces a message longer than the configured maximum, and the length it writes in the header is exactly the length of header plus body that it emits. A length computation that would overflow is refused.",
     [I, C], "all message lengths and numbers of parts, both header widths", "Sizes near the limits and near integer overflow are not used by any test.",
     [I_ + "ext/packer.h", I_ + "ext/ext.h"], [("pack_header and length checks", I_ + "ext/packer.h: pack_header, pack_msg")])
prop("E03", "Heartbeats are never delivered to the application and never sent empty",
     "A message that consists only of a header is treated as a heartbeat by every unpacker that supports heartbeats: it is consumed and never handed to the application. A socket whose packer has no heartbeat sends nothing.",
     [I, C], "all streams mixing heartbeats and messages at any split", "Heartbeats only occur on idle links after seconds; the tests do not wait for them.",
     [I_ + "ext/unpacker.h", I_ + "ext/packer.h", I_ + "tcp/socket.h", I_ + "udp/socket.h"], [("minimum-length filter", I_ + "ext/unpacker.h: parse_msg, unpack"), ("pack_heartbeat", I_ + "ext/packer.h")])
prop("F01", "A socket starts at most once and closes at most once per life",
     "Concurrent start and close requests are serialised: a socket that is started, or whose close is still pending, is not started again, and of any number of concurrent close requests exactly one takes effect. Closing stops the socket's timers and arms exactly one deferred close, and every class's close and reset hook hands over to its base.",
     [S, H, C], "all interleavings of start and close requests from any thread, all socket classes", "A double start or double close needs two threads in a window of a few instructions.",
     [I_ + "socket.h", I_ + "tcp/socket.h", I_ + "tcp/client_socket.h", I_ + "udp/socket.h"], [("atomic start gate", I_ + "socket.h: start, close")])
prop("F02", "A client that lost its link reconnects exactly when it should",
     "When a client socket's connection attempt or link fails, it retries after the delay the application's hook returned, and it stops retrying exactly when that hook declines, reconnecting was switched off, or the service is stopping. A client that will not reconnect is removed from its owner, and its reconnect wish is restored for its next life.",
     [F, H, S], "all sequences of connection failures, shutdowns and reconnect settings", "Reconnection is driven by network failures the tests do not inject.",
     [I_ + "tcp/client_socket.h", I_ + "tcp/client.h"], [("reconnect decision", I_ + "tcp/client_socket.h: connect_handler, prepare_next_reconnect, on_close, after_close")])
prop("F03", "A graceful shutdown always ends",
     "Once a graceful shutdown has begun, the link is closed either because the peer finished or, at the latest, when the configured maximum duration is over, whatever the peer does. A forced shutdown takes effect at once, also during a graceful one.",
     [F, S, H], "all peer behaviours, all link states and transports", "A peer that ignores the shutdown is not part of any test.",
     [I_ + "tcp/socket.h", I_ + "tcp/client_socket.h", I_ + "tcp/server_socket.h", I_ + "tcp/ssl/ssl.h", I_ + "tcp/websocket/websocket.h"],
     [("countdown timer", I_ + "tcp/socket.h: _graceful_shutdown, shutdown_handler"), ("monitoring timer", I_ + "tcp/socket.h: start_graceful_shutdown_monitoring")])
prop("F04", "A reused socket starts from a clean state",
     "Resetting a socket for reuse restores every piece of per-connection state that a previous life may have changed: queues, counters, partial messages, flags, link state, secured or framed transport, protocol step and timers. Resetting is refused while the previous life's close is pending.",
     [H, C], "all histories of the previous life, all socket classes", "Left-over state only matters on the second use of an object; the tests use each socket once.",
     [I_ + "socket.h", I_ + "tcp/socket.h", I_ + "udp/socket.h", I_ + "tcp/client_socket.h", I_ + "tcp/server_socket.h", I_ + "tcp/ssl/ssl.h", I_ + "tcp/websocket/websocket.h", I_ + "tcp/proxy/socks.h", I_ + "udp/reliable_socket.h", I_ + "ext/unpacker.h"],
     [("chained reset functions", I_ + "socket.h: reset")])
prop("G01", "Timers fire once per period and never after they were stopped",
     "A timer's callback runs at most once per expiry and never after the timer was stopped or replaced; it repeats exactly while the callback asks for it. Starting, stopping, restarting and bulk stopping always leave the timer's reported state equal to whether a wait is pending, and no interval value makes the process fault.",
     [S, H, I], "all interleavings of expiry with stopping and restarting, all intervals", "The race between expiry and restart is a matter of microseconds.",
     [I_ + "timer.h"], [("status and sequence number", I_ + "timer.h: start_timer, timer_handler, stop_timer")])
prop("H01", "The service pump runs, survives exceptions and stops in order",
     "Starting the pump starts every registered service and its threads, and stopping it stops every service before the threads are waited for; starting twice or adding while running behaves as documented. An exception escaping application code is handed to the application's hook, and the thread goes on or ends exactly as that hook says, with the count of running threads staying exact.",
     [S, H, F], "all histories of start, stop, add, remove and exceptions", "No test throws from a callback or changes the thread number while running.",
     [I_ + "service_pump.h"], [("run loop", I_ + "service_pump.h: run"), ("start and end sequences", I_ + "service_pump.h: do_service, end_service, wait_service")])
prop("H02", "References to a thread context are taken and given back in balance",
     "Every socket or service that takes a reference on one of the pump's thread contexts gives the same number back exactly once when it closes, is removed or fails to start, and takes one again before it is started again; nothing is ever given back that was not taken. A new object is bound to a context with the fewest references, and the choice of context and its count change only under the pump's lock.",
     [H, S, F], "all histories of creation, failure, close and reuse", "An unbalanced count skews later placement silently.",
     [I_ + "service_pump.h", I_ + "timer.h", I_ + "tcp/client_socket.h", I_ + "udp/socket.h", I_ + "tcp/server.h"], [("reference counters", I_ + "service_pump.h: assign_io_context, return_io_context"), ("per-object count", I_ + "timer.h: add_io_context_refs, sub_io_context_refs, clear_io_context_refs")])
prop("I01", "Synchronous callers are always answered",
     "A thread that waits for a message to be sent or received is answered when the message was sent or arrived, when the operation fails, when the link closes, or when its time is over, and its slot is free again afterwards. A wake-up cannot be lost between the waiter's test and its wait.",
     [S, F, C], "all interleavings of the waiting thread with completion, failure and close", "A lost wake-up needs a close between the waiter's test and its wait.",
     [I_ + "socket.h", I_ + "tcp/socket.h", I_ + "udp/socket.h"], [("condition variable hand-shake", I_ + "socket.h: sync_recv_msg, handle_msg, handle_error, close"), ("promise per message", I_ + "tcp/socket.h: send_handler, on_close")])
prop("J01", "Locks are released, consistently ordered, and not held across user code",
     "Every lock the library takes is released on every path, including early returns and failures; no two locks are ever taken in opposite orders; no lock is taken again by the thread that holds it; and none is held while the application's notifications (on_...) and timer callbacks run, apart from the documented iteration helpers.",
     [S, H, C], "all call paths that take a lock, in every configuration", "A deadlock needs two threads to meet in opposite orders.",
     [I_ + "container.h", I_ + "object_pool.h", I_ + "service_pump.h", I_ + "socket.h", I_ + "tcp/server.h", I_ + "udp/reliable_socket.h"], [("scoped locks", I_ + "object_pool.h; " + I_ + "service_pump.h; " + I_ + "tcp/server.h")])
prop("K01", "A server keeps accepting until it is told to stop",
     "While a server listens, every finished accept, whether it produced a connection or failed in a way the application tolerates, is followed by a new accept, and no accept is started after listening stopped. The listening state reported to the application is true exactly while the server accepts, also when listening could not be set up.",
     [F, S, H], "all sequences of accept results, stop requests and setup failures", "Accept failures and failing listen calls are not injected by any test.",
     [I_ + "tcp/server.h"], [("accept chain", I_ + "tcp/server.h: accept_handler, start_next_accept, do_accept"), ("listen state", I_ + "tcp/server.h: start_listen, stop_listen")])
prop("L01", "No application data before the secure or framed handshake succeeded",
     "With TLS, WebSocket or a proxy, a link is reported connected and its reading and sending begin only after the handshake succeeded; a failed handshake closes the link or retries, and never leaves it half open or reported as connected.",
     [F, I, S], "all handshake results and orders", "The tests only perform successful handshakes.",
     [I_ + "tcp/ssl/ssl.h", I_ + "tcp/websocket/websocket.h", I_ + "tcp/proxy/socks.h"], [("handshake completion", I_ + "tcp/ssl/ssl.h: handle_handshake"), ("proxy steps", I_ + "tcp/proxy/socks.h: recv_handler")])
prop("M01", "The proxy client stays inside its buffers and follows the protocol",
     "Whatever a SOCKS proxy answers, the client writes and reads only inside its request and reply buffers, sends exactly the request it built for the target and credentials set last (again and unchanged after a reconnection), and moves to the next protocol step only after a complete and successful reply. Any other reply or failure ends the attempt. Without a target it takes no part in a negotiation.",
     [I, F], "all proxy replies, names, passwords and addresses", "No test talks to a proxy at all.",
     [I_ + "tcp/proxy/socks.h"], [("request building and reply parsing", I_ + "tcp/proxy/socks.h: send_buff handling, recv_handler")])
prop("N01", "Dead links are detected and live ones kept",
     "With heartbeats on, a ready link from which nothing was received for the configured absence is reported to the application exactly by that check, a link that sent nothing for an interval sends a heartbeat, and receiving or sending data refreshes the respective time. The check stops when the application says so and never acts on a link that is not ready.",
     [S, H, C], "all timings of traffic, all configurations", "It takes many seconds of silence to matter; the tests have none.",
     [I_ + "socket.h", I_ + "tcp/socket.h", I_ + "udp/socket.h", I_ + "tcp/client_socket.h", I_ + "tcp/server_socket.h"], [("periodic check", I_ + "socket.h: check_heartbeat, start_heartbeat")])
prop("O01", "Statistics add, subtract and reset field by field",
     "Adding and subtracting statistics touches every counter exactly once with the same counter of the other operand and the right sign; printing shows every counter; resetting clears them all. A duration keeps the number, the largest and the smallest of the samples added to it, and combining with one that has no samples changes neither extreme. Each message and byte is counted exactly once, when it was sent or received.",
     [I, H, C], "all statistics values in every configuration", "Tests never compare statistics; a swapped field is invisible.",
     [I_ + "base.h", I_ + "socket.h", I_ + "tcp/socket.h", I_ + "udp/socket.h"], [("field-wise operators", I_ + "base.h: statistic"), ("counting sites", I_ + "tcp/socket.h: send_handler; " + I_ + "socket.h: handle_msg")])
prop("P01", "Registered callbacks replace or extend the hook they name",
     "For every overridable notification, registering a callback makes exactly that callback run with the original arguments whenever the notification occurs, together with the built-in behaviour unless the application asked to replace it, and the callback's result is used where the notification has one. Without a callback the built-in behaviour is unchanged.",
     [C, I], "all notifications of sockets, pools and servers", "The wrappers are a table of near-identical functions; no test registers more than a few of them.",
     [I_ + "ext/callbacks.h"], [("forwarding macros", I_ + "ext/callbacks.h")])
prop("Q01", "No two timers of one object share an id",
     "The timer ids used by a class and by all classes it derives from are pairwise different, lie inside the range that class reserves, and the ranges follow each other without overlap, for every socket, server, client and pool class.",
     [C], "all class combinations in every configuration", "A collision makes one feature silently replace another's timer only when both are active.",
     [I_ + "timer.h", I_ + "socket.h", I_ + "tcp/socket.h", I_ + "tcp/client_socket.h", I_ + "tcp/server.h", I_ + "object_pool.h", I_ + "udp/reliable_socket.h"], [("chained range constants", I_ + "socket.h: TIMER_BEGIN, TIMER_END")])
prop("S01", "The file transfer demo validates what the peer asks for",
     "The file server and client use offsets, lengths, names and sizes received from the peer only after checking them against the message received and the file opened, so no message makes them read or write outside a buffer or count more data than was transferred.",
     [I], "all peer messages", "The tests only transfer well-formed requests.",
     ["file_server/file_socket.cpp", "file_client/file_socket.h", "file_common/file_buffer.h", "file_server/packer.h", "file_client/unpacker.h"], [("message handling", "file_server/file_socket.cpp: handle_msg; file_client/file_socket.h: handle_msg")])
prop("T01", "Message buffers never overrun",
     "Every constructor, assignment and append of the library's string-like message buffer keeps the length within the allocation, copies only bytes that exist in the source, and keeps the content intact when the source is the buffer itself or a part of it.",
     [I, H], "all sequences of operations and lengths", "Sizes at the allocation boundary and self-referencing arguments are not tested.",
     [I_ + "ext/ext.h"], [("capacity check before copying", I_ + "ext/ext.h: basic_buffer")])
prop("U01", "The pool honours its capacity and gives every socket a unique id",
     "A pool never holds more active sockets than its maximum, refuses the excess, and gives each created or restored socket an id that no other active socket has; a refused socket is not reported to the application as added. Looking up an id returns that socket or nothing.",
     [H, S], "all histories of additions, removals and id changes", "Tests never reach the capacity or change ids.",
     [I_ + "object_pool.h", I_ + "tcp/server.h", I_ + "tcp/client.h", I_ + "udp/socket_service.h"], [("capacity test and insertion under the lock", I_ + "object_pool.h: add_object"), ("atomic id counter", I_ + "object_pool.h: init_object")])

NA = [
    ("V01", "Every message sent arrives byte for byte at the peer's application",
     "Any sequence of messages sent over a healthy link is delivered to the peer's application complete, unaltered and in order, whatever the sizes, rates and segmentations.",
     [I, S, F], "all message contents, sizes and network segmentations", "End-to-end equality over all inputs cannot be sampled.", [I_ + "tcp/socket.h", I_ + "ext/packer.h", I_ + "ext/unpacker.h"],
     "Equality of byte streams across the operating system's transport quantifies over buffer contents and kernel behaviour; the structural parts (order, single write, framing, bounds) are decided by B02, B03, D02, E01, E02 and T01, but their composition into end-to-end equality is beyond a sound static argument here."),
    ("V02", "A heartbeat timeout is reported within one interval of the configured absence",
     "A dead peer is reported no later than the configured absence plus one check interval of real time after its last byte.",
     [S], "all loads and clock behaviours", "It is a real-time bound.", [I_ + "socket.h", I_ + "timer.h"],
     "A real-time bound depends on scheduler and clock; the logic of the check is decided by N01."),
    ("V03", "Throughput and fairness do not degrade with the number of links",
     "With many links, every link makes progress and none is starved by the load placed on the others.",
     [S], "all loads", "Liveness under load.", [I_ + "service_pump.h", I_ + "socket.h"],
     "Fairness is decided by asio's scheduler and the operating system, outside this code base; no static rule over this source decides it."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for i, t, s, o, tx, w, fl, r in NA:
            f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": tx}, "why_tests_cant": w, "anchors": {"files": fl, "mechanism": [{"name": "whole path", "where": fl[0]}]}}) + "\n")
    import tech
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(V, "rules", i.lower() + ".py")):
            t, n = tech.T[i]
            checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i, "technique": t, "level": "other", "level_note": n})
        else:
            na.append({"property": i, "reason": "no check built for it yet"})
    for i, t, s, o, tx, w, fl, r in NA:
        na.append({"property": i, "reason": r})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "engine/build.sh", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
