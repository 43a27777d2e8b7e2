#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SRV, CLI, DSP = "runtime/server.c", "runtime/client.c", "runtime/dispatch_generic.c"
LS, LC = "runtime/link/socket/server.c", "runtime/link/socket/client.c"
GEN = "generator/languages/langc.py"

prop("P01", "Every request is handled exactly once, unaltered",
 "Each complete request that a client sends to a registered action, staying connected until it is handled, is passed to that action's handler exactly once, with the sender and the argument bytes unchanged, on single-threaded and on multi-threaded servers, also when a burst is larger than any internal queue or buffer pool. A single-threaded server handles the requests of one client in the order in which they were sent.",
 ["schedules", "histories", "inputs"],
 "for every number of clients, mix and size of requests, number of workers, and interleaving of clients, orchestrator and workers",
 "the tests send a few sequential requests per connection and never overrun the worker queues or fragment the receive memory; losing, duplicating or corrupting one request needs a burst or a particular interleaving of orchestrator and workers",
 [SRV, DSP, "runtime/arena.c", LS, "runtime/queue.c"],
 [("receive and dispatch loop", "runtime/server.c handle_client_event, dispatch_st, dispatch_mt"),
  ("worker hand-over", "runtime/dispatch_generic.c gracht_worker_pool_dispatch, worker_dowork"),
  ("receive buffers", "runtime/server.c get_in_buffer_st, get_in_buffer_mt, server_cleanup_message")],
 [("in flight requests", "sent by a client and not yet given to a handler", "kernel socket buffers, receive arena, worker queues")],
 ["handler invocations", "bytes on the connection"])

prop("P02", "The result of a call is the response to that call",
 "Asking for the result of a call yields 'in progress' until its response has been read, and afterwards exactly the values which the server supplied for that very call, whatever the order in which responses arrive, however many calls and threads are outstanding and whatever events, errors or unexpected responses come in between. Asking too early leaves the call pending, and a completed result is handed out once.",
 ["schedules", "histories"],
 "for every sequence of calls, awaits and result queries from any number of threads of a client, every order of responses and every stray message",
 "tests issue at most a handful of calls from one thread and read results in order, so a mixed up identifier, a response overwritten by another one or a lost early query never shows",
 [CLI, "runtime/arena.c", SRV],
 [("call registry keyed by message id", "runtime/client.c gracht_client_invoke, __add_message, __handle_response"),
  ("result hand-out", "runtime/client.c gracht_client_get_status_buffer, gracht_client_status_finalize"),
  ("response addressing", "runtime/server.c gracht_server_respond")],
 [("outstanding calls", "message id, status, response buffer of each call", "runtime/client.c struct gracht_client.messages")],
 ["generated *_result functions"])

prop("P03", "Awaiting ends exactly when the awaited calls complete",
 "A thread that awaits calls is released as soon as one of them (any-mode) or every one of them (all-mode) has completed or failed, not before, and no matter which thread reads the response from the connection; it is never left blocked while its condition holds. A thread that waits and reads from a connection which breaks is released with an error instead of waiting or spinning for ever.",
 ["schedules", "fault_sequences"],
 "for every set of awaited calls, mode, number of awaiting and reading threads, order of responses and moment of connection loss",
 "a lost wake-up or a wrong any/all decision needs the response to be processed between two specific instructions of the waiter; tests use a single thread and a healthy server",
 [CLI],
 [("awaiter registration and wake-up", "runtime/client.c gracht_client_await_multiple, __await_loop, mark_awaiters"),
  ("message pump", "runtime/client.c gracht_client_wait_message")],
 [("awaiter", "mode, number of calls, number completed, condition variable", "runtime/client.c struct gracht_message_awaiter")],
 ["return of the await/wait functions"])

prop("P04", "Unknown requests fail for their sender only",
 "A request that names a protocol or action which is not registered runs no handler; its sender, and nobody else, is sent one error notice that names that request, and a pending call with that identity completes with an error status. All other calls and clients are unaffected.",
 ["histories", "schedules", "inputs"],
 "for every protocol/action identity, mixture with valid requests, number of clients, registration history and interleaving",
 "tests only call implemented functions; the failure path is never executed, let alone under concurrency",
 [SRV, "runtime/control.c", CLI, "runtime/shared.c"],
 [("action lookup", "runtime/server.c server_invoke_action, runtime/shared.c get_protocol_action"),
  ("error notice", "runtime/control.c gracht_control_event_error_single, runtime/client.c gracht_control_error_invocation")],
 None, ["error events on the connection", "result status at the caller"])

prop("P05", "Events reach exactly the clients they are meant for",
 "As long as the connections have room for them (events are never waited for), a broadcast event is delivered once, intact, to every connected client that is subscribed to its service and to no other client, and an event addressed to one client is delivered once to that client alone, whatever its subscriptions. A stream client starts out subscribed to everything, and each subscribe or unsubscribe request changes exactly the named service (or all of them) for exactly its sender, in the order sent.",
 ["histories", "schedules"],
 "for every history of connects, disconnects, subscriptions over all service identities, and events sent from any server thread",
 "tests have one client that receives a targeted event; selectivity over several clients, service identities in different mask words and concurrent subscription changes are not sampled",
 [SRV, "runtime/control.c", "runtime/hashtable.c"],
 [("broadcast enumeration and filter", "runtime/server.c gracht_server_broadcast_event, client_enum_broadcast, client_is_subscribed"),
  ("subscription masks", "runtime/server.c client_subscribe, client_unsubscribe, gracht_control_subscribe_invocation, gracht_control_unsubscribe_invocation"),
  ("targeted events", "runtime/server.c gracht_server_send_event")],
 [("subscriptions", "set of service identities per client", "struct gracht_server_client.subscriptions")],
 ["event messages on each connection", "client event handlers"])

prop("P06", "Client arrival and departure are reported and settled once",
 "For every client the server reports the connection exactly once, before any of its requests is handled, reports the disconnection exactly once after the peer is gone, and then releases everything it holds for that client exactly once, without touching any other client. Nothing is reported for peers which were never connected.",
 ["histories", "schedules", "fault_sequences"],
 "for every history of connects, requests, disconnects and failed accepts of any number of clients, on single- and multi-threaded servers, under every interleaving",
 "tests connect one client, once; descriptor reuse, disconnects in the middle of requests and simultaneous clients are not exercised and resources are not counted",
 [SRV, LS],
 [("accept", "runtime/server.c handle_connection, runtime/link/socket/server.c socket_link_accept"),
  ("departure", "runtime/server.c handle_client_event, client_destroy, runtime/link/socket/server.c socket_link_destroy_client")],
 [("client table", "connected clients by handle", "runtime/server.c struct gracht_server.clients")],
 ["connect/disconnect callbacks", "descriptors and memory"])

prop("P07", "Messages survive any fragmentation of the byte stream",
 "However the byte stream between a client and a server is cut into pieces while it travels, down to single bytes and in both directions, both sides see exactly the sequence of messages that the other side sent: none is lost, duplicated, merged, split or altered.",
 ["inputs", "schedules"],
 "for every sequence of messages, every set of cut points and every relative timing of the pieces and of the readers",
 "on a local socket small messages always arrive whole, so tests never see a header or payload that is only partially available",
 [LS, LC],
 [("server side framing", "runtime/link/socket/server.c socket_link_recv_client, socket_link_send_client"),
  ("client side framing", "runtime/link/socket/client.c socket_link_recv_stream, socket_link_send_stream")],
 None, ["handler invocations and client results compared with what was sent"])

prop("P08", "Malformed framing cannot harm the receiver or its other peers",
 "Whatever bytes a peer sends as message framing - an announced length below the header size or above what the receiver can hold, a message that is cut off by a disconnect, a datagram that is too short or whose length field disagrees with its size - the receiver never reads or writes outside its buffers, never crashes or hangs, and never hands such a message to a handler. Every other client goes on being served, and a client facing a malformed server reports an error.",
 ["inputs", "fault_sequences"],
 "for every byte sequence sent by a misbehaving peer at framing level and every point at which it disconnects, on stream and datagram links, against server and client",
 "tests only ever connect the library to itself, so no malformed header is ever received",
 [LS, LC, SRV, CLI],
 [("length handling on receive", "runtime/link/socket/server.c socket_link_recv_client, socket_link_recv_packet; runtime/link/socket/client.c socket_link_recv_stream, socket_link_recv_packet"),
  ("shrinking the receive buffer", "runtime/server.c dispatch_mt"),
  ("dropping the peer", "runtime/server.c handle_client_event")],
 None, ["process state, other clients' results"])

prop("P09", "Receive memory is exclusive, in bounds and reclaimed",
 "Every block handed out by the receive memory manager lies inside the memory it manages, overlaps no other live block and keeps its contents until it is released, also while other blocks are allocated, extended, shrunk or released, from any thread. Once everything is released a block of any size that fitted at the start fits again, and a request that does not fit is refused without side effects.",
 ["histories", "schedules", "inputs"],
 "for every sequence of allocate, extend, shrink and release operations, of every size, in every order and from several threads",
 "tests hold one block at a time; overlap, walking off the end when full and fragmentation only appear with many live blocks of different sizes released in unfavourable orders",
 ["runtime/arena.c", "include/arena.h"],
 [("first-fit search and split", "runtime/arena.c find_free_header, gracht_arena_allocate"),
  ("release, shrink and merge", "runtime/arena.c gracht_arena_free")],
 [("block list", "headers with length and allocated flag, contiguous in the arena", "runtime/arena.c struct gracht_header")],
 ["addresses and contents of blocks"])

prop("P10", "Pooled send buffers have one owner and are never lost",
 "A pooled buffer that is taken is owned by that taker alone until it is put back, every buffer that was put back can be taken again exactly once, and nothing that was never put in comes out - for any number of buffers beyond the initial capacity and any interleaving of threads. In the server every borrowed send buffer returns to the pool or is released, whether or not sending succeeded.",
 ["schedules", "histories"],
 "for every interleaving of put and take operations of any number of threads, every pool size, and every outcome of sending",
 "two threads have to collide inside a few instructions, or more buffers than the initial capacity must be parked, neither of which a functional test arranges",
 ["runtime/stack.c", "include/stack.h", SRV],
 [("put/take", "runtime/stack.c stack_push, stack_pop, stack_resize"),
  ("borrow/return", "runtime/server.c gracht_server_get_buffer, gracht_server_respond, gracht_server_send_event, gracht_server_broadcast_event")],
 [("pool", "stack of parked buffers", "include/stack.h struct stack")],
 ["pointers returned by the pool", "allocations outstanding after shutdown"])

prop("P11", "The lookup table behaves like a map",
 "After any sequence of insertions, replacements, removals and lookups, including hash collisions, wrap-around, growth and shrinkage, a lookup finds exactly the value stored last for that key, a removal returns and removes exactly that value, replacing returns the previous value, and enumeration visits every stored element exactly once.",
 ["histories", "inputs"],
 "for every sequence of operations over every key set and hash distribution, with every table size the sequence passes through",
 "tests keep a couple of keys with distinct hashes; displacement chains, removal inside a chain and resizing with displaced elements are never reached",
 ["runtime/hashtable.c", "include/hashtable.h"],
 [("robin hood insertion", "runtime/hashtable.c gr_hashtable_set"),
  ("removal with backward shift", "runtime/hashtable.c gr_hashtable_remove, gr_hashtable_remove_and_bump"),
  ("resizing", "runtime/hashtable.c hashtable_resize")],
 [("table", "open addressed elements with probe counts", "include/hashtable.h gr_hashtable_t")],
 ["return values of the table operations"])

prop("P12", "Dispatched jobs run exactly once and workers always stop",
 "Every job given to the worker pool is executed by exactly one worker exactly once and then cleaned up exactly once, a worker takes its jobs in the order in which they were given to it, and no job waits for ever while its worker is idle. When the pool is destroyed all workers stop under every timing, and each job that was not executed is still cleaned up once.",
 ["schedules", "histories"],
 "for every number of workers and jobs (more than the queue capacity), every interleaving of the dispatcher with the workers, spurious wake-ups, and every moment of destruction",
 "missed wake-ups, a full queue and destruction while a worker starts or goes idle depend on timing windows that the tests do not control",
 [DSP, "runtime/queue.c", "include/queue.h"],
 [("hand-over", "runtime/dispatch_generic.c gracht_worker_pool_dispatch"),
  ("worker loop", "runtime/dispatch_generic.c worker_dowork"),
  ("teardown", "runtime/dispatch_generic.c gracht_worker_pool_destroy"),
  ("bounded FIFO", "runtime/queue.c gr_queue_enqueue, gr_queue_dequeue")],
 [("job queue", "ring buffer per worker", "include/queue.h struct gr_queue"), ("worker state", "startup, alive, stop requested", "runtime/dispatch_generic.c struct gracht_worker")],
 ["job executions"])

prop("P13", "Shutdown always completes and leaves nothing behind",
 "After a shutdown request a running main loop returns at the latest with the next event, provided that running handlers return, whatever thread asked and whatever the workers and clients are doing at that time; from the return on no handler runs, and every connection, listening endpoint, event set and block of memory of the server has been released exactly once. While a shutdown is pending, attempts to add links or protocols or to run the loop are refused, and shutting a client down releases everything it owns.",
 ["schedules", "crash_points", "histories"],
 "for every moment of the request relative to connects, requests, responses and disconnects, every number of workers and clients",
 "the tests shut an idle server down once; a missed wake-up, a double release or a leak needs a shutdown in the middle of traffic and an accounting of resources",
 [SRV, DSP, CLI, LS, LC],
 [("server teardown", "runtime/server.c gracht_server_request_shutdown, gracht_server_main_loop, gracht_server_shutdown"),
  ("client teardown", "runtime/client.c gracht_client_shutdown")],
 [("server state", "running, shutdown requested, shut down", "runtime/server.c enum server_state")],
 ["return of the main loop", "descriptors and memory"])

prop("P14", "Generated code decodes exactly what was encoded",
 "For every service description and every value of every parameter - all scalar types, strings, arrays, structures, nested and extended structures, enumerations and variants - what a handler, event or result receives equals what the other side passed, and the bytes in between follow the little-endian layout with an eleven byte header that carries the message id, total length, service, action and kind. A result for which the caller made less room gets as many elements as fit, and the results after it are unaffected. (Arrays of strings are not supported by the C generator; a structure that is held by value is declared before its holder; the entries of a variant have distinct types.)",
 ["inputs", "programs"],
 "for every accepted service description and all values of its parameters that fit the maximum message size",
 "the test protocol has a few functions with fixed values; type/width combinations, empty and embedded arrays, boundary values and variants are not enumerated",
 [GEN, "generator/parser.py", "generator/common/shared.py"],
 [("serializers and deserializers", "generator/languages/langc.py"),
  ("header", "include/utils.h MSG_INDEX_*, generator/languages/langc.py message preamble")],
 None, ["bytes on the wire", "arguments of handlers and results"])

prop("P15", "The generator accepts exactly the valid descriptions",
 "The generator produces code for a service description (with the files it imports) if and only if the text is well formed, every type that a service or a structure before it uses is built in or has been defined before the end of that service, structures extend structures and not themselves, and the identity of every service and of all functions and events of a service is between 1 and 255 and, within the service, unique. Otherwise it reports an error, exits with a failure and produces nothing. What it produces are the files of exactly the chosen services and sides, with the identities and names of the description and the namespace that was in effect where the service was defined. (Nothing is said about names that are given twice, arrays of strings, enumeration values that are names, and a comma after the last value.)",
 ["programs", "inputs"],
 "for every combination of definitions, references, identities and declaration orders in a description",
 "the tests generate code from one valid description; no invalid one is ever tried",
 ["generator/passes/validate.py", "generator/passes/consolidate.py", "generator/parser.py", "generator/common/shared.py"],
 [("validation", "generator/passes/validate.py"), ("lookup of types across declarations", "generator/common/shared.py, generator/passes/consolidate.py")],
 None, ["exit status and output files of the generator"])

prop("P16", "Readers and writers exclude each other and always progress",
 "While a writer holds the shared/exclusive lock nobody else holds it, while readers hold it no writer does, any number of readers may hold it together, and when holders leave, every waiting reader or writer eventually gets it, under every interleaving and spurious wake-up.",
 ["schedules"],
 "for every number of readers and writers and every interleaving of their lock and unlock steps",
 "exclusion is only broken, and wake-ups are only lost, in windows of a few instructions that tests cannot schedule",
 ["include/rwlock.h"],
 [("reader count and condition", "include/rwlock.h rwlock_r_lock, rwlock_r_unlock, rwlock_w_lock, rwlock_w_unlock")],
 [("readers", "number of readers inside", "include/rwlock.h struct rwlock")],
 ["critical sections"])

prop("P17", "Deferred responses reach the original caller",
 "A handler may save a request and answer it later, from any thread, any number of other requests later and in any order: the answer is delivered to the call it belongs to, at the client that made it, and to nothing else. If that client has disconnected by then the answer is dropped with an error and nobody receives it.",
 ["schedules", "histories"],
 "for every number of saved requests, order and thread of the later answers, other traffic in between and disconnects of the callers",
 "the test defers one request at a time and answers it immediately; buffer reuse between saving and answering and vanished callers are not sampled",
 [SRV, LS],
 [("saving a request", "runtime/server.c gracht_server_defer_message, include/gracht/types.h"),
  ("late answer", "runtime/server.c gracht_server_respond")],
 None, ["responses on each connection"])

prop("P18", "Connectionless clients are served like connected ones",
 "Over a datagram link every request datagram is handled once and its response goes to the address it came from; a client that subscribes starts to receive the events of exactly the subscribed services, is reported as connected once, and after unsubscribing from everything receives none and is reported as disconnected once. Serving one datagram client never disturbs another one or any other connection of the server.",
 ["histories", "schedules"],
 "for every number of datagram clients and address families, and every history of requests, subscriptions, events and unsubscriptions",
 "the test suite never uses a datagram link",
 [LS, LC, SRV],
 [("datagram receive and reply", "runtime/link/socket/server.c socket_link_recv_packet, socket_link_send_packet"),
  ("subscriber records", "runtime/link/socket/server.c socket_link_create_client, socket_link_destroy_client, runtime/server.c gracht_control_subscribe_invocation, gracht_control_unsubscribe_invocation"),
  ("client side datagrams", "runtime/link/socket/client.c socket_link_send_packet, socket_link_recv_packet")],
 None, ["datagrams sent to each address", "connect/disconnect callbacks"])

prop("P19", "Generated structure helpers keep values intact",
 "For every structure that the generator defines, initialisation gives the empty value, a copy equals the original and shares no memory with it, elements that are added to an array member come back in order by index and in number, setting a variant records exactly that choice and value, and destroying releases everything the structure owns exactly once.",
 ["programs", "inputs", "histories"],
 "for every accepted structure definition and every sequence of initialise, add, set, get, copy and destroy operations on its values",
 "the test protocol exercises a few helpers with one value each and nothing counts or compares the memory",
 [GEN],
 [("structure helpers", "generator/languages/langc.py init/add/get/clear/copy/destroy writers")],
 None, ["members of the structures", "allocations"])

prop("P20", "Registration and configuration limits are honoured",
 "At most one protocol per identity can be registered with a server and a second one is refused without disturbing the first; an unregistered protocol stops being served; the fifth link is refused and the other four go on working; and messages up to the configured maximum size pass in both directions unharmed. Calls with missing arguments or in the wrong state fail with an error and change nothing.",
 ["histories", "configurations", "inputs"],
 "for every sequence of registrations, unregistrations and link additions, every identity, every configured message size and worker count",
 "tests register one protocol and one or two links with default sizes",
 [SRV, "runtime/server_config.c", "runtime/client_config.c", CLI],
 [("registration", "runtime/server.c gracht_server_register_protocol, gracht_server_unregister_protocol"),
  ("links", "runtime/server.c gracht_server_add_link"),
  ("sizes", "runtime/server.c configure_server, runtime/client.c gracht_client_create")],
 None, ["return values", "requests and responses of maximum size"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
