#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=False, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Actor messages: handled exactly once, intact, in per-sender order",
 "Every message sent through a local actor reference (typed, strong, translated recipient, or by the component to itself) to a component that is running and is not destroyed is handled exactly once with its content unchanged. Messages from one sender to one receiver are handled in the order they were sent. Nothing that was not sent is ever handled.",
 ["schedules", "histories", "configurations"],
 "All interleavings of any number of sending threads/components, worker counts, throughput and priority settings, with starts, blocking and other traffic interleaved.",
 "Existing tests send a handful of messages on one schedule; loss, duplication or reordering needs particular interleavings of enqueue, dequeue, re-scheduling and blocking.",
 ["core/src/component/actual_component.rs", "core/src/component/core.rs", "core/src/actors/refs.rs", "core/src/component/mod.rs"],
 [("message queue and execution loop", "core/src/component/actual_component.rs: enqueue_*/execute"), ("actor references", "core/src/actors/refs.rs")],
 "Handler invocations of receiving components versus calls to tell on references")

prop("C02", "Port events: exactly once, in order, to every connected peer and only those",
 "An event triggered on a port is delivered exactly once to every component whose matching port was connected at that moment, and to no other component; indications only travel from provider to requirers and requests only from requirer to providers. Events triggered by one component on one port reach each peer in trigger order. Disconnecting a channel stops only that channel: later events no longer cross it, and all other channels keep delivering.",
 ["schedules", "histories", "programs"],
 "All component graphs (fan-in, fan-out, chains), all trigger/connect/disconnect histories, all schedules.",
 "Tests use one or two fixed graphs, mostly without disconnecting; misrouting depends on graph shape and history.",
 ["core/src/ports.rs", "core/src/component/mod.rs", "core/src/utils/mod.rs", "macros/component-definition-derive/src/lib.rs"],
 [("port broadcast and channel bookkeeping", "core/src/ports.rs"), ("port servicing", "macros/component-definition-derive: derived execute")],
 "Port handler invocations per component versus trigger/connect/disconnect calls")

prop("C03", "A component never runs two of its handlers at the same time",
 "At any moment at most one handler, timer callback, lifecycle hook or component-bound future of a given component is executing, whichever and however many threads schedule it. Each handler observes all effects on the component's state made by its earlier handlers.",
 ["schedules", "configurations"],
 "All interleavings of concurrent senders, timers, triggers, external state access and futures, across worker pools and dedicated threads.",
 "Overlap requires a second thread to run the component in a window of a few instructions; the tests never look for it.",
 ["core/src/component/core.rs", "core/src/component/actual_component.rs", "core/src/runtime/scheduler.rs"],
 [("scheduling state / work counter", "core/src/component/core.rs"), ("definition lock", "core/src/component/actual_component.rs")],
 "Entry and exit of user handlers on the component state")

prop("C04", "Pending work is always executed, and idle components are not",
 "Whenever a running component that is not blocked has undelivered messages, events, expired timers or lifecycle commands, it is scheduled and eventually handles all of them without any further outside stimulus. When everything has been handled the component is no longer scheduled: the scheduler goes quiet.",
 ["schedules", "histories", "configurations"],
 "All orders in which enqueues, executions of bounded batches, blocking/unblocking and timer cancellation interleave, for every throughput setting.",
 "A lost wake-up or a leaked work count only shows in particular orders; tests wait on a few futures and never observe the scheduler.",
 ["core/src/component/core.rs", "core/src/component/actual_component.rs", "core/src/timer/timer_manager.rs", "macros/component-definition-derive/src/lib.rs"],
 [("increment/decrement work", "core/src/component/core.rs"), ("scheduling decision", "core/src/component/actual_component.rs: execute")],
 "Calls on the pluggable scheduler and returned scheduling decisions")

prop("C05", "Lifecycle commands follow one legal order and retain messages",
 "A component handles ordinary messages and events only while it is started; what arrives before start or between stop and start is kept and handled, in order, after the next start. The start and stop hooks run once per command, in command order (kill ends in exactly one kill hook), a killed component never runs any handler again whatever was queued for it, and the futures returned for start, stop and kill notifications complete exactly when the transition has happened.",
 ["schedules", "histories"],
 "All sequences of start, stop, kill, their notifying variants and messages from several threads, on all schedules.",
 "Tests run single start/stop/kill sequences with one command in flight; queued combinations of commands and messages are not explored.",
 ["core/src/component/lifecycle.rs", "core/src/component/actual_component.rs", "core/src/runtime/system.rs", "core/src/supervision.rs"],
 [("lifecycle state", "core/src/component/lifecycle.rs"), ("control queue", "core/src/component/actual_component.rs"), ("notifications", "core/src/supervision.rs")],
 "Lifecycle hook and handler invocations, notification futures")

prop("C06", "A fault stays inside the faulty component and recovery runs exactly once",
 "If a handler of a component panics or reports a fault, only that component stops handling anything; every other component, including peers connected to it, keeps exactly its normal behaviour and messages to the faulty component are dropped without disturbing the sender. The recovery function installed for that component runs exactly once per fault, with the context of that fault, and the replacement it creates is fully functional.",
 ["schedules", "fault_sequences"],
 "All fault positions (messages, ports, timers, lifecycle hooks, futures) and kinds (panic, returned error, unwrap failures), in pooled and dedicated components, under load.",
 "Two or three tests fault in one position with no concurrent traffic.",
 ["core/src/component/actual_component.rs", "core/src/component/mod.rs", "core/src/supervision.rs", "core/src/runtime/system.rs"],
 [("catch_unwind around execution", "core/src/component/actual_component.rs"), ("recovery handler", "core/src/component/context.rs, core/src/supervision.rs")],
 "Handler invocations across the system, recovery function invocations")

prop("C07", "Blocking on a future suspends exactly that component, losing nothing",
 "A component that blocks on a future handles no message, event or timer until that future completes, then continues with everything that arrived meanwhile, in order and exactly once; other components are unaffected. Futures spawned to run on the component run to completion exactly once, interleaved with its handlers at await points, with exclusive access to the component's state.",
 ["schedules", "histories"],
 "All orders of future completion (before, during, after the handler returns; from any thread), of nested blocking and local futures, relative to arriving messages and lifecycle commands.",
 "The tests complete each future from one place at one time; the wake/block race has many orders.",
 ["core/src/component/future_task.rs", "core/src/component/actual_component.rs", "core/src/component/definition.rs", "core/src/utils/mod.rs"],
 [("blocking state and wakers", "core/src/component/future_task.rs"), ("blocked execution", "core/src/component/actual_component.rs")],
 "Handler and future progress events in the component")

prop("C08", "Timers fire on time, the right number of times, never after cancel",
 "A one-shot timer runs its action exactly once and not before its delay has elapsed; a periodic timer runs once per elapsed period, never earlier, until cancelled; timers of one component run in order of expiry. After a component cancels one of its timers the action never runs again, and cancelling has no effect on any other timer, message or on scheduling. Timers of destroyed or faulty components never run.",
 ["schedules", "histories", "inputs"],
 "All delay/period combinations, all interleavings of scheduling, expiry, cancellation (including of expired but not yet handled timers) and other work.",
 "Tests schedule a couple of timers on the wall clock; cancellation racing expiry is never reached.",
 ["core/src/timer/timer_manager.rs", "core/src/timer/mod.rs", "core/src/component/actual_component.rs"],
 [("timer bookkeeping per component", "core/src/timer/timer_manager.rs"), ("virtual timer", "core/src/timer/mod.rs")],
 "Timer callbacks against a model driven by virtual time")

prop("C09", "Every ask is answered by at most its own reply, or fails visibly",
 "A request sent with ask completes with the reply given to exactly that request, never with another's, and at most once. If the answerer drops the request without replying, or is destroyed and released with it queued, the asker's future completes with an error instead of hanging. This holds for any number of concurrent outstanding asks.",
 ["schedules", "histories"],
 "All interleavings of many outstanding asks, reply orders, dropped promises, and destroyed answerers.",
 "Tests ask once or twice and always reply.",
 ["core/src/utils/ask.rs", "core/src/utils/mod.rs", "core/src/actors/refs.rs"],
 [("promise and ask", "core/src/utils/mod.rs, core/src/utils/ask.rs")],
 "Results of ask futures versus replies given")

prop("C10", "Shutdown stops everything, completes, and later use is harmless",
 "Shutting a system down kills every started component (each runs its kill hook exactly once), runs no handler after shutdown completes, and always completes even when initiated from inside a component or while components are still sending. Waiting for termination returns once it is down, and other systems in the same process are unaffected.",
 ["schedules", "histories", "fault_sequences"],
 "All points during traffic at which shutdown is requested, from in- or outside, with faulty, blocked-free, stopped, dedicated and nested components present.",
 "Tests shut down idle systems.",
 ["core/src/runtime/system.rs", "core/src/runtime/scheduler.rs", "core/src/supervision.rs", "core/src/dispatch/"],
 [("shutdown sequence", "core/src/runtime/system.rs: shutdown*"), ("supervisor shutdown", "core/src/supervision.rs")],
 "Kill hooks, handler invocations and the return of shutdown/termination waits")

prop("C11", "Bounded batches: no starvation among messages, ports, timers and components",
 "In one execution a component handles at most its configured throughput of messages and events, and the configured share of them for messages (at least one each when both are pending, even at throughput 1) and the rest for port events; unused shares go to the other kind. Ports are served round-robin, so no port, message queue, expired timer or other component waiting on the same thread is starved by a flood elsewhere or by futures that keep waking themselves.",
 ["schedules", "configurations", "inputs"],
 "All throughput and message-priority settings, all mixes of backlog across messages, several ports and timers.",
 "No existing test measures how much one execution handles or which source it serves.",
 ["core/src/component/actual_component.rs", "macros/component-definition-derive/src/lib.rs", "core/src/runtime/config.rs"],
 [("batch loop", "core/src/component/actual_component.rs: inner_execute"), ("port round-robin", "macros/component-definition-derive")],
 "Handler invocations grouped by scheduler execution")

prop("C12", "Dedicated components run only on their own thread",
 "Every handler of a component created on a dedicated thread - for messages, port events, timers, lifecycle and futures, whoever sends - runs on one and the same thread, and no other component ever runs on that thread. Pool components never run on a dedicated thread, and a dedicated component that is killed or becomes faulty ends its thread.",
 ["schedules", "histories", "configurations"],
 "All kinds of stimulus from pooled, dedicated and outside threads, on every schedule.",
 "Tests only send messages to dedicated components and do not observe threads.",
 ["core/src/runtime/scheduler.rs", "core/src/dedicated_scheduler.rs", "core/src/ports.rs", "core/src/timer/timer_manager.rs", "core/src/component/core.rs"],
 [("dedicated scheduler", "core/src/dedicated_scheduler.rs"), ("custom scheduling on enqueue", "core/src/component/core.rs, core/src/ports.rs, core/src/timer/timer_manager.rs")],
 "Thread identity recorded in every handler")

prop("C13", "Components are released exactly once, and references stay safe",
 "After a component has been killed and all strong handles are gone its state is dropped exactly once, together with every undelivered message and event it still held; weak references never keep it alive. Sending through any reference to a released component has no effect other than dropping the message, exactly once.",
 ["schedules", "histories"],
 "All orders of killing, dropping handles, sending and upgrading references from several threads.",
 "Tests never count drops; leaks and double drops are invisible to them.",
 ["core/src/actors/refs.rs", "core/src/component/actual_component.rs", "core/src/component/core.rs", "core/src/ports.rs"],
 [("weak/strong references", "core/src/actors/refs.rs"), ("component container", "core/src/component/core.rs")],
 "Drop of component state and of message payloads, counted")

prop("C14", "Concurrently used queues, wakers and buffers are free of data races and UB",
 "No use of the safe public API - components, ports, timers, futures, asks, routing, serialisation, network buffers - leads to undefined behaviour: no data race, no use of freed or uninitialised memory, no out-of-bounds access.",
 ["schedules", "inputs", "programs"],
 "All programs using the safe API and all their schedules.",
 "Ordinary test builds cannot observe undefined behaviour that happens not to crash.",
 ["core/src/component/", "core/src/net/buffers/", "core/src/utils/mod.rs", "core/src/serialisation/", "core/src/messaging/"],
 [("unsafe blocks in buffers", "core/src/net/buffers/*.rs"), ("unsafe component access", "core/src/component/*.rs"), ("erased futures", "core/src/component/future_task.rs")],
 "Miri and sanitizer reports while the workloads of the other checks run")

prop("D01", "Registered names resolve to exactly the registered component",
 "After a registration is confirmed, every message to that path (by unique id or by alias) reaches exactly that component; paths nobody is registered under go to the deadletter handling and to no component. Registering a taken name fails and leaves the existing owner in place unless an update was requested, in which case the new owner gets everything sent after confirmation. A destroyed component's entry never leads to another component.",
 ["histories", "schedules", "inputs"],
 "All sequences of registrations, updates, sends, lookups and deaths over overlapping path trees.",
 "Tests register a few aliases with no collisions, prefixes or deaths in between.",
 ["core/src/dispatch/lookup/mod.rs", "core/src/dispatch/lookup/path_trie.rs", "core/src/dispatch/lookup/gc.rs", "core/src/messaging/registration.rs", "network/src/dispatcher.rs"],
 [("actor store", "core/src/dispatch/lookup/mod.rs"), ("path trie", "core/src/dispatch/lookup/path_trie.rs"), ("registration handling", "network/src/dispatcher.rs")],
 "Registration results and receiving component per sent message, versus a map model")

prop("D02", "Routing groups: one member per policy, or every member on broadcast",
 "A message to a broadcast route is handled exactly once by every live member (name registered below the prefix) and by no other component; a message to a select route by exactly one member. Round-robin selection spreads messages evenly over a stable membership, hash-based selection sends equal keys to the same member of a stable membership, and a route with no members drops or deadletters the message without harming the system.",
 ["histories", "inputs", "configurations"],
 "All membership histories (including empty groups and deaths), policies and messages.",
 "Tests route over one fixed non-empty group.",
 ["core/src/routing/groups.rs", "core/src/routing/mod.rs", "core/src/dispatch/lookup/mod.rs", "network/src/dispatcher.rs"],
 [("policies", "core/src/routing/groups.rs"), ("group lookup", "core/src/dispatch/lookup/mod.rs")],
 "Which member handles each routed message")

prop("D03", "Actor paths survive text and wire round trips, and invalid ones are refused",
 "For every valid actor path - any transport, IPv4 or IPv6 address, unique id or named segments, including routing segments - printing and parsing it, and serialising and deserialising it, give back an equal path. Text that is not a valid path, and named paths with illegal segments, are refused with an error and never panic.",
 ["inputs"],
 "All actor paths and all strings.",
 "Tests round-trip a few IPv4 paths.",
 ["core/src/actors/paths.rs", "core/src/messaging/framing.rs", "core/src/messaging/bitfields.rs"],
 [("path parsing and display", "core/src/actors/paths.rs"), ("wire format", "core/src/messaging/framing.rs")],
 "Results of public parse/display/serialise/deserialise calls")

prop("D04", "A message means the same whichever way it is sent or forwarded",
 "A value sent to a path by any send variant - lazily serialised, eagerly serialised, preserialised, with a different sender, or forwarded by an intermediate actor - arrives exactly once at the addressed component with the same serialisation id, content and sender, whether the destination is in the same system or in another one. Content that is forwarded is delivered byte for byte, however often and wherever it is forwarded.",
 ["inputs", "configurations", "histories"],
 "All send variants, value types and sizes (including ones larger than a network buffer), local and remote destinations, forwarding chains.",
 "Tests use small fixed messages and at most one forward.",
 ["core/src/actors/paths_dispatch.rs", "core/src/messaging/net_message.rs", "core/src/serialisation/ser_helpers.rs", "network/src/dispatcher.rs", "core/src/net/buffers/"],
 [("send variants", "core/src/actors/paths_dispatch.rs"), ("message embedding and deserialisation", "core/src/serialisation/ser_helpers.rs")],
 "Messages received by network actors: ser id, content, sender")

prop("S01", "Serialising then deserialising gives back the same value",
 "For every value of every type the library can serialise (numbers, strings, byte buffers, options, unit, addresses, paths, serde-based and user-defined), eager, lazy and into-buffer serialisation produce the same bytes and deserialising them gives back an equal value, consuming exactly the bytes written, wherever buffer chunk boundaries fall. Distinct built-in types have distinct serialisation ids, and deserialising with the wrong type's id is refused and the message left usable.",
 ["inputs", "configurations"],
 "All values, all chunk sizes and buffer fill levels.",
 "Tests use a few values in one large chunk.",
 ["core/src/serialisation/default_serialisers.rs", "core/src/serialisation/core.rs", "core/src/serialisation/serde_serialisers.rs", "core/src/messaging/net_message.rs", "core/src/messaging/deser_macro.rs"],
 [("default serialisers", "core/src/serialisation/default_serialisers.rs"), ("serde bridge", "core/src/serialisation/serde_serialisers.rs")],
 "Public serialise/deserialise calls")

prop("S02", "Malformed bytes are rejected with an error, never a crash",
 "Deserialising arbitrary or truncated bytes - as a frame, a message header, an actor path, or any built-in type - either gives a value or an error; it never panics, never reads past the data and never produces an invalid value such as non-UTF-8 text.",
 ["inputs"],
 "All byte strings, in particular truncations and mutations of valid messages.",
 "Tests only decode what the encoder wrote.",
 ["core/src/messaging/framing.rs", "core/src/serialisation/", "core/src/net/frames.rs", "core/src/net/buffers/decode_buffer.rs"],
 [("header/path decoding", "core/src/messaging/framing.rs"), ("frame decoding", "core/src/net/frames.rs")],
 "Results of public deserialisation calls on hostile input")

prop("S03", "Frames are reassembled exactly, however the byte stream is cut",
 "For any sequence of frames written to a stream and any way the stream is split into reads, at any buffer chunk size, the receiver extracts exactly the same frames in the same order, each as soon as its last byte has arrived, and nothing else. An invalid frame header is reported as an error.",
 ["inputs", "histories"],
 "All frame sequences, read splits, chunk sizes and limits.",
 "Tests use a few fixed splits.",
 ["core/src/net/buffers/decode_buffer.rs", "core/src/net/frames.rs", "core/src/net/buffers/chunk_lease.rs"],
 [("decode buffer", "core/src/net/buffers/decode_buffer.rs"), ("frame format", "core/src/net/frames.rs")],
 "Frames returned by the public decode buffer versus frames encoded")

prop("S04", "Network buffers never alias, leak or exceed their pool",
 "Data held in a buffer obtained for sending or receiving never changes until it is released, whatever else is written meanwhile; memory is handed out again only after all holders released it. A pool never creates more chunks than configured, reports exhaustion as an error instead of blocking or panicking, and gives back full capacity once everything is released.",
 ["histories", "inputs", "configurations"],
 "All sequences of writes, leases, clones, splits, swaps and releases (also across threads), all valid buffer configurations.",
 "Tests use large chunks and do not check content of outstanding leases across reuse.",
 ["core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/encode_buffer.rs", "core/src/net/buffers/chunk_lease.rs", "core/src/net/buffers/chunk_ref.rs", "core/src/net/buffers/mod.rs"],
 [("pool", "core/src/net/buffers/buffer_pool.rs"), ("encode buffer", "core/src/net/buffers/encode_buffer.rs"), ("leases", "core/src/net/buffers/chunk_lease.rs")],
 "Contents of outstanding leases, chunks allocated through a counting allocator")

prop("N01", "Within a network session messages arrive intact, once and in order",
 "Between two connected systems all messages that arrive with the same session were sent in that order by each sender, with no gap, duplicate or corruption between the first and the last of them; as long as the connection stays up every message sent arrives. This holds for all message sizes, buffer settings, many concurrent senders, and both directions at once.",
 ["schedules", "inputs", "configurations"],
 "All message sizes relative to chunk sizes, sender counts, socket write splits, simultaneous connection attempts from both sides.",
 "Tests send a few small messages one way.",
 ["network/src/transport/network_channel.rs", "network/src/transport/network_thread.rs", "network/src/dispatcher.rs", "core/src/net/buffers/"],
 [("channel outbound queue", "network/src/transport/network_channel.rs"), ("event loop", "network/src/transport/network_thread.rs")],
 "Sequence numbers and checksums in received messages, per sender and session")

prop("N02", "A lost connection is retried and resumes at a message boundary",
 "When a connection is lost (at any byte, during the handshake or after) the sender retries, and after re-establishing it the stream of the new session starts with a complete handshake and whole frames only; messages that were waiting are delivered in order and messages are never duplicated within a session. Status listeners see established, lost and closed in an order consistent with what happened, and sending to a peer that appears later succeeds within the retry limit.",
 ["fault_sequences", "crash_points", "schedules"],
 "All positions in the byte stream at which the connection is cut, repeated cuts, peers that come up late, refuse or go away.",
 "Tests kill whole systems a few times; no test cuts a connection mid-frame.",
 ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/dispatcher.rs"],
 [("retry handling", "network/src/dispatcher.rs"), ("lost connection handling", "network/src/transport/network_thread.rs")],
 "Bytes received by a scripted raw peer, messages received, status events")

prop("N03", "A misbehaving peer cannot disturb other connections",
 "Whatever bytes a remote peer sends over TCP or UDP - garbage, truncated or reordered protocol steps, malformed messages, early closes - the local system keeps running, its other connections stay up and lose nothing, and correct peers can still connect.",
 ["inputs", "fault_sequences"],
 "All byte streams and connection behaviours of an arbitrary peer.",
 "Tests only use well-behaved peers.",
 ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/transport/udp_state.rs", "core/src/net/frames.rs", "core/src/messaging/framing.rs"],
 [("frame handling", "network/src/transport/network_thread.rs"), ("decode", "network/src/transport/network_channel.rs")],
 "Traffic of a healthy peer, status events, while a scripted hostile peer acts")

prop("N04", "UDP messages arrive whole and unaltered, or not at all",
 "Every message sent over UDP is delivered at most once and unaltered, and one that is lost, too large or malformed affects no other message, on UDP or TCP. Over the loopback interface with few messages in flight all deliverable messages arrive.",
 ["inputs", "histories", "fault_sequences"],
 "All message sizes around the datagram limit, malformed datagrams interleaved with valid ones.",
 "One test sends a single small UDP message.",
 ["network/src/transport/udp_state.rs", "network/src/transport/network_thread.rs", "network/src/dispatcher.rs"],
 [("UDP send/receive", "network/src/transport/udp_state.rs")],
 "Messages received over UDP versus sent")

prop("N05", "Blocked peers are cut off, allowed ones are not",
 "While an address, network or system is blocked, no message from or to it is delivered over TCP and it cannot keep or make a connection; an explicitly allowed system is exempt from address and network rules, and later address or network rules override earlier ones. Unblocking restores normal communication, and blocking or allowing one peer never disturbs another.",
 ["histories", "configurations"],
 "All sequences of block/allow commands on overlapping systems, addresses and networks, before, during and after connections.",
 "Tests block one address or system once.",
 ["network/src/dispatcher.rs", "network/src/transport/network_thread.rs", "core/src/dispatch/"],
 [("block list", "network/src/transport/network_thread.rs"), ("connection state", "network/src/dispatcher.rs")],
 "Delivered messages and status events versus a model of the rules")

prop("G01", "Configuration values take effect as documented, with the last one winning",
 "Values from configuration files, strings and in-code settings are merged in the order given so that the last one set wins, nested keys override individually, and every value that can be read has the documented type conversion and range checks; an absent, mistyped or out-of-range value gives an error or the documented default, never a wrong value. The system built from it uses those values.",
 ["inputs", "configurations"],
 "All sequences of configuration sources and settings and all value forms (numbers, sizes, durations, booleans, arrays).",
 "Tests load one or two fixed files.",
 ["core/src/config/mod.rs", "core/src/config/converters_for_config_values.rs", "core/src/config/converters_for_other_types.rs", "core/src/runtime/config.rs", "core/src/utils/checked_casts.rs"],
 [("typed lookups", "core/src/config/mod.rs"), ("merge order", "core/src/runtime/config.rs")],
 "Values read through the public configuration API of a built system versus a model")

prop("N06", "Limits on connections and buffers degrade gracefully and only for a while",
 "Exceeding the soft connection limit closes exactly the least recently used connection, announced and gracefully: everything sent on it before, from both ends, is delivered. Connections beyond the hard limit are refused in both directions with an indication and without effect on existing ones, and are made once there is room. A shortage of network buffers only delays messages; when buffers are returned everything read so far is delivered in order and the network is as fast as before.",
 ["histories", "configurations", "schedules"],
 "All orders of connecting, half-open handshakes, use and closing around both limits, and all moments at which buffers run out and are returned.",
 "Two tests open three channels once; none uses connections while a limit acts or runs out of buffers in a live system.",
 ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/dispatcher.rs", "core/src/net/buffers/"],
 [("connection limits", "network/src/transport/network_thread.rs"), ("waiting for buffers", "network/src/transport/network_thread.rs")],
 "Bytes at hand-driven peers on both sides of the limits, status events, delivery and delay of messages around a shortage of buffers")

prop("S05", "Received messages go to the branch of their type, or are handed back",
 "match_deser!, the try_deserialise family and NetworkActor read a message with the deserialiser whose id it carries and with no other: the first matching branch runs with the decoded value; undecodable content or a boxed value of another type goes to the error branch, an unknown id to the default branch. A message refused because of its id comes back unaltered (sender, receiver, session, content). A NetworkActor handles local and remote messages with the same content alike.",
 ["inputs", "configurations"],
 "All combinations of branch lists, serialisation ids, boxed and serialised contents, valid or damaged.",
 "Tests match one of two message types in one or two branch orders.",
 ["core/src/messaging/deser_macro.rs", "core/src/messaging/net_message.rs", "core/src/actors/distributed.rs"],
 [("match_deser!", "core/src/messaging/deser_macro.rs"), ("try_deserialise", "core/src/messaging/net_message.rs"), ("NetworkActor", "core/src/actors/distributed.rs")],
 "Branch taken and value seen for generated messages versus a model")

prop("C15", "References and replies reach exactly the component they were made from",
 "Whatever way a reference is obtained and passed on (weak, strong, recipient, converted, type-erased, dynamic, inside a request), a message sent through it reaches the component it was made from, converted as specified, and every reply to a request reaches exactly the requester once per reply. References are equal exactly if they refer to the same component. Strong references keep their component allocated, weak ones do not, and using a weak reference to a component that is gone has no effect. Collections of futures give all results in order, or fail if any is missing.",
 ["histories", "schedules"],
 "All ways of obtaining, converting, storing and forwarding references over any number of components and deaths.",
 "Tests use one recipient and one request of each kind between two live components.",
 ["core/src/actors/refs.rs", "core/src/utils/erased.rs", "core/src/utils/mod.rs", "core/src/component/mod.rs"],
 [("references, recipients and requests", "core/src/actors/refs.rs"), ("type-erased components", "core/src/utils/erased.rs"), ("future collections", "core/src/utils/mod.rs")],
 "Replies seen by each client versus requests made, allocation of components, results of comparisons")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
