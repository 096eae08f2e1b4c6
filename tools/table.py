prop("C01", "then/upon_error/upon_stopped transform exactly one completion",
     "For every child sender, then, upon_error and upon_stopped call the user's function exactly once when "
     "the child completes on the adapted channel, and complete the receiver exactly once with that function's "
     "result; every other completion is forwarded unchanged and the function is not called. "
     "An exception thrown by the function (or by moving its result) is delivered as an error carrying exactly that exception. "
     "All values are used only while alive and destroyed exactly once.",
     ["inputs", "programs"],
     "all values sent by the child, all channels, inline or deferred completion, every copy/move/call that may throw",
     "Tests use a few arithmetic functions and just() children; throwing moves, deferred children, address-sensitive values and each channel are not combined.",
     [SX + "__then.hpp", SX + "__upon_error.hpp", SX + "__upon_stopped.hpp", SX + "__basic_sender.hpp"],
     [("__set_value_invoke / __set_error path", SX + "__receivers.hpp, __then.hpp"), ("__basic_sender state and op", SX + "__basic_sender.hpp")],
     how="then/upon_* are connected to an opaque child (every channel, inline/deferred, symbolic values) and an instrumented receiver. Postconditions asserted on every path: function called 0/1 times with exactly the child's values, one completion, carrying the function's symbolic result or its exception; every copy/move/call/connect is allowed to throw at a symbolic point; every object is destroyed exactly once. All obligations unbounded.")

prop("C02", "let_* runs the continuation sender exactly once, with values that stay alive",
     "When the child completes on the adapted channel, the user's function is called exactly once with the values the child sent, and these values stay alive at a fixed address until the operation made from the returned sender has completed; the receiver then gets exactly that operation's completion. "
     "Other completions are forwarded unchanged; an exception from storing the values, from the function or from connecting its result is delivered as an error. "
     "Each operation and each value is created and destroyed exactly once.",
     ["inputs", "programs"],
     "all values, all channels, inline or deferred completion of child and continuation, each throwing copy/move/call/connect",
     "Tests never throw from moving the function, from storing values or from connect, and do not check lifetimes of the stored values.",
     [SX + "__let.hpp"],
     [("argument storage in a variant and the second operation state", SX + "__let.hpp"), ("scheduler environment of the continuation", SX + "__let.hpp")],
     how='As C01, with a continuation sender that is itself opaque: its operation and the stored values must be alive and at the same address until it completed, also when the operation destroys itself in its completion. Connect, copies and the call may throw.')

prop("C03", "when_all completes once, with all values or the first failure, after every child",
     "when_all starts every child and completes its receiver exactly once, only after every started child has completed: with all the children's values in order if all succeeded and no stop was requested, with the first error if a child failed, and with stopped otherwise. "
     "A child that fails or is stopped, and a stop request of the receiver, ask the remaining children to stop. "
     "An exception while storing values counts as that child's error.",
     ["schedules", "inputs", "histories"],
     "all completion orders and channels of the children, stop requests at any point, throwing value copies, children completing on their own threads",
     "Tests complete children inline or from one thread; the race of the last child with a stop request (a real defect that was found and repaired here) never occurs in them.",
     [SX + "__when_all.hpp"],
     [("__count_ arrival protocol and __complete", SX + "__when_all.hpp"), ("__state_ started/error/stopped", SX + "__when_all.hpp"), ("stop callback", SX + "__when_all.hpp")],
     note=MT,
     how="Two and three opaque children complete in every order, on every channel, inline or deferred, with stop requests of the receiver in between; the postcondition compares the receiver's completion with the history of the children. The races (children on their own threads, request_stop against the last arrival) are interleavings with bounded preemptions.")

prop("C04", "inplace_stop_source runs each registered callback exactly once, safely",
     "After request_stop(), every callback that was registered and not deregistered is invoked exactly once, a callback registered after the request is invoked inside its constructor, and only the first request_stop() returns true. "
     "Destroying a callback object guarantees that its function is not running on another thread and will never run afterwards, and a callback may destroy itself or other callbacks, register new ones or request again from inside its own invocation. "
     "What happened before the request is visible to the callbacks.",
     ["schedules", "histories"],
     "all sequences of registration, deregistration and requests, including reentrant ones, and interleavings of concurrent registration, deregistration and requests",
     "Tests exercise few interleavings; the self-destroying, concurrently deregistering callback and the memory ordering can not be sampled reliably.",
     ["include/stdexec/stop_token.hpp", SX + "__stop_token.hpp"],
     [("lock bit and callback list", "include/stdexec/stop_token.hpp"), ("__removed_during_callback_/__callback_completed_", "include/stdexec/stop_token.hpp")],
     note=MT + SEQB,
     how='All sequences of register/deregister/request up to the stated depth incl. reentrant ones run sequentially with all choices symbolic; concurrent registration, deregistration and requests run as interleavings with happens-before checking. One-shot and callable-once postconditions are asserted after each history.')

prop("C05", "run_loop completes every scheduled operation once, in order, inside run()",
     "Every operation started on a run_loop before finish() takes effect is completed exactly once, by a thread inside run(), in the order of starting; run() returns only after finish() was called and no started operation is left. "
     "Operations may be started and finish() called from any thread, including from completions, and the loop may be destroyed as soon as run() has returned and the starting calls are over. "
     "What happened before the start is visible to the completion.",
     ["schedules", "histories"],
     "sequences of starts and finish() from completions and from other threads, interleaved with run()",
     "Tests run the loop after or concurrently with a couple of pushes; missed wake-ups and early destruction need particular interleavings.",
     [SX + "__run_loop.hpp"],
     [("queue and task count", SX + "__run_loop.hpp"), ("finish/noop task", SX + "__run_loop.hpp")],
     note=MT + SEQB,
     how='Sequences of starts and finish() from completions and threads; after run() returns all started operations must have completed exactly once in order; the loop is destroyed right afterwards, so a late touch is a use after free.')

prop("C06", "sync_wait returns exactly the sender's completion, after it has happened",
     "sync_wait blocks until the sender has completed, drives work scheduled on its own loop meanwhile, and returns the values, rethrows the delivered exception or error, or returns an empty optional for stopped. "
     "It returns only when the completing thread no longer touches the state on the caller's stack. "
     "What the completing thread did before completing is visible to the caller.",
     ["schedules", "inputs"],
     "all values and channels, inline completion, completion by work on the loop, completion on another thread with any interleaving",
     "Tests do not control when the completing thread runs relative to the return of sync_wait; a use of the dead stack frame would go unnoticed.",
     [SX + "__sync_wait.hpp", SX + "__run_loop.hpp"],
     [("__state and run loop finish", SX + "__sync_wait.hpp")],
     note=MT,
     how="sync_wait on opaque senders for every channel; the completing thread runs interleaved with the waiting one, and sync_wait's stack frame is freed on return so that any later touch is an obligation that fails.")

prop("C07", "Counting scopes admit work only while open and join only when it has drained",
     "An association with a counting scope succeeds exactly when the scope is open and below its maximum, and each successful association is released exactly once. "
     "A join operation completes exactly once, only when no association is left (at once if there is none), and afterwards the scope is joined, admits nothing and may be destroyed; closing a scope stops admission for good. "
     "Destroying a scope that was used and not joined terminates the program.",
     ["schedules", "histories", "inputs"],
     "all states of the scope (any count), sequences of operations, and interleavings of associate, release, close and join",
     "Tests use a handful of sequences; the races of the last release with a starting join, or of associate with close, are not controllable.",
     [SX + "__counting_scopes.hpp"],
     [("packed state word: closed, join needed, join running, count", SX + "__counting_scopes.hpp")],
     note=MT + SEQB,
     how='The packed word operations are proved for every value of the word under rely/guarantee (C07_word.cpp: any number of other threads, loops cut by subsumption); the interface contracts are executed over all histories up to the stated depth with two scopes types; races of associate/close/join with the last release are interleavings with bounded preemptions.')

prop("C08", "spawned and associated work runs at most once and never outlives its scope",
     "spawn and spawn_future start the given sender exactly once if the scope admits it and not at all otherwise; a started future completes exactly once, with the result of the work or with stopped when it was cancelled or never admitted, and discarding or cancelling a future asks its work to stop. "
     "The association is held until the operation is destroyed and its memory, obtained from the environment's allocator, is released, and it is released exactly once, also when an allocation, copy or connect throws. "
     "associate completes with stopped and runs nothing when the scope refuses, and a counting scope's stop request reaches all its work.",
     ["schedules", "inputs", "histories"],
     "open or closed scopes, inline or deferred completion on every channel, throwing results, connect and allocation, the future discarded, never started, started or cancelled at any point, and interleavings of completion, start, cancellation and discarding",
     "Tests complete the work before or after the future is started; cancelling a future whose work completes inside its stop callback (a real defect found and repaired here) or racing threads do not occur.",
     [SX + "__spawn.hpp", SX + "__spawn_future.hpp", SX + "__associate.hpp", SX + "__stop_when.hpp"],
     [("__registered_receiver_ protocol of producer, consumer and canceller", SX + "__spawn_future.hpp"),
      ("__associate_data and __op_state", SX + "__associate.hpp"), ("fused stop token", SX + "__stop_when.hpp")],
     note=MT,
     how="spawn/spawn_future/associate are executed with an instrumented scope token (associations counted, allowed to be refused), opaque children and an instrumented allocator. Every choice point (refusal, completion time and channel, which copy/connect/allocation throws, discard/start/cancel order) is symbolic; after each path: receiver completed once with the child's outcome, child started 0/1 times as admitted, association released after the operation and its memory, no leaks. The producer/consumer/canceller races are interleavings with a bounded number of preemptions.")

prop("C09", "Intrusive queues hand over every element exactly once, in their stated order",
     "The single-threaded intrusive queues, stacks and lists keep exactly the pushed and not yet removed elements in order under every sequence of operations. "
     "The atomic intrusive queue and the multi-producer queue deliver each pushed element to the consumer exactly once, never lose or duplicate one under concurrent producers, and keep each producer's order. "
     "What a producer wrote before pushing is visible to the consumer, and no operation touches an element that was already handed over.",
     ["schedules", "histories"],
     "all sequences of operations up to the stated depth and interleavings of producers with the consumer",
     "The tests push a few elements from one or two threads; lost elements and premature reads of the link depend on the interleaving.",
     [SX + "__intrusive_queue.hpp", SX + "__intrusive_mpsc_queue.hpp", SX + "__intrusive_slist.hpp", EX + "detail/atomic_intrusive_queue.hpp", SX + "__atomic_intrusive_queue.hpp"],
     [("link fields and head/tail", SX + "__intrusive_queue.hpp"), ("exchange of the back pointer, stub node", SX + "__intrusive_mpsc_queue.hpp")],
     note=MT + SEQB,
     how='Sequences of operations with symbolic choices are compared with a ghost sequence; producers and the consumer run as interleavings with happens-before checking. push_back and pop_front of the multi-producer queue also have contracts proved for every state of the queue and any interference of the other side at each atomic access (C09_mpsc), including which access publishes and which acquires.')

prop("C14", "timed_thread_context completes each operation once, in time order, never early",
     "Every operation started on a timed_thread_context completes exactly once: with a value not before its time, or with stopped after a stop request or when the context is destroyed first. "
     "Due operations complete in the order of their time points and, for equal times, of submission, without waiting for unrelated deadlines, and a stop request takes effect at once. "
     "The intrusive heap behind it keeps exactly the inserted and not yet removed elements and always yields the smallest.",
     ["schedules", "histories", "inputs"],
     "all clock readings, time points, sequences of heap operations up to the stated size, and interleavings of starts, stop requests and destruction with the context's thread",
     "Tests wait for a few timers on one thread; operations queued while the context ends, lost wake-ups and stop requests that overtake their operation (three real defects found and repaired here) need particular interleavings.",
     [EX + "timed_thread_scheduler.hpp", EX + "detail/intrusive_heap.hpp", SX + "__intrusive_mpsc_queue.hpp"],
     [("command queue, n_submissions_in_flight_ and ready_", EX + "timed_thread_scheduler.hpp"), ("ref_count_ of operation and stop command", EX + "timed_thread_scheduler.hpp"), ("left-heap path and parent links", EX + "detail/intrusive_heap.hpp")],
     note=MT + SEQB,
     how="The heap is executed on every shape up to the stated size (11 quick, 16 thorough) with symbolic keys: after insert/pop_front/erase the heap order, links and membership are asserted; the path computation is proved for all sizes. The context runs with its real thread, mutex and condition variable contracts in which a timed wait never times out, so that progress has to come from a notification: a lost wake-up or lost stop request shows as a deadlock. Interleavings with at most 2 preemptions.")

prop("C10", "repeat_n, repeat_until and repeat run exactly the rounds they promise",
     "repeat_n(s, n) runs n rounds one after the other and then completes with a value; repeat_until runs rounds until one sends true, and repeat until one fails. "
     "An error or stopped of a round ends the repetition and is forwarded unchanged, as is an exception from making the next round's operation; each round gets its own copy of the sender, connected once, and its operation is destroyed before the next one is made. "
     "Any number of rounds that complete inline needs bounded stack.",
     ["inputs", "programs"],
     "all counts, rounds that complete inline or later on any channel, throwing copies and connects, stop requests between rounds",
     "Tests repeat just() a few times; rounds that complete later, that throw from connect or whose operation outlives the round are not combined.",
     [EX + "repeat_n.hpp", EX + "repeat_until.hpp", EX + "repeat_effect_until.hpp", EX + "trampoline_scheduler.hpp"],
     [("count and child operation", EX + "repeat_n.hpp"), ("__repeat_effect_state / child operation", EX + "repeat_until.hpp")],
     note=SEQB,
     how="Opaque rounds complete on every channel, inline or later, with copies and connects that throw at a symbolic point. repeat_n is proved for every count by an inferred loop invariant (count left + rounds done = n) and repeat_until by state subsumption; throwing rounds, inline recursion through the trampoline and stop requests are executed for the stated number of rounds.")

prop("C11", "finally and sequence run their senders in order and keep the right result",
     "finally starts its final sender exactly once, after the first sender has completed on any channel and its operation was destroyed, and then completes with the first sender's result, or with the final sender's own error or stopped. "
     "sequence runs its senders one after the other, starting the next only after the previous sent a value, and completes with the last one's values or the first failure. "
     "Stored results stay intact, are destroyed exactly once, and exceptions from copying or connecting are neither swallowed nor fatal.",
     ["inputs", "programs"],
     "all channels of both senders, inline or deferred, all values, and each throwing copy, move or connect",
     "Tests use just() senders; a throwing connect or copy (two real defects found and repaired here ended in std::terminate) does not occur in them.",
     [EX + "finally.hpp", SX + "__finally.hpp", EX + "sequence.hpp", SX + "__sequence.hpp", SX + "__transform_sender.hpp"],
     [("stored result variant and final operation", EX + "finally.hpp"), ("operation state union", EX + "sequence.hpp")],
     how="Two and three opaque senders complete on every channel, inline or deferred; every copy, move, connect may throw at a symbolic point. Postconditions: the order of start/destroy events, started counts, one completion equal to the specified one, all objects destroyed, exceptions from connect reach the caller of connect.")

prop("C12", "bulk, bulk_chunked and bulk_unchunked visit every index exactly once",
     "When the child sends values, the function is called so that every index in [0, shape) is covered exactly once (chunks are disjoint, ascending and within the shape; an empty shape calls it for no index), always with the child's values by reference. "
     "Afterwards the receiver gets the child's values as the function left them, completed once. "
     "An exception from the function is delivered as that error and ends the visit; errors and stopped pass through and call nothing.",
     ["inputs"],
     "all shapes of integer types, all values and channels, each call and copy that may throw",
     "Tests use a few shapes; types whose shape is narrow, throwing in the middle and large shapes are not combined.",
     [SX + "__bulk.hpp"],
     [("bulk default implementations", SX + "__bulk.hpp")],
     note=SEQB,
     how="bulk and bulk_unchunked are proved for every 64-bit shape by an inferred loop invariant (index = calls done), bulk_chunked for every shape without a loop; throwing functions, copies and narrow shape types are executed for shapes up to 3.")

prop("C15", "continues_on, starts_on, on and affine run each part on its scheduler",
     "continues_on completes on its scheduler and starts_on starts its child there; on runs its sender (or closure) on the given scheduler and then returns to where it was started, and affine and reschedule return to the scheduler of the receiver. "
     "The values, error or stopped of the child survive the hop unchanged and are delivered exactly once; if scheduling fails or is stopped, that completion is delivered instead and a child not yet started never runs. "
     "Stored results are destroyed exactly once and exceptions from storing them are delivered as errors.",
     ["inputs", "programs"],
     "all channels of the child and of both schedule operations, inline or later, all values, each throwing copy or move",
     "Tests use an inline or one-thread scheduler that never fails; failing and stopped schedule operations combined with each result channel and throwing stores do not occur.",
     [SX + "__continues_on.hpp", SX + "__schedule_from.hpp", SX + "__starts_on.hpp", SX + "__on.hpp", SX + "__affine.hpp", EX + "reschedule.hpp", SX + "__transfer_just.hpp"],
     [("result variant, schedule operation after the child", SX + "__schedule_from.hpp, __continues_on.hpp"), ("rewriting of on into starts_on/continues_on/write_env", SX + "__on.hpp")],
     how="Schedulers whose schedule operations are opaque (complete on any channel, inline or later, and record which context is running) and an opaque child. Postconditions: the context in which the child starts and the receiver is completed, the started counts, the completion equal to the child's or to the failed schedule's, everything destroyed.")

prop("C16", "into_variant, stopped_as_*, materialize and into_tuple translate results exactly",
     "into_variant sends one variant holding the tuple of exactly the values of the signature used; stopped_as_optional sends the value engaged or, for stopped, an empty optional; stopped_as_error sends the given error for stopped. "
     "materialize turns each completion into a value naming its channel with the same arguments and dematerialize turns it back; into_tuple sends the values as one tuple. "
     "All other completions pass through unchanged, and exceptions from the conversions are delivered as errors.",
     ["inputs", "programs"],
     "all channels and signatures of the child, inline or later, all values, each throwing copy or move",
     "Tests check few value types and never throw from the conversions.",
     [SX + "__into_variant.hpp", SX + "__stopped_as_optional.hpp", SX + "__stopped_as_error.hpp", EX + "materialize.hpp", EX + "into_tuple.hpp"],
     [("conversion functions and completions", SX + "__into_variant.hpp, __stopped_as_optional.hpp; " + EX + "materialize.hpp, into_tuple.hpp")],
     how="Opaque children with one, several and const-reference value signatures on every channel; a receiver that looks into what it is sent; postconditions compare it with the child's completion. Copies and moves throw at a symbolic point.")

prop("C17", "Source senders and environment adaptors deliver exactly what they were given",
     "just, just_error, just_stopped, just_from and create complete inline in start, once, with exactly the stored or produced values; read_env sends what the query of the receiver's environment returns. "
     "write_env, write_attrs, read_with_default and unstoppable change what is seen of the environment for exactly the queries given and nothing else, and completions pass through. "
     "unless_stop_requested completes with stopped without starting its child when stop was requested before start, and variant_sender behaves as the alternative it currently holds, also after assignment and swap.",
     ["inputs", "programs"],
     "all values, stop states, alternatives, each throwing copy, move or call",
     "Tests use arithmetic values and never throw.",
     [SX + "__just.hpp", SX + "__read_env.hpp", SX + "__write_env.hpp", SX + "__unstoppable.hpp", EX + "just_from.hpp", EX + "create.hpp", EX + "variant_sender.hpp", EX + "unless_stop_requested.hpp", EX + "env.hpp"],
     [("stored values and completion", SX + "__just.hpp, __read_env.hpp"), ("joined environments", SX + "__env.hpp, __write_env.hpp")],
     how="Each source is connected to an instrumented receiver with symbolic values and throwing copies; each environment adaptor to an opaque child that looks at the environment it is given. Postconditions compare completions and query results with what was stored; everything is destroyed once.")

prop("C18", "fork_join runs its sender once and hands the same result to every branch",
     "fork_join runs its sender once; when it completes, every branch is started with the same result, by const reference, at one address that stays valid until the last branch is done, and the receiver is completed once with the branches' values in order or the first failure. "
     "If connecting any part or copying anything throws, the exception is delivered as an error or leaves connect, never std::terminate. "
     "Everything stored is destroyed exactly once.",
     ["inputs", "programs"],
     "all values and channels, inline or later, throwing branches, copies and connects",
     "Tests use two arithmetic branches on just().",
     [EX + "fork_join.hpp"],
     [("cache of the result and fork operation state", EX + "fork_join.hpp")],
     how="An opaque sender and two or three branches that may throw or complete later; postconditions: one run, one address, the completion of when_all over the branches, objects destroyed. Connects and copies throw at a symbolic point.")

prop("C19", "split and ensure_started run their sender once and give every waiter its result",
     "split starts its sender with the first waiter, ensure_started at once; each runs it exactly once, and every started waiter is completed exactly once with the sender's completion, whether it starts before, during or after it (split by const reference to one shared result). "
     "A stop request completes a waiting operation at once with stopped, and the sender is asked to stop exactly when nobody can wait for it any more. "
     "The shared state and its result live until the last handle is gone and are then destroyed once.",
     ["schedules", "histories", "inputs"],
     "all interleavings of starts, completion, stop requests and dropped senders or operations, all channels, throwing stores and connects",
     "Tests attach waiters from one thread; the race of two leaving waiters (a real defect found and repaired here) and of start with the completion need particular interleavings.",
     [EX + "detail/shared.hpp", EX + "split.hpp", EX + "ensure_started.hpp"],
     [("waiter list, its mutex, and the completed mark", EX + "detail/shared.hpp"), ("started flag and self reference", EX + "detail/shared.hpp"), ("count of consumers", EX + "detail/shared.hpp")],
     note=MT + SEQB,
     how="An opaque sender, two waiters with their own stop sources, every order of start/stop/complete/drop in one thread (depth 5), reentrant completions, throwing stores; then two threads at a time (complete/start, start/start, complete/stop, start/stop, stop/stop, complete/drop) as interleavings with 2 preemptions and happens-before checks. Oracle: the history of the child and of each waiter.")

prop("C13", "static_thread_pool runs every started task exactly once, on a pool thread",
     "An operation started on a static_thread_pool, from outside or from a task of the pool, completes exactly once on a thread of that pool (on the chosen one with get_scheduler_on_thread), and none is forgotten whatever the threads are doing at that moment. "
     "Bulk work on the pool calls the function exactly once for each index before completing with the unchanged values, and delivers an exception as an error. "
     "even_share partitions every range: the shares are consecutive, disjoint and cover it.",
     ["schedules", "inputs"],
     "interleavings of starting threads with pool threads that run, steal, go to sleep and wake; all shapes and partition sizes",
     "Tests start tasks from one thread and cannot place a start exactly where a pool thread goes to sleep or a thief takes the task.",
     [EX + "static_thread_pool.hpp", EX + "detail/bwos_lifo_queue.hpp", EX + "detail/atomic_intrusive_queue.hpp"],
     [("remote queues, sleep/wake protocol and stealing", EX + "static_thread_pool.hpp"), ("bulk shared state, even_share", EX + "static_thread_pool.hpp")],
     note=MT,
     how="A pool of one or two threads with small queues; symbolic starters, thieves, stop requests and bulk shapes as interleavings with happens-before checks; every operation must be done before its own waiter gives up and everything is freed at the end. even_share is proved for all 8-bit, 32-bit and 64-bit shapes (width 64 with a fixed number of agents).")

prop("C20", "bwos lifo_queue hands out every pushed element exactly once",
     "Every element the owner pushes into the block-based work-stealing queue is handed out exactly once, by pop_back of the owner (newest first) or by steal_front of a thief (oldest first within a block), and never while its slot is still being written. "
     "push_back fails only when the queue is full and pop_back or steal_front report empty only when nothing is left for them; bulk pushes take a prefix. "
     "Blocks are reused only after every thief that took from them is done.",
     ["schedules", "histories"],
     "all sequences of owner operations and interleavings of the owner with thieves",
     "A lost or doubled element needs the owner to take over or reuse a block exactly while a thief is in it.",
     [EX + "detail/bwos_lifo_queue.hpp"],
     [("block grant/takeover/reclaim", EX + "detail/bwos_lifo_queue.hpp")],
     note=MT + SEQB,
     how="Every function of a block has a contract proved for all field values that satisfy the block invariant and any interference the other side may do in between (C20_block, block sizes 1 to 4), including which operation publishes and which acquires. Then sequences of 7 owner operations on the whole queue compared with a stack, and the owner interleaved with one or two thieves (2 preemptions) with happens-before checks on the slots; every element pushed must come out exactly once.")

prop("C21", "Sequence senders deliver every item once and complete after all of them",
     "iterate (also on a static_thread_pool, schedule_all) delivers each element exactly once, in order on one thread; transform_each, merge, merge_each and ignore_all_values hand every item of their sequences to the consumer exactly once, unchanged or transformed. "
     "The sequence completes exactly once, after its last item; a break or a stop request ends it early without losing or repeating an item, and the first error is delivered, as an item by merge_each. "
     "An exception from copying, subscribing, connecting or making the next item becomes an error or leaves subscribe, and everything is destroyed once.",
     ["inputs", "programs", "schedules", "histories"],
     "all items, channels, breaks and stop requests, inline or later completion, nested sequences completing on different threads, throwing copies, subscribes and connects",
     "Tests use ranges of integers that complete inline on one thread; the lifetime of an item's error, a sequence destroyed by its last item, or two nested sequences ending together need particular schedules.",
     [EX + "sequence_senders.hpp", EX + "sequence/iterate.hpp", EX + "sequence/transform_each.hpp", EX + "sequence/ignore_all_values.hpp", EX + "sequence/merge.hpp", EX + "sequence/merge_each.hpp", EX + "sequence/empty_sequence.hpp", EX + "static_thread_pool.hpp"],
     [("item and nested operation life cycle, completion state", EX + "sequence/merge_each.hpp"), ("results storage and its ready flag", EX + "sequence/ignore_all_values.hpp"), ("countdown of the items", EX + "static_thread_pool.hpp")],
     note=MT + SEQB,
     how="Opaque sequences (outer and nested, items inline or later, every channel, operations destroyed inside their completion) are subscribed with an instrumented consumer that may break; postconditions compare what the consumer saw with the history of the items. Copies, subscribe, connect and set_next throw at a symbolic point; nested items complete on two threads (2 preemptions); schedule_all runs on a pool of one or two threads.")

prop("C22", "parallel_scheduler hands its work to the backend and reports its result once",
     "schedule() on the parallel scheduler asks the backend exactly once, unless a stop was requested before, and delivers what the backend reports, exactly once; stop requests reach the backend, and its scratch space is its own until it completes. "
     "bulk on it calls the function exactly once for each index whatever partition and order the backend chooses (a single agent without a parallel policy), then delivers the predecessor's values unchanged. "
     "The first exception of the function, the values or connect is delivered as an error or leaves connect, and everything, the backend included, is released.",
     ["inputs", "programs"],
     "every backend behaviour (inline or later, any channel, partition and order), predecessor completion, stop request and throwing function, copy, move or connect",
     "Tests use the default backend, one inline backend and functions that throw at most once; leaks of the backend, exceptions from several items and errors of the predecessor do not occur.",
     [SX + "__parallel_scheduler.hpp", SX + "__parallel_scheduler_backend.hpp", SX + "__parallel_scheduler_default_impl.hpp", SX + "__parallel_scheduler_replacement_api.hpp"],
     [("receiver proxies and scratch storage", SX + "__parallel_scheduler.hpp, __parallel_scheduler_backend.hpp"), ("chunks of the default backend", SX + "__parallel_scheduler_default_impl.hpp")],
     note=SEQB,
     how="The replaceable query_parallel_scheduler_backend is replaced by an arbitrary backend that scribbles over its scratch space, completes inline or later on any channel, and executes any partition of the items ascending or descending. Postconditions: the backend asked once, visits counted per index, the completion, everything released. Functions, values, copies and connects throw at symbolic points. The default backend runs on an arbitrary pool; its chunks are compared index by index (sizes and parallelism of at most 10 and 5 bits).")

prop("C23", "task_scheduler runs work on the scheduler it wraps and reports the result once",
     "schedule() on a task_scheduler runs the wrapped scheduler's schedule operation exactly once and delivers its completion, exactly once and unchanged; stop requests of the receiver reach it whatever its stop token is. "
     "bulk, bulk_chunked and bulk_unchunked on it call the function exactly once for each index (one agent only without a parallel policy), after the predecessor's values, and then deliver these; the first exception is delivered once, when every call is done. "
     "Two task_schedulers are equal exactly when they wrap equal schedulers, and everything allocated is released, also when allocating or connecting fails.",
     ["inputs", "programs"],
     "every wrapped scheduler (inline or later, any channel, with or without a bulk of its own), predecessor completion, stop request, allocation failure and throwing function, copy, move or connect",
     "Tests use two or three real schedulers and functions that do not throw; exceptions from several calls, negative shapes, other stop tokens and failing allocations do not occur.",
     [SX + "__task_scheduler.hpp", SX + "__parallel_scheduler_backend.hpp", SX + "__any.hpp"],
     [("backend made from a scheduler", SX + "__task_scheduler.hpp"), ("receiver proxies", SX + "__parallel_scheduler_backend.hpp")],
     note=SEQB + MT,
     how="An opaque scheduler (its operations complete inline or later on any channel, and may fail to connect) is wrapped; postconditions relate the receiver's completion, the visits per index and the observed stop requests to what the wrapped operations did. Functions, values, copies and connects throw, and allocations fail, at symbolic points; one proof completes bulk items on two threads.")

prop("C24", "Queries travel unchanged between an adaptor, its children and its receiver",
     "A forwarding query asked of a child's receiver inside an adaptor or sequence adaptor (arguments included) is answered by the outer receiver's environment, or by the environment given to the consumer, unless the adaptor itself answers it: write_env hides exactly what it was given, starts_on, on and the senders started after a completion report the scheduler they are started on. "
     "A forwarding query asked of the attributes of an adaptor is answered by its child's attributes, references as references. "
     "The completion scheduler reported by an adaptor is the one its work ends on.",
     ["inputs", "programs"],
     "every answer and argument of a query, every completion of the children, for the listed adaptors",
     "Tests ask for constants and for types; an answer from a default-constructed or dangling environment, a lost argument or a scheduler of the right type but the wrong identity is not noticed.",
     [SX + "__env.hpp", SX + "__basic_sender.hpp", SX + "__schedulers.hpp", SX + "__write_env.hpp", SX + "__affine.hpp", SX + "__sequence.hpp", SX + "__continues_on.hpp", SX + "__starts_on.hpp", SX + "__on.hpp", SX + "__let.hpp", SX + "__finally.hpp", EX + "env.hpp", EX + "sequence/merge_each.hpp"],
     [("environments that join, forward and hide", SX + "__env.hpp"), ("attributes", SX + "__affine.hpp, __sequence.hpp, __continues_on.hpp, __on.hpp, __starts_on.hpp"), ("environment of what starts next", SX + "__schedulers.hpp")],
     note=SEQB,
     how="The environments of the receiver and of the child hold symbolic answers in objects that check they are intact; children ask when they are connected and again when they are started. Postconditions: the answer, the address of a referenced answer, the answer to a query with a symbolic argument, and the identity of the reported schedulers.")

prop("C25", "A coroutine awaiting a sender, or run as one, gets and gives each result once",
     "co_await of a sender in a task resumes the body exactly once with the sender's value, throws its error (with its own type, an error code as system_error), or unwinds the body when it is stopped; the task completes its receiver exactly once with what the body returned, threw or yielded, after its locals are destroyed. "
     "The task resumes on its scheduler, stop requests of any token type reach what is awaited, and frames, allocators, awaiters and operations are destroyed exactly once, also when copying, connecting, allocating or awaiting throws and when the task never runs. "
     "Actions registered for a coroutine's end run once, in reverse order, before it completes, only for their outcome, and a rescheduled task ends where it began.",
     ["inputs", "schedules", "fault_sequences", "programs"],
     "every completion of the awaited senders (inline, later or on another thread, any channel), stop request, throwing copy, connect, allocation or awaiter step",
     "Tests await just() and a few schedulers; exceptions from connecting, stop requests that complete the child inside the callback, allocation failures and schedulers that fail do not occur.",
     [SX + "__task.hpp", SX + "__as_awaitable.hpp", SX + "__connect_awaitable.hpp", SX + "__with_awaitable_senders.hpp", EX + "task.hpp", EX + "at_coroutine_exit.hpp", EX + "on_coro_disposition.hpp"],
     [("awaiting a sender", SX + "__as_awaitable.hpp"), ("awaitables as senders", SX + "__connect_awaitable.hpp"), ("tasks", SX + "__task.hpp, " + EX + "task.hpp"), ("actions at the end", EX + "at_coroutine_exit.hpp, on_coro_disposition.hpp")],
     note=SEQB + MT,
     how="The compiler's lowered coroutine frames (real code) are executed symbolically: opaque senders are awaited by task bodies with guarded locals, and guarded awaiters of every kind (await_suspend returning void, bool or a handle, operator co_await, as_awaitable) are connected to receivers. Postconditions relate what the body saw and what the receiver got to the channel the child used, and count schedules, frames, allocations, registered callbacks and actions.")

prop("C26", "Type-erased senders, receivers, schedulers and sequences act as what they hold",
     "any_sender, any_receiver, any_scheduler and any_sequence_sender forward each completion, item, argument, query and stop request (of any token type) of the object they hold exactly once and unchanged, wherever it is stored. "
     "Copying, moving, assigning and swapping them, in any state, keeps each holding exactly what it should; two schedulers are equal exactly if they hold equal schedulers of one type, and a sender names the scheduler it came from. "
     "A throwing move, copy or connect and a failed allocation are reported, leave no half-built object behind, and everything held is suitably aligned and destroyed once.",
     ["inputs", "fault_sequences", "schedules", "programs"],
     "every completion, size, alignment, stop request (also racing with the completion), throwing move, copy or connect and failed allocation; every operation on wrappers in every state",
     "Tests hold a few small senders with harmless copies; objects whose moves or connects throw, over-aligned ones, assignments after failures and stops that complete inside the callback do not occur.",
     [EX + "any_sender_of.hpp", EX + "sequence/any_sequence_of.hpp", SX + "__any.hpp", SX + "__receiver_ref.hpp"],
     [("storage of the held object", SX + "__any.hpp"), ("senders, receivers, schedulers", EX + "any_sender_of.hpp"), ("sequences", EX + "sequence/any_sequence_of.hpp")],
     note=SEQB + MT,
     how="Opaque senders, receivers and schedulers of several sizes and alignments are wrapped; postconditions compare the receiver's completion with what the held child sent, the answers of queries with those of the held object, and the contents of two wrappers before and after one arbitrary operation. Stores are checked for alignment and lifetime; moves, copies, connects and allocations fail at symbolic points.")

prop("C27", "when_any completes once, with the first result, after all of its children ended",
     "when_any starts every child unless a stop was requested first, and completes its receiver exactly once, after each child has completed, with what the first child to complete sent, on the same channel, or with stopped if a stop was requested; an exception from storing the result is delivered as an error. "
     "The other children are asked to stop when the first one has completed, and all of them when the receiver is, whatever the type of its stop token. "
     "When it completes, its stop callback is deregistered, and children may complete and destroy it from inside a stop callback.",
     ["inputs", "schedules", "fault_sequences"],
     "every completion of up to three children (inline, later, inside a stop callback or on another thread), stop request, throwing copy, move and connect",
     "Tests use a few ready senders and one stopped one; a stop request that meets the last completion or the start of the operation (two real defects found and repaired here) needs a particular interleaving.",
     [EX + "when_any.hpp", SX + "__storage.hpp"],
     [("count of arrivals, winner flag", EX + "when_any.hpp"), ("stored result", SX + "__storage.hpp")],
     note=SEQB + MT,
     how="Opaque children complete in every order; the outcome is compared with the child that completed first by ghost sequence numbers. Interleavings of two children, of a child and a stop request, and of start and a stop request are explored with happens-before checking.")

prop("C28", "Scoped and detached work runs once, and a scope waits for all of its work",
     "Work given to exec::async_scope (spawn, spawn_future, nest, start_now), start_detached or execute is started exactly when the call succeeds, its result is delivered once to whom it is due (the nesting receiver, the started future), and its operation, environment and memory live until it has completed and are then released through the allocator they came from. "
     "A future may be started, moved, replaced or discarded before, after or while its work completes; when_empty completes once, only when all work has completed and is gone, after which the scope may be destroyed. "
     "The scope's stop request reaches all of its work; exceptions from copying, connecting and allocating reach the caller and leave the scope empty.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every completion of the work (inline, later, inside a stop callback, on another thread), stop request, order of starting, moving, replacing and dropping a future, throwing copy or connect and failed allocation",
     "Tests complete the work at chosen points on one thread; a replaced pending future, a stop request that meets an abandoned future and a connect that throws (three real defects found and repaired here) do not occur.",
     [EX + "async_scope.hpp", EX + "start_detached.hpp", EX + "start_now.hpp", EX + "execute.hpp", SX + "__submit.hpp"],
     [("count of active work, waiters", EX + "async_scope.hpp"), ("state shared by future and work", EX + "async_scope.hpp"), ("detached operations", EX + "start_detached.hpp"), ("joining", EX + "start_now.hpp")],
     note=SEQB + MT + " Not claimed: nest replaces the receiver's stop token by the scope's, so the stop requests of a nesting receiver, of a future's receiver and of start_now's storage do not reach the work (by the code's construction).",
     how="Opaque senders are spawned, nested and detached; ghost counts compare starts, completions, destroyed operations and completions of when_empty. Futures take every path through their life cycle; interleavings of completion, start, drop and stop requests are explored with happens-before checking.")

prop("C29", "exec::function makes and runs its sender once, with the receiver's allocator",
     "Connecting an exec::function calls its factory once with the stored arguments and connects the sender it makes; that sender's completion reaches the receiver unchanged, copies are independent, and an exception from a move, the factory, the connect or an allocation reaches the caller with nothing left behind. "
     "The erased operation, and what the sender allocates through its frame allocator, come from the frame allocator of the receiver's environment, else its allocator, else the default, are aligned as asked, and are given back to where they came from. "
     "A memory resource made from an allocator satisfies every size and alignment within the bytes it obtains, releases exactly what it obtained, and equals another one exactly when the allocators are equal.",
     ["inputs", "fault_sequences", "programs"],
     "every completion, throwing move, copy, factory, connect and allocation, kind of allocator, size and address of allocated bytes",
     "Tests never observe which allocator was used (a real defect found and repaired here), and their allocators return well-aligned memory and do not fail.",
     [EX + "function.hpp", EX + "__memory_resource_adaptor.hpp", EX + "__frame_allocator.hpp", EX + "get_frame_allocator.hpp"],
     [("choice of allocator, erased operation", EX + "function.hpp"), ("alignment arithmetic", EX + "__memory_resource_adaptor.hpp"), ("typed allocator", EX + "__frame_allocator.hpp")],
     note=SEQB + " Sizes of adapted allocations are covered up to 24 bytes, alignments up to 32 and every address modulo 16 (bounded).",
     how="Functions over opaque senders are moved, copied, connected and run with environments that give allocators of each kind; the allocators count, check identity, size and place, return misaligned addresses and fail at symbolic points. Any byte of what the adaptor returns is written, under the obligation that it lies inside what was allocated.")

prop("C30", "Work on a pool derived from thread_pool_base runs once and is reported once",
     "A scheduled operation enqueues one task and completes exactly once when the pool runs it, with stopped if a stop was requested and with a value otherwise. "
     "A bulk on the pool covers every index of its shape by exactly one chunk, uses as many agents as the pool has but no more than there is work, completes after all chunks are done, whatever their order or thread, and passes on the sent value, or the first exception; errors and stopped of the child pass through without running anything.",
     ["inputs", "schedules", "fault_sequences", "programs"],
     "every shape up to 255, 1 to 3 agents, order of running the tasks (at once, later in any order, on different threads), stop request and throwing copy, move or function",
     "Tests use a pool with one agent that runs tasks at once.",
     [EX + "thread_pool_base.hpp", EX + "static_thread_pool.hpp"],
     [("count of finished agents, first exception", EX + "thread_pool_base.hpp"), ("share of an agent", EX + "static_thread_pool.hpp")],
     note=SEQB + MT + " A negative shape is outside the contract (the code asserts it).",
     how="A pool that promises only to run each enqueued task once, in an arbitrary order, is derived; a symbolic index of a symbolic shape has to lie in exactly one chunk; completion is compared with ghost counts of chunks and throws. Three agents are interleaved with happens-before checking.")

prop("C31", "io_uring_context completes what it is given exactly once, and stops on request",
     "Every operation started on an io_uring_context (schedule, schedule_after, schedule_at) completes exactly once: with a value on the thread that drives the context, with the kernel's error, or with stopped only if its receiver or the context was asked to stop; a timer is given the duration that was asked for. "
     "The loop ends exactly when it is stopped, finished or (run_until_empty, if asked) out of work, can be entered again after finish, run_until_empty or reset, never waits for something that cannot happen, and a stop request completes everything, also what is started while or after the context is stopped, however many operations exceed the rings. "
     "run() completes once, a second driver and a refusing kernel are reported as errors that lose nothing, and descriptors and mappings are given back once.",
     ["schedules", "inputs", "fault_sequences", "histories"],
     "every order in which the kernel completes, cancels, interrupts or refuses requests, point of a stop request (receiver, context, both; before, while and after the loop runs, from a completion, from another thread), number of operations beyond the ring size and sequence of runs",
     "Tests run timers and stops once on a live kernel: stopping a timer before it is submitted, running twice until empty and starting a timer on a stopped context hung, two stop requests corrupted the queue (eight real defects found and repaired here).",
     [EX + "linux/io_uring_context.hpp", EX + "linux/safe_file_descriptor.hpp", EX + "linux/memory_mapped_region.hpp", EX + "detail/atomic_intrusive_queue.hpp"],
     [("count of active operations, submission and completion rings, wakeup", EX + "linux/io_uring_context.hpp"), ("ownership of descriptors", EX + "linux/detail/safe_file_descriptor.hpp"), ("ownership of mappings", EX + "linux/detail/memory_mapped_region.hpp")],
     note=SEQB + MT + " Assumed: the contract of the kernel (io_uring_setup, io_uring_enter, mmap, eventfd, read, timeout, cancel), written as a stand-in whose choices are arbitrary. Rings of 2 and 4 entries, up to six operations. Not claimed: running a stopped context again without reset() (the code accepts it, discards the stop request and returns at once).",
     how="The system calls are replaced by a stand-in that owns the rings and chooses what completes, in which order, what is cancelled, interrupted, partially consumed or refused; waiting with nothing that could ever complete, or with no wakeup in flight, is a violation. Records of operations count completions, channel and thread; operations are destroyed by their own completion. A driver, starters and stoppers are interleaved with happens-before checking.")

prop("C32", "A type-erased wrapper owns one object of any type, and pointers refer to it",
     "A type-erased owning wrapper is empty or holds exactly one object, in its buffer or in memory of the allocator it was given; copying, moving, swapping, assigning, emplacing and resetting act on that object as on a value of its own type, whatever the two sides hold and also onto itself, and an exception from a copy, a constructor or an allocation reaches the caller and leaves both sides valid. "
     "Converting to a narrower interface keeps the object; type-erased pointers and references refer to the object itself, can be copied and reassigned from each other, and copying from a reference copies the object. "
     "A cast succeeds exactly for the type that is held and gives that object, and comparison compares the objects.",
     ["inputs", "histories", "fault_sequences"],
     "every pair of held types (small, larger, too large, with a throwing move, none), one or two arbitrary operations on them, each throwing copy, constructor and allocation",
     "Tests copy and move an int-sized and a large type through constexpr functions; at run time, assigning a pointer to itself emptied it, copying from a reference aborted, and casting after a conversion aborted (real defects found and repaired here).",
     [SX + "__any.hpp"],
     [("buffer, root pointer, tagged pointer", SX + "__any.hpp"), ("reference and pointer proxies", SX + "__any.hpp"), ("any_cast", SX + "__any.hpp")],
     note=SEQB + " Histories of at most two operations from every initial pair. The constexpr representation (a pointer to a model on the heap) is out of reach; it is what the existing tests exercise at compile time.",
     how="Two wrappers are filled with objects of arbitrary types and subjected to arbitrary operations; after each, both are compared with a ghost record of what they must hold, through calls, casts, types and emptiness. Objects detect use outside their lifetime, throw at a symbolic point and are counted; allocators count and fail.")

prop("C33", "An Asio operation used as a sender completes its receiver exactly once",
     "Connecting with completion_token or use_sender starts the operation once with the arguments given; whatever the operation then does with its handler - call it at once or later, on any thread, keep it, drop it, post further steps through its executor, throw - the receiver completes exactly once, when the handler has been called or dropped: with the first exception that escaped a step, else with the arguments of the call (converted to the declared signature), else with stopped. "
     "A stop request, whenever it comes, reaches the operation's cancellation slot as long as it is outstanding, never while a step runs on another thread, and the stop callback is deregistered before the receiver completes. "
     "use_sender turns an error code into a value without it, stopped for cancellations, or an error that carries it; executors and allocators are those of the operation and of the receiver's environment.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every sequence of up to three steps of the operation (complete, keep, listen, drop, post, throw, and combinations), inline or on another thread, with a stop request at any point, and throwing moves and executors",
     "Tests (built only where Asio is configured) try single paths; combinations of dropped handlers, nested steps, exceptions and concurrent stop requests are not sampled.",
     [EX + "asio/completion_token.hpp", EX + "asio/use_sender.hpp"],
     [("frames, mutex and abandonment", EX + "asio/completion_token.hpp"), ("cancellation and stop callback", EX + "asio/completion_token.hpp"), ("overload selection and conversion of arguments", EX + "asio/completion_token.hpp"), ("error codes", EX + "asio/use_sender.hpp")],
     note=SEQB + MT + " At most three steps. exec/asio/asio_config.hpp is generated by the build; the harness has its own copy that selects Boost and includes only the parts of Boost.Asio (1.83) that are used. Assumed: an operation does not throw after it has called its handler (the code asserts it), and does not call its handler from inside a cancellation.",
     how="A stand-in operation with arbitrary behaviour is initiated through async_result with the real cancellation signal, associations and properties of Boost.Asio; ghost flags record what became of the handler, and the completion is compared with them. The operation is destroyed by its completion. Starting, steps, completions, drops and stop requests are interleaved on two threads with happens-before checking, which decides that cancellations and steps exclude each other.")
