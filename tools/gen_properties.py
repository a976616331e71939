#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the list stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      **({"state":state} if state else {}),**({"observe_at":observe} if observe else {}),hook_needed=None)))

p("C01","Lazy tasks run once, on first await, and deliver exactly their outcome",
 "A lazy task runs no part of its body until it is first awaited, runs it exactly once, and resumes its awaiter exactly once after the body finished, on whatever thread that happens. The awaiter receives exactly the value, reference or exception the body produced; an empty or moved-from task reports a broken promise instead. Destroying a task, started or not, frees its frame, its parameters and its result exactly once.",
 ["programs","schedules"],"all small programs over value/reference/void/move-only results, returns and throws at every position, nested awaits, repeated awaits, destruction before/after completion; all schedules when the body finishes on another thread",
 "tests run a handful of fixed programs on one thread; they cannot cover every completion position, destruction point or thread hand-over",
 ["macoro/task.h","macoro/awaiter.h","macoro/coroutine_handle.h"],
 [("symmetric transfer to continuation at final suspend","macoro/task.h task_promise_base<true>::final_awaitable"),("result storage union","macoro/task.h task_promise")])
p("C02","Eager tasks hand completion to the awaiter exactly once in every interleaving",
 "An eager task starts at creation; however its completion on one thread interleaves with an await, a readiness query or the wait-without-result form on another, the awaiter is resumed exactly once, only after the body finished, and sees the body's result or exception and all its prior writes. Once the task reports ready an await does not suspend, and the task may be destroyed safely. No execution has a data race or touches a freed frame.",
 ["schedules","programs"],"all interleavings of completing thread and awaiting/querying thread, value/void/reference/exception outcomes",
 "the race between completion and await is a window of a few instructions; the tests hit one or two schedules (and the repo's eager tests are known to race)",
 ["macoro/task.h"],
 [("two-party exchange on the completion flag","macoro/task.h task_promise_base<false>::final_awaitable / try_set_continuation")])
p("C03","Synchronously waiting on an awaitable always returns, with its outcome",
 "Blocking on an awaitable returns once it completed, on whichever thread it completes, with its value, reference or exception and with all its prior writes visible; it never returns earlier and never hangs. The wrapper's frame and result are released exactly once and the completing thread never touches the waiter's state after the waiter may have returned.",
 ["schedules","programs"],"all interleavings of the completing thread with the blocking thread, incl. spurious wake-ups; all result kinds",
 "a lost wake-up or a use of the waiter's stack after return appears only in particular schedules",
 ["macoro/sync_wait.h"],
 [("condition-variable event between final suspend and the waiter","macoro/sync_wait.h")])
p("C04","Awaiting several operations together completes exactly once, after all of them",
 "Awaiting a tuple or range of operations starts each of them exactly once and resumes the awaiter exactly once, after the last one finished, in every interleaving of their completions; an empty set completes immediately. Every operation's own outcome (value, reference or exception) is retrievable afterwards at its own position, and all frames are released exactly once.",
 ["schedules","programs"],"all interleavings of up to 3 operations completing on distinct threads or inline; tuple and vector forms; all outcome kinds; ready/when_ready/sync forms",
 "the tests complete operations in one or two fixed orders on one thread",
 ["macoro/when_all.h","macoro/detail/when_all_awaitable.h","macoro/detail/when_all_task.h","macoro/detail/when_all_counter.h"],
 [("atomic countdown including the awaiter","macoro/detail/when_all_counter.h")])
p("C05","An async scope joins every added operation and loses no outcome",
 "Operations added to a scope start at once; joining the scope resumes exactly once and only after every added operation finished, no matter which are individually awaited or dropped, or when, on which thread. An individually awaited operation delivers its own result or exception to that awaiter; exceptions of dropped operations are all delivered by the join. Each frame is freed exactly once and no completing operation touches the scope or a frame after the joiner has been released.",
 ["schedules","programs"],"all interleavings of completion vs. drop vs. await vs. join, up to 2-3 operations; value and throwing outcomes",
 "drop/await/complete/join is a four-way race; tests run single-threaded fixed orders or few lucky schedules",
 ["macoro/async_scope.h","macoro/detail/scoped_task_promise.h","macoro/barrier.h"],
 [("two-bit completion state","macoro/detail/scoped_task_promise.h"),("scope barrier","macoro/async_scope.h"),("exception list under mutex","macoro/async_scope.h")])
p("C06","A scoped coroutine block joins all its children before its awaiter continues",
 "Awaiting a scoped block runs its body exactly once and resumes the awaiter exactly once, after both the body and every child it started have finished, in every interleaving. Children start eagerly, deliver their results to whoever awaits them inside the block, and are freed exactly once, as is the block itself; an exception leaving the body or a child nobody awaited reaches the awaiter.",
 ["schedules","programs"],"all interleavings of the block body, up to 2 children completing on other threads, and the awaiter",
 "the existing test samples one schedule with no resource accounting",
 ["macoro/when_all_scope.h","macoro/async_scope.h"],
 [("body counted in the scope barrier","macoro/when_all_scope.h")])
p("C07","A thread pool runs every posted continuation exactly once, on its own threads",
 "Every continuation posted to or scheduled on a pool while it is held open by work or pending items is resumed exactly once, on a thread running that pool, and never lost or duplicated. Running threads return once no work token, queued or delayed item remains and not before; joining waits for all of them and nobody sleeps while an item is runnable.",
 ["schedules","configurations"],"all interleavings of 1-3 pool threads, posters, work release and join, incl. spurious wake-ups, within the preemption bound",
 "lost wake-ups and early exits need particular preemptions between queue check and wait",
 ["macoro/thread_pool.h","macoro/thread_pool.cpp"],
 [("mutex/condition queue and work count","macoro/thread_pool.h thread_pool_state, run")])
p("C08","Delayed work fires once, never early, and cancellation releases it promptly",
 "Work scheduled after a delay resumes exactly once, on the pool, not before its deadline unless its token was stopped, and pending delayed items fire in deadline order as time allows. Requesting stop at any moment - before, during or after registration or expiry - makes the item run promptly without waiting for the deadline, never twice, and no execution touches freed operation state.",
 ["schedules","histories"],"all interleavings of scheduling, expiry (virtual time), cancellation and the pool thread; up to 2-3 timers with all deadline orders",
 "real-time tests cannot place a cancellation inside the registration window or at the exact expiry",
 ["macoro/thread_pool.h","macoro/timeout.h"],
 [("delay heap","macoro/thread_pool.h post_after/cancel_delay_op/run")])
p("C09","Dispatch runs inline exactly when already on the pool",
 "Dispatching to a pool continues inline, without queueing, if and only if the calling thread is currently running that same pool; otherwise the continuation is resumed exactly once by a pool thread. Moving work between two pools always lands on the pool named, and a thread that finished running a pool is no longer treated as part of it.",
 ["schedules","programs"],"all interleavings of dispatch from a pool thread, another pool's thread and an outside thread; transfers and nested dispatches",
 "tests check a few transfers on lucky schedules",
 ["macoro/thread_pool.h","macoro/start_on.h","macoro/transfer_to.h"],
 [("thread-local current executor","macoro/thread_pool.h try_dispatch/run")])
p("C10","Stop callbacks run exactly once if stop is requested first, else never",
 "Exactly one stop request succeeds; every callback registered at that time, or registered afterwards, runs exactly once (inline on the registering thread if stop was already requested), and a callback whose deregistration completed never starts. Deregistration returns only once the callback is not running on another thread, yet does not deadlock when performed from inside the callback itself. Token and source queries agree with this order, and shared state is released exactly once after the last owner, with no data race.",
 ["schedules","histories"],"all interleavings of request, registration and deregistration over 2-3 threads and several callbacks; all operation sequences of sources/tokens/callbacks to a depth; slot-table growth",
 "registration racing with request spans several atomics; tests never hit the narrow windows",
 ["macoro/detail/stop_state.cpp","macoro/detail/stop_state.h","macoro/detail/stop_source.cpp","macoro/detail/stop_token.cpp","macoro/detail/stop_callback.h"],
 [("slot array with in-flight markers, ref-count packed in state","macoro/detail/stop_state.cpp")])
p("C11","Awaiting a stop token resumes exactly once, when stop is requested",
 "A coroutine awaiting a stop token resumes exactly once and only after stop was requested; if stop was already requested or can never be requested, it continues at once. This holds for every interleaving of the await with the request, and neither side touches the other's state after the coroutine has moved on.",
 ["schedules"],"all interleavings of await and request_stop on two threads",
 "the window is the registration itself",
 ["macoro/stop.h"],
 [("stop callback that resumes the awaiter","macoro/stop.h stop_awaiter")])
p("C12","A manual-reset event wakes every waiter exactly once and misses none",
 "While set, awaiting the event does not suspend; setting it resumes every coroutine waiting at that moment exactly once, and a waiter that arrives concurrently is either resumed or not suspended at all. Resetting affects only later waiters; repeated set and reset never lose or duplicate a wake-up, and everything before the set is visible to the resumed coroutine.",
 ["schedules","histories"],"all interleavings of up to 2-3 waiters with set/reset threads; all set/reset/await/query sequences to a depth",
 "the lock-free waiter list only misbehaves under specific interleavings",
 ["macoro/manual_reset_event.h"],
 [("single atomic holding state or waiter stack","macoro/manual_reset_event.h")])
p("C13","A barrier releases its awaiter exactly when the count reaches zero",
 "The coroutine awaiting a barrier resumes exactly once and only when the count is zero; with the count already zero it continues at once. This holds in every interleaving of the await with concurrent decrements, the barrier may be reused after reaching zero, and it may be destroyed by the released coroutine.",
 ["schedules","histories"],"all interleavings of one awaiter with up to 3 decrementers; reuse and destruction on release; all operation sequences to a depth",
 "the destroy/reuse-on-release windows are never hit by tests",
 ["macoro/barrier.h"],
 [("awaiter takes part in the count","macoro/barrier.h")])
p("C14","A sequence barrier releases each waiter iff its target is published",
 "A coroutine waiting for a sequence number is resumed exactly once, never before that number (in wrap-around order) is published, and always once it is; the value it obtains is a published one that covers its target and makes prior writes of the publisher visible. This holds for any number of concurrent waiters and for numbers that wrap around.",
 ["schedules","histories","inputs"],"all interleavings of up to 3 waiters and a publisher; initial values near wrap-around; all publish/await sequences to a depth",
 "waiter insertion racing with publication is a multi-step lock-free protocol; tests run single thread orders",
 ["macoro/sequence_barrier.h","macoro/sequence_traits.h"],
 [("lock-free awaiter list with publish handshake","macoro/sequence_barrier.h")])
p("C15","A single-producer sequencer never hands out a slot still in use",
 "A single producer claims slots in order; a claim completes only when the slot is free (the consumer has passed it by at least the buffer size) and as soon as it is free, and consumers see a slot only after it was published. A batch claim takes at least one and never more slots than were asked for or are free, for every buffer size, batch size, sequence type and wrap-around position.",
 ["schedules","inputs","histories"],"all interleavings of producer and consumer over ring sizes 1-4, batch claims, starting points near wrap-around",
 "ring reuse, batch clamp and wrap-around are sampled at a single size and start",
 ["macoro/sequence_spsc.h","macoro/sequence_barrier.h","macoro/sequence_range.h"],
 [("consumer barrier gates claims","macoro/sequence_spsc.h")])
p("C16","A multi-producer sequencer grants disjoint slots and publishes without gaps",
 "Concurrent producers are granted disjoint slots, never one the consumer has not released, and every granted claim completes once space frees. A consumer waiting for a slot is resumed exactly once, only when every slot up to it is published and always when it is, for any number of waiters and any wrap-around position; availability queries agree with whether a claim would proceed at once.",
 ["schedules","inputs","histories"],"all interleavings of 2 producers with 1-2 waiting consumers; ring sizes 1-4; all sequential claim/publish/await/consume histories to a depth; starts near wrap-around",
 "out-of-order publication with several waiters is never tested; races span several atomics",
 ["macoro/sequence_mpsc.h"],
 [("per-slot published markers and awaiter list","macoro/sequence_mpsc.h")])
p("C17","Channels deliver every element once, in order, within capacity; close cleanly",
 "Every element pushed is received exactly once, in each producer's order, with at most the capacity in flight; push suspends only while full, pop and front only while empty, and each resumes as soon as it can. Closing lets a receiver take all earlier elements and then fails further receives; elements left at destruction are destroyed once. This holds for single- and multi-producer channels in every interleaving, with no race on element storage.",
 ["schedules","histories","inputs"],"all interleavings of 1-2 producers and a consumer, capacities 1-4, close/destroy points; all sequential operation histories to a depth; move-only and counted element types",
 "tests run fixed producer/consumer loops on few schedules and never account for element lifetimes",
 ["macoro/channel.h","macoro/channel_spsc.h","macoro/sequence_mpsc.h","macoro/sequence_spsc.h"],
 [("ring buffer over a sequencer","macoro/channel.h")])
p("C18","Time-outs and take-until deliver one outcome and stop the loser",
 "An operation wrapped with a time-out or a stop condition completes exactly once with that operation's own outcome; when the trigger fires first, the operation's token is stopped, and when the operation finishes first, the trigger is cancelled and joined. A time-out reports stop iff requested or expired, never expires early, and it can be moved while pending and completed at any moment without stray accesses or losing its token.",
 ["schedules","histories"],"all interleavings of operation completion, trigger/expiry (virtual time), explicit stop and join",
 "the winner race is decided by real time in the tests",
 ["macoro/take_until.h","macoro/timeout.h","macoro/stop.h"],
 [("trigger stop source joined with operation","macoro/take_until.h")])
p("C19","The result type behaves as a tagged union of value and error",
 "Every sequence of constructing, copying, moving, assigning, querying, unwrapping and comparing results behaves as a tagged union: exactly one of value or error is held, accessors return it or raise the documented failure, a named object stored or compared is copied unless explicitly moved, and every contained object is constructed and destroyed exactly once. Awaiting or wrapping an operation turns its outcome into the corresponding result and back without loss.",
 ["programs","inputs"],"all operation sequences to a depth over value, reference, void and counted types against a reference model; const and non-const access",
 "tests touch a few conversions; several instantiations are never exercised",
 ["macoro/result.h","macoro/wrap.h"],
 [("variant storage","macoro/result.h"),("try/catch conversion","macoro/wrap.h")])
p("C20","Macro coroutines behave like native ones for every control path",
 "A coroutine written with the macro front end suspends, resumes, branches, loops, returns, throws and catches exactly as the equivalent native coroutine does, for every outcome of every await. It evaluates each awaited expression once, keeps awaiters and locals alive across suspension, destroys each exactly once in the right order, and can be resumed by other threads.",
 ["programs","inputs"],"a family of program shapes with every assignment of ready/suspend/throw to each await point, destroyed at every suspension point, compared with native twins by event log",
 "tests exercise some shapes with one fixed assignment each; early destruction and throwing awaiters are not enumerated",
 ["macoro/coro_frame.h","macoro/macros.h","macoro/awaiter.h","macoro/optional.h","macoro/variant.h"],
 [("switch-based state machine with in-frame awaiter storage","macoro/coro_frame.h, macoro/macros.h")])
p("C21","Coroutine handles of both kinds are interchangeable",
 "A handle to a native coroutine, a macro coroutine or the no-op coroutine can be converted to and from its type-erased and native forms and keeps denoting the same coroutine: resuming, destroying, querying completion and (where the form is typed) reaching the promise act on that coroutine and no other. The no-op handle, typed or erased, is never done and ignores resume and destroy. Equality, ordering and emptiness agree across the typed and erased forms, the native form does not depend on the conversion path, and a handle returned from await_suspend of either kind transfers control to exactly the coroutine it denotes.",
 ["programs","histories"],"all sequences of conversions and operations to a depth over every handle kind",
 "tests use each conversion at most once; the no-op handle's erased form is untested",
 ["macoro/coroutine_handle.h","macoro/coro_frame.h"],
 [("tag bit in the address and a shared frame header","macoro/coroutine_handle.h")])
p("C22","Starting on or transferring to a scheduler runs the rest there exactly once",
 "An operation started on a scheduler runs its body on that scheduler exactly once, whether it is awaited before or after that, and passes its value, reference or exception back to the awaiter; transferring continues the current coroutine on the target scheduler. No schedule loses, duplicates or runs it on another thread.",
 ["schedules","programs"],"all interleavings of the awaiting thread and 1-2 scheduler threads; inline scheduler; all outcome kinds",
 "tests take one schedule and one outcome kind",
 ["macoro/start_on.h","macoro/transfer_to.h","macoro/inline_scheduler.h","macoro/thread_pool.h"],
 [("schedule then await","macoro/start_on.h")])
p("C23","Every way of awaiting an operation follows one protocol and loses nothing",
 "Whatever an awaitable looks like - an awaiter itself, or one obtained from a member or free co_await operator for lvalues, rvalues or const objects, suspending by void, bool or handle, with or without a source location - every way of awaiting it (directly in a native or macro coroutine, blocking, when_all_ready, async scope, scoped block, wrap, start_on, take_until, pipe forms) awaits it exactly once by the standard protocol: the operator of its value category, then ready, then suspend only if not ready, then resume; a named operation is awaited in place, a temporary is moved and never copied, and it lives until its await has ended. Value, reference or exception, whichever step raises it, come out unchanged, also through any nesting of these ways.",
 ["programs","schedules"],"every awaitable form, result kind, suspension kind, failing step and moment of resumption through every way of awaiting, and every nesting of three ways",
 "tests combine a handful of awaitables with a handful of adapters and never let a protocol step fail",
 ["macoro/type_traits.h","macoro/sync_wait.h","macoro/detail/when_all_task.h","macoro/async_scope.h","macoro/when_all_scope.h","macoro/wrap.h","macoro/start_on.h","macoro/take_until.h","macoro/coro_frame.h","macoro/macros.h"],
 [("get_awaitable / get_awaiter","macoro/type_traits.h"),("adapter coroutines that forward their operand","macoro/detail/when_all_task.h, macoro/async_scope.h, macoro/start_on.h, macoro/take_until.h")])
p("C24","A captured trace names the chain of awaiting coroutines",
 "The call stack captured inside a task lists exactly the await points of the coroutines awaiting it, innermost first, for any nesting of lazy tasks (native or macro), when_all_ready, when_all_scope blocks and their scoped children, take_until, wrapped and by-reference awaits, on whichever thread it is captured (an await written with the macros is an entry too, which may lack a line of the user's). A chain ends where the operation was started eagerly rather than awaited (an eager task; an operation added to an async scope, whose chain ends with the place it was added) or at a caller that keeps no trace. Capturing never reads a frame that may have been freed and never races with an await.",
 ["programs","schedules"],"all nestings of the traceable kinds to a depth",
 "tests never check the contents of traces",
 ["macoro/trace.h","macoro/task.h","macoro/when_all.h","macoro/async_scope.h","macoro/sync_wait.h"],
 [("parent links set at await","macoro/trace.h")])
p("C25","Sequence ranges and ordering are correct at every position of the number circle",
 "Sequence order is decided by wrapped difference and ranges of sequence numbers report size, emptiness, indexing, prefix, skip and iteration consistently with each other for every start, including ranges that straddle wrap-around.",
 ["inputs"],"every pair/range of an 8-bit sequence type, and all small ranges around the wrap and sign boundaries of the machine-size type",
 "tests never construct ranges at the wrap boundary",
 ["macoro/sequence_range.h","macoro/sequence_traits.h"],
 [("modular arithmetic","macoro/sequence_traits.h, macoro/sequence_range.h")])
p("C26","Running out of memory or threads is reported by the call that needs them and loses nothing",
 "When an allocation or a thread creation fails while an operation is created, started, composed, scheduled, added to a scope or registered for a stop, the call or await that needed it ends with the exception (or the operation that needed it fails with it), never with std::terminate; nothing is leaked, destroyed twice or left half-registered: scopes, pools, channels and stop sources stay usable, what was already accepted still runs or is called exactly once, and what was refused never does.",
 ["faults","programs"],"every position of one failing allocation or thread creation in each way of creating, composing, scheduling and registering operations",
 "tests never make an allocation or a thread creation fail",
 ["macoro/async_scope.h","macoro/when_all_scope.h","macoro/thread_pool.h","macoro/detail/stop_state.cpp","macoro/detail/stop_callback.h","macoro/stop.h","macoro/timeout.h","macoro/take_until.h","macoro/when_all.h","macoro/coro_frame.h"],
 [("operation counted when its promise exists","macoro/detail/scoped_task_promise.h"),("registration undone on failure","macoro/detail/stop_callback.h"),("threads joined when one cannot be created","macoro/thread_pool.h")])
p("C27","Awaiting in loops and chains uses a bounded amount of stack",
 "A coroutine that awaits in a loop (lazy and eager tasks, wrapped and combined operations, scopes and scoped operations, events, barriers, sequence numbers, stop tokens, schedulers, dispatch on a pool, delays, time-outs, channels) is at the same stack depth after every await, however long the loop has run and whether the awaited operation finishes at once or later; starting and finishing a chain of lazy tasks awaiting each other, and finishing a chain of eager ones, by value or by exception, needs no more stack the longer the chain is. This holds for coroutines of one kind (native awaiting native, macro awaiting macro); an await of a lazy task of the other kind may cost a bounded amount of stack each time.",
 ["programs"],"every kind of await in loops and every chain form, native and macro, at lengths that expose a cost per step",
 "tests never loop or nest deep enough to notice that each step costs stack",
 ["macoro/task.h","macoro/coro_frame.h","macoro/coroutine_handle.h","macoro/async_scope.h","macoro/when_all.h","macoro/wrap.h","macoro/start_on.h","macoro/take_until.h","macoro/thread_pool.h","macoro/stop.h","macoro/channel.h","macoro/barrier.h","macoro/manual_reset_event.h"],
 [("symmetric transfer on await and completion","macoro/task.h"),("resume loop of macro coroutines","macoro/coro_frame.h")])
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
