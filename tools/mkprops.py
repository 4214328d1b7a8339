#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json,os
H='include/kelcoro/'
P=[]
def p(id,title,statement,over,qtext,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=H+files[0]) for n in symbols],hook_needed=None)))
S,I,PR,HI,CF,FS='schedules','inputs','programs','histories','configurations','fault_sequences'

p('C01','task_queue hands out every pushed node exactly once, in FIFO order',
 "Every node given to task_queue by push, push_list (both overloads) or attach is returned by exactly one later pop_all / pop_all_not_empty, in push order and in list order, linked as a null-terminated list, and a pop leaves the queue empty and usable. All queue state is read and written only with the queue's lock held, the lock is released on every path, and a pusher never touches a node after the lock under which it was linked is released. pop_all_not_empty never returns null: it sleeps only while the queue is empty, re-checks after every wakeup, and any push that makes the queue non-empty notifies a sleeping consumer.",
 [S,HI],"all interleavings of pushers and poppers, all operation sequences and list lengths (lists and sequences up to 3 analysed, lock discipline for all)",
 "Tests run a few pools under the OS scheduler; a missed notification or an unlocked access needs one specific interleaving.",
 ['thread_pool.hpp'],['task_queue::push','task_queue::push_list','task_queue::pop_all','task_queue::pop_all_not_empty','task_queue::attach'])
p('C02','Default worker: each task once, in order; cancels those after the stop marker',
 "default_worker_job resumes every node it takes from the queue exactly once, in queue order, until it meets a stop marker (a node with a null task); nodes after the marker in the same batch are each resumed exactly once with status `cancelled` set before the resume, and then it returns. It never reads or writes a node once that node's coroutine has been resumed, never touches the marker node after moving past it in a batch, does not change the status of tasks that precede the marker, and never resumes a null handle.",
 [S,HI],"every batch returned by the queue: any number of batches, any length, a stop marker at any position or absent",
 "Tests only see batches the scheduler happens to produce; use of a node after its coroutine freed it is silent without a sanitizer and a particular timing.",
 ['thread_pool.hpp'],['default_worker_job','noexport::cancel_tasks'])
p('C03','Shutdown joins every worker and cancels every queued task exactly once',
 "Destroying a worker or thread_pool, calling wait_stop() after request_stop(), or failing to start some thread in the thread_pool constructor: every started thread is sent a stop marker (request_stop posts exactly one to every queue, any number of times, without blocking) and joined exactly once before the object's memory goes away, no joinable std::thread is ever destroyed or joined twice. After the joins every queue is drained and each remaining task is resumed exactly once with status `cancelled` (stop markers are skipped, not resumed), so no task is leaked, and every queue is drained (once more) after all threads that could post to it are joined.",
 [S,FS,CF],"every pool size (1..3 analysed), every thread index at which thread creation throws, any queue contents at shutdown, wait_stop/request_stop used or not",
 "Tests construct pools of one or two sizes, never make thread creation fail, and rarely have pending tasks when the pool dies.",
 ['thread_pool.hpp'],['worker::~worker','thread_pool::~thread_pool','thread_pool::thread_pool','thread_pool::wait_stop','thread_pool::request_stop'])
p('C04','jump_on and schedule run the continuation exactly once, or report cancellation',
 "co_await jump_on(executor) (generic executor, thread_pool, worker, strand) hands the executor exactly one node whose task is the awaiting coroutine and whose status is ok, and after that hand-off never touches the coroutine frame; when resumed the await yields true exactly when the node's status is ok. schedule_to / thread_pool::schedule (all overloads) invoke the callable exactly once if the executor resumes the task with status ok and never if it was cancelled, and the job's frame is freed in both cases, through the resource it was allocated from.",
 [S,PR],"every executor, every status, resumption at any time after the hand-off including inside attach()",
 "The resumed coroutine usually outlives the await in tests; touching it after the hand-off only fails when another thread wins the race.",
 ['executor_interface.hpp','thread_pool.hpp'],['jump_on','create_node_and_attach','jump_on_thread_pool','schedule_to','thread_pool::schedule','strand::attach','worker::attach'])
p('C05','Executors and attach_list forward every node exactly once and in order',
 "attach_list(executor, list) (generic and thread_pool) attaches every node of the list exactly once, in list order for the generic one, and reads a node's link before the node is attached, never touching it afterwards. any_executor_ref forwards attach to the very executor it was made from; this_thread_executor resumes the task exactly once before returning, new_thread_executor resumes it exactly once on a started-and-detached thread, noop_executor never resumes it; reverse_list returns the same nodes in reverse order.",
 [S,PR],"every list (up to 3 nodes for order, any length for use-after-attach), every executor, re-entrant resumption inside attach",
 "A node is invalid right after attach only if the resumed coroutine has already moved on; tests do not force that.",
 ['executor_interface.hpp','thread_pool.hpp'],['attach_list','any_executor_ref','this_thread_executor_t','new_thread_executor_t','noop_executor_t','reverse_list'])
p('C06','The lock-free stack neither loses nor duplicates nodes under contention',
 "push and push_stack publish the given node(s) with one successful atomic read-modify-write that links them in front of exactly the value it replaced, retrying on contention with the freshly observed top, and never touch a node after it is published. try_pop_all atomically detaches the whole contents, returns it, and leaves the stack empty; pushes have at least acquire+release and pops acquire+release ordering so that a popper sees the nodes' contents and pushers are ordered with pops.",
 [S],"all interleavings of any number of pushers and poppers, spurious compare-exchange failures included",
 "Losing a node needs a compare-exchange failure at one instruction; the stack has no multi-threaded test, and x86 hides weak orderings.",
 ['nonowner_lockfree_stack.hpp'],['nonowner_lockfree_stack::push','nonowner_lockfree_stack::push_stack','nonowner_lockfree_stack::try_pop_all'])
p('C07','latch releases every waiter exactly once, only at zero, and never misses one',
 "A coroutine that awaits latch::wait() or arrive_and_wait(n) is attached to the latch's executor exactly once and only after the counter reached zero, in every interleaving with count_down and with other waiters; wait() on a zero latch does not suspend. count_down(n)/arrive_and_wait(n) decrease the counter by exactly n, ready() is true exactly when the counter is zero, the counter accesses have acquire/release ordering, and the awaiting coroutine's frame is not touched once its node is visible to other threads.",
 [S],"all interleavings of wait / arrive_and_wait / count_down at atomic-operation granularity, any counts",
 "A lost wakeup needs the decrement to land between the readiness check and the registration; tests do not control that.",
 ['latch.hpp'],['latch::wait','latch::arrive_and_wait','latch::count_down','latch::ready'])
p('C08','event wakes every subscriber once, with the notified value',
 "event::notify_all detaches all current subscribers and attaches each exactly once to the given executor, returning false exactly when there was none; with an input, every subscriber's await yields a copy of that input, stored before the subscriber is attached. A callback set by set_callback is invoked exactly once per subscription, and neither notify_all nor the subscriber touches a node after it was handed over; a subscriber that re-subscribes during notification is not notified twice by the same call.",
 [S,PR],"any number of subscribers, subscribers resumed inside attach and re-subscribing, concurrent subscriptions",
 "Existing tests subscribe one or two coroutines and notify from one thread.",
 ['events.hpp'],['event::notify_all','event::set_callback','event::operator co_await'])
p('C09','when_all/when_any over events resume the awaiting coroutine exactly once',
 "co_await when_all(events...) subscribes to every event and resumes the awaiting coroutine exactly once, after the last one fired, with each event's input in its own position; co_await when_any(events...) subscribes to every event and resumes it exactly once, on the first one that fires, with that event's index and input. Whatever events fire while the subscription is still in progress, and however late the remaining events fire, the awaiting coroutine's frame is never touched after it may have been resumed.",
 [S,PR],"every order and timing of the events firing, including between two subscriptions and after the coroutine has ended",
 "Tests fire the events from one thread after all subscriptions are complete.",
 ['events.hpp'],['when_all(event&...)','when_any(event&...)'])
p('C10','An async_task frame is destroyed exactly once, by whoever finishes last',
 "For every interleaving of the coroutine finishing with the owner waiting, getting, detaching, moving from, or destroying the async_task, the coroutine frame is destroyed exactly once, only after the coroutine has finished and the owner gave it up, and neither side touches it after giving up its share. Move construction leaves the source empty, move assignment and swap exchange the two owners' frames; default-constructed async_tasks are empty and own nothing, and detach() leaves the object empty.",
 [S,PR],"all interleavings at atomic-operation granularity of completion with the owner's operations",
 "Double free or leak needs the owner and the coroutine to cross at one atomic operation.",
 ['async_task.hpp'],['async_task','async_task_promise'])
p('C11','async_task publishes its outcome before reporting readiness',
 "ready(), wait() and get() report completion only after the returned value or escaped exception is stored, publish/observe it with release/acquire ordering, and completion always notifies a blocked waiter; get() then yields a reference to exactly the returned value, or rethrows exactly the exception that escaped the coroutine. ready() on an empty async_task is false and wait() on it returns immediately.",
 [S,I],"every outcome (value, reference, void, exception), completion before or after the wait starts, completion on any thread",
 "x86 and short tests hide a readiness flag that is set too early or not notified.",
 ['async_task.hpp'],['async_task::get','async_task::wait','async_task::ready'])
p('C12','logical_thread: one side frees the frame; destruction requests stop and joins',
 "For every interleaving of the coroutine finishing with join, detach or destruction of its logical_thread, the frame is destroyed exactly once, only after the coroutine reached its end, and not touched afterwards by the other side. Destroying or move-assigning over a joinable logical_thread first requests stop and then blocks until the coroutine is finished; join, detach and being moved from leave it non-joinable, swap exchanges the two, and stop_possible/joinable report exactly whether it owns a coroutine.",
 [S,PR],"all interleavings at atomic-operation granularity",
 "The detach/finish race has a window of one instruction.",
 ['logical_thread.hpp'],['logical_thread','logical_thread_promise','two_way_bound'])
p('C13','Stop requests reach the coroutine and dd::stop requests all before joining any',
 "A stop token obtained in a logical_thread reports stop_requested exactly when request_stop was called on the object that owns that coroutine (through moves and swaps), with release/acquire ordering; request_stop returns true exactly when there is a coroutine. dd::stop (variadic and range) calls request_stop on every argument before joining any, and joins every argument exactly once.",
 [S,PR],"every number of arguments (1..3 analysed), any number of moves, concurrent token readers",
 "Joining early only shows up as a deadlock or slowdown with dependent threads.",
 ['logical_thread.hpp'],['stop','stop_token','logical_thread::request_stop','this_coro::stop_token'])
p('C14','A task is lazy, continues its awaiter exactly once, and delivers its outcome',
 "A dd::task body does not run before it is awaited, started or resumed; co_await task (or task.wait()) starts it, and when it finishes - whether at once or after any number of suspensions, on any thread - exactly its awaiter is resumed, exactly once, after the result or exception is stored. co_await then yields exactly the returned value/reference or rethrows exactly the escaped exception, wait() never throws it, a second await of a finished task yields the same outcome without suspending or re-running the body, and get() blocks until finished with the same outcome.",
 [PR,S],"every task body: any suspensions, any result kind (value, reference, void), any exception point; awaited, waited or blocked on",
 "Tests use a handful of bodies; the guarantees are for every body and resumption order.",
 ['task.hpp','async_task.hpp'],['task::operator co_await','task::wait','task::get','task_promise'])
p('C15','task ownership: each frame has one owner and is destroyed exactly once',
 "A task's frame is destroyed exactly once: by the destructor of the task that owns it, unless ownership was given away by release()/detach()/start_and_detach() or a move, which leave the source empty (move assignment keeps both frames owned). A detached task that runs to its end frees its own frame without resuming anyone, start_and_detach(true) leaves the finished frame for the caller to destroy, start_and_detach on an empty task returns null and on a finished one destroys it or returns it as requested.",
 [PR,HI],"every sequence of ownership operations on started, suspended, finished and empty tasks",
 "Leaks and double frees are invisible to the assertions of the existing tests.",
 ['task.hpp'],['task','task::release','task::detach','task::start_and_detach','task::raw_handle'])
p('C16','Task context hooks run exactly once and in order',
 "For each task that is started by being awaited, by an algorithm or by start_and_detach, the context sees on_owner_setted (only when awaited, with exactly the awaiting coroutine - the when_all coroutine for its children - and the task's own handle, never null handles) and then on_start before the first statement of the body, and on_end after the body ended (normally or by exception, with the outcome stored) and before the awaiter is resumed; on_start and on_end exactly once, on_owner_setted at most once. start_and_detach calls on_start but not on_owner_setted, nothing is called for tasks that are never started, and co_await this_coro::context yields that very context object.",
 [PR],"every way to start a task (co_await, wait, wait_with_proxy_owner, start_and_detach, when_all, when_any), finishing synchronously or later, with or without exception",
 "The tests check the order for a couple of coroutines only.",
 ['task.hpp','algorithm.hpp'],['null_context','task_promise','this_coro::context'])
p('C17','when_all starts every task, completes once after all, keeps positions',
 "when_all(tasks...) and when_all(vector) start every given task exactly once and resume the awaiting coroutine exactly once, after every task has finished, in whatever order and on whatever threads they finish; the i-th result holds the i-th task's value or exception, an empty vector completes immediately, and all helper frames and tasks are freed. After the completion that makes the owner resumable, nothing belonging to the owner is touched by the helpers.",
 [S,PR],"every completion order and outcome of the children, completion during start-up included (1..3 children analysed)",
 "Tests use a few completion orders; touching the owner after the last decrement needs a race.",
 ['algorithm.hpp'],['when_all','noexport::job_for_when_all'])
p('C18','when_any delivers exactly one outcome: first success, or last failure',
 "when_any(tasks...) starts its tasks in order and resumes the awaiting coroutine exactly once: with the value of the first task that succeeds (in that task's alternative) or, if every task fails, with the exception of the last failure; the result is never the empty alternative. Tasks finishing later neither overwrite the result nor resume anyone, the shared state is accessed under its lock while it may be shared, never after the owner may have been resumed unless kept alive, and every task and helper frame is freed when it ends.",
 [S,PR],"every completion order and outcome of the children, including completion during start-up and after the owner has ended (2..3 children analysed)",
 "Tests cover few orders; late completion after destruction of the owner needs exact timing.",
 ['algorithm.hpp'],['when_any','noexport::when_any_state','noexport::job_for_when_any'])
p('C19','generator produces exactly the yielded sequence',
 "Iterating a dd::generator resumes its body exactly once per begin()/increment and dereferencing yields exactly the object of the current co_yield (the yielded object itself for rvalues and by_ref, a copy taken at the yield for const lvalues, alive until the next resume), until the body ends, when begin()==end() and the generator is empty. An empty generator (default-constructed, finished, cleared, released, moved-from) is an empty range and is never resumed; an exception escaping the body comes out of the begin()/increment that resumed it and leaves the generator empty; begin() on a suspended generator continues with the next value.",
 [PR,HI],"every generator body (any sequence of yields of any category, end or exception at any point), any interleaving of begin/++/clear/release/move by the client",
 "Tests iterate a few fixed sequences.",
 ['generator.hpp','noexport/generators_common.hpp'],['generator','generator_iterator','generator_promise','yield_block'])
p('C20','Nested generators behave as if their elements were yielded in place',
 "co_yield elements_of(x) inside a generator or channel produces exactly the elements of x (another generator/channel with the same or another resource, or any range) in order, at any nesting depth, then continues the outer body right after the co_yield; an empty or already finished inner generator contributes nothing, and inner frames are destroyed exactly once. An exception from an inner generator skips that leaf and reaches the consumer (after which the iterator equals end()), and a later begin() continues with the outer body.",
 [PR],"every nesting depth (1..3 analysed), inner sequence length, exception position, and inner ranges that end or throw at once",
 "Tests have a few fixed nestings.",
 ['generator.hpp','channel.hpp','noexport/generators_common.hpp'],['elements_of','noexport::attach_leaf','noexport::to_generator'])
p('C21','channel delivers each value to its consumer and hands control back correctly',
 "Awaiting channel begin(), ++it or next() resumes the producer exactly once, and the consumer coroutine that awaits is resumed exactly once per co_yield with exactly that value, or with end/null when the producer has finished, even if the producer suspends in between and continues elsewhere or the consumer changes. An exception escaping the producer is stored, the consumer sees the end of the sequence, and the exception is raised exactly once: from the iterator's destructor or by take_exception, which clears it; a second one raised before the first was taken terminates the program instead of replacing it. begin()/next() on an empty channel does not suspend and reports end/null.",
 [PR,S],"every producer body (yields, suspensions, exceptions, nesting) and every client sequence of begin/++/next/take_exception",
 "Tests use a few fixed producers.",
 ['channel.hpp'],['channel','channel_iterator','channel_promise'])
p('C22','Moving, swapping, resetting and clearing coroutine objects keeps them consistent',
 "generator, channel and inplace_generator: after move construction/assignment, swap, reset, release or clear, each object iterates exactly the coroutine it owns (values of a partly consumed coroutine arrive at the object that owns it now, iterators follow), release/clear/moved-from objects are empty with begin()==end(), and every frame that is not released is destroyed exactly once. Two objects compare equal exactly when they are the same object or both empty.",
 [PR,HI],"every sequence of ownership operations on fresh, partly iterated, finished and empty objects",
 "Tests move or swap in one or two states and never iterate after every operation.",
 ['generator.hpp','channel.hpp','inplace_generator.hpp'],['generator::swap','generator::reset','generator::release','generator::clear','channel::swap','channel::reset','channel::release','channel::clear','inplace_generator::swap'])
p('C23','Coroutine frame memory returns to the resource it came from, with the same size',
 "Every coroutine frame allocated through a memory resource is deallocated exactly once, through the same resource (or the moved/copied resource object stored with the frame), with the same pointer and the same size that was requested, after the coroutine's own destruction; a stored resource is constructed once at an aligned address inside the allocation and destroyed once, before the memory it lives in is given back. If allocation or construction of the coroutine throws, nothing is leaked or freed twice.",
 [PR,CF,FS],"every resource kind (empty, pointer-like, stateful non-trivial), every frame size and alignment, every coroutine type",
 "Tests check balance for a few resources and frame sizes.",
 ['memory_support.hpp'],['overload_new_delete','resourced_promise','chunk_from','new_delete_resource','pmr::polymorphic_resource'])
p('C24','The documented resource is selected for every coroutine',
 "A coroutine whose last parameter is with_resource<R> allocates from exactly that argument; *_r<R> coroutines use R; dd::pmr coroutines use the resource given to pass_resource for exactly the next such coroutine on this thread, otherwise the one set by dd::pmr::set_default_resource (initially new/delete); others use operator new. set_default_resource returns the previous default and get_default_resource the current one; with_default_resource as a by-value parameter leaves the coroutine type unresourced.",
 [CF,PR],"every coroutine type and argument list, any sequence of pass_resource/set_default_resource calls",
 "Tests use a few signatures, and never dd::pmr::set_default_resource.",
 ['memory_support.hpp'],['resource_type_t','std::coroutine_traits specialisations','pmr::pass_resource','pmr::set_default_resource','pmr::get_default_resource'])
p('C25','stack_resource hands out disjoint, aligned, in-bounds memory and frees it once',
 "For every LIFO sequence of allocate/deallocate (sizes of at least 1), stack_resource returns memory aligned to coroframe_align, at least as long as requested, inside the initial buffer or a chunk it owns, and disjoint from every live allocation; deallocation makes exactly that memory available again: the next allocation of the same size that fits gets it. Chunks are reused, every chunk obtained from operator new is freed exactly once (the initial buffer never) by destruction, move construction/assignment transfers everything, and reuse_memory makes the resource behave like one with nothing allocated.",
 [HI,I],"every LIFO history of allocations of any sizes, any initial buffer (histories of 4 to 5 operations analysed with symbolic sizes, longer ones with chosen sizes)",
 "Tests use a handful of sizes; overlaps need specific size sequences at a chunk border.",
 ['stack_memory_resource.hpp'],['stack_resource'])
p('C26','thread_pool keeps its arrays and its memory resource consistent',
 "thread_pool(n, job, resource) creates exactly max(1,n) queues and as many threads, thread i running job on queue i; its arrays are allocated from the given resource and given back to the same one with the same size and alignment, and get_resource() returns that resource, which schedule() uses for its tasks. queues_range()/workers_range() cover exactly those queues/threads, is_worker is true exactly for ids of pool threads, and worker runs its job on its own queue.",
 [CF,I],"every thread count (1..3 analysed) and every resource",
 "Tests never pass a custom resource to the pool.",
 ['thread_pool.hpp','noexport/fixed_array.hpp'],['thread_pool','noexport::fixed_array','worker'])
p('C27','The same coroutine always maps to the same, valid queue',
 "select_queue(hash) returns the queue with index hash modulo the number of queues, for every hash; attaching a node to the pool, jump_on(pool) and get_strand/select_queue with calculate_operation_hash of the same coroutine handle pick the same queue, the hash is a pure function of the handle (of the awaiting coroutine for task handles, of the root for channels), identical for handles of resourced and plain promises of the same coroutine. co_await this_coro::operation_hash yields calculate_operation_hash of the awaiting coroutine's handle.",
 [I,PR],"every handle, hash value and pool size",
 "Tests use few hash values; an out-of-range index needs particular ones.",
 ['thread_pool.hpp','operation_hash.hpp','memory_support.hpp','task.hpp','channel.hpp'],['thread_pool::select_queue','calculate_operation_hash','operation_hash'])
p('C28','Misuse the library promises to reject does not compile',
 "Coroutine owners (task, generator, channel, async_task, logical_thread, inplace_generator) and synchronisation objects (latch, event, worker, thread_pool, task_queue, stop_token) cannot be copied, and objects other threads or frames point into cannot be moved; co_await inside inplace_generator, attaching to a const executor via any_executor_ref, and co_yield of a wrong type are rejected; tasks, the awaitables of jump_on, latch, channel, event groups and suspend_and, and results that carry ownership or a status (release/detach, popped lists, allocated memory, schedule_status, ready/joinable/has_value) are [[nodiscard]]. Moves and swaps of coroutine owners are noexcept, and so are their observers, latch and stack operations and awaiters. Types that break the executor, memory_resource, yieldable and stopable concepts are turned away.",
 [PR],"every program that attempts the misuse",
 "A test that must not compile cannot be part of the test executable.",
 ['common.hpp','task.hpp','generator.hpp','channel.hpp','async_task.hpp','logical_thread.hpp','inplace_generator.hpp','latch.hpp','events.hpp','thread_pool.hpp','executor_interface.hpp'],['not_movable','deleted copy/move operations','KELCORO_CO_AWAIT_REQUIRED'])
p('C29','Every documented operation compiles for every supported combination',
 "Every public operation of every coroutine type, executor, awaitable and algorithm is usable (compiles, with the documented result type) with plain, with_resource, *_r and dd::pmr variants and with value, reference and void results where documented, including this_coro::handle/stop_token/operation_hash/context/return_place and expected::error(), on both clang and gcc, as C++20 and C++23, with and without NDEBUG. Every public header compiles on its own and may be included in several translation units of one program.",
 [CF,PR],"all listed combinations of coroutine kind, resource variant, result kind and operation",
 "Templates that are never instantiated by the tests are never type-checked.",
 ['memory_support.hpp','async_task.hpp','logical_thread.hpp','common.hpp','operation_hash.hpp','noexport/expected.hpp','channel.hpp'],['all public templates'])
p('C30','inplace_generator computes eagerly and yields exactly the body sequence',
 "An inplace_generator runs its body to the first co_yield when it is created; begin() does not resume it, each increment resumes it exactly once, dereferencing yields exactly the object of the current co_yield, and it is empty / begin()==end() exactly when the body has ended. A moved-from one is an empty generator, exceptions come out of the resume that raised them, and every frame is destroyed exactly once.",
 [PR,HI],"every body and every client sequence of begin/++/move/swap",
 "Tests iterate a few fixed sequences.",
 ['inplace_generator.hpp'],['inplace_generator','inplace_generator_iterator','inplace_generator_promise'])
p('C31','Results are constructed once, delivered intact and destroyed once',
 "The value a task/async_task returns with co_return v is constructed from v exactly once in the promise and handed out as that same object; with this_coro::return_place and `co_return rvo` the object the body filled is the one delivered, without a copy. A stored result whose destructor is not trivial is destroyed exactly once with the frame, and is not constructed or destroyed at all if the coroutine threw or was destroyed before returning; expected and its accessors designate the stored value or error.",
 [PR,I],"every result type category (trivial, non-trivial, reference, void) and every way to end the body",
 "Tests use a few types; a skipped or doubled destructor is invisible without counting every path.",
 ['common.hpp','task.hpp','noexport/expected.hpp'],['return_block','this_coro::return_place','rvo','expected'])
p('C32','Control-transfer primitives do exactly what they say',
 "transfer_control_to(h) resumes exactly h, and continues without suspending when h is null; this_coro::destroy_and_transfer_control_to destroys the awaiting coroutine exactly once and then resumes the target (nothing if null) without touching the destroyed frame; this_coro::destroy destroys it; suspend_and(f) suspends and calls f exactly once with the awaiting handle; this_coro::handle yields the awaiting coroutine's handle without suspending; scope_exit runs its action exactly once on every exit; build_awaiter yields the awaiter co_await would use.",
 [PR],"every awaiting coroutine and target, null targets included",
 "Use of a destroyed frame is silent in tests.",
 ['common.hpp'],['transfer_control_to','this_coro::destroy_and_transfer_control_to','this_coro::destroy','this_coro::suspend_and','this_coro::handle','scope_exit','build_awaiter'])
p('C33','A job frees its frame when it ends and never before',
 "A dd::job starts immediately, runs without an owner, and its frame is freed exactly once when its body ends (or when its handle is destroyed while suspended); an exception escaping a job or a logical_thread terminates the program instead of being lost.",
 [PR],"every body: any number of suspensions, normal end or exception",
 "Leaks are invisible to the tests; a test cannot contain std::terminate.",
 ['job.hpp','logical_thread.hpp'],['job','job_promise','logical_thread_promise'])
# not claimed
p('C40','Scheduled work eventually runs',
 "Every task scheduled on a running pool is eventually resumed provided the tasks before it on the same queue finish, and no set of library operations deadlocks when used within its preconditions.",
 [S],"all fair schedules","Liveness cannot be sampled.",['thread_pool.hpp'],['default_worker_job'])
p('C41','thread_pool spreads independent tasks over its workers',
 "Independent tasks and callables are distributed evenly over the queues so that the pool's parallelism is used.",
 [I],"all handle addresses","A statistical property of addresses and hash values.",['operation_hash.hpp','thread_pool.hpp'],['noexport::do_hash'])
p('C42','inplace_generator never allocates',
 "Using an inplace_generator as a local variable does not allocate its coroutine frame on the heap.",
 [CF],"all optimisation levels and compilers","Depends on the optimiser.",['inplace_generator.hpp'],['inplace_generator'])
p('C43','A latch may be destroyed by a coroutine it has released',
 "A released waiter may destroy the latch as soon as it runs, in every interleaving with the thread that released it.",
 [S],"all interleavings","Needs exact timing.",['latch.hpp'],['latch'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
if __name__=='__main__':
    print(len(P))
