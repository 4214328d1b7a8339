import json,glob
R={
"C01":"Sequences of push/push_list/attach/pop over an unknown number of nodes; two producers (single nodes, lists), two consumers, stealing, as threads. FIFO ghost positions; a popped list is null-terminated; each node popped once; a sleeping consumer with a non-empty queue is a lost wake-up; a pusher touching a node after unlock is a race with the consumer that freed it.",
"C02":"The job over batches of unknown composition (tasks, marker first/last/in the middle, several markers, batches that grow while they run), alone and as a thread with 1-n producers. Node owner frees the node when resumed (touch = use-after-free); status checked at resume; order = queue order.",
"C03":"worker and thread_pool with 1-3 threads destroyed / stopped / waited for, idle or with tasks left over or tasks that post further tasks (forward, backward), stop requested repeatedly or from elsewhere, thread start failing at each position. Each thread joined exactly once, each task resumed exactly once, nothing left in queues.",
"C04":"jump_on through every executor kind and schedule/schedule_to overloads; the executor is the client's: it may resume at once on another thread, later, with ok or cancelled. Callable counted: ok -> once, cancelled -> never; frames and callables freed through the resource.",
"C05":"attach_list over an unknown number of nodes whose executor frees/relinks a node as soon as it is attached; any_executor_ref copies/address; this_thread/new_thread/noop executors; reverse_list.",
"C06":"Up to three threads of push / push_stack / try_pop_all, single ops and histories, recycled nodes; contention (CAS failure, also spurious) at every attempt; publication of node contents and ordering between pushers through happens-before.",
"C07":"All combinations of up to three parties out of wait / count_down(n) / arrive_and_wait(n), injected and as threads; counter value unknown; frames of released waiters are freed at once by the client; each waiter attached exactly once, not before zero; ready() exact.",
"C08":"Subscribers, callbacks, re-subscription during notification, nested notification, inputs void/int/object, two notifiers and two subscribers as threads; each subscriber woken exactly once per subscription with a copy of the input made before it was attached; the result says whether there was one.",
"C09":"when_all/when_any over 1-3 events fired in every order, during subscription (injected forwards/backwards) and by threads; awaiting coroutine resumed exactly once with inputs in position; its frame is freed on resumption.",
"C10":"Coroutine finishing (at once, later, on another thread) against owner doing destroy/wait/get/detach/move/swap/assign; frame destroyed exactly once, after the end; both orders and interleavings.",
"C11":"Owner polls/waits/gets as a thread while the coroutine stores value/reference/object/exception: reading the outcome without happens-before is a race; a waiter never sleeps over a finished task; get() delivers the object / exception.",
"C12":"As C10 for logical_thread; destruction and assignment request stop before they block; detach/join leave it non-joinable.",
"C13":"Token of a coroutine whose owner was moved/swapped; visibility of data written before request_stop; dd::stop over 1-4 arguments, ranges and arrays with a ghost log: all requests before the first join, each joined once.",
"C14":"Awaiting, wait(), get(), nested tasks, parked on other 'threads', value/reference/void/object results, exceptions, resourced; body not started before; awaiter resumed once and after the outcome; second await yields the same outcome and does not run again.",
"C15":"Arbitrary sequences of the ownership operations over two tasks (closed by subsumption), self-move, awaited/blocking/empty/resourced; frame count compared with ghost ownership after every step.",
"C16":"Contexts record every hook with both handles; awaited, proxied (when_all/when_any), detached, resumed by hand, got; order and multiplicity of hooks, outcome stored before on_end, awaiter not resumed before on_end.",
"C17":"1-3 tasks of mixed result types, parked or not, failing or not, woken in any order, on threads; vector form of 0-3; owner resumed once after all, positions, all frames gone; anything of the owner touched after its completion is a use-after-free or race.",
"C18":"As C17 for when_any, plus destruction of the when_any task while children run, late finishers on threads while the winner's result is moved out; first success (or last failure) delivered, later ones change nothing.",
"C19":"A body that yields / copies / references / throws / ends in any order (closed loop): one resume per increment (prefix, postfix, output iterator), addresses and copies, emptiness, exception, begin() again.",
"C20":"Trees of nested generators/channels of unknown shape (closed), partly consumed towers, ranges (containers, views, arrays, move-only, other value types), with different resources; ghost sequence of leaves; exceptions skip the leaf.",
"C21":"Producer that yields/suspends/throws/ends in any order against next / co_foreach / iterators by hand / consumers taking turns / an iterator lent to another coroutine; who is resumed, with what; the exception is raised once; a second exception before the first is taken terminates.",
"C22":"Arbitrary sequences of move/swap/reset/release/clear interleaved with iteration for generator, generator<nothing_t>, channel, inplace_generator; iterators kept across the operations, two consumers with their channels exchanged, the coroutine under an iterator replaced.",
"C23":"Frames of unknown size through resources that are owning/strict/tiny/stateless/chunk_of/polymorphic/constructed by default; every allocation or copy may throw; pointer, size, alignment and resource object must match at deallocation; resource object constructed/destroyed once, before its memory goes.",
"C24":"Which resource object received the allocation, for the last-argument rule, *_r, dd::pmr (passed, default, changed in between, other coroutines in between, several threads), deduction of the coroutine type.",
"C25":"allocate/deallocate/reuse_memory/move over **unknown sizes** with and without initial buffer: in-bounds, aligned, disjoint, given again, chunks freed once; linear inequalities over sizes; operation sequences bounded (3-5 operations), not closed.",
"C26":"Pools of 0-3 with a client resource, thread start or allocation failing at each point; queue i served by thread i; ranges; is_worker; resource identity/size/alignment.",
"C27":"Hash symbolic: select_queue index = hash modulo size; the same coroutine through attach, jump_on, list, schedule, strand selects the same queue; hash of resourced / plain / task / channel handles.",
"C28":"201 cases, see B.","C29":"48 cases x 6 configurations, 18 headers alone, see B.",
"C30":"As C19 for inplace_generator, moved-from, references.",
"C31":"Results that count constructions/copies/moves, move-only, trivially destructible, without default constructor, references, return_place/rvo, throwing constructors; expected in all shapes.",
"C32":"Each primitive with null and non-null targets, awaited as temporary and as a named object; frames counted.",
"C33":"Jobs that park, end, throw, are destroyed; resourced; argument copies that throw; termination is required where an exception escapes a job or logical_thread.",
}
out=open('/verif/tools/design_head.md').read()
out+="\n| property | clients and rules | entries | abstract paths / states | obligations | seconds (quick, 8 cores) |\n|---|---|---|---|---|---|\n"
for p,t in R.items():
    d=json.load(open('/verif/evidence/%s.json'%p)); c=d['coverage']
    out+="| %s | %s | %s | %s | %s | %d |\n"%(p,t,c['entries'] or c.get('cases'),"%d / %d"%(c['abstract_paths'],c['abstract_states']) if c['entries'] else "%d compilations"%c['compilations'],c['obligations'],round(d['wall_s']))
out+=open('/verif/tools/design_tail.md').read()
import subprocess,os
rows=""
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    rows+="| %s | %s | %s | %s |\n"%(i,m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'))
out=out.replace('@@SEEDS@@',rows)
open('/verif/DESIGN.md','w').write(out)
