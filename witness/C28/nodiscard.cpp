//@ ok drop_task: using a task
dd::task<int> t(); void f() { (void)t(); }
//@ misuse drop_task -Werror=unused-result: forgetting a task
dd::task<int> t(); void f() { t(); }
//@ ok drop_jump: awaiting a jump
dd::task<void> f(w::my_exec& e) { (void)co_await dd::jump_on(e); }
//@ misuse drop_jump -Werror=unused-result: forgetting to await a jump
dd::task<void> f(w::my_exec& e) { dd::jump_on(e); co_return; }
//@ ok drop_jump_pool: awaiting a jump on a pool
dd::task<void> f(dd::thread_pool& e) { (void)co_await dd::jump_on(e); }
//@ misuse drop_jump_pool -Werror=unused-result: forgetting to await a jump on a pool
dd::task<void> f(dd::thread_pool& e) { dd::jump_on(e); co_return; }
//@ ok drop_status: looking at the status of a jump
dd::task<void> f(w::my_exec& e) { if (!co_await dd::jump_on(e)) co_return; }
//@ misuse drop_status clang -Werror=unused-result: ignoring the status of a jump
dd::task<void> f(w::my_exec& e) { co_await dd::jump_on(e); }
//@ ok drop_status_pool: looking at the status of a jump on a pool
dd::task<void> f(dd::thread_pool& e) { if (!co_await dd::jump_on(e)) co_return; }
//@ misuse drop_status_pool clang -Werror=unused-result: ignoring the status of a jump on a pool
dd::task<void> f(dd::thread_pool& e) { co_await dd::jump_on(e); }
//@ ok drop_latch_wait: awaiting a latch
dd::task<void> f(dd::latch& l) { co_await l.wait(); }
//@ misuse drop_latch_wait -Werror=unused-result: forgetting to await latch::wait
dd::task<void> f(dd::latch& l) { l.wait(); co_return; }
//@ ok drop_latch_arrive: awaiting arrive_and_wait
dd::task<void> f(dd::latch& l) { co_await l.arrive_and_wait(); }
//@ misuse drop_latch_arrive -Werror=unused-result: forgetting to await latch::arrive_and_wait
dd::task<void> f(dd::latch& l) { l.arrive_and_wait(); co_return; }
//@ ok drop_latch_ready: using latch::ready
bool f(dd::latch& l) { return l.ready(); }
//@ misuse drop_latch_ready -Werror=unused-result: ignoring latch::ready
bool f(dd::latch& l) { l.ready(); return true; }
//@ ok drop_channel_begin: awaiting channel::begin
dd::task<void> f(dd::channel<int>& c) { (void)co_await c.begin(); }
//@ misuse drop_channel_begin -Werror=unused-result: forgetting to await channel::begin
dd::task<void> f(dd::channel<int>& c) { c.begin(); co_return; }
//@ ok drop_channel_next: awaiting channel::next
dd::task<void> f(dd::channel<int>& c) { (void)co_await c.next(); }
//@ misuse drop_channel_next -Werror=unused-result: forgetting to await channel::next
dd::task<void> f(dd::channel<int>& c) { c.next(); co_return; }
//@ ok drop_channel_inc: awaiting the increment of a channel iterator
dd::task<void> f(dd::channel<int>& c) { auto it = co_await c.begin(); co_await ++it; }
//@ misuse drop_channel_inc -Werror=unused-result: forgetting to await the increment of a channel iterator
dd::task<void> f(dd::channel<int>& c) { auto it = co_await c.begin(); ++it; }
//@ ok drop_take_exception: using take_exception
std::exception_ptr f(dd::channel<int>& c) { return c.take_exception(); }
//@ misuse drop_take_exception -Werror=unused-result: ignoring take_exception
void f(dd::channel<int>& c) { c.take_exception(); }
//@ ok drop_event_await: awaiting an event
dd::task<int> f(dd::event<int>& e) { co_return co_await e; }
//@ misuse drop_event_await clang -Werror=unused-result: ignoring the input of an event
dd::task<int> f(dd::event<int>& e) { co_await e; co_return 1; }
//@ ok drop_when_all_events: awaiting when_all over events
dd::task<void> f(dd::event<int>& e) { (void)co_await dd::when_all(e, e); }
//@ misuse drop_when_all_events -Werror=unused-result: forgetting to await when_all over events
dd::task<void> f(dd::event<int>& e) { dd::when_all(e, e); co_return; }
//@ ok drop_when_any_events: awaiting when_any over events
dd::task<void> f(dd::event<int>& e) { (void)co_await dd::when_any(e, e); }
//@ misuse drop_when_any_events -Werror=unused-result: forgetting to await when_any over events
dd::task<void> f(dd::event<int>& e) { dd::when_any(e, e); co_return; }
//@ ok drop_when_all_tasks: awaiting when_all over tasks
dd::task<void> f(dd::task<int> a) { (void)co_await dd::when_all(std::move(a)); }
//@ misuse drop_when_all_tasks -Werror=unused-result: forgetting to await when_all over tasks
dd::task<void> f(dd::task<int> a) { dd::when_all(std::move(a)); co_return; }
//@ ok drop_when_any_tasks: awaiting when_any over tasks
dd::task<void> f(dd::task<int> a) { (void)co_await dd::when_any(std::move(a)); }
//@ misuse drop_when_any_tasks -Werror=unused-result: forgetting to await when_any over tasks
dd::task<void> f(dd::task<int> a) { dd::when_any(std::move(a)); co_return; }
//@ ok drop_release_task: keeping the released handle of a task
auto f(dd::task<int>& t) { return t.release(); }
//@ misuse drop_release_task -Werror=unused-result: losing the released handle of a task
void f(dd::task<int>& t) { t.release(); }
//@ ok drop_detach_task: keeping the detached handle of a task
auto f(dd::task<int>& t) { return t.detach(); }
//@ misuse drop_detach_task -Werror=unused-result: losing the detached handle of a task
void f(dd::task<int>& t) { t.detach(); }
//@ ok drop_raw_handle_task: using raw_handle of a task
auto f(dd::task<int>& t) { return t.raw_handle(); }
//@ misuse drop_raw_handle_task -Werror=unused-result: ignoring raw_handle of a task
void f(dd::task<int>& t) { t.raw_handle(); }
//@ ok drop_release_generator: keeping the released handle of a generator
auto f(dd::generator<int>& t) { return t.release(); }
//@ misuse drop_release_generator -Werror=unused-result: losing the released handle of a generator
void f(dd::generator<int>& t) { t.release(); }
//@ ok drop_release_channel: keeping the released handle of a channel
auto f(dd::channel<int>& t) { return t.release(); }
//@ misuse drop_release_channel -Werror=unused-result: losing the released handle of a channel
void f(dd::channel<int>& t) { t.release(); }
//@ ok drop_raw_handle_generator: using raw_handle of a generator
auto f(dd::generator<int>& t) { return t.raw_handle(); }
//@ misuse drop_raw_handle_generator -Werror=unused-result: ignoring raw_handle of a generator
void f(dd::generator<int>& t) { t.raw_handle(); }
//@ ok drop_raw_handle_channel: using raw_handle of a channel
auto f(dd::channel<int>& t) { return t.raw_handle(); }
//@ misuse drop_raw_handle_channel -Werror=unused-result: ignoring raw_handle of a channel
void f(dd::channel<int>& t) { t.raw_handle(); }
//@ ok drop_task_result: using the result of a task
dd::task<int> f(dd::task<int> t) { co_return co_await t; }
//@ misuse drop_task_result clang -Werror=unused-result: ignoring the result of a task
dd::task<int> f(dd::task<int> t) { co_await t; co_return 1; }
//@ ok drop_stop_token: using the stop token
dd::logical_thread f() { auto&& t = co_await dd::this_coro::stop_token; (void)t; }
//@ misuse drop_stop_token clang -Werror=unused-result: ignoring the stop token
dd::logical_thread f() { co_await dd::this_coro::stop_token; }
//@ ok drop_handle: using the own handle
dd::task<void> f() { (void)co_await dd::this_coro::handle; }
//@ misuse drop_handle clang -Werror=unused-result: ignoring the own handle
dd::task<void> f() { co_await dd::this_coro::handle; }
//@ ok drop_context: using the context
dd::task<void> f() { (void)co_await dd::this_coro::context; }
//@ misuse drop_context clang -Werror=unused-result: ignoring the context
dd::task<void> f() { co_await dd::this_coro::context; }
//@ ok drop_joinable: using joinable
bool f(dd::logical_thread& t) { return t.joinable(); }
//@ misuse drop_joinable -Werror=unused-result: ignoring joinable
void f(dd::logical_thread& t) { t.joinable(); }
//@ ok drop_pop_all: using popped tasks
auto f(dd::task_queue& q) { return q.pop_all(); }
//@ misuse drop_pop_all -Werror=unused-result: losing popped tasks
void f(dd::task_queue& q) { q.pop_all(); }
//@ ok drop_pop_all_not_empty: using popped tasks
auto f(dd::task_queue& q) { return q.pop_all_not_empty(); }
//@ misuse drop_pop_all_not_empty -Werror=unused-result: losing tasks popped by waiting
void f(dd::task_queue& q) { q.pop_all_not_empty(); }
//@ ok drop_stack_pop: using popped nodes
auto f(dd::nonowner_lockfree_stack<dd::task_node>& q) { return q.try_pop_all(); }
//@ misuse drop_stack_pop -Werror=unused-result: losing nodes popped from the lock-free stack
void f(dd::nonowner_lockfree_stack<dd::task_node>& q) { q.try_pop_all(); }
//@ ok drop_reverse: using the new head of a reversed list
auto f(dd::task_node* n) { return dd::reverse_list(n); }
//@ misuse drop_reverse -Werror=unused-result: losing the new head of a reversed list
void f(dd::task_node* n) { dd::reverse_list(n); }
//@ ok drop_allocation: using allocated memory
void* f(dd::stack_resource& r) { return r.allocate(1); }
//@ misuse drop_allocation -Werror=unused-result: losing memory of a stack_resource
void f(dd::stack_resource& r) { r.allocate(1); }
//@ ok drop_chunk_allocation: using memory of a chunk
void* f(dd::chunk_from<w::fat_res>& r) { return r.allocate(1); }
//@ misuse drop_chunk_allocation -Werror=unused-result: losing memory of a chunk
void f(dd::chunk_from<w::fat_res>& r) { r.allocate(1); }
//@ ok drop_is_worker: using is_worker
bool f(dd::thread_pool& p) { return p.is_worker(); }
//@ misuse drop_is_worker -Werror=unused-result: ignoring is_worker
void f(dd::thread_pool& p) { p.is_worker(); }
//@ ok drop_workers_range: using workers_range
auto f(dd::thread_pool& p) { return p.workers_range(); }
//@ misuse drop_workers_range -Werror=unused-result: ignoring workers_range
void f(dd::thread_pool& p) { p.workers_range(); }
//@ ok drop_inplace_empty: using inplace_generator::empty
bool f(dd::inplace_generator<int>& g) { return g.empty(); }
//@ misuse drop_inplace_empty -Werror=unused-result: ignoring inplace_generator::empty (it does not clear)
void f(dd::inplace_generator<int>& g) { g.empty(); }
//@ ok drop_inplace_begin: using inplace_generator::begin
auto f(dd::inplace_generator<int>& g) { return g.begin(); }
//@ misuse drop_inplace_begin -Werror=unused-result: ignoring inplace_generator::begin
void f(dd::inplace_generator<int>& g) { g.begin(); }
//@ ok drop_has_value: using expected::has_value
bool f(dd::expected<int, char>& g) { return g.has_value(); }
//@ misuse drop_has_value -Werror=unused-result: ignoring expected::has_value
void f(dd::expected<int, char>& g) { g.has_value(); }
//@ ok drop_suspend_and: awaiting suspend_and
dd::task<void> f() { co_await dd::this_coro::suspend_and([](auto) {}); }
//@ misuse drop_suspend_and -Werror=unused-result: forgetting to await suspend_and
dd::task<void> f() { dd::this_coro::suspend_and([](auto) {}); co_return; }
//@ ok drop_transfer: awaiting a transfer of control
dd::task<void> f(std::coroutine_handle<> h) { co_await dd::transfer_control_to{h}; }
//@ misuse drop_transfer clang -Werror=unused-value -Werror=unused-result: forgetting to await a transfer of control
dd::task<void> f(std::coroutine_handle<> h) { dd::transfer_control_to{h}; co_return; }
//@ ok drop_destroy_transfer: awaiting destroy_and_transfer_control_to
dd::job f(std::coroutine_handle<> h) { co_await dd::this_coro::destroy_and_transfer_control_to{h}; }
//@ misuse drop_destroy_transfer clang -Werror=unused-value -Werror=unused-result: forgetting to await destroy_and_transfer_control_to
dd::job f(std::coroutine_handle<> h) { dd::this_coro::destroy_and_transfer_control_to{h}; co_return; }
//@ ok drop_scope_exit: a named scope_exit
void f(int& x) { dd::scope_exit e{[&] { x = 1; }}; }
//@ misuse drop_scope_exit clang -Werror=unused-value -Werror=unused-result: a scope_exit that ends at once
void f(int& x) { dd::scope_exit{[&] { x = 1; }}; }
