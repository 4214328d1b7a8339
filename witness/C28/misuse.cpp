//@ ok await_in_inplace: an inplace generator without co_await
dd::inplace_generator<int> f() { co_yield 1; }
//@ misuse await_in_inplace: co_await inside an inplace_generator
dd::inplace_generator<int> f() { co_yield 1; co_await std::suspend_never{}; }
//@ ok await_task_in_inplace: the same without the task
dd::inplace_generator<int> f(dd::task<int>) { co_yield 1; }
//@ misuse await_task_in_inplace: co_await of a task inside an inplace_generator
dd::inplace_generator<int> f(dd::task<int> t) { co_yield co_await t; }
//@ ok inplace_handle: an inplace generator that does not ask for its handle
dd::inplace_generator<int> f() { co_yield 1; }
//@ misuse inplace_handle: co_await this_coro::handle inside an inplace_generator
dd::inplace_generator<int> f() { (void)co_await dd::this_coro::handle; co_yield 1; }
//@ ok yield_wrong_generator: yielding a value of the right type from a generator
dd::generator<std::string> f() { co_yield std::string(); }
//@ misuse yield_wrong_generator: yielding an int from a generator of strings
dd::generator<std::string> f() { int x = 3; co_yield x; }
//@ ok yield_wrong_channel: yielding a value of the right type from a channel
dd::channel<std::string> f() { co_yield std::string(); }
//@ misuse yield_wrong_channel: yielding an int from a channel of strings
dd::channel<std::string> f() { int x = 3; co_yield x; }
//@ ok yield_wrong_inplace: yielding a value of the right type from an inplace generator
dd::inplace_generator<std::string> f() { co_yield std::string(); }
//@ misuse yield_wrong_inplace: yielding an int from an inplace_generator of strings
dd::inplace_generator<std::string> f() { int x = 3; co_yield x; }
//@ ok yield_rvalue_ref: yielding an lvalue from a generator of references
dd::generator<int&> f(int& x) { co_yield x; }
//@ misuse yield_rvalue_ref: yielding a temporary from a generator of references
dd::generator<int&> f(int&) { co_yield 5; }
//@ ok yield_rvalue_ref_channel: yielding an lvalue from a channel of references
dd::channel<int&> f(int& x) { co_yield x; }
//@ misuse yield_rvalue_ref_channel: yielding a temporary from a channel of references
dd::channel<int&> f(int&) { co_yield 5; }
//@ ok yield_rvalue_ref_inplace: yielding an lvalue from an inplace generator of references
dd::inplace_generator<int&> f(int& x) { co_yield x; }
//@ misuse yield_rvalue_ref_inplace: yielding a temporary from an inplace_generator of references
dd::inplace_generator<int&> f(int&) { co_yield 5; }
//@ ok yield_const_ref: yielding a non-const lvalue from a generator of references
dd::generator<int&> f(int& x) { co_yield x; }
//@ misuse yield_const_ref: yielding a const object from a generator of mutable references
dd::generator<int&> f(const int& x) { co_yield x; }
//@ ok yield_const_ref_channel: yielding a non-const lvalue from a channel of references
dd::channel<int&> f(int& x) { co_yield x; }
//@ misuse yield_const_ref_channel: yielding a const object from a channel of mutable references
dd::channel<int&> f(const int& x) { co_yield x; }
//@ ok yield_const_by_ref: by_ref of a mutable object
dd::generator<int> f(int& x) { co_yield dd::by_ref{x}; }
//@ misuse yield_const_by_ref: by_ref of a const object in a generator whose consumer may change the value
dd::generator<int> f(const int& x) { co_yield dd::by_ref{x}; }
//@ ok yield_const_by_ref_channel: by_ref of a mutable object in a channel
dd::channel<int> f(int& x) { co_yield dd::by_ref{x}; }
//@ misuse yield_const_by_ref_channel: by_ref of a const object in a channel whose consumer may change the value
dd::channel<int> f(const int& x) { co_yield dd::by_ref{x}; }
//@ ok yield_by_ref_other: by_ref of an object of the right type
dd::generator<int> f(int& x) { co_yield dd::by_ref{x}; }
//@ misuse yield_by_ref_other: by_ref of an object of another type
dd::generator<int> f(double& x) { co_yield dd::by_ref{x}; }
//@ ok yield_moveonly_copy: yielding a move-only value by moving it
dd::generator<w::moveonly> f(w::moveonly m) { co_yield std::move(m); }
//@ misuse yield_moveonly_copy: yielding a move-only value from an lvalue
dd::generator<w::moveonly> f(w::moveonly m) { co_yield m; }
//@ ok yield_moveonly_copy_channel: yielding a move-only value by moving it
dd::channel<w::moveonly> f(w::moveonly m) { co_yield std::move(m); }
//@ misuse yield_moveonly_copy_channel: yielding a move-only value from an lvalue
dd::channel<w::moveonly> f(w::moveonly m) { co_yield m; }
//@ ok yield_in_task: a task returns its value
dd::task<int> f() { co_return 1; }
//@ misuse yield_in_task: co_yield in a task
dd::task<int> f() { co_yield 1; co_return 1; }
//@ ok return_from_generator: a generator ends with an empty co_return
dd::generator<int> f() { co_yield 1; co_return; }
//@ misuse return_from_generator: co_return of a value in a generator
dd::generator<int> f() { co_yield 1; co_return 2; }
//@ ok return_from_channel: a channel ends with an empty co_return
dd::channel<int> f() { co_yield 1; co_return; }
//@ misuse return_from_channel: co_return of a value in a channel
dd::channel<int> f() { co_yield 1; co_return 2; }
//@ ok return_wrong_task: returning the right type from a task
dd::task<std::string> f() { co_return "x"; }
//@ misuse return_wrong_task: returning an unrelated type from a task
dd::task<std::string> f() { co_return w::plain{}; }
//@ ok return_temporary_ref: returning an lvalue from a task of a reference
dd::task<int&> f(int& x) { co_return x; }
//@ misuse return_temporary_ref: returning a temporary from a task of a reference
dd::task<int&> f(int&) { co_return 5; }
//@ ok return_const_ref: returning a mutable lvalue from a task of a reference
dd::task<int&> f(int& x) { co_return x; }
//@ misuse return_const_ref: returning a const object from a task of a mutable reference
dd::task<int&> f(const int& x) { co_return x; }
//@ ok return_temporary_async: returning an lvalue from an async_task of a reference
dd::async_task<int&> f(int& x) { co_return x; }
//@ misuse return_temporary_async: returning a temporary from an async_task of a reference
dd::async_task<int&> f(int&) { co_return 5; }
//@ ok return_from_void: an empty co_return in a task<void>
dd::task<void> f() { co_return; }
//@ misuse return_from_void: returning a value from a task<void>
dd::task<void> f() { co_return 1; }
//@ ok return_from_thread: an empty co_return in a logical_thread
dd::logical_thread f() { co_return; }
//@ misuse return_from_thread: returning a value from a logical_thread
dd::logical_thread f() { co_return 1; }
//@ ok stop_token_elsewhere: asking for the stop token in a logical_thread
dd::logical_thread f() { dd::stop_token t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
//@ misuse stop_token_elsewhere: asking for the stop token in a task
dd::task<void> f() { dd::stop_token t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
//@ ok return_place_elsewhere: asking for the return place in a task
dd::task<int> f() { int& x = co_await dd::this_coro::return_place; x = 1; co_return dd::rvo; }
//@ misuse return_place_elsewhere: asking for the return place in a generator
dd::generator<int> f() { int& x = co_await dd::this_coro::return_place; co_yield x; }
//@ ok context_elsewhere: asking for the context in a task
dd::task<int> f() { (void)co_await dd::this_coro::context; co_return 1; }
//@ misuse context_elsewhere: asking for the context in a job
dd::job f() { (void)co_await dd::this_coro::context; }
//@ ok const_executor_ref: a latch over an executor
void f(w::my_exec& e) { dd::latch l(1, e); }
//@ misuse const_executor_ref: a latch over a const executor
void f(const w::my_exec& e) { dd::latch l(1, e); }
//@ ok temporary_executor_ref: a latch over a named executor
void f(w::my_exec e) { dd::latch l(1, e); }
//@ misuse temporary_executor_ref: a latch over a temporary executor
void f() { dd::latch l(1, w::my_exec{}); }
//@ ok not_an_executor: jump_on an executor
dd::task<void> f(w::my_exec& e) { (void)co_await dd::jump_on(e); }
//@ misuse not_an_executor: jump_on something that is no executor
dd::task<void> f(int& e) { (void)co_await dd::jump_on(e); }
//@ ok const_pool: jump_on a thread pool
dd::task<void> f(dd::thread_pool& e) { (void)co_await dd::jump_on(e); }
//@ misuse const_pool: jump_on a const thread pool
dd::task<void> f(const dd::thread_pool& e) { (void)co_await dd::jump_on(e); }
//@ ok wait_stop_lvalue: wait_stop on a pool that is given up
void f(dd::thread_pool& p) { std::move(p).wait_stop(); }
//@ misuse wait_stop_lvalue: wait_stop on a pool that is still in use
void f(dd::thread_pool& p) { p.wait_stop(); }
//@ ok event_wrong_input: notifying with the input of the event
void f(dd::event<std::string>& e, w::my_exec& x) { e.notify_all(x, "a"); }
//@ misuse event_wrong_input: notifying with an unrelated input
void f(dd::event<std::string>& e, w::my_exec& x) { e.notify_all(x, w::plain{}); }
//@ ok event_missing_input: notifying an event with its input
void f(dd::event<int>& e, w::my_exec& x) { e.notify_all(x, 1); }
//@ misuse event_missing_input: notifying an event without its input
void f(dd::event<int>& e, w::my_exec& x) { e.notify_all(x); }
//@ ok event_needless_input: notifying a void event
void f(dd::event<void>& e, w::my_exec& x) { e.notify_all(x); }
//@ misuse event_needless_input: notifying a void event with an input
void f(dd::event<void>& e, w::my_exec& x) { e.notify_all(x, 1); }
//@ ok event_moveonly: an event of a copyable input
dd::event<w::rich> e;
//@ misuse event_moveonly: an event of a move-only input
dd::event<w::moveonly> e;
//@ ok event_throwing_move: an event of an input with a noexcept move
struct in { in(); in(const in&); in(in&&) noexcept; in& operator=(const in&); in& operator=(in&&) noexcept; };
dd::event<in> e;
//@ misuse event_throwing_move: an event of an input whose move may throw
struct in { in(); in(const in&); in(in&&) noexcept(false); in& operator=(const in&); in& operator=(in&&) noexcept; };
dd::event<in> e;
//@ ok when_any_single: when_any over two events
dd::task<void> f(dd::event<int>& a) { (void)co_await dd::when_any(a, a); }
//@ misuse when_any_single: when_any over one event
dd::task<void> f(dd::event<int>& a) { (void)co_await dd::when_any(a); }
//@ ok contexts_differ: when_all over tasks with the same context
auto f(dd::task<int> a, dd::task<int> b) { return dd::when_all(std::move(a), std::move(b)); }
//@ misuse contexts_differ: when_all over tasks with different contexts
auto f(dd::task<int> a, dd::task<int, w::my_ctx> b) { return dd::when_all(std::move(a), std::move(b)); }
//@ ok copy_task_into_all: giving a task to when_all
auto f(dd::task<int>& a) { return dd::when_all(std::move(a)); }
//@ misuse copy_task_into_all: giving an lvalue task to when_all
auto f(dd::task<int>& a) { return dd::when_all(a); }
//@ ok copy_task_into_any: giving a task to when_any
auto f(dd::task<int>& a) { return dd::when_any(std::move(a)); }
//@ misuse copy_task_into_any: giving an lvalue task to when_any
auto f(dd::task<int>& a) { return dd::when_any(a); }
//@ ok channel_rvalue_begin: iterating over a named channel
dd::task<void> f(dd::channel<int> c) { (void)co_await c.begin(); }
//@ misuse channel_rvalue_begin: iterating over a temporary channel
dd::task<void> f() { (void)co_await dd::channel<int>().begin(); }
//@ ok missing_resource: a coroutine type whose resource is given
dd::task_r<int, w::fat_res> f(dd::with_resource<w::fat_res>) { co_return 1; }
//@ misuse missing_resource: a coroutine type whose resource can be neither made nor found among the arguments
dd::task_r<int, w::fat_res> f() { co_return 1; }
//@ ok wrong_resource: a coroutine type given its own resource
dd::task_r<int, w::fat_res> f(dd::with_resource<w::fat_res>) { co_return 1; }
//@ misuse wrong_resource: a coroutine type given another resource only
dd::task_r<int, w::fat_res> f(dd::with_resource<w::empty_res>) { co_return 1; }
//@ ok stop_copies: stopping named threads
void f(dd::logical_thread& a) { dd::stop(a); }
//@ misuse stop_copies: stopping a temporary thread
void f() { dd::stop(dd::logical_thread()); }
//@ ok stop_temporary_range: stopping the threads of a named vector
void f(std::vector<dd::logical_thread>& v) { dd::stop(v); }
//@ misuse stop_temporary_range: stopping the threads of a temporary vector
void f() { dd::stop(std::vector<dd::logical_thread>()); }
//@ ok out_of_nothing: out() of a generator of values
auto f(dd::generator<int> g) { return *g.begin().out(); }
//@ misuse out_of_nothing: writing through a generator of nothing_t
auto f(dd::generator<dd::nothing_t> g) { return *g.begin().out(); }
//@ ok expected_void_deref: reading the value of an expected
int f(dd::expected<int, std::exception_ptr>& e) { return *e; }
//@ misuse expected_void_deref: reading the value of an expected<void>
int f(dd::expected<void, std::exception_ptr>& e) { return *e; }
//@ ok aligned_resource: a resource with ordinary alignment
struct res { char x; void* allocate(std::size_t); void deallocate(void*, std::size_t) noexcept; };
dd::task<int> f(dd::with_resource<res>) { co_return 1; }
//@ misuse aligned_resource: a resource with more than ordinary alignment
struct alignas(128) res { char x; void* allocate(std::size_t); void deallocate(void*, std::size_t) noexcept; };
dd::task<int> f(dd::with_resource<res>) { co_return 1; }
//@ ok hash_of_ref: operation_hash of a value type
auto h = dd::operation_hash<int>{};
//@ misuse hash_of_ref: operation_hash of a reference
auto h = dd::operation_hash<int&>{};
//@ ok queue_const: pushing into a queue
void f(dd::task_queue& q, dd::task_node* n) { q.push(n); }
//@ misuse queue_const: pushing into a const queue
void f(const dd::task_queue& q, dd::task_node* n) { q.push(n); }
