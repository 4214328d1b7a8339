//@ ok async_values: async tasks of every kind of result, plain, with_resource, async_task_r and pmr
dd::async_task<void> a1() { co_return; }
dd::async_task<int> a2() { co_return 1; }
dd::async_task<std::string> a3() { co_return "x"; }
dd::async_task<w::moveonly> a4() { co_return w::moveonly{}; }
dd::async_task<w::no_default> a5() { co_return 5; }
dd::async_task<int&> a6(int& x) { co_return x; }
dd::async_task<const w::rich&> a7(const w::rich& x) { co_return x; }
dd::async_task<int> b1(dd::with_resource<w::fat_res>) { co_return 1; }
dd::async_task<void> b2(dd::with_resource<w::empty_res>) { co_return; }
dd::async_task<int&> b3(int& x, dd::with_pmr_resource) { co_return x; }
dd::async_task<w::moveonly> b4(dd::with_stack_resource) { co_return w::moveonly{}; }
dd::async_task<int> b5(dd::with_default_resource) { co_return 1; }
dd::async_task_r<int, w::empty_res> c1() { co_return 1; }
dd::async_task_r<void, w::lazy_res> c2() { co_return; }
dd::async_task_r<int&, dd::new_delete_resource> c3(int& x) { co_return x; }
dd::async_task_r<w::moveonly, w::fat_res> c4(dd::with_resource<w::fat_res>) { co_return w::moveonly{}; }
dd::pmr::async_task<int> d1() { co_return 1; }
dd::pmr::async_task<void> d2() { co_return; }
dd::pmr::async_task<int&> d3(int& x) { co_return x; }
dd::pmr::async_task<w::moveonly> d4() { co_return w::moveonly{}; }
//@ ok async_interface: every member of async_task, on async_task, async_task_r and pmr
template <typename R, typename T>
void use(T t, T u) {
  T d;
  T m(std::move(t));
  m = std::move(u);
  m.swap(d);
  swap(m, d);
  const T& c = m;
  c.wait();
  SAME(bool, decltype(c.ready()));
  SAME(bool, decltype(c.empty()));
  if (c) {}
  (void)c.ready();
  (void)c.empty();
  SAME(R, decltype(m.get()));
  (void)m.get();
  m.detach();
  static_assert(std::movable<T> && std::is_nothrow_default_constructible_v<T>);
  static_assert(noexcept(m.wait()) && noexcept(m.ready()) && noexcept(m.detach()) && noexcept(m.empty()));
}
template void use<int&&>(dd::async_task<int>, dd::async_task<int>);
template void use<void>(dd::async_task<void>, dd::async_task<void>);
template void use<int&>(dd::async_task<int&>, dd::async_task<int&>);
template void use<w::moveonly&&>(dd::async_task<w::moveonly>, dd::async_task<w::moveonly>);
template void use<w::no_default&&>(dd::async_task<w::no_default>, dd::async_task<w::no_default>);
template void use<int&&>(dd::async_task_r<int, w::empty_res>, dd::async_task_r<int, w::empty_res>);
template void use<void>(dd::pmr::async_task<void>, dd::pmr::async_task<void>);
template void use<int&&>(dd::pmr::async_task<int>, dd::pmr::async_task<int>);
template void use<int&>(dd::pmr::async_task<int&>, dd::pmr::async_task<int&>);
//@ ok async_awaits: everything that can be awaited in an async task
dd::async_task<int> f(dd::latch& l, dd::event<int>& e, dd::event<void>& v, dd::thread_pool& p, dd::channel<int> ch) {
  co_await l.wait();
  co_await l.arrive_and_wait();
  int x = co_await e;
  (void)co_await v;
  (void)co_await dd::jump_on(p);
  co_foreach(int y, ch) x += y;
  while (int* q = co_await ch.next()) x += *q;
  co_return x;
}
dd::pmr::async_task<int> g(dd::latch& l, dd::event<int>& e, dd::thread_pool& p, dd::pmr::channel<int> ch) {
  co_await l.wait();
  co_await l.arrive_and_wait(2);
  int x = co_await e;
  (void)co_await dd::jump_on(p);
  co_foreach(int y, ch) x += y;
  while (int* q = co_await ch.next()) x += *q;
  co_return x;
}
//@ ok job_kinds: jobs, plain, with_resource, job_r and pmr
dd::job j1() { co_return; }
dd::job j2(dd::with_resource<w::fat_res>) { co_return; }
dd::job j3(int, dd::with_pmr_resource) { co_await std::suspend_always{}; }
dd::job_r<w::empty_res> j4() { co_return; }
dd::job_r<w::lazy_res> j5() { co_return; }
dd::pmr::job<void> j6() { co_return; }
dd::job_r<w::fat_res> j7(dd::with_resource<w::fat_res>) { co_return; }
dd::job j8(dd::with_default_resource) { co_return; }
void use() {
  dd::job a;
  dd::job b = j1();
  a = b;
  SAME(dd::job::handle_type, decltype(a.handle));
  std::coroutine_handle<> h = a.handle;
  (void)h;
  auto c = j4();
  dd::job d = c;
  auto e = j6();
  (void)e.handle;
  dd::job k(dd::job::handle_type{});
  static_assert(std::is_nothrow_default_constructible_v<dd::job>);
}
//@ ok logical_thread_kinds: logical threads, plain, with_resource, logical_thread_r and pmr, with stop tokens
dd::logical_thread l1() { auto&& t = co_await dd::this_coro::stop_token; while (!t.stop_requested()) co_await std::suspend_always{}; }
dd::logical_thread l2(dd::with_resource<w::fat_res>) { auto&& t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
dd::logical_thread l3(dd::with_pmr_resource) { dd::stop_token t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
dd::logical_thread_r<w::empty_res> l4() { dd::stop_token t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
dd::logical_thread_r<w::lazy_res> l5() { dd::stop_token t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
dd::pmr::logical_thread<void> l6() { dd::stop_token t = co_await dd::this_coro::stop_token; (void)t.stop_requested(); }
dd::logical_thread l7(dd::with_default_resource) { co_return; }
dd::logical_thread l8(dd::thread_pool& p) { if (!co_await dd::jump_on(p)) co_return; }
//@ ok logical_thread_interface: every member of logical_thread and stop(...)
template <typename T>
void use(T t, T u) {
  T d;
  T m(std::move(t));
  m = std::move(u);
  m.swap(d);
  swap(m, d);
  const T& c = m;
  SAME(bool, decltype(c.joinable()));
  SAME(bool, decltype(c.stop_possible()));
  SAME(bool, decltype(m.request_stop()));
  (void)c.joinable();
  (void)c.stop_possible();
  m.request_stop();
  m.join();
  m.detach();
  dd::stop(m);
  dd::stop(m, d, t);
  std::vector<T> v;
  dd::stop(v);
  dd::stop(std::span<T>(v));
  static_assert(dd::stopable<T>);
  static_assert(std::movable<T> && std::is_nothrow_default_constructible_v<T>);
}
template void use(dd::logical_thread, dd::logical_thread);
template void use(dd::logical_thread_r<w::empty_res>, dd::logical_thread_r<w::empty_res>);
template void use(dd::pmr::logical_thread<int>, dd::pmr::logical_thread<int>);
void mixed(dd::logical_thread a, dd::pmr::logical_thread<void> b, std::jthread c) { dd::stop(a, b, c); }
void ranges(std::vector<std::jthread> v) { dd::stop(v); dd::stop(); }
//@ ok two_way_bound: the two-way bound between a logical thread and its frame
void f(dd::two_way_bound& b) {
  SAME(bool, decltype(b.try_inform()));
  b.try_inform();
  b.wait();
  b.reset();
}
