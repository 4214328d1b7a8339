//@ ok task_values: tasks of every kind of result, plain, with_resource, task_r and pmr
dd::task<void> t_void() { co_return; }
dd::task<int> t_int() { co_return 1; }
dd::task<std::string> t_str() { co_return "abc"; }
dd::task<w::moveonly> t_mo() { co_return w::moveonly{}; }
dd::task<w::no_default> t_nd() { co_return 5; }
dd::task<w::rich> t_rich(const w::rich& r) { co_return r; }
dd::task<int&> t_ref(int& x) { co_return x; }
dd::task<const w::rich&> t_cref(const w::rich& x) { co_return x; }
dd::task<std::unique_ptr<int>> t_up() { co_return std::make_unique<int>(3); }
dd::task<std::vector<int>> t_braces() { co_return {1, 2, 3}; }
dd::task<w::plain> t_plain() { co_return w::plain{1, 2}; }
dd::task<w::rich> t_nothing() { co_return {}; }
dd::task<int*> t_ptr() { co_return nullptr; }

dd::task<int> t_res(int, dd::with_resource<w::fat_res>) { co_return 1; }
dd::task<void> t_res_e(dd::with_resource<w::empty_res>) { co_return; }
dd::task<int&> t_res_p(int& x, dd::with_pmr_resource) { co_return x; }
dd::task<w::moveonly> t_res_s(dd::with_stack_resource) { co_return w::moveonly{}; }
dd::task<int> t_res_d(dd::with_default_resource) { co_return 1; }
dd::task<int> t_res_ref(int, dd::with_resource<w::fat_res>&) { co_return 1; }
dd::task<int> t_res_cref(int, const dd::with_resource<w::fat_res>&) { co_return 1; }
dd::task<int> t_res_rref(int, dd::with_resource<w::fat_res>&&) { co_return 1; }

dd::task_r<int, w::empty_res> tr_e() { co_return 1; }
dd::task_r<int&, w::lazy_res> tr_l(int& x) { co_return x; }
dd::task_r<void, w::empty_res> tr_v() { co_return; }
dd::task_r<w::no_default, dd::new_delete_resource> tr_n() { co_return 7; }
dd::task_r<int, w::fat_res> tr_arg(dd::with_resource<w::fat_res>) { co_return 1; }
dd::pmr::task<int> tp_i() { co_return 1; }
dd::pmr::task<void> tp_v() { co_return; }
dd::pmr::task<w::moveonly> tp_m() { co_return w::moveonly{}; }
dd::pmr::task<int&> tp_r(int& x) { co_return x; }
dd::pmr::task<int> tp_arg(dd::with_resource<dd::pmr::polymorphic_resource>) { co_return 1; }
struct S {
  dd::task<int> member(int) { co_return 1; }
  dd::task<int> member_c() const { co_return 1; }
  dd::task<int> member_r(dd::with_pmr_resource) { co_return 1; }
  static dd::pmr::task<int> st() { co_return 1; }
  virtual dd::task<void> virt() { co_return; }
};
void lambdas() {
  auto l = [](int x) -> dd::task<int> { co_return x; };
  auto m = [](dd::with_resource<w::fat_res>) -> dd::task<int> { co_return 1; };
  auto n = []<typename T>(T x) -> dd::pmr::task<T> { co_return x; };
  (void)l(1), (void)m(1), (void)n(2);
}
//@ ok task_results: awaiting a task yields its result type
dd::task<int> a(); dd::task<void> b(); dd::task<int&> c(); dd::task<w::moveonly> d(); dd::task<const w::rich&> e();
dd::pmr::task<int> p(); dd::task_r<int&, w::empty_res> q(); dd::pmr::task<void> r();
dd::task<int> user() {
  AWAITS(int&&, a());
  
  AWAITS(int&, c());
  AWAITS(w::moveonly&&, d());
  AWAITS(const w::rich&, e());
  AWAITS(int&&, p());
  AWAITS(int&, q());
  
  int x = co_await a();
  co_await b();
  int& y = co_await c();
  w::moveonly z = co_await d();
  const w::rich& k = co_await e();
  x += co_await p();
  x += co_await q();
  co_await r();
  auto t = a();
  co_await t.wait();
  
  x += co_await t;
  auto t2 = p();
  co_await t2.wait();
  x += t2.get();
  (void)y, (void)z, (void)k;
  co_return x;
}
dd::async_task<int> from_async() { co_await b(); co_return co_await a(); }
dd::job from_job() { co_await b(); (void)co_await a(); }
dd::logical_thread from_thread() { co_await b(); (void)co_await a(); }
dd::channel<int> from_channel() { co_yield co_await a(); co_await b(); }
dd::pmr::task<int> from_pmr() { co_await r(); co_return co_await q(); }
dd::task<int> from_res(dd::with_resource<w::fat_res>) { co_await r(); co_return co_await p(); }
//@ ok task_interface: every member of task, on task, task_r and pmr tasks
using std::swap;
template <typename T>
void use(T t, T u) {
  T d;
  T m(std::move(t));
  m = std::move(u);
  SAME(bool, decltype(m.empty()));
  if (m) {}
  bool bb(m);
  (void)bb;
  SAME(typename T::handle_type, decltype(m.release()));
  SAME(typename T::handle_type, decltype(m.raw_handle()));
  SAME(typename T::handle_type, decltype(m.detach()));
  SAME(typename T::handle_type, decltype(m.start_and_detach()));
  SAME(typename T::handle_type, decltype(m.start_and_detach(true)));
  SAME(typename T::context_type*, decltype(m.get_context()));
  SAME(typename T::result_type, decltype(m.get()));
  auto h = m.raw_handle();
  (void)h.promise();
  (void)m.release();
  (void)m.detach();
  m.start_and_detach();
  m.start_and_detach(true);
  (void)m.get_context();
  (void)m.get();
  (void)m.wait();
  T from_handle(h);
  swap(m, d);
  static_assert(std::is_nothrow_default_constructible_v<T>);
  static_assert(std::movable<T> && std::swappable<T>);
}
template void use(dd::task<int>, dd::task<int>);
template void use(dd::task<void>, dd::task<void>);
template void use(dd::task<int&>, dd::task<int&>);
template void use(dd::task<w::moveonly>, dd::task<w::moveonly>);
template void use(dd::task<w::no_default>, dd::task<w::no_default>);
template void use(dd::task<int, w::my_ctx>, dd::task<int, w::my_ctx>);
template void use(dd::pmr::task<int>, dd::pmr::task<int>);
template void use(dd::pmr::task<void>, dd::pmr::task<void>);
template void use(dd::pmr::task<int&>, dd::pmr::task<int&>);
template void use(dd::pmr::task<w::moveonly>, dd::pmr::task<w::moveonly>);
template void use(dd::task_r<int, w::empty_res>, dd::task_r<int, w::empty_res>);
template void use(dd::task_r<void, w::lazy_res, w::my_ctx>, dd::task_r<void, w::lazy_res, w::my_ctx>);
//@ ok task_return_place: return_place in tasks of every kind of result
dd::task<int> rp_int() { int& x = co_await dd::this_coro::return_place; x = 1; co_return dd::rvo; }
dd::task<std::string> rp_str() { std::string& s = co_await dd::this_coro::return_place; s = "x"; co_return dd::rvo; }
dd::task<w::moveonly> rp_mo() { w::moveonly& s = co_await dd::this_coro::return_place; (void)s; co_return dd::rvo; }
dd::task<int&> rp_ref(int& v) { AWAITS(int*&, dd::this_coro::return_place); int*& p = co_await dd::this_coro::return_place; p = &v; co_return dd::rvo; }
dd::pmr::task<std::string> rp_pmr() { std::string& s = co_await dd::this_coro::return_place; s = "x"; co_return dd::rvo; }
dd::task<std::string> rp_res(dd::with_resource<w::fat_res>) { std::string& s = co_await dd::this_coro::return_place; s = "x"; co_return dd::rvo; }
dd::task_r<int, w::empty_res> rp_r() { int& s = co_await dd::this_coro::return_place; s = 1; co_return dd::rvo; }
dd::task<w::rich, w::my_ctx> rp_ctx() { w::rich& s = co_await dd::this_coro::return_place; (void)s; co_return dd::rvo; }
//@ ok task_context: contexts, this_coro::context, wait_with_proxy_owner
dd::task<int, w::my_ctx> c1() { w::my_ctx& c = co_await dd::this_coro::context; co_return c.started; }
dd::task<void, w::my_ctx> c2(dd::with_resource<w::fat_res>) { w::my_ctx& c = co_await dd::this_coro::context; c.started = 1; }
dd::pmr::task<int, w::my_ctx> c3() { AWAITS(w::my_ctx&, dd::this_coro::context); auto& c = co_await dd::this_coro::context; co_return c.started; }
dd::task<int> c4() { dd::null_context& c = co_await dd::this_coro::context; (void)c; co_return 1; }
dd::task_r<int&, w::empty_res, w::my_ctx> c5(int& x) { auto& c = co_await dd::this_coro::context; (void)c; co_return x; }
dd::task<int> owner() {
  auto t = c1();
  auto u = c3();
  dd::task<void> other;
  auto me = co_await dd::this_coro::handle;
  co_await t.wait_with_proxy_owner(me);
  co_await u.wait_with_proxy_owner(me);
  w::my_ctx* p = t.get_context();
  p = u.get_context();
  (void)p;
  co_return t.get() + u.get();
}
dd::job owner_job(dd::task<int, w::my_ctx> t) { co_await t.wait_with_proxy_owner(std::coroutine_handle<dd::job_promise>{}); }
//@ ok task_context_handles: a context sees typed handles of its owner and its task
struct ctx {
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept {
    (void)o.address();
    (void)t.promise().ctx;
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) noexcept { (void)t.promise().ctx; }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) noexcept { (void)t.promise().ctx; (void)t.promise().exception; }
};
dd::task<int, ctx> in() { co_return 1; }
dd::task<int&, ctx> inr(int& x) { co_return x; }
dd::pmr::task<void, ctx> inv() { co_return; }
dd::task<int, ctx> o1(int& x) { co_await inv(); co_return co_await in() + co_await inr(x); }
dd::async_task<int> o2() { co_return co_await in(); }
dd::job o3() { (void)co_await in(); }
dd::channel<int> o4() { co_yield co_await in(); }
//@ ok task_handles: this_coro::handle and operation_hash in every coroutine kind
dd::task<int> h1() { auto h = co_await dd::this_coro::handle; SAME(dd::task<int>::handle_type, decltype(h)); std::coroutine_handle<> u = h; (void)u; dd::operation_hash_t x = co_await dd::this_coro::operation_hash; co_return int(x); }
dd::task<void> h2(dd::with_resource<w::fat_res>) { auto h = co_await dd::this_coro::handle; SAME(dd::task<void>::handle_type, decltype(h)); (void)co_await dd::this_coro::operation_hash; }
dd::pmr::task<int&> h3(int& x) { auto h = co_await dd::this_coro::handle; SAME(dd::task<int&>::handle_type, decltype(h)); (void)co_await dd::this_coro::operation_hash; co_return x; }
dd::task_r<int, w::lazy_res> h4() { auto h = co_await dd::this_coro::handle; (void)h; co_return int(co_await dd::this_coro::operation_hash); }
dd::async_task<int> h5() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; co_return int(co_await dd::this_coro::operation_hash); }
dd::pmr::async_task<void> h6() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; }
dd::async_task<int&> h7(int& x, dd::with_resource<w::fat_res>) { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; co_return x; }
dd::job h8() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; }
dd::job_r<w::empty_res> h9() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; }
dd::job h10(dd::with_resource<w::fat_res>) { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; }
dd::logical_thread h11() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; }
dd::logical_thread_r<w::empty_res> h12() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; }
dd::channel<int> h13() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; co_yield int(co_await dd::this_coro::operation_hash); }
dd::pmr::channel<int> h14() { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; co_yield int(co_await dd::this_coro::operation_hash); }
dd::channel<int&> h15(int& x, dd::with_resource<w::fat_res>) { std::coroutine_handle<> h = co_await dd::this_coro::handle; (void)h; (void)co_await dd::this_coro::operation_hash; co_yield x; }
dd::generator<int> h16() { auto h = co_await dd::this_coro::handle; SAME(dd::generator<int>::handle_type, decltype(h)); co_yield int(co_await dd::this_coro::operation_hash); }
dd::pmr::generator<int&> h17(int& x) { auto h = co_await dd::this_coro::handle; SAME(dd::generator<int&>::handle_type, decltype(h)); (void)co_await dd::this_coro::operation_hash; co_yield x; }
dd::generator<int> h18(dd::with_resource<w::fat_res>) { auto h = co_await dd::this_coro::handle; SAME(dd::generator<int>::handle_type, decltype(h)); co_yield 1; }
//@ ok control_transfer: transfer, destroy and suspend_and awaitables in every coroutine kind
dd::task<void> x1() { co_await dd::transfer_control_to{nullptr}; co_await dd::this_coro::suspend_and([](std::coroutine_handle<> h) { return h; }); co_await dd::this_coro::suspend_and([](auto) {}); co_await dd::this_coro::suspend_and([](auto) { return true; }); }
dd::pmr::task<void> x2() { co_await dd::transfer_control_to{nullptr}; co_await dd::this_coro::suspend_and([](std::coroutine_handle<>) {}); auto f = [](auto h) { return h; }; co_await dd::this_coro::suspend_and(f); }
dd::job x3() { co_await dd::transfer_control_to{nullptr}; co_await dd::this_coro::destroy; }
dd::job x4(std::coroutine_handle<> h) { co_await dd::this_coro::destroy_and_transfer_control_to(h); }
dd::job x5(std::coroutine_handle<> h) { co_await dd::this_coro::destroy_and_transfer_control_to{h}; co_await dd::this_coro::destroy_and_transfer_control_to{}; }
dd::logical_thread x6() { co_await dd::transfer_control_to{nullptr}; co_await dd::this_coro::suspend_and([](auto) {}); }
dd::channel<int> x7() { co_await dd::transfer_control_to{nullptr}; co_await dd::this_coro::suspend_and([](auto) {}); co_yield 1; }
dd::async_task<void> x8() { co_await dd::transfer_control_to{nullptr}; co_await dd::this_coro::suspend_and([](auto) {}); co_await dd::this_coro::destroy; }
dd::generator<int> x9() { co_await std::suspend_never{}; co_await dd::transfer_control_to{nullptr}; co_yield 1; }
//@ ok build_awaiter: imitating co_await for awaiters and awaitables
struct mem { std::suspend_never operator co_await() const noexcept { return {}; } };
struct glob {};
std::suspend_never operator co_await(glob) { return {}; }
static_assert(dd::co_awaiter<std::suspend_always> && dd::co_awaitable<mem> && dd::co_awaitable<glob> && !dd::co_awaitable<int>);
static_assert(dd::co_awaitable<dd::task<int>&>);
static_assert(dd::has_member_co_await<mem> && !dd::has_member_co_await<glob> && dd::has_global_co_await<glob> && !dd::has_global_co_await<mem>);
void f(dd::task<int>& t, dd::event<int>& ev) {
  SAME(std::suspend_never, decltype(dd::build_awaiter(mem{})));
  SAME(std::suspend_never, decltype(dd::build_awaiter(glob{})));
  std::suspend_always s;
  SAME(std::suspend_always&, decltype(dd::build_awaiter(s)));
  (void)dd::build_awaiter(mem{}), (void)dd::build_awaiter(glob{}), (void)dd::build_awaiter(s);
  auto a = dd::build_awaiter(t);
  (void)a.await_ready();
  auto b = dd::build_awaiter(ev);
  (void)b.await_ready();
}
//@ ok scope_exit: scope_exit with lambdas and function objects
void f(int& x) {
  dd::scope_exit a{[&] { x = 1; }};
  dd::scope_exit b([&]() noexcept { x = 2; });
  dd::scope_exit c = [&] { return x; };
  static_assert(noexcept(b.~scope_exit()) && !noexcept(a.~scope_exit()));
}
