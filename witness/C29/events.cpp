//@ ok event_interface: events with every kind of input, awaited, notified and with callbacks
struct input { int x = 0; std::string s; };
template <typename C>
C wait(dd::event<int>& a, dd::event<void>& b, dd::event<std::string>& c, dd::event<input>& d) {
  AWAITS(int, a);
  AWAITS(std::string, c);
  int x = co_await a;
  (void)co_await b;
  std::string s = co_await c;
  input i = co_await d;
  auto&& [p, q] = co_await d;
  (void)x, (void)s, (void)i, (void)p, (void)q;
  co_return;
}
#define EV dd::event<int>&, dd::event<void>&, dd::event<std::string>&, dd::event<input>&
template dd::task<void> wait(EV);
template dd::async_task<void> wait(EV);
template dd::job wait(EV);
template dd::logical_thread wait(EV);
template dd::channel<int> wait(EV);
template dd::pmr::task<void> wait(EV);
template dd::pmr::job<void> wait(EV);
template dd::pmr::logical_thread<int> wait(EV);
void notify(dd::event<int>& a, dd::event<void>& b, dd::event<std::string>& c, dd::thread_pool& p, dd::worker& k, dd::strand s, w::my_exec& e, dd::any_executor_ref r) {
  SAME(bool, decltype(a.notify_all(p, 1)));
  SAME(bool, decltype(b.notify_all(p)));
  a.notify_all(p, 1);
  a.notify_all(k, 1);
  a.notify_all(s, 1);
  a.notify_all(e, 1);
  a.notify_all(r, 1);
  a.notify_all(dd::this_thread_executor, 1);
  a.notify_all(dd::noop_executor, 1);
  a.notify_all(dd::strand(k), 1);
  b.notify_all(p);
  b.notify_all(k);
  b.notify_all(s);
  b.notify_all(e);
  b.notify_all(r);
  b.notify_all(dd::this_thread_executor);
  c.notify_all(p, "abc");
  c.notify_all(dd::new_thread_executor, std::string("x"));
}
void callbacks(dd::event<int>& a, dd::event<void>& b, dd::event<std::string>& c) {
  a.set_callback([](int) {});
  a.set_callback([x = w::moveonly{}](const int&) {});
  auto l = [](int) {};
  a.set_callback(l);
  b.set_callback([] {});
  b.set_callback([x = w::moveonly{}] { return 1; });
  c.set_callback([](std::string) {});
  c.set_callback([](std::string&&) {});
  c.set_callback([](const auto&) {});
}
//@ ok event_v: named events
struct tag;
dd::task<int> f(w::my_exec& e) {
  (void)co_await dd::event_v<void>;
  dd::event_v<int, tag>.notify_all(e, 4);
  dd::event_v<void, tag>.notify_all(e);
  co_return co_await dd::event_v<int, tag>;
}
constinit dd::event<int> own{};
//@ ok event_groups: when_all and when_any over events
dd::task<void> f(dd::event<int>& a, dd::event<void>& b, dd::event<std::string>& c) {
  auto t = co_await dd::when_all(a, b, c);
  SAME(std::tuple<int, dd::nullstruct, std::string>, decltype(t));
  auto one = co_await dd::when_all(a);
  SAME(std::tuple<int>, decltype(one));
  auto [x, y] = co_await dd::when_all(a, c);
  auto v = co_await dd::when_any(a, b, c);
  SAME(std::variant<int, dd::nullstruct, std::string>, decltype(v));
  auto u = co_await dd::when_any(a, b);
  auto vv = co_await dd::when_any(b, b);
  auto av = co_await dd::when_all(b, b);
  (void)std::get<0>(u);
  (void)x, (void)y, (void)vv, (void)av;
}
dd::pmr::async_task<int> g(dd::event<int>& a, dd::event<void>& b) { auto t = co_await dd::when_all(a, b); auto v = co_await dd::when_any(a, b); co_return std::get<0>(t) + int(v.index()); }
dd::job h(dd::event<int>& a, dd::event<void>& b) { (void)co_await dd::when_all(a, b); (void)co_await dd::when_any(a, b); }
//@ ok task_groups: when_all and when_any over tasks, with every kind of result and context
using dd::task;
dd::task<int> f(task<int> a, task<void> b, task<std::string> c, task<w::moveonly> m, std::vector<task<int>> v, std::vector<task<void>> vv) {
  auto r = co_await dd::when_all(std::move(a), std::move(b), std::move(c));
  SAME(std::tuple<dd::expected<int, std::exception_ptr>, dd::expected<void, std::exception_ptr>, dd::expected<std::string, std::exception_ptr>>, decltype(r));
  auto one = co_await dd::when_all(task<int>());
  auto w = co_await dd::when_all(std::move(v));
  SAME(std::vector<dd::expected<int, std::exception_ptr>>, decltype(w));
  auto ww = co_await dd::when_all(std::move(vv));
  auto y = co_await dd::when_any(task<int>(), task<void>(), task<std::string>());
  SAME(std::variant<std::monostate, dd::expected<int, std::exception_ptr>, dd::expected<void, std::exception_ptr>, dd::expected<std::string, std::exception_ptr>>, decltype(y));
  auto z = co_await dd::when_any(task<int>(), std::move(m));
  auto s = co_await dd::when_any(task<void>(), task<void>());
  auto k = co_await dd::when_any(task<int>());
  auto& e = std::get<1>(y);
  (void)*e, (void)e.error(), (void)e.has_value();
  (void)std::get<0>(one), (void)ww, (void)z, (void)s, (void)k;
  if (std::get<0>(r)) co_return *std::get<0>(r);
  co_return 1;
}
dd::task<int, w::my_ctx> g(task<int, w::my_ctx> a, task<void, w::my_ctx> b, std::vector<task<int, w::my_ctx>> v) {
  auto t = co_await dd::when_all(std::move(a), std::move(b));
  auto u = co_await dd::when_any(task<int, w::my_ctx>(), task<void, w::my_ctx>());
  auto x = co_await dd::when_all(std::move(v));
  SAME(decltype(dd::when_all(task<int, w::my_ctx>())), dd::task<std::tuple<dd::expected<int, std::exception_ptr>>, w::my_ctx>);
  SAME(decltype(dd::when_any(task<int, w::my_ctx>())), dd::task<std::variant<std::monostate, dd::expected<int, std::exception_ptr>>, w::my_ctx>);
  (void)t, (void)u, (void)x;
  co_return 1;
}
void blocking(task<int> a, task<int> b) { auto r = dd::when_all(std::move(a), std::move(b)).get(); (void)*std::get<0>(r); }
//@ ok expected: every operation of expected
template <typename T, typename E>
void use(dd::expected<T, E> e, const dd::expected<T, E> c) {
  dd::expected<T, E> d;
  dd::expected<T, E> u = dd::unexpected<E>(w::make<E>());
  dd::expected<T, E> v = dd::unexpected(w::make<E>());
  if (e) {}
  SAME(bool, decltype(c.has_value()));
  (void)c.has_value();
  SAME(E&, decltype(e.error()));
  SAME(const E&, decltype(c.error()));
  (void)e.error(), (void)c.error();
  if constexpr (!std::is_void_v<T>) {
    SAME(T&, decltype(*e));
    SAME(const T&, decltype(*c));
    (void)*e, (void)*c;
    dd::expected<T, E> x = T();
    e = T();
  }
  e = std::move(u);
  dd::expected<T, E> m(std::move(e));
  if constexpr (std::copy_constructible<dd::expected<T, E>>) {
    dd::expected<T, E> k(m), k2(c), k3(std::as_const(m));
    k = m;
    k = c;
  }
}
template void use(dd::expected<int, std::exception_ptr>, const dd::expected<int, std::exception_ptr>);
template void use(dd::expected<void, std::exception_ptr>, const dd::expected<void, std::exception_ptr>);
template void use(dd::expected<std::string, int>, const dd::expected<std::string, int>);
template void use(dd::expected<w::rich, std::exception_ptr>, const dd::expected<w::rich, std::exception_ptr>);
void mo(dd::expected<w::moveonly, std::exception_ptr>& e) { dd::expected<w::moveonly, std::exception_ptr> f(std::move(e)); e = std::move(f); (void)*e, (void)e.error(); e = w::moveonly{}; }
