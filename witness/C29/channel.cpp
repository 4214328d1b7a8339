//@ ok channel_kinds: channels of every kind of value, plain, with_resource, channel_r and pmr
dd::channel<int> g1() { co_yield 1; int x = 2; co_yield x; const int y = 3; co_yield y; co_yield dd::by_ref{x}; co_await std::suspend_never{}; }
dd::channel<std::string> g2() { co_yield "a"; std::string s; co_yield s; co_yield std::move(s); co_yield {}; }
dd::channel<w::moveonly> g3() { co_yield w::moveonly{}; w::moveonly m; co_yield std::move(m); co_yield dd::by_ref{m}; }
dd::channel<int&> g4(int& x) { co_yield x; co_yield dd::by_ref{x}; }
dd::channel<const int&> g5(const int& x, int& z) { co_yield x; co_yield z; co_yield 5; }
dd::channel<w::no_default> g6() { co_yield w::no_default(1); }
dd::channel<w::rich> g7(const w::rich& r) { co_yield r; co_yield w::rich{}; }
dd::channel<double> g9() { co_yield 1; }
dd::channel<std::unique_ptr<int>> g11() { co_yield std::make_unique<int>(1); co_yield nullptr; }
dd::channel<int> r1(dd::with_resource<w::fat_res>) { co_yield 1; int x = 1; co_yield x; co_yield dd::by_ref{x}; }
dd::channel<int> r2(dd::with_resource<w::empty_res>) { co_yield 1; const int x = 1; co_yield x; }
dd::channel<int&> r3(int& x, dd::with_pmr_resource) { co_yield x; }
dd::channel<std::string> r4(dd::with_stack_resource) { std::string s; co_yield s; co_yield "a"; }
dd::channel<int> r6(dd::with_default_resource) { int x = 1; co_yield x; }
dd::channel_r<int, w::empty_res> q1() { int x = 1; co_yield x; co_yield 1; }
dd::channel_r<int&, w::lazy_res> q2(int& x) { co_yield x; }
dd::channel_r<std::string, dd::new_delete_resource> q3() { co_yield "a"; }
dd::channel_r<int, w::fat_res> q4(dd::with_resource<w::fat_res>) { co_yield 1; }
dd::pmr::channel<int> p1() { int x = 1; co_yield x; co_yield 2; co_yield dd::by_ref{x}; }
dd::pmr::channel<int&> p2(int& x) { co_yield x; }
dd::pmr::channel<w::moveonly> p3() { co_yield w::moveonly{}; }
//@ ok channel_nested: elements_of channels, ranges, foreign resources and other value types
dd::channel<int> plain(); dd::pmr::channel<int> poly(); dd::channel_r<int, w::empty_res> er(); dd::channel<int> res(dd::with_resource<w::fat_res>);
dd::channel<int> n1() {
  co_yield dd::elements_of(plain());
  co_yield dd::elements_of(poly());
  co_yield dd::elements_of(er());
  co_yield dd::elements_of(res(1));
  auto g = plain();
  co_yield dd::elements_of(g);
  co_yield dd::elements_of(std::move(g));
  auto pg = poly();
  co_yield dd::elements_of(pg);
  std::vector<int> v;
  co_yield dd::elements_of(v);
  co_yield dd::elements_of(std::vector<int>{1, 2});
  co_yield dd::elements_of(std::views::iota(1, 3));
  co_yield dd::elements_of(std::span<int>(v));
  int arr[3] = {};
  co_yield dd::elements_of(arr);
}
dd::pmr::channel<int> n2() { co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(er()); co_yield dd::elements_of(std::vector<int>{}); }
dd::channel<int> n3(dd::with_resource<w::fat_res>) { co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(res(2)); co_yield dd::elements_of(std::vector<int>{}); }
dd::channel_r<int, w::empty_res> n4() { co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(er()); }
dd::channel<double> n5() { co_yield dd::elements_of(std::vector<double>{}); co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(res(2)); auto c = plain(); co_yield dd::elements_of(c); co_yield dd::elements_of(std::vector<int>{}); }
dd::channel<int&> n6(std::vector<int>& v) { co_yield dd::elements_of(v); }
dd::channel<std::string> n8() { co_yield dd::elements_of(std::vector<std::string>{}); std::vector<std::string> v; co_yield dd::elements_of(v); }
dd::channel<w::moveonly> n9() { co_yield dd::elements_of(std::vector<w::moveonly>(3)); }
dd::channel<int> n10() { dd::generator<int> g; co_yield dd::elements_of(g); co_yield dd::elements_of(std::move(g)); }
//@ ok channel_interface: every member of channel, on channel, channel_r and pmr
template <typename Y, typename T>
dd::task<void> use(T t, T u) {
  T d;
  T m(std::move(t));
  m = std::move(u);
  m.swap(d);
  swap(m, d);
  const T& c = m;
  SAME(bool, decltype(c.empty()));
  (void)c.empty();
  if (c) {}
  (void)(c == d);
  (void)(c != d);
  SAME(typename T::handle_type, decltype(m.release()));
  SAME(typename T::handle_type, decltype(c.raw_handle()));
  SAME(std::exception_ptr, decltype(m.take_exception()));
  m.reset(m.release());
  (void)c.raw_handle();
  (void)m.take_exception();
  m.clear();
  SAME(std::default_sentinel_t, decltype(m.end()));
  auto it = co_await m.begin();
  SAME(dd::channel_iterator<Y>, decltype(it));
  (void)it.equivalent(it);
  SAME(dd::channel<Y>&, decltype(it.owner()));
  co_await ++it;
  (void)(it == m.end());
  (void)(it != std::default_sentinel);
  SAME(Y&&, decltype(*it));
  (void)*it;
  (void)it.operator->();
  AWAITS(std::add_pointer_t<Y>, m.next());
  while (auto* p = co_await m.next()) (void)p;
  for (auto b = co_await m.begin(); b != m.end(); (void)(co_await (++b))) (void)*b;
  co_foreach(auto&& x, m) (void)x;
  co_foreach(Y&& x, T(std::move(m))) (void)x;
  static_assert(std::movable<T> && std::is_nothrow_default_constructible_v<T>);
}
template dd::task<void> use<int>(dd::channel<int>, dd::channel<int>);
template dd::task<void> use<int&>(dd::channel<int&>, dd::channel<int&>);
template dd::task<void> use<const int&>(dd::channel<const int&>, dd::channel<const int&>);
template dd::task<void> use<w::moveonly>(dd::channel<w::moveonly>, dd::channel<w::moveonly>);
template dd::task<void> use<std::string>(dd::channel<std::string>, dd::channel<std::string>);
template dd::task<void> use<int>(dd::channel_r<int, w::empty_res>, dd::channel_r<int, w::empty_res>);
template dd::task<void> use<int>(dd::pmr::channel<int>, dd::pmr::channel<int>);
template dd::task<void> use<int&>(dd::pmr::channel<int&>, dd::pmr::channel<int&>);
//@ ok channel_consumers: channels consumed from every coroutine kind
dd::channel<int> ch(); dd::pmr::channel<int> pc();
dd::async_task<void> c1() { co_foreach(int x, ch()) (void)x; co_foreach(int x, pc()) (void)x; }
dd::pmr::async_task<void> c2() { co_foreach(int x, ch()) (void)x; auto c = pc(); (void)co_await c.next(); }
dd::job c3() { co_foreach(int x, ch()) (void)x; }
dd::logical_thread c4() { co_foreach(int x, ch()) (void)x; }
dd::channel<int> c5() { co_foreach(int x, ch()) co_yield x; co_foreach(int x, pc()) co_yield x; }
dd::pmr::channel<int> c6() { co_foreach(int x, ch()) co_yield x; }
dd::task<int> c7(dd::with_resource<w::fat_res>) { co_foreach(int x, ch()) co_return x; co_return 0; }
dd::pmr::task<int> c8() { auto c = ch(); int* p = co_await c.next(); co_return *p; }
