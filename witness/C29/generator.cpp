//@ ok generator_kinds: generators of every kind of value, plain, with_resource, generator_r and pmr
dd::generator<int> g1() { co_yield 1; int x = 2; co_yield x; const int y = 3; co_yield y; co_yield dd::by_ref{x}; }
dd::generator<std::string> g2() { co_yield "a"; std::string s; co_yield s; co_yield std::move(s); co_yield {}; }
dd::generator<w::moveonly> g3() { co_yield w::moveonly{}; w::moveonly m; co_yield std::move(m); co_yield dd::by_ref{m}; }
dd::generator<int&> g4(int& x) { co_yield x; co_yield dd::by_ref{x}; }
dd::generator<const int&> g5(const int& x, int& z) { co_yield x; co_yield z; co_yield 5; }
dd::generator<w::no_default> g6() { co_yield w::no_default(1); }
dd::generator<w::rich> g7(const w::rich& r) { co_yield r; co_yield w::rich{}; }
dd::generator<dd::nothing_t> g8() { co_yield nullptr; co_yield {}; co_yield dd::nothing_t{}; }
dd::generator<double> g9() { co_yield 1; }
dd::generator<int*> g10(int* p) { co_yield nullptr; co_yield p; }
dd::generator<std::unique_ptr<int>> g11() { co_yield std::make_unique<int>(1); co_yield nullptr; }

dd::generator<int> r1(dd::with_resource<w::fat_res>) { co_yield 1; int x = 1; co_yield x; co_yield dd::by_ref{x}; }
dd::generator<int> r2(dd::with_resource<w::empty_res>) { co_yield 1; const int x = 1; co_yield x; }
dd::generator<int&> r3(int& x, dd::with_pmr_resource) { co_yield x; }
dd::generator<std::string> r4(dd::with_stack_resource) { std::string s; co_yield s; co_yield "a"; }
dd::generator<dd::nothing_t> r5(dd::with_resource<w::fat_res>) { co_yield {}; }
dd::generator<int> r6(dd::with_default_resource) { int x = 1; co_yield x; }
dd::generator_r<int, w::empty_res> q1() { int x = 1; co_yield x; co_yield 1; }
dd::generator_r<int&, w::lazy_res> q2(int& x) { co_yield x; }
dd::generator_r<std::string, dd::new_delete_resource> q3() { co_yield "a"; }
dd::generator_r<int, w::fat_res> q4(dd::with_resource<w::fat_res>) { co_yield 1; }
dd::pmr::generator<int> p1() { int x = 1; co_yield x; co_yield 2; co_yield dd::by_ref{x}; }
dd::pmr::generator<int&> p2(int& x) { co_yield x; }
dd::pmr::generator<w::moveonly> p3() { co_yield w::moveonly{}; }
dd::pmr::generator<dd::nothing_t> p4() { co_yield {}; }
//@ ok generator_nested: elements_of generators, ranges and foreign resources
dd::generator<int> plain(); dd::pmr::generator<int> poly(); dd::generator_r<int, w::empty_res> er(); dd::generator<int> res(dd::with_resource<w::fat_res>);
dd::generator<int> n1() {
  co_yield dd::elements_of(plain());
  co_yield dd::elements_of(poly());
  co_yield dd::elements_of(er());
  co_yield dd::elements_of(res(1));
  auto g = plain();
  co_yield dd::elements_of(g);
  co_yield dd::elements_of(std::move(g));
  auto pg = poly();
  co_yield dd::elements_of(pg);
  std::vector<int> v;
  co_yield dd::elements_of(v);
  co_yield dd::elements_of(std::vector<int>{1, 2});
  co_yield dd::elements_of(std::views::iota(1, 3));
  co_yield dd::elements_of(std::span<int>(v));
  int arr[3] = {};
  co_yield dd::elements_of(arr);


}
dd::pmr::generator<int> n2() { co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(er()); co_yield dd::elements_of(std::vector<int>{}); }
dd::generator<int> n3(dd::with_resource<w::fat_res>) { co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(res(2)); co_yield dd::elements_of(std::vector<int>{}); }
dd::generator_r<int, w::empty_res> n4() { co_yield dd::elements_of(plain()); co_yield dd::elements_of(poly()); co_yield dd::elements_of(er()); }
dd::generator<double> n5() { co_yield dd::elements_of(std::vector<double>{}); co_yield dd::elements_of(std::vector<int>{}); co_yield dd::elements_of(plain()); }
dd::generator<int&> n6(std::vector<int>& v) { co_yield dd::elements_of(v); std::vector<int> o; co_yield dd::elements_of(o); }
dd::generator<const int&> n7(std::vector<int>& v) { co_yield dd::elements_of(v); }
dd::generator<std::string> n8() { co_yield dd::elements_of(std::vector<std::string>{}); std::vector<std::string> v; co_yield dd::elements_of(v); }
dd::generator<w::moveonly> n9() { co_yield dd::elements_of(std::vector<w::moveonly>(3)); }
dd::generator<dd::nothing_t> n10() { dd::generator<dd::nothing_t> g; co_yield dd::elements_of(g); co_yield dd::elements_of(n10()); }
//@ ok generator_interface: every member of generator, on generator, generator_r and pmr
template <typename Y, typename T>
void use(T t, T u) {
  T d;
  T m(std::move(t));
  m = std::move(u);
  m.swap(d);
  swap(m, d);
  const T& c = m;
  SAME(bool, decltype(c.empty()));
  (void)c.empty();
  if (c) {}
  (void)(c == d);
  (void)(c != d);
  SAME(typename T::handle_type, decltype(m.release()));
  SAME(typename T::handle_type, decltype(c.raw_handle()));
  m.reset(m.release());
  (void)c.raw_handle();
  m.clear();
  SAME(dd::generator_iterator<Y>, decltype(m.begin()));
  SAME(std::default_sentinel_t, decltype(m.end()));
  auto it = m.begin();
  auto it2 = m.cur_iterator();
  it2 = it;
  (void)it.equivalent(it2);
  SAME(dd::generator<Y>&, decltype(it.owner()));
  ++it;
  it++;
  (void)(it == m.end());
  (void)(it != std::default_sentinel);
  (void)*it;
  for (auto&& x : m) (void)x;
  for (auto&& x : T(std::move(m))) (void)x;
  static_assert(std::ranges::input_range<T> && std::ranges::input_range<T&>);
  static_assert(std::input_iterator<typename T::iterator>);
  static_assert(std::movable<T> && std::is_nothrow_default_constructible_v<T>);
}
template void use<int>(dd::generator<int>, dd::generator<int>);
template void use<int&>(dd::generator<int&>, dd::generator<int&>);
template void use<const int&>(dd::generator<const int&>, dd::generator<const int&>);
template void use<w::moveonly>(dd::generator<w::moveonly>, dd::generator<w::moveonly>);
template void use<std::string>(dd::generator<std::string>, dd::generator<std::string>);
template void use<dd::nothing_t>(dd::generator<dd::nothing_t>, dd::generator<dd::nothing_t>);
template void use<int>(dd::generator_r<int, w::empty_res>, dd::generator_r<int, w::empty_res>);
template void use<int>(dd::pmr::generator<int>, dd::pmr::generator<int>);
template void use<int&>(dd::pmr::generator<int&>, dd::pmr::generator<int&>);
//@ ok generator_deref: what dereferencing yields, arrow and output iterators
void f(dd::generator<int> a, dd::generator<int&> b, dd::generator<std::string> c, dd::generator<const int&> d, dd::generator<dd::nothing_t> n, dd::pmr::generator<int> p) {
  SAME(int&&, decltype(*a.begin()));
  SAME(int&, decltype(*b.begin()));
  SAME(std::string&&, decltype(*c.begin()));
  SAME(const int&, decltype(*d.begin()));
  SAME(dd::nothing_t, decltype(*n.begin()));
  SAME(int&&, decltype(*p.begin()));
  (void)c.begin()->size();
  SAME(int*, decltype(a.begin().operator->()));
  (void)a.begin().operator->(), (void)b.begin().operator->();
  auto o = a.begin().out();
  SAME(dd::generator_output_iterator<int>, decltype(o));
  SAME(int&, decltype(*o));
  *o = 4;
  ++o;
  o++;
  *o++ = 5;
  auto q = p.begin().out();
  std::vector<int> v;
  std::copy(v.begin(), v.end(), o);
  std::copy(v.begin(), v.end(), q);
  std::copy(v.begin(), v.end(), dd::generator<int>(std::move(a)).begin().out());
  *b.begin().out() = 3;
  *c.begin().out() = "x";
  static_assert(std::output_iterator<dd::generator_output_iterator<int>, int>);
  static_assert(std::output_iterator<dd::generator_output_iterator<std::string>, std::string>);
  static_assert(std::output_iterator<dd::generator_output_iterator<int&>, int>);
}
//@ ok generator_ranges: generators with standard range machinery
void f(dd::generator<int> a, dd::pmr::generator<int> p) {
  auto r = std::ranges::subrange(a.begin(), a.end());
  for (int x : r | std::views::filter([](int x) { return x > 1; }) | std::views::take(3)) (void)x;
  for (int x : std::views::transform(std::ranges::ref_view(p), [](int x) { return x * 2; })) (void)x;
  for (int x : std::move(a) | std::views::take(2)) (void)x;
  (void)std::ranges::distance(p);
  std::vector<int> v;
  std::ranges::copy(p, std::back_inserter(v));
}
//@ ok inplace_kinds: inplace generators of every kind of value
dd::inplace_generator<int> i1() { co_yield 1; int x = 2; co_yield x; const int y = 3; co_yield y; co_yield dd::by_ref{x}; }
dd::inplace_generator<std::string> i2() { co_yield "a"; std::string s; co_yield s; co_yield std::move(s); }
dd::inplace_generator<w::moveonly> i3() { co_yield w::moveonly{}; }
dd::inplace_generator<int&> i4(int& x) { co_yield x; co_yield dd::by_ref{x}; }
dd::inplace_generator<const int&> i5(int& x, const int& y) { co_yield x; co_yield y; co_yield 5; }
dd::inplace_generator<w::no_default> i6() { co_yield w::no_default(1); }
dd::inplace_generator<int> i7() { co_return; }
//@ ok inplace_interface: every member of inplace_generator
template <typename Y>
void use(dd::inplace_generator<Y> t, dd::inplace_generator<Y> u) {
  using T = dd::inplace_generator<Y>;
  T m(std::move(t));
  m = std::move(u);
  m.swap(t);
  swap(m, t);
  const T& c = m;
  SAME(bool, decltype(c.empty()));
  (void)c.empty();
  if (c) {}
  SAME(dd::inplace_generator_iterator<Y>, decltype(c.begin()));
  SAME(std::default_sentinel_t, decltype(c.end()));
  auto it = c.begin();
  ++it;
  it++;
  (void)*it;
  SAME(Y&&, decltype(*it));
  SAME(std::add_pointer_t<Y>, decltype(it.operator->()));
  (void)it.operator->();
  (void)(it == c.end());
  for (auto&& x : m) (void)x;
  for (auto&& x : c) (void)x;
  static_assert(std::ranges::input_range<T> && std::input_iterator<typename T::iterator>);
  static_assert(std::movable<T>);
}
template void use(dd::inplace_generator<int>, dd::inplace_generator<int>);
template void use(dd::inplace_generator<int&>, dd::inplace_generator<int&>);
template void use(dd::inplace_generator<const int&>, dd::inplace_generator<const int&>);
template void use(dd::inplace_generator<w::moveonly>, dd::inplace_generator<w::moveonly>);
template void use(dd::inplace_generator<std::string>, dd::inplace_generator<std::string>);
dd::generator<int> nested() { dd::inplace_generator<int> g = []() -> dd::inplace_generator<int> { co_yield 1; }(); co_yield dd::elements_of(g); co_yield dd::elements_of(std::move(g)); }
