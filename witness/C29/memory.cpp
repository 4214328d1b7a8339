//@ ok memory_resource_concept: what counts as a memory resource
static_assert(dd::memory_resource<w::empty_res> && dd::memory_resource<w::fat_res> && dd::memory_resource<w::lazy_res> && dd::memory_resource<dd::new_delete_resource> && dd::memory_resource<dd::pmr::polymorphic_resource>);
static_assert(dd::memory_resource<dd::chunk_from<w::fat_res>> && dd::memory_resource<dd::chunk_from<std::pmr::memory_resource>> && dd::memory_resource<dd::chunk_from<dd::stack_resource>> && dd::memory_resource<dd::chunk_from<w::empty_res>>);
static_assert(!dd::memory_resource<int> && !dd::memory_resource<w::fat_res&>);
//@ ok with_resource: building and copying with_resource
void f(w::fat_res& r, std::pmr::memory_resource& m, dd::stack_resource& s, w::empty_res& e) {
  dd::with_resource<w::fat_res> a(r), b(1), c = a, d = std::as_const(a), x = std::move(a);
  dd::with_resource y(r);
  SAME(dd::with_resource<w::fat_res>, decltype(y));
  dd::with_resource z(m);
  SAME(dd::with_pmr_resource, decltype(z));
  dd::with_resource zz{m};
  SAME(dd::with_pmr_resource, decltype(zz));
  dd::with_pmr_resource p = m, p2 = p;
  dd::with_stack_resource q = s, q2 = q;
  dd::with_resource<dd::chunk_from<w::fat_res>> k = r, k2 = k;
  dd::with_default_resource g, h = g;
  dd::with_resource<w::empty_res> n, n2 = e, n3 = n;
  (void)p2.resource.resource();
  dd::with_resource cp = z;
  SAME(dd::with_pmr_resource, decltype(cp));
}
//@ ok resource_traits: deduction of the resource from an argument list
static_assert(dd::last_is_memory_resource_tag<int, dd::with_resource<w::fat_res>> && dd::last_is_memory_resource_tag<dd::with_pmr_resource&> && dd::last_is_memory_resource_tag<int&, const dd::with_pmr_resource&>);
static_assert(!dd::last_is_memory_resource_tag<> && !dd::last_is_memory_resource_tag<dd::with_resource<w::fat_res>, int> && !dd::last_is_memory_resource_tag<int>);
SAME(w::fat_res, dd::resource_type_t<int, dd::with_resource<w::fat_res>>);
SAME(w::fat_res, dd::resource_type_t<int, const dd::with_resource<w::fat_res>&>);
SAME(void, dd::resource_type_t<int>);
SAME(void, dd::resource_type_t<>);
template <typename C, typename... A>
using P = typename std::coroutine_traits<C, A...>::promise_type;
SAME(P<dd::task<int>>, dd::task<int>::promise_type);
SAME(P<dd::task<int>, int, dd::with_default_resource>, dd::task<int>::promise_type);
SAME(P<dd::task<int>, dd::with_resource<w::fat_res>>, dd::resourced_promise<dd::task<int>::promise_type, w::fat_res>);
SAME(P<dd::pmr::task<int>, int>, dd::resourced_promise<dd::task<int>::promise_type, dd::pmr::polymorphic_resource>);
SAME(P<dd::pmr::task<int>, int, dd::with_resource<w::fat_res>>, dd::resourced_promise<dd::task<int>::promise_type, dd::pmr::polymorphic_resource>);
//@ ok pmr_globals: get/set of the default resource and pass_resource
void f(std::pmr::memory_resource& m) {
  SAME(std::pmr::memory_resource&, decltype(dd::pmr::get_default_resource()));
  SAME(std::pmr::memory_resource&, decltype(dd::pmr::set_default_resource(m)));
  SAME(void, decltype(dd::pmr::pass_resource(m)));
  dd::pmr::set_default_resource(m);
  dd::pmr::pass_resource(m);
  (void)dd::pmr::get_default_resource();
  static_assert(noexcept(dd::pmr::get_default_resource()) && noexcept(dd::pmr::set_default_resource(m)) && noexcept(dd::pmr::pass_resource(m)));
  dd::pmr::polymorphic_resource a, b(m);
  (void)a.allocate(1);
  b.deallocate(nullptr, 1);
}
//@ ok stack_resource: every operation of stack_resource
alignas(dd::coroframe_align()) unsigned char buf[1024];
void f() {
  dd::stack_resource a, b(std::span<unsigned char>(buf, sizeof(buf))), c(std::move(a));
  a = std::move(c);
  void* p = b.allocate(10);
  b.deallocate(p, 10);
  b.reuse_memory();
  static_assert(std::is_nothrow_move_constructible_v<dd::stack_resource> && std::is_nothrow_move_assignable_v<dd::stack_resource>);
}
constinit dd::stack_resource glob{};
dd::task<int> t(dd::with_stack_resource r) { co_return 1; }
dd::task<int> u(dd::with_stack_resource r) { co_return co_await t(r); }
dd::generator<int> g(dd::with_stack_resource r) { co_yield 1; }
dd::async_task<int> k(dd::with_stack_resource r) { co_return co_await t(r); }
//@ ok decay: a resourced coroutine decays to its plain type
template <typename T, typename P>
void f(T t, const T c) {
  SAME(P&, decltype(t.decay()));
  SAME(P&&, decltype(std::move(t).decay()));
  SAME(const P&, decltype(c.decay()));
  SAME(const P&&, decltype(std::move(c).decay()));
  (void)t.decay(), (void)c.decay(), (void)std::move(c).decay();
  P p = std::move(t);
  P q(std::move(t).decay());
  p = std::move(t);
  T back(std::move(p));
  back = std::move(q);
}
template void f<dd::pmr::task<int>, dd::task<int>>(dd::pmr::task<int>, const dd::pmr::task<int>);
template void f<dd::pmr::generator<int>, dd::generator<int>>(dd::pmr::generator<int>, const dd::pmr::generator<int>);
template void f<dd::pmr::channel<int>, dd::channel<int>>(dd::pmr::channel<int>, const dd::pmr::channel<int>);
template void f<dd::pmr::async_task<int>, dd::async_task<int>>(dd::pmr::async_task<int>, const dd::pmr::async_task<int>);
template void f<dd::pmr::logical_thread<int>, dd::logical_thread>(dd::pmr::logical_thread<int>, const dd::pmr::logical_thread<int>);
template void f<dd::pmr::job<int>, dd::job>(dd::pmr::job<int>, const dd::pmr::job<int>);
//@ ok fixed_array: the pool's array
void f(std::pmr::memory_resource& m) {
  dd::noexport::fixed_array<dd::task_queue> a, b(3), c(3, m), d(std::move(a));
  d = std::move(b);
  const auto& k = d;
  SAME(std::size_t, decltype(k.size()));
  (void)d[0], (void)k[0], (void)d.begin(), (void)d.end(), (void)k.begin(), (void)k.end(), (void)k.size(), (void)d.data(), (void)k.data(), (void)k.get_resource();
}
