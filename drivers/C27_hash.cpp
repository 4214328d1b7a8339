// C27: the same coroutine is always given to the same, existing queue.
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/task.hpp>
#include <kelcoro/thread_pool.hpp>
#include "client.hpp"

using dd::calculate_operation_hash;
static void nothing(dd::task_queue&) {}
#ifdef VA_THOROUGH
constexpr int sizes = 5;
#else
constexpr int sizes = 4;
#endif

// ------------------------------------------------------------------------------------------------ which queue
DRIVER(select) {
  const int n = 1 + va_choice(sizes);
  dd::thread_pool p(n, nothing);
  const std::size_t h = va_size();
  dd::task_queue* q = &p.select_queue(h);
  REQUIRE(q == &p.queues_range()[h % n]);
  REQUIRE(&p.select_queue(h) == q);
  REQUIRE(&p.get_strand(h).get_queue() == q);
  // small numbers, and the largest one
  for (int i = 0; i < 2 * n; ++i)
    REQUIRE(&p.select_queue(i) == &p.queues_range()[i % n]);
  REQUIRE(&p.select_queue(~std::size_t(0)) == &p.queues_range()[~std::size_t(0) % n]);
}
// a node put in by hand goes where the hash of its coroutine says
struct held {
  dd::task_node node;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept { node.task = h; }
  void await_resume() const noexcept {}
};
static client holder(held& h) { co_await h; }
static dd::task_node* only_in(dd::thread_pool& p, dd::task_queue& q) {
  dd::task_node* r = q.pop_all();
  for (dd::task_queue& x : p.queues_range())
    REQUIRE(x.pop_all() == nullptr);
  return r;
}
DRIVER(attach) {
  held h, g;
  holder(h);
  holder(g);
  dd::thread_pool p(1 + va_choice(sizes - 1), nothing);
  dd::task_queue& q = p.select_queue(calculate_operation_hash(h.node.task));
  p.attach(&h.node);
  REQUIRE(only_in(p, q) == &h.node);
  // once more, from another place and after another one
  p.attach(&g.node);
  dd::any_executor_ref e(p);
  e.attach(&h.node);
  int hs = 0, gs = 0;
  for (dd::task_queue& x : p.queues_range())
    for (dd::task_node* l = x.pop_all(); l; l = l->next)
      if (l == &h.node && &x == &q)
        ++hs;
      else if (l == &g.node && &x == &p.select_queue(calculate_operation_hash(g.node.task)))
        ++gs;
      else
        REQUIRE(!"a node in a wrong queue");
  REQUIRE(hs == 1 && gs == 1);
  h.node.task.resume();
  g.node.task.resume();
}
// jump_on
struct ghost {
  std::coroutine_handle<> me;
  std::size_t typed = 0;
  bool over = false;
};
static client jumper(ghost& g, dd::thread_pool& p) {
  auto h = co_await dd::this_coro::handle;
  g.me = h;
  REQUIRE((co_await dd::this_coro::operation_hash) == calculate_operation_hash(h));
  (void)co_await dd::jump_on(p);
  (void)co_await dd::jump_on(p);
  g.over = true;
}
DRIVER(jump_on) {
  ghost g;
  dd::thread_pool p(1 + va_choice(sizes - 1), nothing);
  jumper(g, p);
  dd::task_queue& q = p.select_queue(calculate_operation_hash(g.me));
  for (int i = 0; i < 2; ++i) {
    REQUIRE(&p.get_strand(calculate_operation_hash(g.me)).get_queue() == &q);
    dd::task_node* n = only_in(p, q);
    REQUIRE(n && !n->next && n->task == g.me);
    n->task.resume();
  }
  REQUIRE(g.over);
}
// the list variant uses existing queues
DRIVER(list) {
  held h, g;
  holder(h);
  holder(g);
  dd::thread_pool p(1 + va_choice(3), nothing);
  h.node.next = &g.node;
  dd::attach_list(p, &h.node);
  int n = 0;
  for (dd::task_queue& q : p.queues_range())
    for (dd::task_node* l = q.pop_all(); l; l = l->next)
      ++n;
  REQUIRE(n == 2);
  h.node.task.resume();
  g.node.task.resume();
}
// callables: scheduled where the hash says
DRIVER(schedule) {
  const int n = 1 + va_choice(sizes - 1);
  dd::thread_pool p(n, nothing);
  const std::size_t h = va_size();
  bool ran = false;
  p.schedule([&ran] { ran = true; }, h);
  dd::task_node* t = only_in(p, p.queues_range()[h % n]);
  REQUIRE(t && !t->next);
  t->task.resume();
  REQUIRE(ran);
}

// ------------------------------------------------------------------------------------------------ the hash
static void pure(auto h) {
  REQUIRE(calculate_operation_hash(h) == calculate_operation_hash(h));
  auto h2 = h;
  REQUIRE(calculate_operation_hash(h) == calculate_operation_hash(h2));
  const auto h3 = h;
  REQUIRE(calculate_operation_hash(h) == calculate_operation_hash(h3));
}
// an awaiting coroutine that is hashed by its own handle
static client plain(parking& p, std::size_t& hash, std::coroutine_handle<>& me) {
  auto h = co_await dd::this_coro::handle;
  me = h;
  pure(h);
  pure(me);
  REQUIRE(calculate_operation_hash(h) == calculate_operation_hash(me));
  hash = co_await dd::this_coro::operation_hash;
  REQUIRE(hash == calculate_operation_hash(h));
  co_await p;
  // the same later on
  REQUIRE(hash == co_await dd::this_coro::operation_hash);
  REQUIRE(hash == calculate_operation_hash(co_await dd::this_coro::handle));
}
DRIVER(plain) {
  parking p, q;
  std::size_t a = 0, b = 0;
  std::coroutine_handle<> ha, hb;
  plain(p, a, ha);
  plain(q, b, hb);
  REQUIRE(a == calculate_operation_hash(ha) && b == calculate_operation_hash(hb));
  p.wake();
  q.wake();
}
template <typename... R>
static dd::logical_thread thread_coro(parking& p, std::size_t& hash, std::coroutine_handle<>& me, R...) {
  auto h = co_await dd::this_coro::handle;
  me = h;
  REQUIRE(calculate_operation_hash(h) == calculate_operation_hash(me));
  hash = co_await dd::this_coro::operation_hash;
  REQUIRE(hash == calculate_operation_hash(h));
  co_await p;
  REQUIRE(hash == co_await dd::this_coro::operation_hash);
}
DRIVER(logical_thread) {
  parking p;
  std::size_t a = 0;
  std::coroutine_handle<> h;
  resource r;
  dd::logical_thread t = va_bool() ? thread_coro(p, a, h) : thread_coro(p, a, h, dd::with_pmr_resource(static_cast<std::pmr::memory_resource&>(r)));
  REQUIRE(a == calculate_operation_hash(h));
  p.wake();
  t.join();
}
// a task belongs to whoever awaits it
template <typename... R>
static dd::task<int> awaited(parking& p, std::size_t& hash, R...) {
  auto h = co_await dd::this_coro::handle;
  hash = co_await dd::this_coro::operation_hash;
  REQUIRE(hash == calculate_operation_hash(h));
  pure(h);
  co_await p;
  REQUIRE(hash == co_await dd::this_coro::operation_hash);
  co_return 1;
}
static client owner(dd::task<int> t, std::size_t& hash, std::coroutine_handle<>& me) {
  auto h = co_await dd::this_coro::handle;
  me = h;
  hash = co_await dd::this_coro::operation_hash;
  (void)co_await t;
  REQUIRE(hash == co_await dd::this_coro::operation_hash);
}
DRIVER(task) {
  parking p;
  std::size_t a = 0, b = 0;
  std::coroutine_handle<> h;
  resource r;
  if (va_bool())
    owner(awaited(p, a), b, h);
  else
    owner(awaited(p, a, dd::with_pmr_resource(static_cast<std::pmr::memory_resource&>(r))), b, h);
  REQUIRE(a == b);
  REQUIRE(a == calculate_operation_hash(h));
  p.wake();
}
// channels: nested ones belong to the root
static auto as_channel(std::coroutine_handle<> h) {
  return std::coroutine_handle<dd::channel_promise<int>>::from_address(h.address());
}
template <typename... R>
static dd::channel<int> leaf(parking& p, std::size_t& hash, R...) {
  auto h = as_channel(co_await dd::this_coro::handle);
  hash = co_await dd::this_coro::operation_hash;
  REQUIRE(hash == calculate_operation_hash(h));
  pure(h);
  co_await p;
  REQUIRE(hash == co_await dd::this_coro::operation_hash);
  co_yield 1;
}
template <typename... R>
static dd::channel<int> root(parking& p, std::size_t& outer, std::size_t& inner, R... r) {
  outer = co_await dd::this_coro::operation_hash;
  REQUIRE(outer == calculate_operation_hash(as_channel(co_await dd::this_coro::handle)));
  co_yield dd::elements_of(leaf(p, inner, r...));
  REQUIRE(outer == co_await dd::this_coro::operation_hash);
}
static client consume(dd::channel<int> c, int& n) {
  while (co_await c.next())
    ++n;
}
DRIVER(channel) {
  parking p;
  std::size_t a = 0, b = 0;
  int n = 0;
  resource r;
  if (va_bool())
    consume(root(p, a, b), n);
  else
    consume(root(p, a, b, dd::with_pmr_resource(static_cast<std::pmr::memory_resource&>(r))), n);
  REQUIRE(a == b);
  p.wake();
  REQUIRE(n == 1);
}
// handles of resourced and plain promises of the same coroutine are the same operation
template <typename Promise>
static void same_for(std::coroutine_handle<> h) {
  using res = dd::resourced_promise<Promise, dd::new_delete_resource>;
  auto a = std::coroutine_handle<Promise>::from_address(h.address());
  auto b = std::coroutine_handle<res>::from_address(h.address());
  REQUIRE(calculate_operation_hash(a) == calculate_operation_hash(b));
}
static dd::task<int> for_task(std::coroutine_handle<>& me) {
  me = co_await dd::this_coro::handle;
  same_for<dd::task_promise<int, dd::null_context>>(me);
  co_return 1;
}
static dd::channel<int> for_channel(std::coroutine_handle<>& me) {
  me = co_await dd::this_coro::handle;
  same_for<dd::channel_promise<int>>(me);
  co_yield 1;
}
static dd::logical_thread for_thread(std::coroutine_handle<>& me) {
  me = co_await dd::this_coro::handle;
  same_for<dd::logical_thread::promise_type>(me);
}
DRIVER(resourced) {
  std::coroutine_handle<> h;
  std::size_t x = 0;
  int n = 0;
  switch (va_choice(3)) {
    case 0: {
      std::coroutine_handle<> me;
      owner(for_task(h), x, me);
      break;
    }
    case 1:
      consume(for_channel(h), n);
      break;
    case 2:
      for_thread(h).join();
      break;
  }
}
// anything else: the object itself
DRIVER(object) {
  int a = 0;
  struct op {
    int x;
  } o{1};
  REQUIRE(calculate_operation_hash(a) == calculate_operation_hash(a));
  REQUIRE(calculate_operation_hash(o) == calculate_operation_hash(o));
}

// pools of different sizes, in any order
DRIVER(select_two) {
  const int n = 1 + va_choice(3), m = 1 + va_choice(3);
  dd::thread_pool p(n, nothing), o(m, nothing);
  const std::size_t h = va_size(), k = va_size();
  dd::task_queue* q = &p.select_queue(h);
  REQUIRE(q == &p.queues_range()[h % n]);
  REQUIRE(&o.select_queue(k) == &o.queues_range()[k % m]);
  REQUIRE(&o.select_queue(h) == &o.queues_range()[h % m]);
  REQUIRE(&p.select_queue(h) == q);
}
// two threads compute the hashes of their own coroutines at once
struct hashing {
  std::coroutine_handle<> h;
  std::size_t first = 0;
};
static void hash_it(void* p) {
  hashing& x = *static_cast<hashing*>(p);
  x.first = calculate_operation_hash(x.h);
  REQUIRE(calculate_operation_hash(x.h) == x.first);
}
DRIVER(hash_by_threads) {
  held a, b;
  holder(a);
  holder(b);
  hashing x{a.node.task}, y{b.node.task};
  va_must_finish(1);
  va_spawn(hash_it, &x);
  hash_it(&y);
  va_join();
  REQUIRE(calculate_operation_hash(a.node.task) == x.first);
  REQUIRE(calculate_operation_hash(b.node.task) == y.first);
  a.node.task.resume();
  b.node.task.resume();
}
