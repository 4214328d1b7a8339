// C24: which memory resource a coroutine gets its frame from.
#include <kelcoro/async_task.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/inplace_generator.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/task.hpp>
#include "client.hpp"

using std::pmr::memory_resource;
// a resource of the user's own
struct mine {
  int live = 0, used = 0;
  void* allocate(std::size_t n) {
    ++live;
    ++used;
    return ::operator new(n);
  }
  void deallocate(void* p, std::size_t) noexcept {
    --live;
    ::operator delete(p);
  }
};
static mine theirs;
struct fixed {
  void* allocate(std::size_t n) { return theirs.allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { theirs.deallocate(p, n); }
};
using with_mine = dd::with_resource<dd::chunk_from<mine>>;

// ------------------------------------------------------------------------------------------------ last argument
static dd::task<int> f0(with_mine) { co_return 1; }
static dd::task<int> f1(mine&, with_mine) { co_return 1; }
static dd::generator<int> f2(int, with_mine, double, with_mine) { co_yield 1; }
static dd::channel<int> f3(int, const with_mine&) { co_yield 1; }
static dd::async_task<int> f4(with_mine&) {
  co_return 1;
}
static dd::logical_thread f5(with_mine&&, dd::with_pmr_resource, with_mine) { co_return; }
struct has_members {
  int x = 1;
  dd::task<int> member(int, with_mine) { co_return x; }
  static dd::task<int> static_member(with_mine) { co_return 1; }
  dd::generator<int> const_member(with_mine, const with_mine&) const { co_yield x; }
};
static void only(mine& a, mine& b, const auto& coro) {
  (void)coro;
  REQUIRE(a.live == 1 && a.used == 1);
  REQUIRE(b.used == 0);
}
DRIVER(last_argument) {
  mine a, b;
  resource pending, dflt;
  // other ways to choose do not matter
  switch (va_choice(3)) {
    case 0:
      break;
    case 1:
      dd::pmr::pass_resource(pending);
      break;
    case 2:
      dd::pmr::set_default_resource(dflt);
      break;
  }
  switch (va_choice(11)) {
    case 0: {
      auto t = f0(a);
      only(a, b, t);
      break;
    }
    case 1: {
      auto t = f1(b, a);
      only(a, b, t);
      break;
    }
    case 2: {
      auto t = f2(1, b, 1., a);
      only(a, b, t);
      break;
    }
    case 3: {
      with_mine w(a);
      auto t = f3(1, w);
      only(a, b, t);
      break;
    }
    case 4: {
      with_mine w(a);
      auto t = f4(w);
      only(a, b, t);
      t.wait();
      break;
    }
    case 5: {
      resource r;
      auto t = f5(b, r, a);
      REQUIRE(a.live == 1 && b.used == 0 && r.live() == 0);
      t.join();
      break;
    }
    case 6: {
      has_members m;
      auto t = m.member(1, a);
      only(a, b, t);
      break;
    }
    case 7: {
      auto t = has_members::static_member(a);
      only(a, b, t);
      break;
    }
    case 8: {
      const has_members m;
      auto t = m.const_member(b, a);
      only(a, b, t);
      break;
    }
    case 9: {
      auto l = [&b](with_mine) -> dd::task<int> {
        (void)&b;
        co_return 1;
      };
      auto t = l(a);
      only(a, b, t);
      break;
    }
    case 10: {
      auto l = [](const with_mine) -> dd::channel<int> { co_yield 1; };
      auto t = l(with_mine(a));
      only(a, b, t);
      break;
    }
  }
  REQUIRE(a.live == 0 && a.used == 1 && b.used == 0);
  REQUIRE(pending.live() == 0 && dflt.live() == 0);
  REQUIRE(va_frames() == 0);
}
// different kinds of resources as the last argument
static dd::task<int> g_pmr(dd::with_pmr_resource) { co_return 1; }
static dd::task<int> g_fixed(dd::with_resource<fixed>) { co_return 1; }
static dd::task<int> g_poly(dd::with_resource<dd::pmr::polymorphic_resource>) { co_return 1; }
static dd::task<int> g_plain(dd::with_default_resource) { co_return 1; }
static dd::task<int> g_not_last(with_mine, int) { co_return 1; }
DRIVER(kinds) {
  resource a, b;
  mine m;
  dd::pmr::set_default_resource(b);
  switch (va_choice(5)) {
    case 0: {
      auto t = g_pmr(static_cast<memory_resource&>(a));
      REQUIRE(a.live() == 1 && b.live() == 0);
      break;
    }
    case 1: {
      auto t = g_fixed({});
      REQUIRE(theirs.live == 1 && theirs.used == 1);
      break;
    }
    case 2: {
      auto t = g_poly(static_cast<memory_resource&>(a));
      REQUIRE(a.live() == 1 && b.live() == 0);
      break;
    }
    case 3: {
      auto t = g_plain({});
      REQUIRE(va_live_heap() == 1);
      break;
    }
    case 4: {
      auto t = g_not_last(m, 1);
      REQUIRE(m.used == 0 && va_live_heap() == 1);
      break;
    }
  }
  REQUIRE(a.live() == 0 && b.live() == 0 && theirs.live == 0);
}
// deduction
DRIVER(deduced) {
  resource a;
  memory_resource& ra = a;
  auto f = [](int, auto with) -> dd::task<int> {
    (void)with;
    co_return 1;
  };
  {
    auto t = f(1, dd::with_resource{ra});
    REQUIRE(a.live() == 1);
  }
  {
    auto t = f(1, dd::with_resource{fixed{}});
    REQUIRE(theirs.live == 1);
  }
  REQUIRE(a.live() == 0 && theirs.live == 0);
}

// ------------------------------------------------------------------------------------------------ *_r
static dd::task_r<int, fixed> r_task(int) { co_return 1; }
static dd::generator_r<int, fixed> r_gen() { co_yield 1; }
static dd::channel_r<int, fixed> r_chan(mine&) { co_yield 1; }
static dd::async_task_r<int, fixed> r_async() {
  co_return 1;
}
static dd::logical_thread_r<fixed> r_thread() { co_return; }
static dd::job_r<fixed> r_job(bool& ran) {
  ran = true;
  REQUIRE(theirs.live == 1);
  co_return;
}
// another resource at the end of the arguments does not count
static dd::task_r<int, fixed> r_other(with_mine) { co_return 1; }
DRIVER(resourced) {
  resource pending;
  if (va_bool())
    dd::pmr::pass_resource(pending);
  switch (va_choice(7)) {
    case 0: {
      auto t = r_task(1);
      REQUIRE(theirs.live == 1);
      break;
    }
    case 1: {
      auto t = r_gen();
      REQUIRE(theirs.live == 1);
      break;
    }
    case 2: {
      mine m;
      auto t = r_chan(m);
      REQUIRE(theirs.live == 1 && m.used == 0);
      break;
    }
    case 3: {
      auto t = r_async();
      REQUIRE(theirs.live == 1);
      break;
    }
    case 4: {
      auto t = r_thread();
      REQUIRE(theirs.live == 1);
      break;
    }
    case 5: {
      bool ran = false;
      (void)r_job(ran);
      REQUIRE(ran);
      break;
    }
    case 6: {
      mine m;
      auto t = r_other(m);
      REQUIRE(theirs.live == 1 && m.used == 0);
      break;
    }
  }
  REQUIRE(theirs.live == 0 && theirs.used == 1);
  REQUIRE(pending.live() == 0);
}

// ------------------------------------------------------------------------------------------------ dd::pmr
static dd::pmr::task<int> p_task(int) { co_return 1; }
static dd::pmr::generator<int> p_gen() { co_yield 1; }
static dd::pmr::channel<int> p_chan() { co_yield 1; }
static dd::pmr::async_task<int> p_async() {
  co_return 1;
}
static dd::pmr::logical_thread<void> p_thread() { co_return; }
static dd::pmr::job<void> p_job(resource& r) {
  REQUIRE(r.live() == 1);
  co_return;
}
// makes one pmr coroutine, which must use r
static void makes(resource& r, int kind) {
  const int before = r.live();
  switch (kind) {
    case 0: {
      auto t = p_task(1);
      REQUIRE(r.live() == before + 1);
      break;
    }
    case 1: {
      auto t = p_gen();
      REQUIRE(r.live() == before + 1);
      break;
    }
    case 2: {
      auto t = p_chan();
      REQUIRE(r.live() == before + 1);
      break;
    }
    case 3: {
      auto t = p_async();
      REQUIRE(r.live() == before + 1);
      break;
    }
    case 4: {
      auto t = p_thread();
      REQUIRE(r.live() == before + 1);
      break;
    }
    case 5:
      (void)p_job(r);
      break;
  }
  REQUIRE(r.live() == before);
}
DRIVER(pmr) {
  resource a, b, c;
  REQUIRE(&dd::pmr::get_default_resource() == std::pmr::new_delete_resource());
  REQUIRE(&dd::pmr::set_default_resource(a) == std::pmr::new_delete_resource());
  REQUIRE(&dd::pmr::get_default_resource() == &a);
  makes(a, va_choice(6));
  dd::pmr::pass_resource(b);
  REQUIRE(&dd::pmr::get_default_resource() == &a);
  makes(b, va_choice(6));
  makes(a, 0);
  REQUIRE(&dd::pmr::set_default_resource(c) == &a);
  REQUIRE(&dd::pmr::get_default_resource() == &c);
  makes(c, 1);
  makes(c, 0);
  // the last one passed counts; the current default at the time of creation counts
  dd::pmr::pass_resource(a);
  dd::pmr::pass_resource(b);
  makes(b, 0);
  makes(c, 0);
  REQUIRE(&dd::pmr::set_default_resource(b) == &c);
  makes(b, 0);
  REQUIRE(&dd::pmr::set_default_resource(*std::pmr::new_delete_resource()) == &b);
  REQUIRE(&dd::pmr::get_default_resource() == std::pmr::new_delete_resource());
}
// the default in the beginning is new/delete, whatever std's default is
DRIVER(pmr_default) {
  resource a;
  if (va_bool())
    std::pmr::set_default_resource(&a);
  auto t = p_task(1);
  REQUIRE(a.live() == 0);
  REQUIRE(va_blocks_of(std::pmr::new_delete_resource()) == 1);
}
// each frame goes back to the resource it came from, even if the default has changed since
DRIVER(pmr_changed) {
  resource a, b;
  {
    dd::pmr::set_default_resource(a);
    auto t = p_task(1);
    dd::pmr::set_default_resource(b);
    auto u = p_gen();
    REQUIRE(a.live() == 1 && b.live() == 1);
    if (va_bool()) {
      dd::pmr::pass_resource(b);
      auto v = p_task(1);
      REQUIRE(a.live() == 1 && b.live() == 2);
      std::swap(t, v);
      REQUIRE(a.live() == 1 && b.live() == 2);
    }
  }
  REQUIRE(a.live() == 0 && b.live() == 0);
}
// coroutines which do not choose at random do not use up what was passed
DRIVER(pmr_others_between) {
  resource a, d;
  mine m;
  dd::pmr::set_default_resource(d);
  dd::pmr::pass_resource(a);
  switch (va_choice(4)) {
    case 0: {
      auto t = f0(m);
      REQUIRE(m.live == 1);
      break;
    }
    case 1: {
      auto t = r_gen();
      REQUIRE(theirs.live == 1);
      break;
    }
    case 2: {
      auto t = [](int) -> dd::task<int> { co_return 1; }(1);
      REQUIRE(va_live_heap() == 1);
      break;
    }
    case 3: {
      resource e;
      auto t = g_poly(static_cast<memory_resource&>(e));
      REQUIRE(e.live() == 1);
      break;
    }
  }
  makes(a, 0);
  makes(d, 0);
}
// a pmr coroutine with an explicit resource
static dd::pmr::task<int> p_given(dd::with_resource<dd::pmr::polymorphic_resource>) { co_return 1; }
DRIVER(pmr_given) {
  resource a, b, d;
  dd::pmr::set_default_resource(d);
  const bool pass = va_bool();
  if (pass)
    dd::pmr::pass_resource(b);
  {
    auto t = p_given(static_cast<memory_resource&>(a));
    REQUIRE(a.live() == 1 && b.live() == 0 && d.live() == 0);
  }
  if (pass)
    makes(b, 0);
  makes(d, 0);
  REQUIRE(a.live() == 0);
}
// what one thread passed is not used by another one
struct world {
  resource passed, dflt;
};
static void other_thread(void* p) {
  world& w = *static_cast<world*>(p);
  makes(w.dflt, 0);
  makes(w.dflt, 1);
}
DRIVER(pmr_threads) {
  world w;
  dd::pmr::set_default_resource(w.dflt);
  va_spawn(other_thread, &w);
  dd::pmr::pass_resource(w.passed);
  va_yield();
  makes(w.passed, 0);
  makes(w.dflt, 0);
  va_join();
  REQUIRE(w.passed.live() == 0 && w.dflt.live() == 0);
}
// the new default is set up before another thread may use it
struct counted : resource {
  int ready = 0;
};
static void user(void* p) {
  counted& c = *static_cast<counted*>(p);
  if (&dd::pmr::get_default_resource() == &c) {
    va_reach("seen");
    va_data_read(&c.ready);
  }
}
DRIVER(pmr_published) {
  counted c;
  va_spawn(user, &c);
  va_data_write(&c.ready);
  c.ready = 1;
  dd::pmr::set_default_resource(c);
  va_join();
}

static void maker(void* p) {
  counted& c = *static_cast<counted*>(p);
  auto t = p_task(1);
  if (c.live() == 1) {
    va_reach("used");
    va_data_read(&c.ready);
  }
}
DRIVER(pmr_published_to_coroutine) {
  counted c;
  va_spawn(maker, &c);
  va_data_write(&c.ready);
  c.ready = 1;
  dd::pmr::set_default_resource(c);
  va_join();
}

// ------------------------------------------------------------------------------------------------ nothing chosen
static dd::task<int> n_task(int) { co_return 1; }
static dd::generator<int> n_gen(mine&) { co_yield 1; }
static dd::channel<int> n_chan() { co_yield 1; }
static dd::async_task<int> n_async() {
  co_return 1;
}
DRIVER(nothing) {
  resource a, b;
  mine m;
  if (va_bool())
    dd::pmr::pass_resource(a);
  if (va_bool())
    dd::pmr::set_default_resource(b);
  auto ok = [&] { REQUIRE(a.live() == 0 && b.live() == 0 && m.used == 0 && va_live_heap() == 1); };
  switch (va_choice(4)) {
    case 0: {
      auto t = n_task(1);
      ok();
      break;
    }
    case 1: {
      auto t = n_gen(m);
      ok();
      break;
    }
    case 2: {
      auto t = n_chan();
      ok();
      break;
    }
    case 3: {
      auto t = n_async();
      ok();
      break;
    }
  }
  REQUIRE(va_live_heap() == 0);
}
// with_default_resource leaves the type of the coroutine as it is
template <typename C, typename... Args>
using promise = typename std::coroutine_traits<C, Args...>::promise_type;
template <typename C>
constexpr bool unresourced() {
  return std::is_same_v<promise<C, dd::with_default_resource>, promise<C>> &&
         std::is_same_v<promise<C, int, dd::with_default_resource>, promise<C>> &&
         std::is_same_v<promise<C, mine&, double, dd::with_default_resource>, promise<C>> &&
         !std::is_same_v<promise<C, int, with_mine>, promise<C>> && std::is_same_v<promise<C, with_mine, int>, promise<C>> &&
         std::is_same_v<promise<C, int, with_mine>, dd::resourced_promise<promise<C>, dd::chunk_from<mine>>> &&
         std::is_same_v<promise<C, const with_mine&>, dd::resourced_promise<promise<C>, dd::chunk_from<mine>>>;
}
DRIVER(types) {
  va_assert(unresourced<dd::task<int>>(), "with_default_resource leaves task as it is");
  va_assert(unresourced<dd::generator<int>>(), "with_default_resource leaves generator as it is");
  va_assert(unresourced<dd::channel<int>>(), "with_default_resource leaves channel as it is");
  va_assert(unresourced<dd::async_task<int>>(), "with_default_resource leaves async_task as it is");
  va_assert(unresourced<dd::logical_thread>(), "with_default_resource leaves logical_thread as it is");
  va_assert(unresourced<dd::job>(), "with_default_resource leaves job as it is");
}
