// C23: memory of coroutine frames goes back to where it came from; a resource stored with the frame lives exactly as long
// as it is needed.
#include <kelcoro/async_task.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/task.hpp>
#include "client.hpp"

// ------------------------------------------------------------------------------------------------ resources
// one block at a time; what comes back must be what was given out
struct ledger {
  void* p = nullptr;
  std::size_t size = 0;
  int live = 0, allocated = 0;
  bool may_fail = false;
  void* allocate(std::size_t n) {
    REQUIRE(live == 0);
    if (may_fail && va_bool())
      throw 1;
    p = ::operator new(n);
    size = n;
    ++live;
    ++allocated;
    return p;
  }
  void deallocate(void* q, std::size_t n) noexcept {
    REQUIRE(live == 1);
    REQUIRE(q == p);
    REQUIRE(n == size);
    --live;
    ::operator delete(q);
  }
};
// stored with the frame, has something to destroy
struct owning {
  ledger* l;
  tracked t{1};
  void ok() const {
    REQUIRE(va_align_of((void*)this, alignof(owning)) == 0);
    t.check();
  }
  explicit owning(ledger& l) noexcept : l(&l) {}
  owning(owning&& o) noexcept : l(o.l), t(o.t) { ok(); o.ok(); }
  owning(const owning& o) noexcept : l(o.l), t(o.t) { ok(); o.ok(); }
  ~owning() {
    ok();
    l = nullptr;
  }
  void* allocate(std::size_t n) { ok(); return l->allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { ok(); l->deallocate(p, n); }
};
// strictly aligned, trivially destructible
struct alignas(16) strict {
  ledger* l;
  char pad[40] = {};
  explicit strict(ledger& l) noexcept : l(&l) {}
  strict(const strict& o) noexcept : l(o.l) { ok(); }
  void ok() const { REQUIRE(va_align_of((void*)this, 16) == 0); }
  void* allocate(std::size_t n) { ok(); return l->allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { ok(); l->deallocate(p, n); }
};
// a single byte
static ledger books[2];
struct tiny {
  unsigned char which;
  explicit tiny(int w) noexcept : which((unsigned char)w) {}
  void* allocate(std::size_t n) { return books[which].allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { books[which].deallocate(p, n); }
};
// no state at all
struct stateless {
  void* allocate(std::size_t n) { return books[0].allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { books[0].deallocate(p, n); }
};
// default constructible with state
struct chooses {
  ledger* l = &books[1];
  void* allocate(std::size_t n) { return l->allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { l->deallocate(p, n); }
};
static_assert(dd::memory_resource<owning> && dd::memory_resource<strict> && dd::memory_resource<tiny> &&
              dd::memory_resource<stateless> && dd::memory_resource<chooses>);

// ------------------------------------------------------------------------------------------------ coroutines
static parking place;
static int how;      // 0: ends, 1: an exception escapes, 2: stays suspended
template <typename R>
static dd::task<int> a_task(tracked t, dd::with_resource<R>) {
  t.check();
  if (how == 1)
    throw 1;
  if (how == 2)
    co_await place;
  t.check();
  co_return 1;
}
template <typename R>
static dd::generator<int> a_generator(tracked t, dd::with_resource<R>) {
  t.check();
  co_yield 1;
  t.check();
  if (how == 1)
    throw 1;
}
template <typename R>
static dd::channel<int> a_channel(tracked t, dd::with_resource<R>) {
  t.check();
  co_yield 1;
  t.check();
  if (how == 1)
    throw 1;
}
template <typename R>
static dd::async_task<int> an_async_task(tracked t, dd::with_resource<R>) {
  t.check();
  if (how == 1)
    throw 1;
  if (how == 2)
    co_await place;
  t.check();
  co_return 1;
}
template <typename R>
static dd::logical_thread a_thread(tracked t, dd::with_resource<R>) {
  t.check();
  if (how == 2)
    co_await place;
  t.check();
}
template <typename R>
static dd::job a_job(tracked t, dd::with_resource<R>) {
  t.check();
  if (how == 2)
    co_await place;
  t.check();
}
template <typename R>
static client consume(dd::channel<int> c, int n) {
  for (int i = 0; i < n; ++i)
    if (!co_await c.next())
      break;
  (void)c.take_exception();
}
static void quiet(auto f) {
  try {
    f();
  } catch (int) {
  }
}
static client run(dd::task<int>& t) { co_await t.wait(); }
static void wake() {
  if (how == 2)
    place.wake();
}
// every way a coroutine of every kind may end
template <typename R>
static void lives(ledger& l, auto make) {
  how = va_choice(3);
  auto over = [&] {
    REQUIRE(l.live == 0 && l.allocated == 1);
    REQUIRE(va_frames() == 0);
  };
  switch (va_choice(7)) {
    case 0: {
      dd::task<int> t = a_task<R>(tracked(1), make());
      REQUIRE(l.live == 1);
      if (va_bool()) {
        run(t);
        wake();
      }
      break;
    }
    case 1: {
      dd::task<int> t = a_task<R>(tracked(1), make());
      t.detach().resume();
      wake();
      break;
    }
    case 2: {
      dd::generator<int> g = a_generator<R>(tracked(1), make());
      REQUIRE(l.live == 1);
      const int n = va_choice(3);
      quiet([&] {
        if (n > 0)
          for (int i : g) {
            (void)i;
            if (n == 1)
              break;
          }
      });
      break;
    }
    case 3: {
      const int n = va_choice(3);
      consume<R>(a_channel<R>(tracked(1), make()), n);
      break;
    }
    case 4: {
      dd::async_task<int> t = an_async_task<R>(tracked(1), make());
      REQUIRE(l.live == 1);
      if (va_bool()) {
        t.detach();
        wake();
      } else {
        wake();
        quiet([&] { (void)t.get(); });
      }
      break;
    }
    case 5: {
      dd::logical_thread t = a_thread<R>(tracked(1), make());
      REQUIRE(l.live == 1);
      if (va_bool()) {
        t.detach();
        wake();
      } else {
        wake();
        t.join();
      }
      break;
    }
    case 6: {
      (void)a_job<R>(tracked(1), make());
      REQUIRE(l.live == (how == 2));
      wake();
      break;
    }
  }
  over();
}
DRIVER(owning) {
  ledger l;
  lives<owning>(l, [&] { return dd::with_resource<owning>(l); });
}
DRIVER(strict) {
  ledger l;
  lives<strict>(l, [&] { return dd::with_resource<strict>(l); });
}
DRIVER(tiny) {
  lives<tiny>(books[1], [&] { return dd::with_resource<tiny>(1); });
}
DRIVER(stateless) {
  lives<stateless>(books[0], [&] { return dd::with_resource<stateless>(); });
}
DRIVER(chunk_of_stateless) {
  using R = dd::chunk_from<stateless>;
  lives<R>(books[0], [&] { return dd::with_resource<R>(); });
}
DRIVER(chunk_of_ledger) {
  ledger l;
  using R = dd::chunk_from<ledger>;
  lives<R>(l, [&] { return dd::with_resource<R>(l); });
}
// standard memory resources: pointer, size and alignment are checked by the analyser's model of them
struct res_ledger {
  resource r;
};
template <typename R>
static void std_resource(auto make) {
  resource r;
  how = va_choice(3);
  switch (va_choice(4)) {
    case 0: {
      dd::task<int> t = a_task<R>(tracked(1), make(r));
      REQUIRE(r.live() == 1);
      if (va_bool()) {
        run(t);
        wake();
      }
      break;
    }
    case 1: {
      dd::generator<int> g = a_generator<R>(tracked(1), make(r));
      REQUIRE(r.live() == 1);
      quiet([&] {
        for (int i : g)
          (void)i;
      });
      break;
    }
    case 2: {
      dd::async_task<int> t = an_async_task<R>(tracked(1), make(r));
      REQUIRE(r.live() == 1);
      t.detach();
      wake();
      break;
    }
    case 3: {
      (void)a_job<R>(tracked(1), make(r));
      REQUIRE(r.live() == (how == 2));
      wake();
      break;
    }
  }
  REQUIRE(r.live() == 0);
  REQUIRE(va_frames() == 0);
}
DRIVER(chunk_of_std) {
  using R = dd::chunk_from<std::pmr::memory_resource>;
  std_resource<R>([](resource& r) { return dd::with_pmr_resource(static_cast<std::pmr::memory_resource&>(r)); });
}
DRIVER(polymorphic) {
  using R = dd::pmr::polymorphic_resource;
  std_resource<R>([](resource& r) { return dd::with_resource<R>(static_cast<std::pmr::memory_resource&>(r)); });
}

// ------------------------------------------------------------------------------------------------ resourced types
template <typename R>
static dd::task_r<int, R> r_task(tracked t) {
  t.check();
  if (how == 1)
    throw 1;
  if (how == 2)
    co_await place;
  co_return 1;
}
template <typename R>
static dd::generator_r<int, R> r_generator(tracked t) {
  t.check();
  co_yield 1;
  if (how == 1)
    throw 1;
}
template <typename R>
static dd::channel_r<int, R> r_channel(tracked t) {
  t.check();
  co_yield 1;
  if (how == 1)
    throw 1;
}
template <typename R>
static dd::async_task_r<int, R> r_async_task(tracked t) {
  t.check();
  if (how == 1)
    throw 1;
  if (how == 2)
    co_await place;
  co_return 1;
}
template <typename R>
static dd::logical_thread_r<R> r_thread(tracked t) {
  if (how == 2)
    co_await place;
  t.check();
}
template <typename R>
static dd::job_r<R> r_job(tracked t) {
  if (how == 2)
    co_await place;
  t.check();
}
template <typename R>
static void resourced(ledger& l) {
  how = va_choice(3);
  switch (va_choice(6)) {
    case 0: {
      dd::task<int> t = r_task<R>(tracked(1));
      REQUIRE(l.live == 1);
      if (va_bool()) {
        run(t);
        wake();
      }
      break;
    }
    case 1: {
      dd::generator<int> g = r_generator<R>(tracked(1));
      REQUIRE(l.live == 1);
      quiet([&] {
        for (int i : g)
          (void)i;
      });
      break;
    }
    case 2:
      consume<R>(r_channel<R>(tracked(1)), va_choice(3));
      break;
    case 3: {
      dd::async_task<int> t = r_async_task<R>(tracked(1));
      REQUIRE(l.live == 1);
      t.detach();
      wake();
      break;
    }
    case 4: {
      dd::logical_thread t = r_thread<R>(tracked(1));
      wake();
      break;
    }
    case 5: {
      (void)r_job<R>(tracked(1));
      wake();
      break;
    }
  }
  REQUIRE(l.live == 0 && l.allocated == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(r_stateless) { resourced<stateless>(books[0]); }
DRIVER(r_chooses) { resourced<chooses>(books[1]); }
// a resourced type whose resource is given as the last argument
static dd::task_r<int, owning> r_given(tracked t, dd::with_resource<owning>) {
  t.check();
  co_return 1;
}
DRIVER(r_given) {
  ledger l;
  {
    dd::task<int> t = r_given(tracked(1), dd::with_resource<owning>(l));
    REQUIRE(l.live == 1);
    if (va_bool())
      run(t);
  }
  REQUIRE(l.live == 0 && l.allocated == 1);
}

// ------------------------------------------------------------------------------------------------ failures
struct fragile {
  tracked t{1};
  static inline bool armed = false;
  fragile() = default;
  fragile(fragile&& o) : t(o.t) {
    if (armed && va_bool())
      throw 2;
  }
};
template <typename R>
static dd::task<int> fragile_task(fragile f, fragile g, dd::with_resource<R>) {
  f.t.check();
  g.t.check();
  co_return 1;
}
template <typename R>
static dd::generator<int> fragile_generator(fragile f, fragile g, dd::with_resource<R>) {
  f.t.check();
  co_yield 1;
  g.t.check();
}
template <typename R>
static dd::async_task<int> fragile_async(fragile f, fragile g, dd::with_resource<R>) {
  f.t.check();
  g.t.check();
  co_return 1;
}
template <typename R>
static dd::job fragile_job(fragile f, fragile g, dd::with_resource<R>) {
  f.t.check();
  g.t.check();
  co_return;
}
template <typename R>
static void fails(ledger& l, auto make) {
  l.may_fail = true;
  how = 0;
  bool made = false;
  try {
    fragile f, g;
    auto w = make();
    fragile::armed = true;
    switch (va_choice(4)) {
      case 0: {
        auto t = fragile_task<R>(std::move(f), std::move(g), w);
        made = true;
        break;
      }
      case 1: {
        auto t = fragile_generator<R>(std::move(f), std::move(g), w);
        made = true;
        break;
      }
      case 2: {
        auto t = fragile_async<R>(std::move(f), std::move(g), w);
        made = true;
        t.wait();
        break;
      }
      case 3:
        (void)fragile_job<R>(std::move(f), std::move(g), w);
        made = true;
        break;
    }
    va_reach("made");
  } catch (int e) {
    REQUIRE(!made);
    if (e == 1)
      va_reach("no memory");
    else
      va_reach("no coroutine");
  }
  REQUIRE(l.live == 0);
  REQUIRE(va_frames() == 0);
}
DRIVER(fails_owning) {
  ledger l;
  fails<owning>(l, [&] { return dd::with_resource<owning>(l); });
}
DRIVER(fails_strict) {
  ledger l;
  fails<strict>(l, [&] { return dd::with_resource<strict>(l); });
}
DRIVER(fails_stateless) {
  fails<stateless>(books[0], [&] { return dd::with_resource<stateless>(); });
}
DRIVER(fails_chunk) {
  ledger l;
  using R = dd::chunk_from<ledger>;
  fails<R>(l, [&] { return dd::with_resource<R>(l); });
}

// ------------------------------------------------------------------------------------------------ allocators on their own
DRIVER(new_delete) {
  std::size_t n = va_size();
  void* p = dd::new_delete_resource::allocate(n);
  REQUIRE(va_size_of_block(p) == n);
  REQUIRE(va_align_of(p, dd::coroframe_align()) == 0);
  dd::new_delete_resource::deallocate(p, n);
  REQUIRE(va_live_heap() == 0);
}
DRIVER(chunk_pmr) {
  resource r;
  dd::chunk_from<std::pmr::memory_resource> c(r);
  REQUIRE(&c.resource() == &r);
  std::size_t n = va_size();
  void* p = c.allocate(n);
  REQUIRE(r.live() == 1 && va_size_of_block(p) == n);
  dd::chunk_from<std::pmr::memory_resource> d = c;
  d.deallocate(p, n);
  REQUIRE(r.live() == 0);
}
DRIVER(polymorphic_alone) {
  resource r;
  dd::pmr::polymorphic_resource c(r);
  std::size_t n = va_size();
  void* p = c.allocate(n);
  REQUIRE(r.live() == 1 && va_size_of_block(p) == n);
  dd::pmr::polymorphic_resource d = c;
  d.deallocate(p, n);
  REQUIRE(r.live() == 0);
}

// ------------------------------------------------------------------------------------------------ frames of different sizes, in any order
static ledger pages[2];
struct paged {
  void* allocate(std::size_t n) { return pages[pages[0].live != 0].allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { pages[pages[0].live == 0 || pages[0].p != p].deallocate(p, n); }
};
template <int N, typename R>
static dd::task<int> sized(dd::with_resource<R>) {
  tracked t[N];
  co_await place;
  int s = 0;
  for (tracked& x : t)
    s += x.v;
  co_return s;
}
template <typename R>
static void sizes() {
  pages[0] = pages[1] = ledger();
  auto make = [](bool big) {
    return big ? sized<9, R>(dd::with_resource<R>()) : sized<1, R>(dd::with_resource<R>());
  };
  {
    const bool first = va_bool();
    dd::task<int> a = make(first), b = make(!first);
    REQUIRE(pages[0].live == 1 && pages[1].live == 1);
    const std::size_t had = pages[0].size;
    if (va_bool()) {
      a = dd::task<int>();
      REQUIRE(pages[0].live == 0 && pages[1].live == 1);
      a = make(first);
      // the same coroutine always asks for the same amount
      REQUIRE(pages[0].size == had);
    }
  }
  REQUIRE(pages[0].live == 0 && pages[1].live == 0);
  REQUIRE(va_frames() == 0);
}
DRIVER(sizes) { sizes<paged>(); }
DRIVER(sizes_chunk) { sizes<dd::chunk_from<paged>>(); }
