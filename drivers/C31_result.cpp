// C31: a result is constructed once, handed out as that very object, destroyed once with the frame.
#define VA_COUNT_COPIES
#include <kelcoro/task.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/algorithm.hpp>
#include "client.hpp"

static int copies() { return va_get("copies"); }
static int moves() { return va_get("moves"); }
static int alive() { return va_get("tracked"); }

enum how { prvalue, lvalue, moved, convertible, rvo, end_of };
struct fault {};

// ---------------------------------------------------------------- result types
// not trivially destructible
struct big {
  tracked t;
  int extra = 0;
  big() noexcept : t(0) {}
  explicit big(int v) noexcept : t(v), extra(v) {}
  int value() const { t.check(); return t.v; }
  void set(int v) { t.check(); t.v = v; }
};
// only movable
struct unique : big {
  using big::big;
  unique() = default;
  unique(unique&&) = default;
};
// trivially destructible
struct plain {
  int v;
  plain() noexcept : v(0) {}
  explicit plain(int v) noexcept : v(v) {}
  plain(const plain& o) noexcept : v(o.v) { va_inc("copies", 1); }
  plain(plain&& o) noexcept : v(o.v) { va_inc("moves", 1); }
  int value() const { return v; }
  void set(int x) { v = x; }
};
// trivially destructible, no default
struct nodefault {
  int v;
  explicit nodefault(int v) noexcept : v(v) {}
  nodefault(const nodefault& o) noexcept : v(o.v) { va_inc("copies", 1); }
  nodefault(nodefault&& o) noexcept : v(o.v) { va_inc("moves", 1); }
  int value() const { return v; }
  void set(int x) { v = x; }
};

struct ghost {
  int value = 0;
  bool returned = false, threw = false, over = false;
  const void* place = nullptr;
  int copies0 = 0, moves0 = 0;
  int want_copies = 0, want_moves = 0;
};

template <typename T, typename Coro, bool can_rvo>
static Coro body(ghost& g, anywhere& park, how h) {
  while (va_bool())
    co_await park;
  g.value = va_int();
  g.over = true;
  if (va_bool()) {
    g.threw = true;
    throw fault{};
  }
  g.returned = true;
  g.copies0 = copies();
  g.moves0 = moves();
  if (h == prvalue) {
    g.want_moves = 1;
    co_return T(g.value);
  }
  if constexpr (std::is_copy_constructible_v<T>)
    if (h == lvalue) {
      const T x(g.value);
      g.want_copies = 1;
      co_return x;
    }
  if (h == moved) {
    T x(g.value);
    g.want_moves = 1;
    co_return std::move(x);
  }
  if (h == convertible) {
    // constructed in place from the argument
    co_return g.value;
  }
  if constexpr (can_rvo) {
    T& place = co_await dd::this_coro::return_place;
    g.place = &place;
    // somebody else may run in between
    while (va_bool())
      co_await park;
    place.set(g.value);
    if (va_bool()) {
      g.threw = true;
      g.returned = false;
      throw fault{};
    }
    co_return dd::rvo;
  } else {
    co_return T(g.value);
  }
}
static how some_way(bool copy, bool can_rvo) {
  int h = va_choice(can_rvo ? end_of : rvo);
  if (!copy && h == lvalue)
    h = moved;
  return how(h);
}
template <typename T>
static void check(ghost& g, T& r) {
  REQUIRE(g.returned && !g.threw);
  REQUIRE(r.value() == g.value);
  REQUIRE(copies() - g.copies0 == g.want_copies);
  REQUIRE(moves() - g.moves0 == g.want_moves);
  if (g.place)
    REQUIRE(&r == g.place);
}

// ---------------------------------------------------------------- task
template <typename T>
using task_t = dd::task<T>;

template <typename T, bool can_rvo>
static client awaits(dd::task<T>& t, ghost& g, bool& done) {
  bool wait_first = va_bool();
  if (wait_first)
    co_await t.wait();
  const void* first = nullptr;
  for (int i = 0; i < 2; ++i) {
    try {
      auto&& r = co_await t;
      static_assert(std::is_same_v<decltype(r), T&&>);
      check<T>(g, r);
      REQUIRE(!i || first == &r);
      first = &r;
      va_reach("delivered");
    } catch (const fault&) {
      REQUIRE(g.threw && !g.returned);
      va_reach("thrown");
    }
  }
  done = true;
}
template <typename T, bool can_rvo>
static void task_result() {
  int before = alive();
  {
    ghost g;
    anywhere park;
    bool done = false;
    dd::task<T> t = body<T, dd::task<T>, can_rvo>(g, park, some_way(std::is_copy_constructible_v<T>, can_rvo));
    if (va_bool()) {
      va_reach("never started");
      return;
    }
    awaits<T, can_rvo>(t, g, done);
    while (park) {
      if (va_bool()) {
        // given up in the middle: the waiting client is lost with it
        va_leaks_ok();
        va_reach("destroyed before the end");
        { auto x = std::move(t); }
        REQUIRE(alive() == before);
        va_stop();
      }
      park.wake();
    }
    REQUIRE(done);
    va_reach("done");
  }
  REQUIRE(alive() == before);
}
DRIVER(task_big) { task_result<big, true>(); }
DRIVER(task_unique) { task_result<unique, true>(); }
DRIVER(task_plain) { task_result<plain, true>(); }
DRIVER(task_nodefault) { task_result<nodefault, false>(); }

// ---------------------------------------------------------------- async_task
template <typename T>
static void async_result() {
  int before = alive();
  {
    ghost g;
    anywhere park;
    dd::async_task<T> t = body<T, dd::async_task<T>, false>(g, park, some_way(std::is_copy_constructible_v<T>, false));
    int abandon = va_choice(3);
    if (abandon == 1) {
      t.detach();
      va_reach("detached");
    }
    while (park)
      park.wake();
    REQUIRE(g.over);
    if (abandon == 2)
      va_reach("result not taken");
    if (abandon == 0) {
      const void* first = nullptr;
      for (int i = 0; i < 2; ++i) {
        try {
          auto&& r = t.get();
          static_assert(std::is_same_v<decltype(r), T&&>);
          check<T>(g, r);
          REQUIRE(!i || first == &r);
          first = &r;
          va_reach("delivered");
        } catch (const fault&) {
          REQUIRE(g.threw && !g.returned);
          va_reach("thrown");
        }
      }
    }
    va_reach("done");
  }
  REQUIRE(alive() == before);
}
DRIVER(async_big) { async_result<big>(); }
DRIVER(async_unique) { async_result<unique>(); }
DRIVER(async_plain) { async_result<plain>(); }
DRIVER(async_nodefault) { async_result<nodefault>(); }

// ---------------------------------------------------------------- references
static dd::task<big&> ref_body(big& x, bool place) {
  if (place) {
    big*& p = co_await dd::this_coro::return_place;
    p = &x;
    co_return dd::rvo;
  }
  co_return x;
}
static dd::async_task<const big&> cref_body(const big& x) { co_return x; }
static client awaits_ref(big& x, bool place, bool& done) {
  dd::task<big&> t = ref_body(x, place);
  big& r = co_await t;
  REQUIRE(&r == &x);
  r.set(7);
  REQUIRE(x.value() == 7);
  big& r2 = t.get();
  REQUIRE(&r2 == &x);
  done = true;
}
DRIVER(references) {
  int c = copies(), m = moves();
  big x(1);
  bool done = false;
  awaits_ref(x, va_bool(), done);
  REQUIRE(done);
  {
    big y(2);
    auto t = cref_body(x);
    auto u = cref_body(y);
    const big& r = t.get();
    REQUIRE(&r == &x);
    REQUIRE(&u.get() == &y);
    bool ok = false;
    awaits_ref(y, va_bool(), ok);
    REQUIRE(ok);
  }
  {
    // blocking, not started yet
    big& r = ref_body(x, va_bool()).get();
    REQUIRE(&r == &x);
  }
  REQUIRE(copies() == c && moves() == m);
  REQUIRE(alive() == 1);
}

// ---------------------------------------------------------------- blocking get of a task: taken by value
template <typename T, bool can_rvo>
static void blocking() {
  int before = alive();
  {
    ghost g;
    anywhere park;
    how h = some_way(std::is_copy_constructible_v<T>, can_rvo);
    struct no_stop {
      static dd::task<T> make(ghost& g, how h) {
        g.value = va_int();
        if (va_bool()) {
          g.threw = true;
          throw fault{};
        }
        g.returned = true;
        g.copies0 = copies();
        if (h == prvalue)
          co_return T(g.value);
        if constexpr (can_rvo)
          if (h == rvo) {
            T& p = co_await dd::this_coro::return_place;
            p.set(g.value);
            co_return dd::rvo;
          }
        co_return g.value;
      }
    };
    dd::task<T> t = no_stop::make(g, h);
    try {
      T r = t.get();
      REQUIRE(g.returned && !g.threw);
      REQUIRE(r.value() == g.value);
      REQUIRE(copies() == g.copies0);
      va_reach("delivered");
    } catch (const fault&) {
      REQUIRE(g.threw && !g.returned);
      va_reach("thrown");
    }
  }
  REQUIRE(alive() == before);
}
DRIVER(blocking_big) { blocking<big, true>(); }
DRIVER(blocking_unique) { blocking<unique, true>(); }
DRIVER(blocking_plain) { blocking<plain, true>(); }

// ---------------------------------------------------------------- a result that cannot be constructed
struct fragile : big {
  fragile(int v, bool fails) noexcept(false) : big(v) {
    if (fails)
      throw fault{};
  }
  struct args {
    int v;
    bool fails;
  };
  fragile(args a) : fragile(a.v, a.fails) {}
  fragile(fragile&&) = default;
};
template <typename Coro>
static Coro fragile_body(bool fails) {
  co_return fragile::args{5, fails};
}
static client awaits_fragile(bool fails, bool& done) {
  auto t = fragile_body<dd::task<fragile>>(fails);
  try {
    fragile&& r = co_await t;
    REQUIRE(!fails);
    REQUIRE(r.value() == 5);
    va_reach("delivered");
  } catch (const fault&) {
    REQUIRE(fails);
    va_reach("thrown");
  }
  done = true;
}
DRIVER(throwing_constructor) {
  int before = alive();
  bool done = false;
  awaits_fragile(va_choice(2) == 1, done);
  REQUIRE(done);
  REQUIRE(alive() == before);
  {
    bool fails = va_choice(2) == 1;
    auto t = fragile_body<dd::async_task<fragile>>(fails);
    try {
      fragile&& r = t.get();
      REQUIRE(!fails);
      REQUIRE(r.value() == 5);
    } catch (const fault&) {
      REQUIRE(fails);
    }
  }
  REQUIRE(alive() == before);
}

// ---------------------------------------------------------------- expected
template <typename T>
static void expected_of() {
  using E = dd::expected<T, int>;
  int before = alive();
  {
    int v = va_int();
    if (va_bool()) {
      E e{T{v}};
      REQUIRE(e.has_value() && bool(e));
      REQUIRE((*e).value() == v);
      const E& c = e;
      REQUIRE(&*c == &*e);
      REQUIRE(c.has_value() && bool(c));
      E f(std::move(e));
      REQUIRE(f.has_value() && (*f).value() == v);
      va_reach("value");
    } else {
      E e{dd::unexpected<int>{v}};
      REQUIRE(!e.has_value() && !bool(e));
      REQUIRE(e.error() == v);
      const E& c = e;
      REQUIRE(&c.error() == &e.error());
      E f(std::move(e));
      REQUIRE(!f.has_value() && f.error() == v);
      va_reach("error");
    }
  }
  REQUIRE(alive() == before);
}
DRIVER(expected_big) { expected_of<big>(); }
DRIVER(expected_unique) { expected_of<unique>(); }
DRIVER(expected_plain) { expected_of<plain>(); }
DRIVER(expected_void) {
  dd::expected<void, int> ok;
  REQUIRE(ok.has_value() && bool(ok));
  int v = va_int();
  dd::expected<void, int> bad{dd::unexpected<int>{v}};
  REQUIRE(!bad.has_value() && !bool(bad));
  REQUIRE(bad.error() == v);
  dd::expected<void, int> copy(std::as_const(bad));
  REQUIRE(!copy && copy.error() == v);
}
DRIVER(expected_copies) {
  dd::expected<big, int> e(big{3});
  dd::expected<big, int> f = e;
  REQUIRE(f && (*f).value() == 3);
  REQUIRE(&*f != &*e);
  dd::expected<big, int> g{dd::unexpected<int>{4}};
  f = g;
  REQUIRE(!f && f.error() == 4);
  const auto h = e;
  dd::expected<big, int> i = h;
  REQUIRE(i && (*i).value() == 3);
}

// ---------------------------------------------------------------- several results at once, each in its own place
static client two_awaited(dd::task<int>& a, dd::task<int>& b, int x, int y, bool& done) {
  auto&& r = co_await a;
  auto&& s = co_await b;
  REQUIRE(&r != &s);
  REQUIRE(r == x && s == y);
  auto&& again = co_await a;
  REQUIRE(&again == &r);
  REQUIRE(r == x && s == y);
  r = x + 1;
  REQUIRE(s == y);
  auto&& third = co_await a;
  REQUIRE(third == x + 1);
  done = true;
}
template <typename Coro>
static Coro number(int v) {
  co_return v;
}
DRIVER(two_tasks) {
  int x = va_int(), y = va_int();
  bool done = false;
  {
    dd::task<int> a = number<dd::task<int>>(x), b = number<dd::task<int>>(y);
    two_awaited(a, b, x, y, done);
    REQUIRE(done);
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(two_tasks_got) {
  int x = va_int(), y = va_int();
  dd::task<int> a = number<dd::task<int>>(x), b = number<dd::task<int>>(y);
  auto&& r = a.get();
  auto&& s = b.get();
  REQUIRE(r == x && s == y);
}
DRIVER(two_async_tasks) {
  int x = va_int(), y = va_int();
  dd::async_task<int> a = number<dd::async_task<int>>(x), b = number<dd::async_task<int>>(y);
  int&& r = a.get();
  int&& s = b.get();
  REQUIRE(&r != &s);
  REQUIRE(r == x && s == y);
  int&& again = a.get();
  REQUIRE(&again == &r);
  r = x + 1;
  REQUIRE(a.get() == x + 1 && b.get() == y);
}
template <typename Coro>
static Coro refers(int& v) {
  co_return v;
}
DRIVER(two_references) {
  int x = va_int(), y = va_int();
  dd::async_task<int&> a = refers<dd::async_task<int&>>(x), b = refers<dd::async_task<int&>>(y);
  REQUIRE(&a.get() == &x && &b.get() == &y && &a.get() == &x);
}
