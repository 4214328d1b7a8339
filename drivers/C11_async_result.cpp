// C11: async_task stores its outcome before it reports readiness, and get() delivers exactly that outcome.
#include <kelcoro/async_task.hpp>
#include "client.hpp"

struct failure {
  int v;
  explicit failure(int v) : v(v) {}
};
// a value whose construction must be visible to whoever receives it
struct payload {
  int v;
  tracked t{1};
  explicit payload(int v) noexcept : v(v) { va_data_write(this); }
  payload(payload&& o) noexcept : v(o.v) {
    va_data_read(&o);
    va_data_write(this);
    o.v = -1;
  }
  payload(const payload& o) noexcept : v(o.v) {
    va_data_read(&o);
    va_data_write(this);
  }
};
struct world {
  meeting m;
  int v = va_int();
  int data = 0;
  bool stored = false;
  payload lasting{0};
};
template <typename T>
static dd::async_task<T> work(world& w, int how) {
  tracked t(1);
  if (how & 1)
    co_await w.m;
  va_data_write(&w.data);
  t.check();
  w.stored = true;
  if (how & 2)
    throw failure(w.v);
  if constexpr (std::is_same_v<T, int>)
    co_return w.v;
  else if constexpr (std::is_same_v<T, payload>)
    co_return payload(w.v);
  else if constexpr (std::is_same_v<T, payload&>)
    co_return w.lasting;
  else if constexpr (std::is_same_v<T, const payload&>)
    co_return w.lasting;
  else
    co_return;
}
template <typename T>
static void check_once(world& w, dd::async_task<T>& a, bool fail) {
  try {
    if constexpr (std::is_void_v<T>) {
      a.get();
      REQUIRE(!fail);
      va_reach("value");
    } else {
      static_assert(std::is_same_v<decltype(a.get()), T&&>);
      T&& x = a.get();
      REQUIRE(!fail);
      if constexpr (std::is_same_v<T, int>)
        REQUIRE(x == w.v);
      else {
        x.t.check();
        va_data_read(&x);
        if constexpr (std::is_reference_v<T>)
          REQUIRE(&x == &w.lasting);
        else
          REQUIRE(x.v == w.v);
        T&& y = a.get();
        REQUIRE(&y == &x);
      }
      va_reach("value");
    }
  } catch (failure& e) {
    REQUIRE(fail);
    REQUIRE(e.v == w.v);
    va_reach("exception");
  }
  va_data_read(&w.data);
}
template <typename T>
static void check(world& w, dd::async_task<T>& a, bool fail) {
  check_once(w, a, fail);
  if (va_bool())
    check_once(w, a, fail);
  REQUIRE(a.ready());
  REQUIRE(!a.empty());
}
// on another thread
template <typename T, int wait>
static void threads() {
  {
    world w;
    va_must_finish(1);
    int how = va_bool() ? 3 : 1;
    va_spawn(meeting::come, &w.m);
    dd::async_task<T> a = work<T>(w, how);
    if constexpr (wait == 0) {
        check<T>(w, a, how & 2);
    } else if constexpr (wait == 1) {
        a.wait();
        REQUIRE(w.stored);
        va_data_read(&w.data);
        REQUIRE(a.ready());
        check<T>(w, a, how & 2);
    } else if constexpr (wait == 2) {
        if (a.ready()) {
          REQUIRE(w.stored);
          va_data_read(&w.data);
          check<T>(w, a, how & 2);
          va_reach("ready");
        }
    } else if constexpr (wait == 3) {
        while (!a.ready())
          ;
        REQUIRE(w.stored);
        check<T>(w, a, how & 2);
        va_reach("spun");
    } else if constexpr (wait == 4) {
        dd::async_task<T> b(std::move(a));
        REQUIRE(!a.ready());
        a.wait();
        check<T>(w, b, how & 2);
    }
    va_join();
    if (wait == 2 && !a.empty()) {
      REQUIRE(a.ready());
      check<T>(w, a, how & 2);
    }
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(get) { threads<int, 0>(); }
DRIVER(wait) { threads<int, 1>(); }
DRIVER(ready) { threads<int, 2>(); }
DRIVER(spin) { threads<int, 3>(); }
DRIVER(moved) { threads<int, 4>(); }
DRIVER(payload_get) { threads<payload, 0>(); }
DRIVER(payload_wait) { threads<payload, 1>(); }
DRIVER(payload_ready) { threads<payload, 2>(); }
DRIVER(reference_get) { threads<payload&, 0>(); }
DRIVER(reference_ready) { threads<payload&, 2>(); }
DRIVER(const_reference) { threads<const payload&, 0>(); }
DRIVER(void_get) { threads<void, 0>(); }
DRIVER(void_wait) { threads<void, 1>(); }
DRIVER(void_ready) { threads<void, 2>(); }
// at once
template <typename T>
static void at_once() {
  world w;
  int how = va_bool() ? 2 : 0;
  dd::async_task<T> a = work<T>(w, how);
  REQUIRE(a.ready());
  a.wait();
  check<T>(w, a, how & 2);
  a.detach();
  REQUIRE(!a.ready());
  a.wait();
}
DRIVER(finished) { at_once<int>(); }
DRIVER(finished_payload) { at_once<payload>(); }
DRIVER(finished_reference) { at_once<payload&>(); }
DRIVER(finished_const) { at_once<const payload&>(); }
DRIVER(finished_void) { at_once<void>(); }
DRIVER(empty) {
  dd::async_task<int> a;
  dd::async_task<void> b;
  REQUIRE(!a.ready() && !b.ready() && a.empty() && b.empty());
  a.wait();
  b.wait();
  a.detach();
  REQUIRE(!a.ready());
}
// it is not ready while it is suspended, even several times
DRIVER(several) {
  parking p;
  world w;
  auto body = [](parking& p, world& w) -> dd::async_task<payload> {
    tracked t(1);
    co_await p;
    co_await p;
    co_return payload(w.v);
  };
  dd::async_task<payload> a = body(p, w);
  REQUIRE(!a.ready());
  p.wake();
  REQUIRE(!a.ready());
  p.wake();
  REQUIRE(a.ready());
  REQUIRE(a.get().v == w.v);
}
// resourced
DRIVER(with_resource) {
  resource r;
  world w;
  auto body = [](world& w, dd::with_resource<dd::pmr::polymorphic_resource>) -> dd::async_task<int> {
    tracked t(1);
    co_await w.m;
    va_data_write(&w.data);
    co_return w.v;
  };
  va_must_finish(1);
  va_spawn(meeting::come, &w.m);
  dd::async_task<int> a = body(w, dd::with_resource<dd::pmr::polymorphic_resource>{r});
  REQUIRE(a.get() == w.v);
  va_data_read(&w.data);
  va_join();
}

// two of them, in any order: each delivers its own outcome, and goes on delivering it
DRIVER(two_results) {
  parking p[2];
  const int v[2] = {va_int(), va_int()};
  auto body = [](parking& p, int v) -> dd::async_task<int> {
    co_await p;
    if (va_bool())
      throw failure(v);
    co_return v;
  };
  dd::async_task<int> a[2] = {body(p[0], v[0]), body(p[1], v[1])};
  int first = va_choice(2);
  p[first].wake();
  REQUIRE(a[first].ready() && !a[1 - first].ready());
  auto check = [&](int i) {
    try {
      REQUIRE(a[i].get() == v[i]);
      va_reach("value");
    } catch (failure& f) {
      REQUIRE(f.v == v[i]);
      va_reach("failure");
    }
  };
  check(first);
  p[1 - first].wake();
  REQUIRE(a[0].ready() && a[1].ready());
  check(1 - first);
  check(first);
  check(1 - first);
}
DRIVER(two_kept) {
  const int v[2] = {va_int(), va_int()};
  auto body = [](int v) -> dd::async_task<int> { co_return v; };
  dd::async_task<int> a = body(v[0]), b = body(v[1]);
  int&& r = a.get();
  int&& s = b.get();
  REQUIRE(r == v[0] && s == v[1]);
}
