// C10: the frame of an async_task is destroyed exactly once, by whoever gives it up last.
#include <kelcoro/async_task.hpp>
#include <stdexcept>
#include "client.hpp"

struct failure {};
struct world {
  meeting m;
  bool over = false;
  int data = 0;
};
template <typename T>
static T make() {
  if constexpr (!std::is_void_v<T>)
    return T(5);
}
// goes on on another thread
template <typename T>
static dd::async_task<T> remote(world& w, bool fail) {
  tracked t(1);
  co_await w.m;
  t.check();
  w.over = true;
  if (fail)
    throw failure{};
  co_return make<T>();
}
template <>
dd::async_task<void> remote<void>(world& w, bool fail) {
  tracked t(1);
  co_await w.m;
  t.check();
  w.over = true;
  if (fail)
    throw failure{};
}
template <typename T>
static dd::async_task<T> at_once(bool fail) {
  tracked t(1);
  if (fail)
    throw failure{};
  if constexpr (!std::is_void_v<T>)
    co_return make<T>();
  else
    co_return;
}
template <typename T>
static void receive(dd::async_task<T>& a, bool fail) {
  try {
    if constexpr (std::is_void_v<T>)
      a.get();
    else {
      T&& x = a.get();
      REQUIRE(!fail);
      if constexpr (std::is_same_v<T, tracked>)
        x.check();
    }
    REQUIRE(!fail);
  } catch (failure&) {
    REQUIRE(fail);
  }
}
// what the owner does with it
template <typename T>
static void own(world* w, dd::async_task<T> a, bool fail, int what) {
  REQUIRE(!a.empty() && bool(a));
  switch (what) {
    case 0:      // nothing: destroyed
      break;
    case 1:
      a.wait();
      if (w)
        REQUIRE(w->over);
      break;
    case 2:
      receive(a, fail);
      REQUIRE(!a.empty());
      break;
    case 3:
      a.detach();
      REQUIRE(a.empty() && !a);
      a.detach();
      break;
    case 4: {
      dd::async_task<T> b(std::move(a));
      REQUIRE(a.empty() && !b.empty());
      a.detach();
      if (va_bool())
        receive(b, fail);
      break;
    }
    case 5: {
      dd::async_task<T> b;
      REQUIRE(b.empty() && !b.ready());
      b.wait();
      if (va_bool())
        b.swap(a);
      else
        swap(a, b);
      REQUIRE(a.empty() && !b.empty());
      b.wait();
      b.detach();
      REQUIRE(b.empty());
      break;
    }
    case 6: {
      // move assignment to an empty one
      dd::async_task<T> b;
      b = std::move(a);
      REQUIRE(!b.empty());
      REQUIRE(a.empty());
      if (va_bool())
        b.wait();
      break;
    }
    case 7:
      if (a.ready()) {
        if (w)
          REQUIRE(w->over);
        if (va_bool())
          receive(a, fail);
      }
      break;
    case 8:
      a.wait();
      a.wait();
      receive(a, fail);
      receive(a, fail);
      a.detach();
      break;
  }
}
template <typename T>
static void threads(int what, bool fail) {
  {
    world w;
    va_must_finish(1);
    va_spawn(meeting::come, &w.m);
    own<T>(&w, remote<T>(w, fail), fail, what);
    va_join();
    REQUIRE(w.over);
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(destroyed) { threads<int>(0, va_bool()); }
DRIVER(waited) { threads<int>(1, va_bool()); }
DRIVER(received) { threads<int>(2, va_bool()); }
DRIVER(detached) { threads<int>(3, va_bool()); }
DRIVER(moved) { threads<int>(4, va_bool()); }
DRIVER(swapped) { threads<int>(5, va_bool()); }
DRIVER(assigned) { threads<int>(6, va_bool()); }
DRIVER(polled) { threads<int>(7, va_bool()); }
DRIVER(many) { threads<int>(8, va_bool()); }
DRIVER(void_destroyed) { threads<void>(0, va_bool()); }
DRIVER(void_received) { threads<void>(2, va_bool()); }
DRIVER(void_detached) { threads<void>(3, va_bool()); }
DRIVER(tracked_destroyed) { threads<tracked>(0, va_bool()); }
DRIVER(tracked_received) { threads<tracked>(2, va_bool()); }
DRIVER(tracked_detached) { threads<tracked>(3, va_bool()); }
// finished before the owner gets it
template <typename T>
static void finished() {
  bool fail = va_bool();
  dd::async_task<T> a = at_once<T>(fail);
  REQUIRE(a.ready());
  own<T>(nullptr, std::move(a), fail, va_choice(9));
  REQUIRE(va_frames() == 0);
}
DRIVER(finished) { finished<int>(); }
DRIVER(finished_void) { finished<void>(); }
DRIVER(finished_tracked) { finished<tracked>(); }
// suspended when it is given up: runs on without owner and frees itself
template <typename T>
static void parked() {
  parking p;
  bool over = false;
  bool fail = va_bool();
  auto body = [](parking& p, bool& over, bool fail) -> dd::async_task<T> {
    tracked t(1);
    co_await p;
    t.check();
    over = true;
    if (fail)
      throw failure{};
    if constexpr (!std::is_void_v<T>)
      co_return make<T>();
    else
      co_return;
  };
  {
    dd::async_task<T> a = body(p, over, fail);
    REQUIRE(!a.ready() && !a.empty());
    switch (va_choice(3)) {
      case 0:
        a.detach();
        break;
      case 1: {
        dd::async_task<T> b(std::move(a));
        break;
      }
      case 2:
        break;
    }
  }
  REQUIRE(va_frames() == 1);
  p.wake();
  REQUIRE(over);
  REQUIRE(va_frames() == 0);
}
DRIVER(parked) { parked<int>(); }
DRIVER(parked_tracked) { parked<tracked>(); }
DRIVER(parked_void) { parked<void>(); }
// two of them: assignment and swap keep both frames owned
DRIVER(two) {
  parking p, q;
  auto body = [](parking& p, int v) -> dd::async_task<int> {
    tracked t(1);
    co_await p;
    co_return v;
  };
  {
    dd::async_task<int> a = body(p, 1), b = body(q, 2);
    switch (va_choice(3)) {
      case 0:
        a = std::move(b);
        q.wake();
        REQUIRE(a.ready());
        REQUIRE(a.get() == 2);
        break;
      case 1:
        a.swap(b);
        q.wake();
        REQUIRE(a.ready() && !b.ready());
        REQUIRE(a.get() == 2);
        break;
      case 2:
        a.swap(a);
        q.wake();
        REQUIRE(b.ready() && !a.ready());
        REQUIRE(b.get() == 2);
        break;
    }
  }
  REQUIRE(va_frames() == 1);
  p.wake();
  REQUIRE(va_frames() == 0);
}
// the same, in whatever state the two of them are: each object afterwards owns what the other one owned
struct one {
  parking p;
  int state = 0;     // 0: empty, 1: suspended, 2: finished, 3: failed
  int value = 0;
};
static dd::async_task<int> any_state(one& o) {
  tracked t(1);
  if (o.state == 1)
    co_await o.p;
  t.check();
  if (o.state == 3)
    throw failure{};
  co_return o.value;
}
static void is(dd::async_task<int>& a, one& o) {
  REQUIRE(a.empty() == (o.state == 0) && bool(a) == (o.state != 0));
  REQUIRE(a.ready() == (o.state > 1));
  if (o.state == 1 && va_bool()) {
    o.p.wake();
    REQUIRE(a.ready());
    o.state = 2;
  }
  if (o.state > 1)
    try {
      REQUIRE(a.get() == o.value);
      REQUIRE(o.state == 2);
    } catch (failure&) {
      REQUIRE(o.state == 3);
    }
}
DRIVER(exchanged) {
  one x, y;
  x.state = va_choice(4), x.value = 1;
  y.state = va_choice(4), y.value = 2;
  {
    dd::async_task<int> a, b;
    if (x.state)
      a = any_state(x);
    if (y.state)
      b = any_state(y);
    int live = va_frames();
    switch (va_choice(3)) {
      case 0: {
        dd::async_task<int>& r = a = std::move(b);
        REQUIRE(&r == &a);
        break;
      }
      case 1:
        a.swap(b);
        break;
      case 2:
        swap(a, b);
        break;
    }
    REQUIRE(va_frames() == live);
    is(a, y);
    is(b, x);
  }
  if (x.state == 1)
    x.p.wake();
  if (y.state == 1)
    y.p.wake();
  REQUIRE(va_frames() == 0);
}
// created on a thread which goes away, resourced
DRIVER(with_resource) {
  resource r;
  world w;
  auto body = [](world& w, dd::with_resource<dd::pmr::polymorphic_resource>) -> dd::async_task<int> {
    tracked t(1);
    co_await w.m;
    w.over = true;
    co_return 3;
  };
  va_must_finish(1);
  va_spawn(meeting::come, &w.m);
  {
    dd::async_task<int> a = body(w, dd::with_resource<dd::pmr::polymorphic_resource>{r});
    REQUIRE(r.live() == (va_frames() ? 1 : 0));
    if (va_bool())
      REQUIRE(a.get() == 3);
  }
  va_join();
  REQUIRE(w.over);
  REQUIRE(va_frames() == 0 && r.live() == 0);
}
