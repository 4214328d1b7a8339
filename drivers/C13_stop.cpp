// C13: stop requests reach the coroutine they are meant for; dd::stop asks all before it waits for any.
#include <kelcoro/logical_thread.hpp>
#include <span>
#include "client.hpp"

struct probe {
  parking p;
  bool seen[3] = {};
  int n = 0;
  bool over = false;
};
// looks at its token whenever it is woken
static dd::logical_thread watcher(probe& w) {
  dd::stop_token s = co_await dd::this_coro::stop_token;
  w.seen[w.n++] = s.stop_requested();
  co_await w.p;
  w.seen[w.n++] = s.stop_requested();
  co_await w.p;
  // a second look at the same state
  dd::stop_token s2 = co_await dd::this_coro::stop_token;
  REQUIRE(s.stop_requested() == s2.stop_requested());
  w.seen[w.n++] = s.stop_requested();
  w.over = true;
}
static void expect(probe& w, int n, bool v) {
  REQUIRE(w.n == n);
  REQUIRE(w.seen[n - 1] == v);
}
// the token follows the coroutine, not the object
DRIVER(token) {
  probe x, y;
  dd::logical_thread a = watcher(x), b = watcher(y);
  expect(x, 1, false);
  expect(y, 1, false);
  dd::logical_thread* of_x = &a;
  dd::logical_thread* of_y = &b;
  dd::logical_thread c;
  bool ax = va_bool(), ay = va_bool();
  const bool before = va_bool();
  if (before) {
    if (ax)
      REQUIRE(a.request_stop());
    if (ay)
      REQUIRE(b.request_stop());
  }
  switch (va_choice(4)) {
    case 0:
      break;
    case 1:
      a.swap(b);
      of_x = &b;
      of_y = &a;
      break;
    case 2:
      c = std::move(a);
      REQUIRE(!a.request_stop() && !a.stop_possible());
      of_x = &c;
      break;
    case 3:
      swap(c, b);
      REQUIRE(!b.request_stop() && !b.stop_possible());
      of_y = &c;
      break;
  }
  if (!before) {
    if (ax)
      REQUIRE(of_x->request_stop());
    if (ay)
      REQUIRE(of_y->request_stop());
  }
  x.p.wake();
  y.p.wake();
  expect(x, 2, ax);
  expect(y, 2, ay);
  REQUIRE(of_x->stop_possible() && of_y->stop_possible());
  REQUIRE(of_x->joinable() && of_y->joinable());
  if (va_bool()) {
    ax = true;
    REQUIRE(of_x->request_stop());
  }
  x.p.wake();
  y.p.wake();
  expect(x, 3, ax);
  expect(y, 3, ay);
  of_x->join();
  REQUIRE(!of_x->request_stop());
  of_y->detach();
  REQUIRE(!of_y->request_stop());
  REQUIRE(va_frames() == 0);
}
// without a coroutine
DRIVER(nothing) {
  dd::logical_thread a;
  REQUIRE(!a.request_stop() && !a.stop_possible() && !a.joinable());
}
// what was done before the request is visible after it was seen
struct world {
  meeting m;
  int data = 0;
  bool seen = false, over = false;
};
static dd::logical_thread listener(world& w) {
  dd::stop_token s = co_await dd::this_coro::stop_token;
  co_await w.m;
  if (s.stop_requested()) {
    w.seen = true;
    va_data_read(&w.data);
    va_reach("seen");
  } else
    va_reach("not seen");
  w.over = true;
}
DRIVER(threads_visible) {
  world w;
  va_must_finish(1);
  va_spawn(meeting::come, &w.m);
  {
    dd::logical_thread a = listener(w);
    va_data_write(&w.data);
    REQUIRE(a.request_stop());
    va_yield();
    a.join();
  }
  va_join();
  REQUIRE(w.over);
}
static dd::logical_thread runner(world& w) {
  dd::stop_token s = co_await dd::this_coro::stop_token;
  co_await w.m;
  while (!s.stop_requested())
    va_yield();
  va_data_read(&w.data);
  w.seen = true;
  w.over = true;
}

// ------------------------------------------------------------------------------------------------ dd::stop
// things that can be stopped: join may only be called when everybody was asked
struct party;
struct member {
  party* p;
  int asked = 0, joined = 0;
  void request_stop();
  void join();
};
struct party {
  member m[4];
  int n = 0;
  party(int n) : n(n) {
    for (member& x : m)
      x.p = this;
  }
  void check() {
    for (int i = 0; i < 4; ++i)
      REQUIRE(m[i].joined == (i < n) && m[i].asked == (i < n));
  }
};
void member::request_stop() {
  ++asked;
  REQUIRE(joined == 0);
}
void member::join() {
  for (int i = 0; i < p->n; ++i)
    REQUIRE(p->m[i].asked > 0);
  ++joined;
}
DRIVER(stop_variadic) {
  party p(3);
  dd::stop(p.m[0], p.m[1], p.m[2]);
  p.check();
}
DRIVER(stop_one) {
  party p(1);
  dd::stop(p.m[0]);
  p.check();
}
DRIVER(stop_four) {
  party p(4);
  dd::stop(p.m[3], p.m[1], p.m[2], p.m[0]);
  p.check();
}
DRIVER(stop_range) {
  party p(va_choice(5));
  dd::stop(std::span<member>(p.m, p.n));
  p.check();
}
DRIVER(stop_array) {
  party p(4);
  dd::stop(p.m);
  p.check();
}
// two that can only end after both were asked
struct pair {
  parking x, y;
  int asked = 0;
};
static dd::logical_thread runs(world& w) { return runner(w); }
static void stop_threads(bool range) {
  world v, w;
  va_must_finish(1);
  va_spawn(meeting::come, &v.m);
  va_spawn(meeting::come, &w.m);
  {
    dd::logical_thread a[2];
    a[0] = runs(v);
    a[1] = runs(w);
    va_data_write(&v.data);
    va_data_write(&w.data);
    if (range)
      dd::stop(a);
    else
      dd::stop(a[0], a[1]);
    REQUIRE(v.over && w.over && v.seen && w.seen);
    REQUIRE(!a[0].joinable() && !a[1].joinable());
  }
  REQUIRE(va_frames() == 0);
  va_join();
}
DRIVER(stop_threads) { stop_threads(false); }
DRIVER(stop_threads_range) { stop_threads(true); }
