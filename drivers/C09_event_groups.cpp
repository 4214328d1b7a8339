// C09: when_all / when_any over events resume the awaiting coroutine exactly once, at the right moment, with the right inputs.
#include <kelcoro/events.hpp>
#include <memory>
#include "client.hpp"

struct value {
  int v = -1;
  tracked t{7};
  value() = default;
  explicit value(int v) : v(v) {}
  value(const value&) = default;
  value(value&& o) noexcept : v(std::exchange(o.v, -2)), t(std::move(o.t)) {}
  value& operator=(const value&) = default;
  value& operator=(value&& o) noexcept {
    v = std::exchange(o.v, -2);
    return *this;
  }
};
struct world {
  static constexpr int N = 3;
  dd::event<value> a;
  dd::event<void> b;
  dd::event<value> c;
  int fired[N] = {};           // the first value an event was fired with after the subscription (0: not yet)
  int subscribed = 0;          // 1: subscription has begun, 2: is complete
  int order[N] = {};           // events in the order in which they fired
  int nfired = 0;
  int n = N;                   // events in use
  int resumed = 0;
  bool running = false;
  bool sure[N] = {};           // fired after the subscription was complete
  // tasks whose resumption is still outstanding
  dd::task_node* later[8] = {};
  int nlater = 0;
  bool keep = false;
  int data[N] = {};
  int frame = 0;
};
struct exec {
  world& w;
  void attach(dd::task_node* x) {
    REQUIRE(x && x->task && x->status == dd::schedule_errc::ok);
    x->next = x;
    if (w.keep) {
      REQUIRE(w.nlater < 8);
      w.later[w.nlater++] = x;
    } else
      std::coroutine_handle<>(x->task).resume();
  }
};
static void flush(world& w, bool backwards) {
  while (w.nlater) {
    dd::task_node* x;
    if (backwards)
      x = w.later[--w.nlater];
    else {
      x = w.later[0];
      --w.nlater;
      for (int i = 0; i < w.nlater; ++i)
        w.later[i] = w.later[i + 1];
    }
    x->task.resume();
  }
}
template <int I>
static bool fire(world& w, int v) {
  exec e{w};
  if constexpr (I == 0)
    return w.a.notify_all(e, value(v));
  else if constexpr (I == 1)
    return w.b.notify_all(e);
  else
    return w.c.notify_all(e, value(v));
}
static bool fire(world& w, int i, int v) {
  return i == 0 ? fire<0>(w, v) : i == 1 ? fire<1>(w, v) : fire<2>(w, v);
}
static bool same(const value& x, int v) {
  x.t.check();
  return x.v == v;
}
static bool same(const dd::nullstruct&, int) { return true; }

// ------------------------------------------------------------------------------------------------ when_all
static client all3(world& w) {
  tracked t(1);
  auto [x, y, z] = co_await dd::when_all(w.a, w.b, w.c);
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(w.nfired == 3);
  REQUIRE(same(x, 100) && same(y, 101) && same(z, 102));
  static_assert(std::is_same_v<decltype(y), dd::nullstruct>);
}
static client all2(world& w) {
  tracked t(1);
  auto r = co_await dd::when_all(w.c, w.a);
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(w.nfired == 2);
  REQUIRE(same(std::get<0>(r), 102) && same(std::get<1>(r), 100));
}
static client all1(world& w) {
  auto r = co_await dd::when_all(w.b);
  (void)r;
  REQUIRE(++w.resumed == 1);
  REQUIRE(w.nfired == 1);
}
static client all_named(world& w) {
  tracked t(1);
  auto g = dd::when_all(w.a, w.b, w.c);
  auto r = co_await g;
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(w.nfired == 3);
  REQUIRE(same(std::get<0>(r), 100) && same(std::get<2>(r), 102));
}
// in any order, some before, some twice
static void orders(client (*start)(world&), int n, const int* which) {
  world w;
  w.keep = va_bool();
  bool used[3] = {};
  if (va_bool())
    REQUIRE(!fire(w, which[0], 7));        // nobody is there yet
  start(w);
  while (w.nfired < n) {
    REQUIRE(w.resumed == 0);
    int i = va_choice(n);
    if (used[i]) {
      REQUIRE(!fire(w, which[i], 8));      // a second time: it is not heard any more
      va_stop();
    }
    used[i] = true;
    ++w.nfired;
    REQUIRE(fire(w, which[i], 100 + which[i]));
    if (va_bool())
      flush(w, false);
  }
  flush(w, va_bool());
  REQUIRE(w.resumed == 1);
  for (int i = 0; i < n; ++i)
    REQUIRE(!fire(w, which[i], 9));
  REQUIRE(w.resumed == 1);
  REQUIRE(va_frames() == 0);
}
static constexpr int abc[] = {0, 1, 2}, ca[] = {2, 0}, b[] = {1};
DRIVER(all3) { orders(all3, 3, abc); }
DRIVER(all2) { orders(all2, 2, ca); }
DRIVER(all1) { orders(all1, 1, b); }
DRIVER(all_named) { orders(all_named, 3, abc); }
// the same event twice: both positions get the value
static client twice(world& w) {
  auto r = co_await dd::when_all(w.a, w.a);
  REQUIRE(++w.resumed == 1);
  REQUIRE(same(std::get<0>(r), 100) && same(std::get<1>(r), 100));
}
DRIVER(all_twice) {
  world w;
  twice(w);
  REQUIRE(fire(w, 0, 100));
  REQUIRE(w.resumed == 1);
  REQUIRE(va_frames() == 0);
}
// in a loop
static client rounds(world& w) {
  for (int i = 0; i < 2; ++i) {
    auto r = co_await dd::when_all(w.a, w.c);
    REQUIRE(w.resumed == i);
    ++w.resumed;
    REQUIRE(same(std::get<0>(r), 10 + i) && same(std::get<1>(r), 20 + i));
  }
}
DRIVER(all_rounds) {
  world w;
  rounds(w);
  for (int i = 0; i < 2; ++i) {
    REQUIRE(fire(w, 0, 10 + i));
    REQUIRE(w.resumed == i);
    REQUIRE(!fire(w, 0, 30));
    REQUIRE(fire(w, 2, 20 + i));
    REQUIRE(w.resumed == i + 1);
  }
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ when_any
template <int... Is, typename V>
static void check_any(world& w, V& r, std::integer_sequence<int, Is...>, const int* which) {
  REQUIRE(w.nfired >= 1);
  (
      [&] {
        if (r.index() == Is) {
          REQUIRE(which[Is] == w.order[0]);
          REQUIRE(same(std::get<Is>(r), 100 + which[Is]));
        }
      }(),
      ...);
  REQUIRE(r.index() < sizeof...(Is));
}
static client any3(world& w) {
  tracked t(1);
  auto r = co_await dd::when_any(w.a, w.b, w.c);
  t.check();
  REQUIRE(++w.resumed == 1);
  check_any(w, r, std::make_integer_sequence<int, 3>{}, abc);
}
static client any2(world& w) {
  tracked t(1);
  auto r = co_await dd::when_any(w.c, w.a);
  t.check();
  REQUIRE(++w.resumed == 1);
  check_any(w, r, std::make_integer_sequence<int, 2>{}, ca);
}
static client any_named(world& w) {
  tracked t(1);
  auto g = dd::when_any(w.a, w.b, w.c);
  auto r = co_await g;
  t.check();
  REQUIRE(++w.resumed == 1);
  check_any(w, r, std::make_integer_sequence<int, 3>{}, abc);
}
static void any_orders(client (*start)(world&), int n, const int* which) {
  world w;
  w.keep = va_bool();
  bool used[3] = {};
  if (va_bool())
    REQUIRE(!fire(w, which[0], 7));
  start(w);
  REQUIRE(w.resumed == 0);
  while (w.nfired < n) {
    int i = va_choice(n);
    if (used[i])
      va_stop();
    used[i] = true;
    if (w.nfired == 0 || w.keep)
      w.order[w.nfired] = which[i];
    ++w.nfired;
    REQUIRE(fire(w, which[i], 100 + which[i]));
    if (w.nfired == 1 || va_bool())
      flush(w, false);
    REQUIRE(w.resumed == 1);
    REQUIRE(!fire(w, which[i], 9));
  }
  flush(w, va_bool());
  REQUIRE(w.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(any3) { any_orders(any3, 3, abc); }
DRIVER(any2) { any_orders(any2, 2, ca); }
DRIVER(any_named) { any_orders(any_named, 3, abc); }
// a group of two awaited again by the coroutine it has woken, while the rest of the first group still waits
static client any_again(world& w) {
  auto r = co_await dd::when_any(w.a, w.c);
  ++w.resumed;
  REQUIRE(r.index() == 0 && same(std::get<0>(r), 100));
  auto s = co_await dd::when_any(w.a, w.c);
  ++w.resumed;
  REQUIRE(s.index() == 1 && same(std::get<1>(s), 102));
}
DRIVER(any_again) {
  world w;
  any_again(w);
  REQUIRE(fire(w, 0, 100));
  REQUIRE(w.resumed == 1);
  REQUIRE(fire(w, 2, 102));
  REQUIRE(w.resumed == 2);
  REQUIRE(fire(w, 0, 300));
  REQUIRE(w.resumed == 2);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ events that fire while the subscription is in progress
template <int I>
static void go(void* p) {
  world& w = *static_cast<world*>(p);
  fire<I>(w, 100 + I);
}
static client all_in(world& w) {
  tracked t(1);
  auto r = co_await dd::when_all(w.a, w.b);
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(same(std::get<0>(r), 100) || same(std::get<0>(r), 200));
}
static client any_in(world& w) {
  tracked t(1);
  auto r = co_await dd::when_any(w.a, w.b);
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(r.index() == 1 || same(std::get<0>(r), 100) || same(std::get<0>(r), 200));
}
static client any_in3(world& w) {
  tracked t(1);
  auto r = co_await dd::when_any(w.a, w.b, w.c);
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(r.index() == 1 || (r.index() == 0 && (same(std::get<0>(r), 100) || same(std::get<0>(r), 200))) ||
          (r.index() == 2 && (same(std::get<2>(r), 102) || same(std::get<2>(r), 202))));
}
static void interfere(client (*start)(world&), bool all, void (*f)(void*), void (*g)(void*), void (*h)(void*)) {
  world w;
  va_inject(f, &w);
  if (g)
    va_inject(g, &w);
  if (h)
    va_inject(h, &w);
  start(w);
  va_run_pending();
  // whoever has not fired yet
  for (int i = 0; i < 3; ++i)
    fire(w, i, 200 + i);
  REQUIRE(w.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(all_interfered) { interfere(all_in, true, go<0>, go<1>, nullptr); }
DRIVER(all_interfered_back) { interfere(all_in, true, go<1>, go<0>, nullptr); }
DRIVER(any_interfered) { interfere(any_in, false, go<0>, go<1>, nullptr); }
DRIVER(any_interfered_back) { interfere(any_in, false, go<1>, go<0>, nullptr); }
DRIVER(any_interfered3) { interfere(any_in3, false, go<0>, go<2>, go<1>); }
DRIVER(any_interfered3_back) { interfere(any_in3, false, go<1>, go<0>, go<2>); }

// ------------------------------------------------------------------------------------------------ threads
template <int I>
static void tgo(void* p) {
  world& w = *static_cast<world*>(p);
  va_data_write(&w.data[I]);
  fire<I>(w, 100 + I);
}
static client all_t(world& w) {
  tracked t(1);
  va_data_write(&w.frame);
  auto r = co_await dd::when_all(w.a, w.c);
  t.check();
  va_data_write(&w.frame);
  REQUIRE(++w.resumed == 1);
  if (std::get<0>(r).v == 100)
    va_data_read(&w.data[0]);
  else
    REQUIRE(std::get<0>(r).v == 200);
  if (std::get<1>(r).v == 102)
    va_data_read(&w.data[2]);
  else
    REQUIRE(std::get<1>(r).v == 202);
}
static client any_t(world& w) {
  tracked t(1);
  va_data_write(&w.frame);
  auto r = co_await dd::when_any(w.a, w.c);
  t.check();
  va_data_write(&w.frame);
  REQUIRE(++w.resumed == 1);
  const value& v = r.index() == 0 ? std::get<0>(r) : std::get<1>(r);
  if (v.v < 200) {
    REQUIRE(v.v == 100 + 2 * int(r.index()));
    va_data_read(&w.data[2 * r.index()]);
  } else
    REQUIRE(v.v == 200 + 2 * int(r.index()));
}
static void threads(client (*start)(world&), bool first, bool both) {
  world w;
  if (first)
    start(w);
  va_spawn(tgo<0>, &w);
  if (both)
    va_spawn(tgo<2>, &w);
  if (!first)
    start(w);
  va_join();
  fire<0>(w, 200);
  fire<2>(w, 202);
  REQUIRE(w.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(threads_all) { threads(all_t, true, true); }
DRIVER(threads_any) { threads(any_t, true, true); }
DRIVER(threads_all_subscribing) { threads(all_t, false, false); }
DRIVER(threads_any_subscribing) { threads(any_t, false, false); }
// events without input
struct voids {
  dd::event<void> a, b;
  int data[2] = {};
  bool done[2] = {};
  int frame = 0;
  int resumed = 0;
};
struct here {
  static void attach(dd::task_node* x) { std::coroutine_handle<>(x->task).resume(); }
};
template <int I>
static void vgo(void* p) {
  voids& w = *static_cast<voids*>(p);
  va_data_write(&w.data[I]);
  here e;
  (I == 0 ? w.a : w.b).notify_all(e);
}
static client all_vv(voids& w, const bool& late) {
  tracked t(1);
  va_data_write(&w.frame);
  (void)co_await dd::when_all(w.a, w.b);
  t.check();
  va_data_write(&w.frame);
  REQUIRE(++w.resumed == 1);
  if (!late) {
    va_data_read(&w.data[0]);
    va_data_read(&w.data[1]);
  }
}
static client any_vv(voids& w, const bool& late) {
  tracked t(1);
  va_data_write(&w.frame);
  auto r = co_await dd::when_any(w.a, w.b);
  t.check();
  va_data_write(&w.frame);
  REQUIRE(++w.resumed == 1);
  if (!late)
    va_data_read(&w.data[r.index()]);
}
static void vthreads(client (*start)(voids&, const bool&)) {
  voids w;
  const bool late = false;
  start(w, late);
  va_spawn(vgo<0>, &w);
  va_spawn(vgo<1>, &w);
  va_join();
  REQUIRE(w.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(threads_all_void) { vthreads(all_vv); }
DRIVER(threads_any_void) { vthreads(any_vv); }
#ifdef VA_THOROUGH
DRIVER(threads_all_subscribing2) { threads(all_t, false, true); }
DRIVER(threads_any_subscribing2) { threads(any_t, false, true); }
#endif

// ------------------------------------------------------------------------------------------------ several groups at once
static void together(client (*start)(world&), client (*other)(world&), bool all) {
  world w[2];
  static constexpr int which[2] = {2, 0};
  start(w[0]);
  other(w[1]);
  bool used[2][2] = {};
  for (int k = 0; k < 4; ++k) {
    int j = va_choice(2), i = va_choice(2);
    if (used[j][i])
      va_stop();
    used[j][i] = true;
    ++w[j].nfired;
    w[j].order[w[j].nfired - 1] = which[i];
    fire(w[j], which[i], 100 + which[i]);
    for (int m = 0; m < 2; ++m)
      REQUIRE(w[m].resumed == (w[m].nfired >= (all ? 2 : 1)));
  }
  REQUIRE(va_frames() == 0);
}
static client together_any(world& w) {
  tracked t(1);
  auto r = co_await dd::when_any(w.c, w.a);
  t.check();
  REQUIRE(++w.resumed == 1);
  REQUIRE(w.nfired == 1);
  if (w.order[0] == 2)
    REQUIRE(r.index() == 0 && same(std::get<0>(r), 102));
  else
    REQUIRE(r.index() == 1 && same(std::get<1>(r), 100));
}
DRIVER(all_together) { together(all2, all2, true); }
DRIVER(any_together) { together(together_any, together_any, false); }

// ------------------------------------------------------------------------------------------------ many events
struct resumer {
  void attach(dd::task_node* x) { x->task.resume(); }
};
static client waits_for_all(dd::event<void> (&e)[18], int& resumed) {
  co_await [&]<std::size_t... I>(std::index_sequence<I...>) {
    return dd::when_all(e[I]...);
  }(std::make_index_sequence<18>());
  ++resumed;
}
static client waits_for_any(dd::event<void> (&e)[18], int& resumed, std::size_t& which) {
  auto r = co_await [&]<std::size_t... I>(std::index_sequence<I...>) {
    return dd::when_any(e[I]...);
  }(std::make_index_sequence<18>());
  which = r.index();
  ++resumed;
}
DRIVER(all_many) {
  va_no_weak_failures();
  dd::event<void> e[18];
  resumer x;
  int resumed = 0;
  waits_for_all(e, resumed);
  bool forward = va_bool();
  for (int i = 0; i < 18; ++i) {
    REQUIRE(resumed == 0);
    REQUIRE(e[forward ? i : 17 - i].notify_all(x));
  }
  REQUIRE(resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(any_many) {
  va_no_weak_failures();
  dd::event<void> e[18];
  resumer x;
  int resumed = 0, first = va_choice(3) * 8 + 1;
  std::size_t which = 0;
  waits_for_any(e, resumed, which);
  REQUIRE(resumed == 0);
  REQUIRE(e[first].notify_all(x));
  REQUIRE(resumed == 1 && which == std::size_t(first));
  for (int i = 0; i < 18; ++i)
    (void)e[i].notify_all(x);
  REQUIRE(resumed == 1);
  REQUIRE(va_frames() == 0);
}
