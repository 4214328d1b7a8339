// C17: when_all starts every task once, completes once after all of them, and keeps positions.
#include <kelcoro/task.hpp>
#include <kelcoro/algorithm.hpp>
#include "client.hpp"

struct ghost {
  bool started = false, over = false, threw = false, gone = false;
  int value = 0, data = 0;
};
struct witness {
  ghost* g;
  explicit witness(ghost& g) : g(&g) {}
  witness(witness&& o) : g(std::exchange(o.g, nullptr)) {}
  ~witness() {
    if (g) {
      REQUIRE(!g->gone);
      g->gone = true;
    }
  }
};

template <typename T, typename Park, typename Task = dd::task<T>>
static Task child(witness w, Park& park, bool stop) {
  ghost& g = *w.g;
  tracked local(1);
  REQUIRE(!g.started);
  g.started = true;
  va_data_write(&g.data);
  if (stop)
    co_await park;
  local.check();
  va_data_write(&g.data);
  REQUIRE(!g.over);
  g.over = true;
  if (va_bool()) {
    g.threw = true;
    throw 11;
  }
  if constexpr (std::is_void_v<T>)
    co_return;
  else {
    g.value = va_int();
    co_return T(g.value);
  }
}
static int value_of(int v) { return v; }
static int value_of(const tracked& t) {
  t.check();
  return t.v;
}
template <typename T>
static void check(ghost& g, dd::expected<T, std::exception_ptr>& r) {
  va_data_read(&g.data);
  REQUIRE(g.started && g.over);
  REQUIRE(bool(r) == !g.threw);
  REQUIRE(r.has_value() == !g.threw);
  if (g.threw) {
    REQUIRE(bool(r.error()));
    try {
      std::rethrow_exception(r.error());
    } catch (int e) {
      REQUIRE(e == 11);
      va_reach("exception");
    }
  } else {
    if constexpr (!std::is_void_v<T>)
      REQUIRE(value_of(*r) == g.value);
    va_reach("value");
  }
}

template <typename A, typename B, typename C, typename Park>
static client three(ghost (&g)[3], Park (&park)[3], int stops, bool& done) {
  {
    auto t = dd::when_all(child<A>(witness(g[0]), park[0], stops & 1), child<B>(witness(g[1]), park[1], stops & 2),
                          child<C>(witness(g[2]), park[2], stops & 4));
    REQUIRE(!g[0].started && !g[1].started && !g[2].started);
    auto r = co_await t;
    check<A>(g[0], std::get<0>(r));
    check<B>(g[1], std::get<1>(r));
    check<C>(g[2], std::get<2>(r));
    static_assert(std::tuple_size_v<decltype(r)> == 3);
  }
  REQUIRE(g[0].gone && g[1].gone && g[2].gone);
  REQUIRE(!done);
  done = true;
}
template <typename A, typename B, typename Park>
static client two(ghost (&g)[3], Park (&park)[3], int stops, bool& done) {
  {
    auto t = dd::when_all(child<A>(witness(g[0]), park[0], stops & 1), child<B>(witness(g[1]), park[1], stops & 2));
    REQUIRE(!g[0].started && !g[1].started);
    auto r = co_await t;
    check<A>(g[0], std::get<0>(r));
    check<B>(g[1], std::get<1>(r));
  }
  REQUIRE(g[0].gone && g[1].gone);
  REQUIRE(!done);
  done = true;
}
template <typename A, typename Park>
static client one(ghost (&g)[3], Park (&park)[3], int stops, bool& done) {
  {
    auto r = co_await dd::when_all(child<A>(witness(g[0]), park[0], stops & 1));
    check<A>(g[0], std::get<0>(r));
  }
  REQUIRE(g[0].gone);
  REQUIRE(!done);
  done = true;
}
template <typename A, typename Park>
static client many(ghost (&g)[3], Park (&park)[3], int n, int stops, bool& done) {
  {
    std::vector<dd::task<A>> v;
    v.reserve(3);
    for (int i = 0; i < n; ++i)
      v.push_back(child<A>(witness(g[i]), park[i], stops & (1 << i)));
    auto t = dd::when_all(std::move(v));
    for (int i = 0; i < n; ++i)
      REQUIRE(!g[i].started);
    auto r = co_await t;
    REQUIRE(r.size() == std::size_t(n));
    for (int i = 0; i < n; ++i)
      check<A>(g[i], r[i]);
  }
  for (int i = 0; i < n; ++i)
    REQUIRE(g[i].gone);
  REQUIRE(!done);
  done = true;
}
// whoever is parked goes on, in any order; nobody resumes the owner early
static void settle(anywhere (&park)[3], ghost (&g)[3], int n, bool& done) {
  for (;;) {
    bool all = true;
    for (int i = 0; i < n; ++i) {
      REQUIRE(g[i].started);
      all = all && g[i].over;
    }
    REQUIRE(done == all);
    if (all)
      break;
    int i = va_choice(n);
    if (park[i])
      park[i].wake();
    else
      va_stop();
  }
}
template <typename F>
static void orders(int n, F start) {
  ghost g[3];
  anywhere park[3];
  bool done = false;
  start(g, park, va_choice(1 << n), done);
  settle(park, g, n, done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
DRIVER(one) { orders(1, [](auto& g, auto& p, int s, bool& d) { one<int>(g, p, s, d); }); }
DRIVER(one_void) { orders(1, [](auto& g, auto& p, int s, bool& d) { one<void>(g, p, s, d); }); }
DRIVER(two_mixed) { orders(2, [](auto& g, auto& p, int s, bool& d) { two<int, tracked>(g, p, s, d); }); }
DRIVER(two_void) { orders(2, [](auto& g, auto& p, int s, bool& d) { two<void, int>(g, p, s, d); }); }
DRIVER(three) { orders(3, [](auto& g, auto& p, int s, bool& d) { three<int, void, tracked>(g, p, s, d); }); }
DRIVER(vector1) { orders(1, [](auto& g, auto& p, int s, bool& d) { many<int>(g, p, 1, s, d); }); }
DRIVER(vector2) { orders(2, [](auto& g, auto& p, int s, bool& d) { many<tracked>(g, p, 2, s, d); }); }
DRIVER(vector2_void) { orders(2, [](auto& g, auto& p, int s, bool& d) { many<void>(g, p, 2, s, d); }); }
DRIVER(vector3) { orders(3, [](auto& g, auto& p, int s, bool& d) { many<int>(g, p, 3, s, d); }); }
static client none(bool& done) {
  std::vector<dd::task<int>> v;
  auto r = co_await dd::when_all(std::move(v));
  REQUIRE(r.empty());
  done = true;
}
DRIVER(vector0) {
  bool done = false;
  none(done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ children finish on other threads
template <typename F>
static void threads(int stops, F start) {
  ghost g[3];
  meeting park[3];
  bool done = false;
  va_must_finish(1);
  for (int i = 0; i < 3; ++i)
    if (stops & (1 << i))
      va_spawn(meeting::come, &park[i]);
  start(g, park, stops, done);
  va_join();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
DRIVER(threads_first) { threads(1, [](auto& g, auto& p, int s, bool& d) { two<int, int>(g, p, s, d); }); }
DRIVER(threads_second) { threads(2, [](auto& g, auto& p, int s, bool& d) { two<int, tracked>(g, p, s, d); }); }
DRIVER(threads_both) { threads(3, [](auto& g, auto& p, int s, bool& d) { two<int, void>(g, p, s, d); }); }
DRIVER(threads_vector) { threads(3, [](auto& g, auto& p, int s, bool& d) { many<int>(g, p, 2, s, d); }); }
#ifdef VA_THOROUGH
DRIVER(threads_three) { threads(7, [](auto& g, auto& p, int s, bool& d) { three<int, int, int>(g, p, s, d); }); }
#endif

// ------------------------------------------------------------------------------------------------ two of them in flight at once
static bool finish_some(anywhere (&park)[3], int n) {
  for (int i = 0; i < n; ++i)
    if (park[i]) {
      park[i].wake();
      return true;
    }
  return false;
}
template <typename F, typename G>
static void together(int n, F first, G second) {
  ghost g[2][3];
  anywhere park[2][3];
  bool done[2] = {};
  first(g[0], park[0], va_choice(1 << n), done[0]);
  second(g[1], park[1], va_choice(1 << n), done[1]);
  for (;;) {
    for (int k = 0; k < 2; ++k) {
      bool all = true;
      for (int i = 0; i < n; ++i) {
        REQUIRE(g[k][i].started);
        all = all && g[k][i].over;
      }
      REQUIRE(done[k] == all);
    }
    if (done[0] && done[1])
      break;
    int k = done[0] ? 1 : done[1] ? 0 : va_choice(2);
    REQUIRE(finish_some(park[k], n));
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(together_tuple) {
  auto f = [](auto& g, auto& p, int s, bool& d) { two<int, int>(g, p, s, d); };
  together(2, f, f);
}
DRIVER(together_vector) {
  auto f = [](auto& g, auto& p, int s, bool& d) { many<int>(g, p, 2, s, d); };
  together(2, f, f);
}
DRIVER(together_mixed) {
  together(1, [](auto& g, auto& p, int s, bool& d) { one<tracked>(g, p, s, d); },
           [](auto& g, auto& p, int s, bool& d) { many<tracked>(g, p, 1, s, d); });
}

// ------------------------------------------------------------------------------------------------ three end at the same time
static dd::task<int> parked_child(parking& p, int v) {
  co_await p;
  co_return v;
}
static client waits_for_three(parking (&p)[3], bool& done) {
  auto r = co_await dd::when_all(parked_child(p[0], 1), parked_child(p[1], 2), parked_child(p[2], 3));
  REQUIRE(*std::get<0>(r) == 1 && *std::get<1>(r) == 2 && *std::get<2>(r) == 3);
  done = true;
}
static client waits_for_vector(parking (&p)[3], bool& done) {
  std::vector<dd::task<int>> v;
  v.reserve(3);
  for (int i = 0; i < 3; ++i)
    v.push_back(parked_child(p[i], i + 1));
  auto r = co_await dd::when_all(std::move(v));
  for (int i = 0; i < 3; ++i)
    REQUIRE(*r[i] == i + 1);
  done = true;
}
static void wakes(void* p) { static_cast<parking*>(p)->wake(); }
static void end_at_once(client (*start)(parking (&)[3], bool&)) {
  parking p[3];
  bool done = false;
  va_must_finish(1);
  start(p, done);
  va_spawn(wakes, &p[0]);
  va_spawn(wakes, &p[1]);
  wakes(&p[2]);
  va_join();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
DRIVER(end_at_once) { end_at_once(waits_for_three); }
DRIVER(end_at_once_vector) { end_at_once(waits_for_vector); }
// many tasks, one of which ends later
static dd::task<int> one_of_many(int i, parking* p) {
  if (p)
    co_await *p;
  co_return i;
}
static client waits_for_many(int n, int late, parking& p, bool& done) {
  std::vector<dd::task<int>> v;
  v.reserve(n);
  for (int i = 0; i < n; ++i)
    v.push_back(one_of_many(i, i == late ? &p : nullptr));
  auto r = co_await dd::when_all(std::move(v));
  REQUIRE(r.size() == std::size_t(n));
  for (int i = 0; i < n; ++i)
    REQUIRE(*r[i] == i);
  done = true;
}
DRIVER(vector_many) {
  parking p;
  bool done = false;
  const int n = 260;
  waits_for_many(n, va_bool() ? n - 1 : 2, p, done);
  REQUIRE(!done);
  p.wake();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
