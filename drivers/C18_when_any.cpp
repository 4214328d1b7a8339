// C18: when_any delivers exactly one outcome - the first success or the last failure - and frees everything.
#include <kelcoro/task.hpp>
#include <kelcoro/algorithm.hpp>
#include "client.hpp"

struct ghost {
  bool started = false, over = false, threw = false, gone = false;
  int value = 0, data = 0;
};
struct world {
  ghost g[3];
  int n = 0;
  int order = 0;         // tasks started so far
  int ended = 0;         // tasks that have ended
  int winner = -1;       // first task that succeeded
  int last = -1;         // last one that failed
  bool done = false;     // the awaiting coroutine went on
  bool dropped = false;  // it was destroyed instead
  bool threads = false;
};
struct witness {
  ghost* g;
  explicit witness(ghost& g) : g(&g) {}
  witness(witness&& o) : g(std::exchange(o.g, nullptr)) {}
  ~witness() {
    if (g) {
      REQUIRE(!g->gone);
      REQUIRE(!g->started || g->over);
      g->gone = true;
    }
  }
};

template <typename T, typename Park, typename Task = dd::task<T>>
static Task child(witness w, world& o, int me, Park& park, bool stop, int fate) {
  ghost& g = *w.g;
  tracked local(1);
  REQUIRE(!g.started);
  REQUIRE(o.order <= me);
  REQUIRE(o.threads || (!o.done && !o.dropped));     // nothing is started once there is an outcome
  o.order = me + 1;
  g.started = true;
  va_data_write(&g.data);
  if (stop)
    co_await park;
  local.check();
  va_data_write(&g.data);
  REQUIRE(!g.over);
  g.over = true;
  ++o.ended;
  bool fail = fate == 2 ? va_bool() : fate >= 3 ? me == 1 : fate == 1;  // 3: the second one fails
  if (fail) {
    g.threw = true;
    o.last = me;
    throw 10 + me;
  }
  if (o.winner < 0)
    o.winner = me;
  if constexpr (std::is_void_v<T>)
    co_return;
  else {
    g.value = va_int();
    co_return T(g.value);
  }
}
static int value_of(int v) { return v; }
static int value_of(const tracked& t) {
  t.check();
  return t.v;
}
template <int Fate, std::size_t I, typename T, typename R>
static void check(world& o, R& r) {
  ghost& g = o.g[I];
  if (r.index() != I + 1)
    return;
  auto& e = std::get<I + 1>(r);
  va_data_read(&g.data);
  REQUIRE(g.started && g.over);
  REQUIRE(bool(e) == !g.threw);
  if (!g.threw) {
    if (!o.threads)
      REQUIRE(o.winner == int(I));
    if constexpr (!std::is_void_v<T>)
      REQUIRE(value_of(*e) == g.value);
    if constexpr (Fate != 1)
      va_reach("first success");
  } else {
    REQUIRE(o.winner < 0);
    REQUIRE(o.ended == o.n);
    if (!o.threads)
      REQUIRE(o.last == int(I));
    try {
      std::rethrow_exception(e.error());
    } catch (int x) {
      REQUIRE(x == 10 + int(I));
    }
    if constexpr (Fate == 1 || Fate == 2)
      va_reach("last failure");
  }
}

template <int Fate, typename... Ts, typename Park>
static client any(world& o, Park (&park)[3], int stops) {
  o.n = sizeof...(Ts);
  struct onexit {
    world& o;
    ~onexit() { o.dropped = !o.done; }
  } x{o};
  auto start = [&]<std::size_t... I>(std::index_sequence<I...>) {
    return dd::when_any(child<Ts>(witness(o.g[I]), o, I, park[I], stops & (1 << I), Fate)...);
  };
  auto t = start(std::index_sequence_for<Ts...>{});
  REQUIRE(o.order == 0);
  auto r = co_await t;
  REQUIRE(!o.done);
  o.done = true;
  REQUIRE(r.index() > 0);
  static_assert(std::variant_size_v<decltype(r)> == sizeof...(Ts) + 1);
  [&]<std::size_t... I>(std::index_sequence<I...>) { (check<Fate, I, Ts>(o, r), ...); }(std::index_sequence_for<Ts...>{});
}
// whoever is parked goes on, in any order
static void settle(anywhere (&park)[3], world& o) {
  for (;;) {
    bool over = true;
    for (int i = 0; i < o.n; ++i)
      over = over && (o.g[i].over || !park[i].slot);
    REQUIRE(o.done == (o.winner >= 0 || o.ended == o.n));
    if (over)
      break;
    int i = va_choice(o.n);
    if (park[i])
      park[i].wake();
    else
      va_stop();
  }
}
template <typename... Ts>
static void orders() {
  world o;
  anywhere park[3];
  any<2, Ts...>(o, park, va_choice(1 << sizeof...(Ts)));
  settle(park, o);
  REQUIRE(o.done);
  for (int i = 0; i < o.n; ++i)
    REQUIRE(o.g[i].gone);
  REQUIRE(va_frames() == 0);
}
DRIVER(one) { orders<int>(); }
DRIVER(one_void) { orders<void>(); }
DRIVER(two) { orders<int, tracked>(); }
DRIVER(two_void) { orders<void, int>(); }
DRIVER(three) { orders<int, void, tracked>(); }

// ------------------------------------------------------------------------------------------------ the when_any task is destroyed early
template <typename... Ts>
static void destroyed() {
  world o;
  anywhere park[3];
  o.n = sizeof...(Ts);
  int stops = va_choice(1 << sizeof...(Ts));
  {
    auto start = [&]<std::size_t... I>(std::index_sequence<I...>) {
      return dd::when_any(child<Ts>(witness(o.g[I]), o, I, park[I], stops & (1 << I), 2)...);
    };
    auto t = start(std::index_sequence_for<Ts...>{});
    if (va_bool()) {
      // an owner that never goes on: destroyed together with the when_any task
      auto h = t.start_and_detach(true);
      REQUIRE(bool(h));
      if (!h.done())
        va_reach("destroyed while it waits");
      h.destroy();
      o.dropped = true;
    }
  }
  // tasks in flight go on alone
  for (;;) {
    bool over = true;
    for (int i = 0; i < o.n; ++i)
      over = over && !park[i].slot;
    if (over)
      break;
    int i = va_choice(o.n);
    if (park[i])
      park[i].wake();
    else
      va_stop();
  }
  for (int i = 0; i < o.n; ++i)
    REQUIRE(o.g[i].gone);
  REQUIRE(va_frames() == 0);
}
DRIVER(destroyed1) { destroyed<int>(); }
DRIVER(destroyed2) { destroyed<tracked, void>(); }
#ifdef VA_THOROUGH
DRIVER(destroyed3) { destroyed<int, int, int>(); }
#endif

// ------------------------------------------------------------------------------------------------ tasks finish on other threads
template <int Fate, typename... Ts>
static void threads(int stops) {
  world o;
  o.threads = true;
  meeting park[3];
  va_must_finish(1);
  constexpr int n = sizeof...(Ts);
  // a task is not started when there is an outcome already: only tasks that surely start get a thread
  for (int i = 0; i < n; ++i)
    if (stops & (1 << i))
      va_spawn(meeting::come, &park[i]);
  any<Fate, Ts...>(o, park, stops);
  for (int i = 0; i < n; ++i)
    if ((stops & (1 << i)) && !o.g[i].started) {
      park[i].here = true;
      park[i].slot = std::noop_coroutine();
    }
  va_join();
  REQUIRE(o.done);
  for (int i = 0; i < n; ++i)
    REQUIRE(o.g[i].gone);
  REQUIRE(va_frames() == 0);
}
DRIVER(threads_second) { threads<2, int, int>(2); }
#ifdef NDEBUG
DRIVER(threads_fail) { threads<1, int, int>(3); }
#else
DRIVER(threads_win) { threads<0, int, int>(3); }
DRIVER(threads_win_fail) { threads<3, int, int>(3); }
#endif
// one has failed, another one succeeds at once, while the first one is about to finish
DRIVER(threads_late) { threads<4, int, int, int>(1); }
#ifdef VA_THOROUGH
DRIVER(threads_mixed) { threads<2, int, int>(3); }
DRIVER(threads_first) { threads<2, int, int>(1); }
#endif

// ------------------------------------------------------------------------------------------------ two of them in flight at once
template <typename... Ts>
static void together() {
  constexpr int n = sizeof...(Ts);
  world o[2];
  anywhere park[2][3];
  o[0].n = o[1].n = n;
  any<2, Ts...>(o[0], park[0], va_choice(1 << n));
  any<2, Ts...>(o[1], park[1], va_choice(1 << n));
  for (;;) {
    bool left = false;
    for (int k = 0; k < 2; ++k) {
      REQUIRE(o[k].done == (o[k].winner >= 0 || o[k].ended == n));
      for (int i = 0; i < n; ++i)
        left = left || park[k][i];
    }
    if (!left)
      break;
    int k = va_choice(2), i = va_choice(n);
    if (park[k][i])
      park[k][i].wake();
    else
      va_stop();
  }
  REQUIRE(o[0].done && o[1].done);
  REQUIRE(va_frames() == 0);
}
DRIVER(together1) { together<int>(); }
DRIVER(together2) { together<int, tracked>(); }

// ------------------------------------------------------------------------------------------------ many tasks
static dd::task<int> one_of_many(int i, parking& p, bool fail) {
  co_await p;
  if (fail)
    throw 100 + i;
  co_return i;
}
static client waits_for_any(parking (&p)[12], int good, bool& done) {
  auto r = co_await [&]<std::size_t... I>(std::index_sequence<I...>) {
    return dd::when_any(one_of_many(I, p[I], int(I) != good)...);
  }(std::make_index_sequence<12>());
  done = true;
  int k = 0;
  [&]<std::size_t... I>(std::index_sequence<I...>) {
    (
        [&] {
          if (r.index() == I + 1) {
            auto& e = std::get<I + 1>(r);
            REQUIRE(bool(e) == (int(I) == good));
            if (e)
              REQUIRE(*e == int(I));
            ++k;
          }
        }(),
        ...);
  }(std::make_index_sequence<12>());
  REQUIRE(k == 1);
  REQUIRE(good < 0 || int(r.index()) == good + 1);
}
DRIVER(many) {
  parking p[12];
  bool done = false;
  int good = va_choice(3) * 6 - 1;      // none, 5, 11
  waits_for_any(p, good, done);
  for (int i = 0; i < 12; ++i) {
    REQUIRE(done == (good >= 0 && i > good));
    p[i].wake();
  }
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
