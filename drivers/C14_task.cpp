// C14: a task is lazy, continues its awaiter exactly once and delivers its outcome.
#include <kelcoro/task.hpp>
#include "client.hpp"

struct ghost {
  bool started = false, returned = false, threw = false, over = false;
  int value = 0;
  bool waiting = false;   // an awaiter is waiting for this task
  int storage = 0;
};

template <typename T, typename Task>
static Task body(ghost& g, anywhere& park) {
  tracked local(1);
  REQUIRE(!g.started);
  g.started = true;
  while (va_bool())
    co_await park;
  local.check();
  REQUIRE(!g.over);
  g.over = true;
  if (va_bool()) {
    g.threw = true;
    throw va_int() * 0 + 11;
  }
  g.returned = true;
  if constexpr (std::is_void_v<T>) {
    co_return;
  } else if constexpr (std::is_reference_v<T>) {
    co_return g.storage;
  } else {
    g.value = va_int();
    co_return g.value;
  }
}

template <typename T, typename Task>
static client awaits(ghost& g, anywhere& park, bool& done) {
  tracked mine(2);
  {
    Task t = body<T, Task>(g, park);
    REQUIRE(!g.started);
    REQUIRE(!t.empty());
    REQUIRE(bool(t));
    Task u = std::move(t);
    REQUIRE(t.empty());
    REQUIRE(!g.started);
    if (va_bool()) {
      va_reach("never started");
      done = true;
      co_return;
    }
    int first = va_choice(2);
    for (int round = 0; round < 2; ++round) {
      g.waiting = true;
      bool over_before = g.over;
      if (first == 0 && round == 0) {
        co_await u.wait();
        REQUIRE(g.over);
      } else {
        try {
          if constexpr (std::is_void_v<T>) {
            co_await u;
            REQUIRE(g.returned && !g.threw);
          } else if constexpr (std::is_reference_v<T>) {
            T r = co_await u;
            REQUIRE(g.returned && !g.threw);
            REQUIRE(&r == &g.storage);
          } else {
            int v = co_await u;
            REQUIRE(g.returned && !g.threw);
            REQUIRE(v == g.value);
          }
          va_reach("value");
        } catch (int e) {
          REQUIRE(g.threw && !g.returned);
          REQUIRE(e == 11);
          va_reach("exception");
        }
      }
      REQUIRE(g.over && g.waiting);
      g.waiting = false;
      if (round == 1)
        REQUIRE(over_before);
      mine.check();
    }
    // blocking get of a finished one
    try {
      if constexpr (std::is_void_v<T>)
        u.get();
      else if constexpr (std::is_reference_v<T>)
        REQUIRE(&u.get() == &g.storage);
      else
        REQUIRE(u.get() == g.value);
      REQUIRE(g.returned);
    } catch (int e) {
      REQUIRE(g.threw);
      REQUIRE(e == 11);
    }
    REQUIRE(!u.empty());
  }
  done = true;
}
template <typename T, typename Task = dd::task<T>>
static void run() {
  ghost g;
  anywhere park;
  bool done = false;
  awaits<T, Task>(g, park, done);
  while (park) {
    REQUIRE(!done);
    REQUIRE(g.waiting);
    park.wake();
  }
  REQUIRE(done);
}
DRIVER(value) { run<int>(); }
DRIVER(reference) { run<int&>(); }
DRIVER(nothing) { run<void>(); }
DRIVER(resourced) { run<int, dd::pmr::task<int>>(); }

// ------------------------------------------------------------------------------------------------ tasks awaiting tasks
static dd::task<int> inner(ghost& g, anywhere& park) {
  return body<int, dd::task<int>>(g, park);
}
static dd::task<int> middle(ghost& g, anywhere& park, bool& mid_over) {
  tracked local(3);
  int v = co_await inner(g, park);
  REQUIRE(g.over);
  REQUIRE(v == g.value);
  if (va_bool())
    co_await park;
  mid_over = true;
  co_return v;
}
static client nested(ghost& g, anywhere& park, bool& done) {
  bool mid_over = false;
  try {
    int v = co_await middle(g, park, mid_over);
    REQUIRE(mid_over);
    REQUIRE(v == g.value);
    va_reach("value");
  } catch (int e) {
    REQUIRE(g.threw && !mid_over);
    REQUIRE(e == 11);
    va_reach("exception");
  }
  done = true;
}
DRIVER(nested) {
  ghost g;
  anywhere park;
  bool done = false;
  nested(g, park, done);
  while (park) {
    REQUIRE(!done);
    park.wake();
  }
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ get() blocks until finished
template <typename T>
static void blocking() {
  ghost g;
  parking park;
  struct other {
    static dd::task<T> body(ghost& g, parking& park) {
      g.started = true;
      if (va_bool()) {
        va_inject([](void* p) { ((parking*)p)->wake(); }, &park);  // another thread resumes it some time
        co_await park;
      }
      g.over = true;
      if (va_bool()) {
        g.threw = true;
        throw 11;
      }
      g.returned = true;
      if constexpr (std::is_void_v<T>)
        co_return;
      else if constexpr (std::is_reference_v<T>)
        co_return g.storage;
      else {
        g.value = va_int();
        co_return g.value;
      }
    }
  };
  va_must_finish(1);
  dd::task<T> t = other::body(g, park);
  REQUIRE(!g.started);
  try {
    if constexpr (std::is_void_v<T>)
      t.get();
    else if constexpr (std::is_reference_v<T>)
      REQUIRE(&t.get() == &g.storage);
    else
      REQUIRE(t.get() == g.value);
    REQUIRE(g.over && g.returned);
    va_reach("value");
  } catch (int e) {
    REQUIRE(g.over && g.threw);
    REQUIRE(e == 11);
    va_reach("exception");
  }
}
DRIVER(get_value) { blocking<int>(); }
DRIVER(get_reference) { blocking<int&>(); }
DRIVER(get_nothing) { blocking<void>(); }

// ------------------------------------------------------------------------------------------------ many awaits in a row reuse one awaiter
static dd::task<int> small(int v, bool park_it, anywhere& park) {
  if (park_it)
    co_await park;
  co_return v;
}
static client sums(anywhere& park, bool& done) {
  int a = va_int(), b = va_int();
  dd::task<int> ta = small(a, va_bool(), park), tb = small(b, va_bool(), park);
  int rb = co_await tb;
  int ra = co_await ta;
  REQUIRE(ra == a && rb == b);
  // move-assigned: the outcome follows
  ta = std::move(tb);
  REQUIRE(co_await ta == b);
  dd::task<int> tc = small(7, false, park);
  tc = std::move(ta);
  REQUIRE(co_await tc == b);
  done = true;
}
DRIVER(sequence) {
  anywhere park;
  bool done = false;
  sums(park, done);
  while (park)
    park.wake();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}

// a finished task left by start_and_detach(true) or resumed by hand is awaited without running again
static client awaits_finished(ghost& g, anywhere& park, bool& done) {
  {
    dd::task<int> t = body<int, dd::task<int>>(g, park);
    auto h = t.start_and_detach(true);
    REQUIRE(t.empty());
    REQUIRE(g.started);
    REQUIRE(h.done() == g.over);
    while (park)
      park.wake();
    REQUIRE(h.done());
    t = dd::task<int>(h);
    REQUIRE(!t.empty());
    try {
      int v = co_await t;
      REQUIRE(g.returned);
      REQUIRE(v == g.value);
      va_reach("value");
    } catch (int) {
      REQUIRE(g.threw);
      va_reach("exception");
    }
    co_await t.wait();
  }
  done = true;
}
DRIVER(await_finished) {
  ghost g;
  anywhere park;
  bool done = false;
  awaits_finished(g, park, done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ two tasks, awaited by turns
static dd::task<int> one_of(int v, anywhere& park) {
  if (va_bool())
    co_await park;
  if (v < 0)
    throw v;
  co_return v;
}
static client both(anywhere& park, bool& done) {
  const int x = va_int(), y = va_int();
  dd::task<int> t[2] = {one_of(x, park), one_of(y, park)};
  for (int k = 0; k < 4; ++k) {
    int i = k & 1, v = i ? y : x;
    try {
      int r = co_await t[i];
      REQUIRE(v >= 0 && r == v);
      va_reach("value");
    } catch (int e) {
      REQUIRE(v < 0 && e == v);
      va_reach("exception");
    }
  }
  done = true;
}
DRIVER(by_turns) {
  anywhere park;
  bool done = false;
  both(park, done);
  while (park) {
    REQUIRE(!done);
    park.wake();
  }
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
// both outcomes are kept and read later
static client keeps_both(anywhere& park, bool& done) {
  const int x = va_int(), y = va_int();
  dd::task<int> t = one_of(x, park), u = one_of(y, park);
  try {
    int&& r = co_await t;
    int&& s = co_await u;
    REQUIRE(r == x && s == y);
  } catch (int e) {
    REQUIRE(e < 0 && (e == x || e == y));
  }
  done = true;
}
DRIVER(kept) {
  anywhere park;
  bool done = false;
  keeps_both(park, done);
  while (park) {
    REQUIRE(!done);
    park.wake();
  }
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ long chains
static dd::task<int> chained(int depth, parking& park, int fail) {
  if (depth == 0) {
    co_await park;
    co_return 0;
  }
  int below = co_await chained(depth - 1, park, fail);
  REQUIRE(below == depth - 1);
  if (depth == fail)
    throw 5;
  co_return depth;
}
static client awaits_chain(parking& park, int depth, int fail, bool& done) {
  try {
    int x = co_await chained(depth, park, fail);
    REQUIRE(x == depth && fail < 0);
  } catch (int e) {
    REQUIRE(e == 5 && fail >= 0);
  }
  done = true;
}
DRIVER(chain) {
  parking park;
  bool done = false;
  awaits_chain(park, 100, va_bool() ? 50 : -1, done);
  REQUIRE(!done);
  park.wake();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
static client awaits_row(int n, bool& done) {
  anywhere park;
  for (int i = 0; i < n; ++i) {
    int x = co_await [](int i) -> dd::task<int> { co_return i; }(i);
    REQUIRE(x == i);
  }
  done = true;
}
DRIVER(row) {
  bool done = false;
  awaits_row(300, done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
