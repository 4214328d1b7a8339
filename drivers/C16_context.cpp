// C16: the context of a task sees on_owner_setted, on_start, the body and on_end in this order, each at most once.
#include <kelcoro/task.hpp>
#include <kelcoro/algorithm.hpp>
#include "client.hpp"

struct ghost {
  void* ctx = nullptr;
  void* owner = nullptr;      // expected owner, if known
  bool body = false, over = false, threw = false, ended = false, resumed = false, gone = false;
  int value = 0;
};
struct probe {
  int owners = 0, starts = 0, ends = 0;
  void* who = nullptr;
  void* me = nullptr;
  ghost* g = nullptr;
  probe() = default;
  probe(probe&&) = delete;
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) {
    REQUIRE(o && t);
    REQUIRE(owners == 0 && starts == 0 && ends == 0);
    REQUIRE(&t.promise().ctx == this);
    ++owners;
    who = o.address();
    me = t.address();
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) {
    REQUIRE(bool(t));
    REQUIRE(starts == 0 && ends == 0 && !g);
    REQUIRE(&t.promise().ctx == this);
    REQUIRE(!me || me == t.address());
    ++starts;
    me = t.address();
  }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) {
    REQUIRE(ends == 0);
    REQUIRE(&t.promise().ctx == this);
    ++ends;
    if (g) {
      REQUIRE(me == t.address() || !me);
      REQUIRE(g->over && !g->resumed && !g->gone);
      REQUIRE(bool(t.promise().exception) == g->threw);
      if constexpr (std::is_same_v<decltype(t.promise().result()), int&&>) {
        if (!g->threw)
          REQUIRE(t.promise().result() == g->value);
      }
      g->ended = true;
    }
  }
  ~probe() {
    REQUIRE(starts <= 1 && owners <= starts);
    if (g) {
      REQUIRE((ends == 1) == g->over);
      REQUIRE(g->ended == g->over);
      g->gone = true;
    }
  }
};
using task_t = dd::task<int, probe>;

template <typename Task = task_t>
static Task body(ghost& g, anywhere& park) {
  probe& c = co_await dd::this_coro::context;
  REQUIRE(!g.body && !c.g);
  REQUIRE(c.ends == 0);
  if (g.ctx)
    REQUIRE(g.ctx == &c);
  g.ctx = &c;
  c.g = &g;
  g.body = true;
  auto h = co_await dd::this_coro::handle;
  REQUIRE(!c.me || c.me == h.address());
  if (va_bool())
    co_await park;
  REQUIRE(!g.ended);
  g.over = true;
  if (va_bool()) {
    g.threw = true;
    throw 1;
  }
  g.value = va_int();
  co_return g.value;
}
// the awaiting coroutine's own handle
struct self {
  void* h = nullptr;
  bool await_ready() const noexcept { return false; }
  bool await_suspend(std::coroutine_handle<> x) noexcept {
    h = x.address();
    return false;
  }
  void* await_resume() const noexcept { return h; }
};
static void hooks_as_owned(probe* c, void* owner) {
  REQUIRE(c->owners == 1 && c->starts == 1);
  REQUIRE(c->who == owner);
}

// ------------------------------------------------------------------------------------------------ awaited
template <typename Task>
static client awaited(ghost& g, anywhere& park, bool& done) {
  void* me = co_await self{};
  {
    Task t = body<Task>(g, park);
    probe* c = t.get_context();
    g.ctx = c;
    REQUIRE(c->owners == 0 && c->starts == 0 && c->ends == 0);
    int how = va_choice(4);
    if (how == 0) {
      done = true;
      va_reach("never started");
      co_return;
    }
    Task moved = std::move(t);
    REQUIRE(moved.get_context() == c);
    if (how == 1) {
      co_await moved.wait();
    } else if (how == 2) {
      // a proxy owner stands in for the waiter
      auto proxy = std::coroutine_handle<>::from_address(me);
      co_await moved.wait_with_proxy_owner(proxy);
    } else {
      try {
        (void)co_await moved;
        REQUIRE(!g.threw);
      } catch (int) {
        REQUIRE(g.threw);
      }
    }
    g.resumed = true;
    REQUIRE(g.body && g.over && g.ended && !g.gone);
    hooks_as_owned(c, me);
    REQUIRE(c->ends == 1);
    // nothing is called again
    if (va_bool())
      co_await moved.wait();
    try {
      (void)co_await moved;
    } catch (int) {
    }
    hooks_as_owned(c, me);
    REQUIRE(c->ends == 1);
    va_reach("awaited");
  }
  REQUIRE(g.gone);
  done = true;
}
template <typename Task = task_t>
static void run() {
  ghost g;
  anywhere park;
  bool done = false;
  awaited<Task>(g, park, done);
  while (park) {
    REQUIRE(!done && !g.over);
    park.wake();
  }
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
DRIVER(awaited) { run(); }
DRIVER(awaited_resourced) { run<dd::pmr::task<int, probe>>(); }

// a proxy that is not the waiter
static client with_proxy(ghost& g, anywhere& park, std::coroutine_handle<> proxy, bool& done) {
  task_t t = body(g, park);
  probe* c = t.get_context();
  co_await t.wait_with_proxy_owner(proxy);
  g.resumed = true;
  hooks_as_owned(c, proxy.address());
  REQUIRE(g.ended);
  done = true;
}
static client idle(parking& p) {
  co_await p;
}
DRIVER(proxy_owner) {
  ghost g;
  anywhere park;
  parking proxy;
  bool done = false;
  idle(proxy);
  with_proxy(g, park, proxy.slot, done);
  while (park)
    park.wake();
  REQUIRE(done);
  proxy.wake();
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ a task awaiting a task
static task_t outer(ghost& og, ghost& ig, anywhere& park) {
  probe& c = co_await dd::this_coro::context;
  c.g = &og;
  og.body = true;
  REQUIRE(c.owners == 1 && c.starts == 1);
  auto h = co_await dd::this_coro::handle;
  task_t t = body(ig, park);
  probe* ic = t.get_context();
  try {
    (void)co_await t;
  } catch (int) {
    REQUIRE(ig.threw);
  }
  ig.resumed = true;
  REQUIRE(ig.ended && !og.ended);
  hooks_as_owned(ic, h.address());
  og.over = true;
  og.value = 9;
  co_return 9;
}
static client awaits_outer(ghost& og, ghost& ig, anywhere& park, bool& done) {
  void* me = co_await self{};
  {
    task_t t = outer(og, ig, park);
    REQUIRE(co_await t == 9);
    og.resumed = true;
    REQUIRE(og.ended && ig.ended && ig.gone);
    hooks_as_owned(t.get_context(), me);
  }
  done = true;
}
DRIVER(nested) {
  ghost og, ig;
  anywhere park;
  bool done = false;
  awaits_outer(og, ig, park, done);
  while (park)
    park.wake();
  REQUIRE(done);
  REQUIRE(og.gone && ig.gone);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ detached
DRIVER(start_and_detach) {
  ghost g;
  anywhere park;
  {
    task_t t = body(g, park);
    probe* c = t.get_context();
    g.ctx = c;
    bool stay = va_bool();
    auto h = t.start_and_detach(stay);
    REQUIRE(g.body);
    if (stay || !g.over) {
      REQUIRE(c->starts == 1 && c->owners == 0);
      REQUIRE(c->me == h.address());
    }
    if (park)
      park.wake();
    REQUIRE(g.over && g.ended);
    if (stay) {
      REQUIRE(!g.gone);
      REQUIRE(c->ends == 1 && c->starts == 1 && c->owners == 0);
      g.resumed = true;
      h.destroy();
    }
    REQUIRE(g.gone);
  }
  REQUIRE(va_frames() == 0);
}
// resumed by hand: nobody owns it
DRIVER(detach_resume) {
  ghost g;
  anywhere park;
  task_t t = body(g, park);
  probe* c = t.get_context();
  g.ctx = c;
  auto h = t.detach();
  REQUIRE(c->owners == 0 && c->starts == 0);
  if (va_bool()) {
    h.resume();
    REQUIRE(g.body);
    if (park) {
      REQUIRE(c->owners == 0 && c->ends == 0);
      park.wake();
    }
    REQUIRE(g.over && g.ended && g.gone);
  } else {
    h.destroy();
    REQUIRE(!g.body);
  }
  REQUIRE(va_frames() == 0);
}
// blocking get: the coroutine which waits for it is the owner
DRIVER(get) {
  ghost g;
  anywhere park;
  struct other {
    static task_t body(ghost& g, parking& park) {
      probe& c = co_await dd::this_coro::context;
      c.g = &g;
      g.body = true;
      REQUIRE(c.owners == 1 && c.starts == 1 && c.who && c.who != c.me);
      if (va_bool()) {
        va_inject([](void* p) { ((parking*)p)->wake(); }, &park);
        co_await park;
      }
      g.over = true;
      if (va_bool()) {
        g.threw = true;
        throw 1;
      }
      g.value = va_int();
      co_return g.value;
    }
  };
  parking p;
  va_must_finish(1);
  try {
    int v = other::body(g, p).get();
    REQUIRE(v == g.value && !g.threw);
  } catch (int) {
    REQUIRE(g.threw);
  }
  g.resumed = true;
  REQUIRE(g.ended);
}

// ------------------------------------------------------------------------------------------------ when_all, when_any
static task_t child(ghost& g, anywhere& park) {
  probe& c = co_await dd::this_coro::context;
  REQUIRE(g.ctx == &c);
  REQUIRE(c.owners == 1 && c.starts == 1);
  if (g.owner)
    REQUIRE(c.who == g.owner);
  REQUIRE(c.who && c.who != c.me);
  c.g = &g;
  g.body = true;
  if (va_bool())
    co_await park;
  g.over = true;
  if (va_bool()) {
    g.threw = true;
    throw 1;
  }
  g.value = va_int();
  co_return g.value;
}
template <bool Vec>
static client all_of(ghost (&g)[2], anywhere (&park)[2], bool& done) {
  void* me = co_await self{};
  {
    task_t a = child(g[0], park[0]), b = child(g[1], park[1]);
    g[0].ctx = a.get_context();
    g[1].ctx = b.get_context();
    auto t = [&] {
      if constexpr (Vec) {
        std::vector<task_t> v;
        v.reserve(2);
        v.push_back(std::move(a));
        v.push_back(std::move(b));
        return dd::when_all(std::move(v));
      } else
        return dd::when_all(std::move(a), std::move(b));
    }();
    probe* c = t.get_context();
    REQUIRE(c->owners == 0 && c->starts == 0);
    g[0].owner = g[1].owner = t.raw_handle().address();
    co_await t.wait();
    REQUIRE(g[0].ended && g[1].ended);
    hooks_as_owned(c, me);
    REQUIRE(c->ends == 1);
  }
  REQUIRE(g[0].gone && g[1].gone);
  done = true;
}
static void settle(anywhere (&park)[2]) {
  for (;;) {
    if (park[0] && (!park[1] || va_bool()))
      park[0].wake();
    else if (park[1])
      park[1].wake();
    else
      break;
  }
}
template <bool Vec>
static void all() {
  ghost g[2];
  anywhere park[2];
  bool done = false;
  all_of<Vec>(g, park, done);
  settle(park);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
DRIVER(when_all) { all<false>(); }
DRIVER(when_all_vector) { all<true>(); }

static client any_of(ghost (&g)[2], anywhere (&park)[2], bool& done) {
  void* me = co_await self{};
  {
    task_t a = child(g[0], park[0]), b = child(g[1], park[1]);
    g[0].ctx = a.get_context();
    g[1].ctx = b.get_context();
    auto t = dd::when_any(std::move(a), std::move(b));
    probe* c = t.get_context();
    REQUIRE(c->owners == 0 && c->starts == 0);
    co_await t.wait();
    REQUIRE(g[0].ended || g[1].ended);
    hooks_as_owned(c, me);
    REQUIRE(c->ends == 1);
  }
  done = true;
}
DRIVER(when_any) {
  ghost g[2];
  anywhere park[2];
  bool done = false;
  any_of(g, park, done);
  settle(park);
  REQUIRE(done);
  REQUIRE(!g[0].body || g[0].ended);
  REQUIRE(!g[1].body || g[1].ended);
  REQUIRE(va_frames() == 0);
}
