// C15: every task frame has one owner and is destroyed exactly once.
#include <kelcoro/task.hpp>
#include "client.hpp"

struct ghost {
  bool exists = false, started = false, over = false, gone = false;
};
// lives in the frame of the task
struct witness {
  ghost& g;
  explicit witness(ghost& g) : g(g) {
    REQUIRE(!g.exists);
    g.exists = true;
  }
  witness(witness&& o) : g(o.g) { moved = true; o.dead = true; }
  bool dead = false, moved = false;
  ~witness() {
    if (dead)
      return;
    REQUIRE(g.exists && !g.gone);
    g.gone = true;
  }
};

static dd::task<int> body(witness w, parking& park, bool may_throw = true) {
  ghost& g = w.g;
  tracked local(1);
  REQUIRE(!g.started);
  g.started = true;
  if (va_bool())
    co_await park;
  g.over = true;
  if (may_throw && va_bool())
    throw 1;
  co_return 5;
}
static dd::task<int> plain(witness w) {
  ghost& g = w.g;
  g.started = g.over = true;
  co_return 6;
}
using task_t = dd::task<int>;
static task_t make(ghost& g, parking& park) {
  return body(witness(g), park);
}

static bool usable(const ghost* g) {
  return g != nullptr;
}
static void look(task_t& t, ghost* own) {
  REQUIRE(t.empty() == !usable(own));
  REQUIRE(bool(t) == usable(own));
  REQUIRE(bool(t.raw_handle()) == usable(own));
  REQUIRE((t.get_context() != nullptr) == usable(own));
  if (own) {
    REQUIRE(own->exists && !own->gone);
    REQUIRE(t.raw_handle().done() == own->over);
  }
}
static void forget(ghost*& own) {
  if (own) {
    REQUIRE(own->gone);
    *own = ghost{};
  }
  own = nullptr;
}
static void operations(bool& done) {
  ghost g0, g1;
  parking pa, pb;  // pa belongs to the task made first, pb to the second
  {
#ifdef VA_THOROUGH
    task_t a = make(g0, pa), b;
#else
    task_t a = body(witness(g0), pa, false), b;
#endif
    ghost *oa = &g0, *ob = nullptr;
    look(a, oa);
    look(b, ob);
    if (va_bool()) {
#ifdef VA_THOROUGH
      b = make(g1, pb);
#else
      b = plain(witness(g1));
#endif
      ob = &g1;
    }
    for (;;) {
      look(a, oa);
      look(b, ob);
      switch (va_choice(7)) {
        case 0:
          va_reach("end");
          done = true;
          return;
        case 1: {
          task_t t(std::move(a));
          look(a, nullptr);
          look(t, oa);
          if (va_bool())
            a = std::move(t);
          else {
            { task_t dying(std::move(t)); }
            if (oa) {
              if (oa->started && !oa->over)
                (oa == &g0 ? pa : pb).slot = nullptr;
            }
            forget(oa);
          }
          break;
        }
        case 2:
          b = std::move(a);
          std::swap(oa, ob);
          break;
        case 3: {  // release, and own again or destroy
          auto h = a.release();
          look(a, nullptr);
          REQUIRE(bool(h) == bool(oa));
          if (h) {
            REQUIRE(h.done() == oa->over);
            if (va_bool()) {
              a = task_t(h);
            } else {
              h.destroy();
              if (oa->started && !oa->over)
                (oa == &g0 ? pa : pb).slot = nullptr;
              forget(oa);
            }
          }
          break;
        }
        case 4:  // detach an unstarted one
          if (!oa || !oa->started) {
            auto h = a.detach();
            look(a, nullptr);
            REQUIRE(bool(h) == bool(oa));
            if (h) {
              REQUIRE(!oa->started);
              if (va_bool()) {
                parking& p = oa == &g0 ? pa : pb;
                h.resume();
                REQUIRE(oa->started);
                REQUIRE(oa->gone == !p);
                if (p)
                  p.wake();
                REQUIRE(oa->over && oa->gone);
                va_reach("detached and finished");
              } else {
                h.destroy();
              }
              forget(oa);
            }
          }
          break;
        case 5:  // start_and_detach(false)
          if (!oa || !oa->started || oa->over) {
            bool was_over = oa && oa->over;
            auto h = a.start_and_detach();
            look(a, nullptr);
            if (!oa || was_over)
              REQUIRE(!h);
            if (oa) {
              if (!was_over) {
                REQUIRE(bool(h));
                parking& p = oa == &g0 ? pa : pb;
                REQUIRE(oa->started);
                REQUIRE(oa->gone == !p);
                if (p) {
                  if (va_bool())
                    p.wake();
                  else {
                    h.destroy();
                    p.slot = nullptr;
                  }
                }
              }
              REQUIRE(oa->gone);
              forget(oa);
              va_reach("started and detached");
            }
          }
          break;
        case 6:  // start_and_detach(true)
          if (!oa || !oa->started || oa->over) {
            bool was_over = oa && oa->over;
            auto h = a.start_and_detach(true);
            look(a, nullptr);
            REQUIRE(bool(h) == bool(oa));
            if (oa) {
              parking& p = oa == &g0 ? pa : pb;
              REQUIRE(oa->started && !oa->gone);
              if (was_over)
                REQUIRE(h.done());
              if (p && va_bool())
                p.wake();
              REQUIRE(!oa->gone);
              REQUIRE(h.done() == oa->over);
              if (oa->over && va_bool()) {
                a = task_t(h);
                va_reach("finished frame owned again");
              } else {
                h.destroy();
                p.slot = nullptr;
                forget(oa);
              }
            }
          }
          break;
      }
    }
  }
}
DRIVER(operations) {
  bool done = false;
  operations(done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
  REQUIRE(va_live_heap() == 0);
}

DRIVER(self_move) {
  ghost g;
  parking park;
  {
    task_t t = make(g, park);
    task_t& self = t;
    t = std::move(self);
    look(t, &g);
    auto h = t.raw_handle();
    REQUIRE(h == t.raw_handle());
  }
  REQUIRE(g.gone);
}

// awaited tasks stay owned by the object that was awaited
static client awaits(ghost& g, parking& park, bool& done) {
  {
    task_t t = make(g, park);
    bool value = false;
    try {
      int v = co_await t;
      REQUIRE(v == 5);
      value = true;
    } catch (int) {
    }
    REQUIRE(g.over && !t.empty());
    REQUIRE(g.exists);
    switch (va_choice(6)) {
      case 0:
        break;
      case 1: {
        auto h = t.release();
        h.destroy();
        break;
      }
      case 2: {
        auto h = t.start_and_detach();
        REQUIRE(!h);
        break;
      }
      case 3: {
        auto h = t.start_and_detach(true);
        REQUIRE(h && h.done());
        h.destroy();
        break;
      }
      case 4: {
        task_t u = std::move(t);
        REQUIRE(t.empty());
        try {
          REQUIRE(u.get() == 5);
          REQUIRE(value);
        } catch (int) {
          REQUIRE(!value);
        }
        break;
      }
      case 5: {
        auto h = t.detach();
        h.destroy();
        break;
      }
    }
  }
  REQUIRE(g.gone);
  done = true;
}
DRIVER(awaited) {
  ghost g;
  parking park;
  bool done = false;
  awaits(g, park, done);
  if (park)
    park.wake();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
// get() on an unfinished task gives the frame away and frees it
DRIVER(blocking_get) {
  ghost g;
  parking park;
  va_must_finish(1);
  {
    struct other {
      static task_t body(witness w, parking& park) {
        tracked local(1);
        if (va_bool()) {
          va_inject([](void* p) { ((parking*)p)->wake(); }, &park);  // another thread resumes it some time
          co_await park;
        }
        if (va_bool())
          throw 1;
        co_return 5;
      }
    };
    task_t t = other::body(witness(g), park);
    try {
      REQUIRE(t.get() == 5);
      va_reach("value");
    } catch (int) {
      va_reach("exception");
    }
    REQUIRE(t.empty());
    REQUIRE(g.gone);
  }
  REQUIRE(va_frames() == 0);
  REQUIRE(va_live_heap() == 0);
}
// empty ones
DRIVER(empty) {
  task_t t;
  look(t, nullptr);
  REQUIRE(!t.release());
  REQUIRE(!t.detach());
  REQUIRE(!t.start_and_detach());
  REQUIRE(!t.start_and_detach(true));
  task_t u(std::move(t));
  u = std::move(t);
  look(t, nullptr);
  look(u, nullptr);
}
// resources: the frame goes back to where it came from, even when detached
struct res {
  int* live;
  void* allocate(std::size_t n, std::size_t = 0) {
    ++*live;
    return ::operator new(n);
  }
  void deallocate(void* p, std::size_t, std::size_t = 0) noexcept {
    --*live;
    ::operator delete(p);
  }
};
static dd::task<int> in_res(parking& park, dd::with_resource<res>) {
  tracked local(1);
  if (va_bool())
    co_await park;
  co_return 1;
}
DRIVER(resourced) {
  int live = 0;
  parking park;
  {
    task_t t = in_res(park, res{&live});
    REQUIRE(live == 1);
    switch (va_choice(4)) {
      case 0:
        break;
      case 1:
        t.start_and_detach();
        REQUIRE(live == (park ? 1 : 0));
        if (park)
          park.wake();
        break;
      case 2: {
        auto h = t.start_and_detach(true);
        if (park)
          park.wake();
        REQUIRE(live == 1);
        h.destroy();
        break;
      }
      case 3:
        t.detach().resume();
        if (park)
          park.wake();
        break;
    }
  }
  REQUIRE(live == 0);
  REQUIRE(va_frames() == 0);
  va_reach("end");
}

// ---------------------------------------------------------------------------------------------- given up while suspended
// a chain of tasks awaiting each other is destroyed from outside while the innermost one is suspended
static task_t chain_of(witness w, ghost (&g)[3], int depth, parking& park) {
  tracked local(1);
  w.g.started = true;
  int r = 0;
  if (depth == 0)
    co_await park;
  else
    r = co_await chain_of(witness(g[depth - 1]), g, depth - 1, park);
  w.g.over = true;
  co_return r + 1;
}
struct held_client {
  struct promise_type {
    held_client get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { va_fail("no exception escapes here"); }
  };
  std::coroutine_handle<promise_type> h;
};
static held_client root(ghost (&g)[3], int depth, parking& park, bool& done) {
  int r = co_await chain_of(witness(g[depth]), g, depth, park);
  REQUIRE(r == depth + 1);
  done = true;
}
DRIVER(chain_given_up) {
  ghost g[3];
  parking park;
  bool done = false;
  const int depth = va_choice(3);
  held_client c = root(g, depth, park, done);
  for (int i = 0; i <= depth; ++i)
    REQUIRE(g[i].started && !g[i].over && !g[i].gone);
  if (va_bool()) {
    park.wake();
    REQUIRE(done);
    for (int i = 0; i <= depth; ++i)
      REQUIRE(g[i].over);
    va_reach("ended");
  } else
    va_reach("given up");
  c.h.destroy();
  for (int i = 0; i <= depth; ++i)
    REQUIRE(g[i].gone);
  REQUIRE(va_frames() == 0);
}
