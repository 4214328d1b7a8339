// C12: the frame of a logical_thread is freed by exactly one side; giving it up by destruction asks it to stop and waits.
#include <kelcoro/logical_thread.hpp>
#include "client.hpp"

struct world {
  meeting m;
  bool over = false;
  bool stop_seen = false;
  int data = 0;
};
static dd::logical_thread remote(world& w) {
  tracked t(1);
  co_await w.m;
  t.check();
  va_data_write(&w.data);
  w.over = true;
}
static dd::logical_thread at_once(bool& over) {
  tracked t(1);
  over = true;
  co_return;
}
static dd::logical_thread on(parking& p, bool& over) {
  tracked t(1);
  co_await p;
  t.check();
  over = true;
}
static void gone(dd::logical_thread& l) {
  REQUIRE(!l.joinable() && !l.stop_possible());
  REQUIRE(!l.request_stop());
}
static void there(dd::logical_thread& l) { REQUIRE(l.joinable() && l.stop_possible()); }
// what the owner does; returns whether the coroutine is over for sure
static bool own(dd::logical_thread l, int what) {
  there(l);
  switch (what) {
    case 0:
      return true;       // destroyed at the end
    case 1:
      l.join();
      gone(l);
      return true;
    case 2:
      l.detach();
      gone(l);
      return false;
    case 3: {
      dd::logical_thread b(std::move(l));
      gone(l);
      there(b);
      if (va_bool()) {
        b.detach();
        gone(b);
        return false;
      }
      return true;
    }
    case 4: {
      dd::logical_thread b;
      gone(b);
      b = std::move(l);
      gone(l);
      there(b);
      b.join();
      gone(b);
      return true;
    }
    case 5: {
      dd::logical_thread b;
      if (va_bool())
        b.swap(l);
      else
        swap(b, l);
      gone(l);
      there(b);
      return true;
    }
    case 6:
      // overwritten
      l = dd::logical_thread();
      gone(l);
      return true;
    case 7:
      REQUIRE(l.request_stop());
      there(l);
      REQUIRE(l.request_stop());
      l.join();
      gone(l);
      return true;
  }
  return false;
}
static void threads(int what) {
  {
    world w;
    va_must_finish(1);
    va_spawn(meeting::come, &w.m);
    if (own(remote(w), what)) {
      // it has come to its end, and what it did is visible
      REQUIRE(w.over);
      va_data_read(&w.data);
    }
    va_join();
    REQUIRE(w.over);
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(destroyed) { threads(0); }
DRIVER(joined) { threads(1); }
DRIVER(detached) { threads(2); }
DRIVER(moved) { threads(3); }
DRIVER(assigned) { threads(4); }
DRIVER(swapped) { threads(5); }
DRIVER(overwritten) { threads(6); }
DRIVER(stopped) { threads(7); }
DRIVER(finished) {
  bool over = false;
  own(at_once(over), va_choice(8));
  REQUIRE(over);
  REQUIRE(va_frames() == 0);
}
// a detached one ends later and frees itself
DRIVER(detached_parked) {
  parking p;
  bool over = false;
  {
    dd::logical_thread l = on(p, over);
    if (va_bool()) {
      l.detach();
      gone(l);
    } else {
      dd::logical_thread b = std::move(l);
      b.detach();
      gone(b);
      gone(l);
    }
  }
  REQUIRE(va_frames() == 1 && !over);
  p.wake();
  REQUIRE(over);
  REQUIRE(va_frames() == 0);
}
DRIVER(never) {
  dd::logical_thread a, b(std::move(a));
  gone(a);
  gone(b);
  a = std::move(b);
  a.swap(b);
  gone(a);
}
DRIVER(empty_overwrites) {
  bool over = false;
  dd::logical_thread a = at_once(over);
  dd::logical_thread b;
  a = std::move(b);
  gone(a);
  gone(b);
  REQUIRE(va_frames() == 0);
}
// assignment over one that still runs: it is asked to stop and waited for, then the other one is owned
static dd::logical_thread obedient(world& w) {
  tracked t(1);
  dd::stop_token s = co_await dd::this_coro::stop_token;
  co_await w.m;
  // on the other thread: go on until asked to stop
  while (!s.stop_requested())
    va_yield();
  w.stop_seen = true;
  va_data_write(&w.data);
  w.over = true;
}
static void asked(int what) {
  {
    world w;
    va_must_finish(1);
    va_spawn(meeting::come, &w.m);
    bool over = false;
    {
      dd::logical_thread a = obedient(w);
      switch (what) {
        case 0:
          break;     // destroyed
        case 1: {
          a = at_once(over);
          REQUIRE(w.over && w.stop_seen && over);
          va_data_read(&w.data);
          there(a);
          REQUIRE(va_frames() == 1);
          break;
        }
        case 2: {
          dd::logical_thread b = at_once(over);
          a.swap(b);
          REQUIRE(a.joinable() && b.joinable());
          a.join();
          REQUIRE(over);
          gone(a);
          there(b);
          break;
        }
        case 3: {
          dd::logical_thread b(std::move(a));
          gone(a);
          REQUIRE(b.request_stop());
          b.join();
          break;
        }
      }
    }
    REQUIRE(w.over && w.stop_seen);
    va_data_read(&w.data);
    va_join();
  }
  REQUIRE(va_frames() == 0);
}
// looks exactly once, when its owner has begun to wait for it
struct patient_world {
  meeting m;
  bool stop_seen = false, over = false;
};
static dd::logical_thread looks_once(patient_world& w) {
  dd::stop_token s = co_await dd::this_coro::stop_token;
  co_await w.m;
  va_wait_idle();
  w.stop_seen = s.stop_requested();
  w.over = true;
}
static void asked_first(int what) {
  {
    patient_world w;
    va_up_to_date();
    va_must_finish(1);
    va_spawn(meeting::come, &w.m);
    bool over = false;
    {
      dd::logical_thread a = looks_once(w);
      if (what == 1)
        a = at_once(over);
      else if (what == 2)
        a = dd::logical_thread{};
      else if (what == 3) {
        REQUIRE(a.request_stop());
        a.join();
      }
      if (what != 0)
        REQUIRE(w.over && w.stop_seen);
    }
    REQUIRE(w.over && w.stop_seen);
    va_join();
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(asked_before_waiting) { asked_first(va_choice(4)); }
DRIVER(asked_destroyed) { asked(0); }
DRIVER(asked_assigned) { asked(1); }
DRIVER(asked_swapped) { asked(2); }
DRIVER(asked_moved) { asked(3); }
// resourced
DRIVER(with_resource) {
  resource r;
  world w;
  auto body = [](world& w, dd::with_resource<dd::pmr::polymorphic_resource>) -> dd::logical_thread {
    tracked t(1);
    co_await w.m;
    w.over = true;
  };
  va_must_finish(1);
  va_spawn(meeting::come, &w.m);
  {
    dd::logical_thread a = body(w, dd::with_resource<dd::pmr::polymorphic_resource>{r});
    REQUIRE(r.live() == 1);
    if (va_bool())
      a.detach();
  }
  va_join();
  REQUIRE(w.over);
  REQUIRE(va_frames() == 0 && r.live() == 0);
}

// ------------------------------------------------------------------------------------------------ two of them
DRIVER(two) {
  {
    world w[2];
    va_must_finish(1);
    va_spawn(meeting::come, &w[0].m);
    va_spawn(meeting::come, &w[1].m);
    {
      dd::logical_thread a = remote(w[0]), b = remote(w[1]);
      if (va_bool()) {
        a.detach();
      } else {
        a.join();
        REQUIRE(w[0].over);
        va_data_read(&w[0].data);
      }
    }
    REQUIRE(w[1].over);
    va_data_read(&w[1].data);
    va_join();
    REQUIRE(w[0].over);
  }
  REQUIRE(va_frames() == 0);
}
