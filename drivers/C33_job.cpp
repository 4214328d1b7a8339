// C33: a job frees its frame when it ends and never before; escaping exceptions terminate.
#include <kelcoro/job.hpp>
#include <kelcoro/logical_thread.hpp>
#include "client.hpp"

struct ghost {
  bool started = false, ended = false;
};

static dd::job body(ghost& g, parking& p) {
  tracked local(1);
  REQUIRE(!g.started);
  g.started = true;
  while (va_bool()) {
    co_await p;
    local.check();
  }
  REQUIRE(!g.ended);
  g.ended = true;
}
template <typename Body>
static void use(Body body) {
  ghost g;
  parking p;
  dd::job j = body(g, p);
  REQUIRE(g.started);
  for (;;) {
    REQUIRE(g.ended == !p);
    REQUIRE(va_frames() == (g.ended ? 0 : 1));
    if (g.ended)
      break;
    REQUIRE(j.handle == p.slot);
    if (va_bool()) {
      j.handle.destroy();
      REQUIRE(va_frames() == 0);
      va_reach("destroyed while suspended");
      return;
    }
    p.wake();
  }
  REQUIRE(va_live_heap() == 0);
  va_reach("ran to its end");
}
DRIVER(runs_and_frees) {
  use([](ghost& g, parking& p) { return body(g, p); });
}
// nobody keeps the object
DRIVER(without_owner) {
  ghost g;
  parking p;
  body(g, p);
  while (p)
    p.wake();
  REQUIRE(g.ended);
  REQUIRE(va_frames() == 0);
  REQUIRE(va_live_heap() == 0);
}
struct counting_resource {
  int* live;
  void* allocate(std::size_t n, std::size_t = 0) {
    ++*live;
    return ::operator new(n);
  }
  void deallocate(void* p, std::size_t, std::size_t = 0) noexcept {
    --*live;
    ::operator delete(p);
  }
};
static dd::job with_res(ghost& g, parking& p, dd::with_resource<counting_resource>) {
  tracked local(1);
  g.started = true;
  while (va_bool())
    co_await p;
  g.ended = true;
}
static dd::pmr::job<void> pmr_body(ghost& g, parking& p) {
  tracked local(1);
  g.started = true;
  while (va_bool())
    co_await p;
  g.ended = true;
}
DRIVER(resourced) {
  int live = 0;
  {
    use([&](ghost& g, parking& p) { return with_res(g, p, counting_resource{&live}); });
  }
  REQUIRE(live == 0);
  use([&](ghost& g, parking& p) -> dd::job { return pmr_body(g, p); });
}

static dd::job throwing(parking& p, bool park) {
  tracked local(1);
  if (park)
    co_await p;
  va_must_terminate(1);
  va_may_terminate(1);
  throw 1;
}
DRIVER(exception_terminates) {
  parking p;
  bool park = va_bool();
  dd::job j = throwing(p, park);
  p.wake();
}
static dd::logical_thread throwing_thread(parking& p, bool park) {
  if (park)
    co_await p;
  va_must_terminate(1);
  va_may_terminate(1);
  throw 1;
}
static dd::logical_thread throwing_stoppable(parking& p, bool park) {
  dd::stop_token token = co_await dd::this_coro::stop_token;
  if (park)
    co_await p;
  (void)token.stop_requested();
  va_must_terminate(1);
  va_may_terminate(1);
  throw 1;
}
// whatever happened to the object meanwhile
template <typename T>
static void use_throwing(T t, parking& p) {
  switch (va_choice(4)) {
    case 0:
      break;
    case 1:
      t.request_stop();
      break;
    case 2:
      t.request_stop();
      t.detach();
      break;
    case 3:
      t.detach();
      break;
  }
  p.wake();
  va_fail("the exception was swallowed");
}
DRIVER(exception_in_logical_thread_terminates) {
  parking p;
  bool park = va_bool();
  use_throwing(throwing_thread(p, park), p);
}
DRIVER(exception_in_stoppable_thread_terminates) {
  parking p;
  bool park = va_bool();
  use_throwing(throwing_stoppable(p, park), p);
}
// jobs which live at the same time do not disturb each other
DRIVER(two_jobs) {
  ghost g1, g2;
  parking p1, p2;
  body(g1, p1);
  body(g2, p2);
  while (p1 || p2) {
    REQUIRE(va_frames() == (p1 ? 1 : 0) + (p2 ? 1 : 0));
    if (p1 && (!p2 || va_bool()))
      p1.wake();
    else
      p2.wake();
  }
  REQUIRE(g1.ended && g2.ended);
  REQUIRE(va_frames() == 0);
  REQUIRE(va_live_heap() == 0);
}
// an exception raised while the arguments are copied reaches the caller, nothing is leaked
struct throws_on_copy {
  throws_on_copy() = default;
  throws_on_copy(const throws_on_copy&) {
    if (va_bool())
      throw 1;
  }
};
static dd::job with_arg(ghost& g, throws_on_copy) {
  g.started = true;
  co_return;
}
DRIVER(argument_copy_throws) {
  ghost g;
  throws_on_copy t;
  try {
    with_arg(g, t);
    REQUIRE(g.started);
    va_reach("started");
  } catch (int) {
    va_reach("refused");
  }
  REQUIRE(va_frames() == 0);
  REQUIRE(va_live_heap() == 0);
}
