// C32: control-transfer primitives do exactly what they say.
#include <kelcoro/common.hpp>
#include <kelcoro/job.hpp>
#include "client.hpp"

struct ghost {
  bool a_ran = false, b_ran = false, after = false;
  int resumed = 0;
};

// target: a coroutine that waits to be resumed and frees itself when it ends
static client target(parking& p, ghost& g) {
  tracked local(1);
  co_await p;
  REQUIRE(!g.b_ran);
  g.b_ran = true;
}

// ---------------------------------------------------------------------------------------- transfer_control_to
static client transfers(std::coroutine_handle<> to, std::coroutine_handle<>& self, ghost& g) {
  tracked local(1);
  co_await dd::suspend_and_t{[&](std::coroutine_handle<> h) { self = h; return false; }};
  bool expect_suspend = bool(to);
  co_await dd::transfer_control_to{to};
  REQUIRE(g.b_ran == expect_suspend);
  g.after = true;
}
DRIVER(transfer_control_to) {
  ghost g;
  parking p;
  target(p, g);
  std::coroutine_handle<> self;
  if (va_bool()) {
    transfers(p.slot, self, g);
    REQUIRE(g.b_ran);
    REQUIRE(!g.after);
    REQUIRE(va_is_suspended(self.address()) == 1);
    self.resume();
    REQUIRE(g.after);
    va_reach("transferred");
  } else {
    transfers(nullptr, self, g);
    REQUIRE(!g.b_ran);
    REQUIRE(g.after);
    p.wake();
    va_reach("null: goes on");
  }
}

// ---------------------------------------------------------------------------------------- destroy_and_transfer_control_to
static client destroys_and_transfers(std::coroutine_handle<> to, ghost& g) {
  tracked local(1);
  g.a_ran = true;
  co_await dd::this_coro::destroy_and_transfer_control_to{to};
  va_fail("the destroyed coroutine does not go on");
}
DRIVER(destroy_and_transfer) {
  ghost g;
  parking p;
  target(p, g);
  int before = va_frames();
  if (va_bool()) {
    destroys_and_transfers(p.slot, g);
    REQUIRE(g.a_ran && g.b_ran);
    REQUIRE(va_frames() == before - 1);
    va_reach("transferred");
  } else {
    destroys_and_transfers(nullptr, g);
    REQUIRE(g.a_ran && !g.b_ran);
    REQUIRE(va_frames() == before);
    p.wake();
    va_reach("nowhere to go");
  }
  REQUIRE(va_frames() == before - 1);
}
// the awaitable is a temporary inside the frame; the frame is destroyed while a third party waits
static client chain(parking& p, ghost& g) {
  co_await p;
  g.resumed = 1;
}
static client destroys_named(std::coroutine_handle<> to) {
  dd::this_coro::destroy_and_transfer_control_to t{to};
  co_await t;
}
DRIVER(destroy_and_transfer_named) {
  ghost g;
  parking p;
  chain(p, g);
  destroys_named(p.slot);
  REQUIRE(g.resumed == 1);
  REQUIRE(va_frames() == 0);
}

// ---------------------------------------------------------------------------------------- destroy
static client destroys(ghost& g) {
  tracked local(1);
  g.a_ran = true;
  if (va_bool()) {
    co_await dd::this_coro::destroy;
    va_fail("the destroyed coroutine does not go on");
  }
  g.after = true;
}
DRIVER(destroy) {
  ghost g;
  destroys(g);
  REQUIRE(g.a_ran);
  REQUIRE(va_frames() == 0);
  if (g.after)
    va_reach("normal end");
  else
    va_reach("destroyed");
}
static dd::job job_destroys(ghost& g) {
  tracked local(1);
  if (va_bool())
    co_await dd::this_coro::destroy;
  g.after = true;
}
DRIVER(destroy_job) {
  ghost g;
  job_destroys(g);
  REQUIRE(va_frames() == 0);
  if (g.after)
    va_reach("normal end");
  else
    va_reach("destroyed");
}

// ---------------------------------------------------------------------------------------- suspend_and
static client suspends(ghost& g, std::coroutine_handle<>& out, std::coroutine_handle<> self_check, int kind, std::coroutine_handle<> to) {
  tracked local(1);
  auto self = co_await dd::this_coro::handle;
  switch (kind) {
    case 0:  // void: stays suspended
      co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) {
        g.resumed++;
        REQUIRE(h == self);
        out = h;
      });
      break;
    case 1:  // true
      co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) {
        g.resumed++;
        REQUIRE(h == self);
        out = h;
        return true;
      });
      break;
    case 2:  // false: goes on
      co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) {
        g.resumed++;
        REQUIRE(h == self);
        return false;
      });
      REQUIRE(!out);
      break;
    case 3:  // transfers
      co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) {
        g.resumed++;
        REQUIRE(h == self);
        out = h;
        return to;
      });
      break;
    case 4: {  // named lvalue function object, promise type visible
      auto fn = [&](auto h) {
        g.resumed++;
        REQUIRE(h == self);
        out = h;
      };
      co_await dd::this_coro::suspend_and(fn);
      break;
    }
  }
  REQUIRE(g.resumed == 1);
  g.after = true;
}
DRIVER(suspend_and) {
  ghost g;
  parking p;
  target(p, g);
  std::coroutine_handle<> out;
  int kind = va_choice(5);
  suspends(g, out, nullptr, kind, p.slot);
  REQUIRE(g.resumed == 1);
  if (kind == 2) {
    REQUIRE(g.after);
    va_reach("went on");
  } else {
    REQUIRE(!g.after);
    REQUIRE(bool(out));
    REQUIRE(va_is_suspended(out.address()) == 1);
    REQUIRE(g.b_ran == (kind == 3));
    out.resume();
    REQUIRE(g.after);
    va_reach("suspended and resumed");
  }
  if (kind != 3)
    p.wake();
}

// ---------------------------------------------------------------------------------------- handle
static client asks_handle(ghost& g, parking& p) {
  tracked local(1);
  auto h = co_await dd::this_coro::handle;
  static_assert(std::is_same_v<decltype(h), std::coroutine_handle<>>);
  co_await p;
  REQUIRE(h == std::coroutine_handle<>(p.slot ? p.slot : h));
  g.after = true;
}
DRIVER(handle) {
  ghost g;
  parking p;
  asks_handle(g, p);
  REQUIRE(bool(p));
  std::coroutine_handle<> h = p.slot;
  p.slot = nullptr;
  h.resume();
  REQUIRE(g.after);
}
struct handle_check {
  std::coroutine_handle<> expected;
  bool await_ready() const noexcept { return false; }
  bool await_suspend(std::coroutine_handle<> h) const noexcept {
    REQUIRE(h == expected);
    return false;
  }
  void await_resume() const noexcept {}
};
static dd::job handle_in_job(ghost& g) {
  auto h = co_await dd::this_coro::handle;
  co_await handle_check{h};
  g.after = true;
}
static client handle_in_client(ghost& g) {
  auto h = co_await dd::this_coro::handle;
  co_await handle_check{h};
  g.after = true;
}
DRIVER(handle_is_own) {
  ghost g;
  if (va_bool())
    handle_in_job(g);
  else
    handle_in_client(g);
  REQUIRE(g.after);
  REQUIRE(va_frames() == 0);
}

// ---------------------------------------------------------------------------------------- scope_exit
static int with_exit(int& n, int how) {
  dd::scope_exit e = [&] { ++n; };
  if (how == 0)
    return 1;
  if (how == 1)
    throw 1;
  return 2;
}
DRIVER(scope_exit) {
  int n = 0;
  int how = va_choice(3);
  try {
    with_exit(n, how);
    REQUIRE(how != 1);
    va_reach("normal");
  } catch (int) {
    REQUIRE(how == 1);
    va_reach("exception");
  }
  REQUIRE(n == 1);
}
static client exit_in_coroutine(int& n, parking& p, int how) {
  dd::scope_exit e = [&] { ++n; };
  REQUIRE(n == 0);
  if (how == 0)
    co_return;
  if (how == 1)
    co_await dd::this_coro::destroy;
  co_await p;
  REQUIRE(n == 0);
}
DRIVER(scope_exit_in_coroutine) {
  int n = 0;
  parking p;
  int how = va_choice(3);
  exit_in_coroutine(n, p, how);
  if (how == 2) {
    REQUIRE(n == 0);
    if (va_bool())
      p.wake();
    else
      p.slot.destroy();
  }
  REQUIRE(n == 1);
  va_reach("end");
}

// ---------------------------------------------------------------------------------------- build_awaiter
struct aw {
  int id;
  aw* self = this;
  aw(int id) : id(id) {}
  aw(aw&&) = delete;
  bool await_ready() const noexcept { return true; }
  void await_suspend(std::coroutine_handle<>) const noexcept {}
  int await_resume() const noexcept { return id; }
};
struct with_member {
  int id;
  aw operator co_await() const& noexcept { return aw(id + 1); }
  aw operator co_await() && noexcept { return aw(id + 2); }
};
struct with_global {
  int id;
};
static aw operator co_await(const with_global& x) noexcept {
  return aw(x.id + 3);
}
static aw operator co_await(with_global&& x) noexcept {
  return aw(x.id + 4);
}
static client awaits_all(int id, int* out) {
  out[4] = co_await with_global{id};
  out[0] = co_await aw(id);
  with_member m{id};
  out[1] = co_await m;
  out[2] = co_await with_member{id};
  with_global g{id};
  out[3] = co_await g;
}
DRIVER(build_awaiter) {
  int id = va_int();
  int out[5];
  awaits_all(id, out);
  aw direct(id);
  REQUIRE(&dd::build_awaiter(direct) == &direct);
  REQUIRE(dd::build_awaiter(direct).await_resume() == out[0]);
  with_member m{id};
  REQUIRE(dd::build_awaiter(m).await_resume() == out[1]);
  REQUIRE(dd::build_awaiter(with_member{id}).await_resume() == out[2]);
  with_global g{id};
  REQUIRE(dd::build_awaiter(g).await_resume() == out[3]);
  REQUIRE(dd::build_awaiter(with_global{id}).await_resume() == out[4]);
  REQUIRE(out[4] == id + 4);
  REQUIRE(out[1] == id + 1 && out[2] == id + 2 && out[3] == id + 3);
}

// ---------------------------------------------------------------------------------------- two threads, each with coroutines of its own
struct own_world {
  ghost g;
  parking p;
};
static void destroys_by_thread(void* x) {
  own_world& w = *static_cast<own_world*>(x);
  destroys_and_transfers(w.p.slot, w.g);
  REQUIRE(w.g.a_ran && w.g.b_ran);
}
static void transfers_by_thread(void* x) {
  own_world& w = *static_cast<own_world*>(x);
  std::coroutine_handle<> mine;
  transfers(w.p.slot, mine, w.g);
  REQUIRE(w.g.b_ran && !w.g.after);
  mine.resume();
  REQUIRE(w.g.after);
}
template <typename F>
static void both_threads(F* f) {
  own_world w[2];
  target(w[0].p, w[0].g);
  target(w[1].p, w[1].g);
  va_must_finish(1);
  va_spawn(f, &w[0]);
  f(&w[1]);
  va_join();
  REQUIRE(w[0].g.b_ran && w[1].g.b_ran);
  REQUIRE(va_frames() == 0);
}
DRIVER(destroy_and_transfer_by_threads) { both_threads(destroys_by_thread); }
DRIVER(transfer_by_threads) { both_threads(transfers_by_thread); }
