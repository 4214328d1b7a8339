// C04: jump_on hands the awaiting coroutine over exactly once and reports the status; schedule runs the callable once or never.
#include <kelcoro/thread_pool.hpp>
#include <memory_resource>
#include "client.hpp"

static dd::schedule_errc any_status() {
  switch (va_choice(4)) {
    case 0:
      return dd::schedule_errc::ok;
    case 1:
      return dd::schedule_errc::cancelled;
    case 2:
      return dd::schedule_errc::timed_out;
    default:
      return dd::schedule_errc::executor_overload;
  }
}
struct ghost {
  void* me = nullptr;          // the coroutine that jumps
  int attached = 0, resumed = 0, calls = 0;
  bool over = false;
  dd::schedule_errc given{};
  dd::task_node* node = nullptr;
  void take(dd::task_node* n) {
    REQUIRE(n && n->task);
    REQUIRE(!me || n->task.address() == me);
    REQUIRE(n->status == dd::schedule_errc::ok);
    REQUIRE(attached == 0);
    ++attached;
    node = n;
  }
  void run() {
    REQUIRE(node);
    given = any_status();
    dd::task_node* n = std::exchange(node, nullptr);
    std::coroutine_handle<> t = n->task;
    n->next = reinterpret_cast<dd::task_node*>(&given);   // the link is the executor's to use
    if (given != dd::schedule_errc::ok)
      n->status = given;
    t.resume();
  }
};
// an executor which resumes at once or later
struct exec {
  ghost& g;
  void attach(dd::task_node* n) {
    g.take(n);
    if (va_bool())
      g.run();       // as if by another thread
  }
};
struct cexec {
  ghost* g;
  void attach(dd::task_node* n) const noexcept {
    g->take(n);
    if (va_bool())
      g->run();
  }
};
struct self {
  void* h = nullptr;
  bool await_ready() const noexcept { return false; }
  bool await_suspend(std::coroutine_handle<> x) noexcept {
    h = x.address();
    return false;
  }
  void* await_resume() const noexcept { return h; }
};
static void status(ghost& g, dd::schedule_status s) {
  ++g.resumed;
  REQUIRE(g.attached == 1 && g.resumed == 1);
  REQUIRE(bool(s) == (g.given == dd::schedule_errc::ok));
  REQUIRE(s.what == g.given);
}
template <typename E>
static client jumper(ghost& g, E& e) {
  tracked t(1);
  g.me = co_await self{};
  auto s = co_await dd::jump_on(e);
  t.check();
  status(g, s);
  if (s)
    va_reach("scheduled");
  else
    va_reach("not scheduled");
}
// the awaiter is kept and awaited by name
template <typename E>
static client jumper_named(ghost& g, E& e) {
  tracked t(1);
  g.me = co_await self{};
  auto j = dd::jump_on(e);
  REQUIRE(g.attached == 0);
  dd::schedule_status s = co_await j;
  t.check();
  status(g, s);
}
template <typename E>
static client jumper_temp(ghost& g, E e) {
  tracked t(1);
  g.me = co_await self{};
  dd::schedule_status s = co_await dd::jump_on(E(e));
  t.check();
  status(g, s);
}
static void finish(ghost& g) {
  REQUIRE(g.attached == 1);
  if (g.node)
    g.run();
  REQUIRE(g.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(generic) {
  ghost g;
  exec e{g};
  jumper(g, e);
  finish(g);
}
DRIVER(generic_named) {
  ghost g;
  exec e{g};
  jumper_named(g, e);
  finish(g);
}
DRIVER(generic_const) {
  ghost g;
  const cexec e{&g};
  jumper(g, e);
  finish(g);
}
DRIVER(generic_temporary) {
  ghost g;
  jumper_temp(g, cexec{&g});
  finish(g);
}
DRIVER(any_ref) {
  ghost g;
  exec e{g};
  dd::any_executor_ref r(e);
  jumper(g, r);
  finish(g);
}
DRIVER(any_ref_copy) {
  ghost g;
  exec e{g};
  dd::any_executor_ref r(e), copy(r);
  jumper_temp(g, copy);
  finish(g);
}
// ------------------------------------------------------------------------------------------------ queues
static void nothing(dd::task_queue&) {}
static void take_from(ghost& g, dd::task_queue& q) {
  dd::task_node* n = q.pop_all();
  if (!n)
    return;
  REQUIRE(!n->next);
  g.take(n);
  g.run();
}
DRIVER(queue) {
  ghost g;
  dd::task_queue q;
  jumper(g, q);
  take_from(g, q);
  finish(g);
}
DRIVER(strand) {
  ghost g;
  dd::task_queue q;
  jumper_temp(g, dd::strand(q));
  take_from(g, q);
  finish(g);
}
DRIVER(worker) {
  ghost g;
  dd::worker w(nothing);
  jumper(g, w);
  take_from(g, dd::strand(w).get_queue());
  finish(g);
}
static void pool(int n) {
  ghost g;
  dd::thread_pool p(n, nothing);
  if (va_bool())
    jumper(g, p);
  else
    jumper_named(g, p);
  for (dd::task_queue& q : p.queues_range())
    take_from(g, q);
  finish(g);
}
DRIVER(pool1) { pool(1); }
DRIVER(pool2) { pool(2); }
DRIVER(pool_strand) {
  ghost g;
  dd::thread_pool p(2, nothing);
  jumper_temp(g, p.get_strand(1));
  take_from(g, p.queues_range()[1]);
  finish(g);
}
// a node attached to the pool by hand
struct by_hand {
  dd::thread_pool& p;
  dd::task_node node;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    node.task = h;
    p.attach(&node);
  }
  dd::schedule_status await_resume() const noexcept { return {node.status}; }
};
static client attacher(ghost& g, dd::thread_pool& p) {
  tracked t(1);
  g.me = co_await self{};
  dd::schedule_status s = co_await by_hand{p};
  t.check();
  status(g, s);
}
DRIVER(pool_attach) {
  ghost g;
  dd::thread_pool p(2, nothing);
  attacher(g, p);
  for (dd::task_queue& q : p.queues_range())
    take_from(g, q);
  finish(g);
}

// ------------------------------------------------------------------------------------------------ callables
struct callable {
  ghost* g;
  tracked t;
  explicit callable(ghost& g) : g(&g), t(1) {}
  void operator()() {
    t.check();
    ++g->calls;
  }
};
static void called(ghost& g) {
  REQUIRE(g.attached == 1);
  if (g.node)
    g.run();
  REQUIRE(g.calls == (g.given == dd::schedule_errc::ok ? 1 : 0));
  REQUIRE(va_frames() == 0);
}
DRIVER(schedule_generic) {
  ghost g;
  exec e{g};
  dd::schedule_to(e, callable(g));
  called(g);
}
DRIVER(schedule_queue) {
  ghost g;
  dd::task_queue q;
  dd::schedule_to(q, callable(g));
  REQUIRE(g.calls == 0);
  take_from(g, q);
  called(g);
}
DRIVER(schedule_lambda) {
  ghost g;
  exec e{g};
  dd::schedule_to(e, [&g, t = tracked(2)]() mutable {
    t.check();
    ++g.calls;
  });
  called(g);
}
// memory comes from the resource and goes back to it
struct ref {
  resource* r;
  void* allocate(std::size_t n) { return r->allocate(n); }
  void deallocate(void* p, std::size_t n) noexcept { r->deallocate(p, n); }
};
DRIVER(schedule_resource) {
  ghost g;
  resource r;
  exec e{g};
  dd::schedule_to(e, callable(g), dd::with_resource{ref{&r}});
  REQUIRE(r.live() == (va_frames() ? 1 : 0));
  called(g);
  REQUIRE(r.live() == 0);
}
static void pool_schedule(int n, bool hash) {
  ghost g;
  resource r;
  {
    dd::thread_pool p(n, nothing, r);
    int before = r.live();
    if (hash)
      p.schedule(callable(g), dd::operation_hash_t(n - 1));
    else
      p.schedule(callable(g));
    REQUIRE(r.live() == before + 1);
    REQUIRE(g.calls == 0);
    if (hash)
      take_from(g, p.queues_range()[n - 1]);
    else
      for (dd::task_queue& q : p.queues_range())
        take_from(g, q);
    called(g);
    REQUIRE(r.live() == before);
  }
  REQUIRE(r.live() == 0);
}
DRIVER(pool_schedule) { pool_schedule(1 + va_choice(2), false); }
DRIVER(pool_schedule_hash) { pool_schedule(1 + va_choice(3), true); }
DRIVER(pool_schedule_lvalue) {
  ghost g;
  dd::thread_pool p(1, nothing);
  callable c(g);
  p.schedule(c);
  take_from(g, p.queues_range()[0]);
  called(g);
  c.t.check();
}
// never resumed with ok: cancelled by the pool's destructor
DRIVER(pool_schedule_cancelled) {
  ghost g;
  resource r;
  {
    dd::thread_pool p(1, nothing, r);
    p.schedule(callable(g));
  }
  REQUIRE(g.calls == 0);
  REQUIRE(r.live() == 0);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ on other threads
struct remote {
  int data = 0;
  int runs = 0, cancels = 0;
};
static client hop(remote& r, dd::thread_pool& p) {
  tracked t(1);
  va_data_write(&r.data);
  dd::schedule_status s = co_await dd::jump_on(p);
  t.check();
  va_data_write(&r.data);
  (s ? r.runs : r.cancels)++;
}
DRIVER(threads_pool) {
  remote r;
  va_run_threads(1);
  va_must_finish(1);
  {
    dd::thread_pool p(1);
    hop(r, p);
  }
  REQUIRE(r.runs + r.cancels == 1);
  va_data_read(&r.data);
  REQUIRE(va_frames() == 0);
}
DRIVER(threads_schedule) {
  remote r;
  va_run_threads(1);
  va_must_finish(1);
  {
    dd::thread_pool p(1);
    va_data_write(&r.data);
    p.schedule([&r, t = tracked(1)] {
      t.check();
      va_data_write(&r.data);
      ++r.runs;
    });
  }
  REQUIRE(r.runs == 1);
  va_data_read(&r.data);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ several executors by turns
template <typename E>
static client two_jumps(ghost& first, E& e, ghost& second, E& f) {
  tracked t(1);
  first.me = second.me = co_await self{};
  status(first, co_await dd::jump_on(e));
  REQUIRE(second.attached == 0);
  status(second, co_await dd::jump_on(f));
  REQUIRE(first.attached == 1 && first.resumed == 1);
  t.check();
}
static void finish_both(ghost& g, ghost& h) {
  if (g.node)
    g.run();
  REQUIRE(h.attached == 1);
  if (h.node)
    h.run();
  REQUIRE(g.resumed == 1 && h.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(two_executors) {
  ghost g, h;
  exec e{g}, f{h};
  two_jumps(g, e, h, f);
  finish_both(g, h);
}
DRIVER(two_any_refs) {
  ghost g, h;
  exec e{g}, f{h};
  dd::any_executor_ref r(e), s(f);
  two_jumps(g, r, h, s);
  finish_both(g, h);
}
DRIVER(two_coroutines) {
  ghost g, h;
  exec e{g}, f{h};
  dd::any_executor_ref r(e), s(f);
  if (va_bool()) {
    jumper(g, r);
    jumper(h, s);
  } else {
    jumper_named(h, s);
    jumper_named(g, r);
  }
  REQUIRE(g.attached == 1 && h.attached == 1);
  for (int k = va_choice(2), i = 0; i < 2; ++i) {
    ghost& x = i == k ? g : h;
    if (x.node)
      x.run();
    REQUIRE(x.resumed == 1);
  }
  REQUIRE(va_frames() == 0);
}
