// C07: a latch releases every waiter exactly once, only at zero, and never misses one.
#include <kelcoro/latch.hpp>
#include "client.hpp"

struct exec;
struct ghost {
#ifdef VA_THOROUGH
  static constexpr int N = 4;
#else
  static constexpr int N = 3;
#endif
  void* who[N] = {};         // coroutines that wait
  int attached[N] = {}, resumed[N] = {};
  int n = 0;
  std::ptrdiff_t left = 0;   // what the arrivals that have begun leave over
  int data = 0;
  int pre[N] = {};
  dd::task_node* later[N] = {};
  int nlater = 0;
  bool keep = false;         // the executor keeps the tasks for later
};
struct exec {
  ghost& g;
  void* self = this;
  exec(ghost& g) : g(g) {}
  exec(const exec&) = delete;
  void attach(dd::task_node* x) {
    REQUIRE(self == this);
    REQUIRE(g.left == 0);                 // not before everybody has arrived
    REQUIRE(x && x->task && x->status == dd::schedule_errc::ok);
    int i = 0;
    while (i < g.n && g.who[i] != x->task.address())
      ++i;
    REQUIRE(i < g.n);
    REQUIRE(g.attached[i] == 0 && g.resumed[i] == 0);
    ++g.attached[i];
    x->next = x;                          // the link is the executor's
    va_data_read(&g.data);                // what was done before arriving
    if (g.keep)
      g.later[g.nlater++] = x;
    else
      std::coroutine_handle<>(x->task).resume();
  }
};
struct self {
  void* h = nullptr;
  bool await_ready() const noexcept { return false; }
  bool await_suspend(std::coroutine_handle<> x) noexcept {
    h = x.address();
    return false;
  }
  void* await_resume() const noexcept { return h; }
};
// latches whose executor is used must be alive until everybody is done with them
struct world {
  ghost g;
  exec e;
  dd::latch l;
  world(std::ptrdiff_t n) : e(g), l(n, dd::any_executor_ref(e)) { g.left = n; }
  void down(std::ptrdiff_t n = 1) {
    g.left -= n;
    if (n == 1 && va_bool())
      l.count_down();
    else
      l.count_down(n);
  }
  void check_all() {
    for (int i = 0; i < g.n; ++i)
      REQUIRE(g.resumed[i] == 1 && g.attached[i] <= 1);
    REQUIRE(va_frames() == 0);
  }
};
static void resumed(world& w, int i) {
  REQUIRE(w.g.left == 0);
  va_data_read(&w.g.data);
  ++w.g.resumed[i];
  REQUIRE(w.g.resumed[i] == 1);
  REQUIRE(w.l.ready());
}
static client waiter(world& w) {
  tracked t(1);
  int i = w.g.n++;
  w.g.who[i] = co_await self{};
  va_data_write(&w.g.pre[i]);
  co_await w.l.wait();
  t.check();
  va_data_write(&w.g.pre[i]);
  resumed(w, i);
}
static client arriver(world& w, std::ptrdiff_t n) {
  tracked t(1);
  int i = w.g.n++;
  w.g.who[i] = co_await self{};
  va_data_write(&w.g.pre[i]);
  if (n == 1 && va_bool()) {
    auto a = w.l.arrive_and_wait();
    w.g.left -= 1;
    co_await a;
  } else {
    w.g.left -= n;
    co_await w.l.arrive_and_wait(n);
  }
  t.check();
  va_data_write(&w.g.pre[i]);
  resumed(w, i);
}
static void flush(world& w) {
  while (w.g.nlater) {
    dd::task_node* x = w.g.later[--w.g.nlater];
    x->task.resume();
  }
}
// ------------------------------------------------------------------------------------------------ one thread
DRIVER(max) { REQUIRE(dd::latch::max() > 0); }
// any sequence of operations
DRIVER(sequences) {
  world w(va_choice(4));
  w.g.keep = va_bool();
  REQUIRE(w.l.ready() == (w.g.left == 0));
  while (w.g.n < ghost::N && va_bool()) {
    bool zero = w.g.left == 0;
    int before = w.g.n;
    switch (va_choice(3)) {
      case 0:
        waiter(w);
        // does not suspend if nothing is left
        REQUIRE(!zero || (w.g.resumed[before] == 1 && w.g.attached[before] == 0));
        va_reach("wait");
        break;
      case 1: {
        int n = va_choice(3);
        if (n > w.g.left)
          va_stop();
        arriver(w, n);
        va_reach("arrive_and_wait");
        break;
      }
      case 2: {
        int n = va_choice(4);
        if (n > w.g.left || (n == 0 && !w.g.left))
          va_stop();
        w.down(n);
        va_reach("count_down");
        break;
      }
    }
    REQUIRE(w.l.ready() == (w.g.left == 0));
    for (int i = 0; i < w.g.n; ++i)
      REQUIRE((w.g.attached[i] || w.g.resumed[i]) == (w.g.left == 0));
    flush(w);
  }
  w.down(w.g.left);
  flush(w);
  w.check_all();
}
// unknown counts
DRIVER(counts) {
  std::ptrdiff_t n = std::ptrdiff_t(va_size()), a = std::ptrdiff_t(va_size()), b = std::ptrdiff_t(va_size());
  va_assume(n <= dd::latch::max());
  va_assume(n >= 0 && a >= 0 && b >= 0 && a <= n && b <= n - a);
  world w(n);
  REQUIRE(w.l.ready() == (n == 0));
  w.l.count_down(a);
  w.g.left = n - a;
  REQUIRE(w.l.ready() == (n - a == 0));
  if (w.g.left) {
    waiter(w);
    REQUIRE(w.g.attached[0] == 0 && w.g.resumed[0] == 0);
    w.g.left -= b;
    w.l.count_down(b);
    bool zero = n - a - b == 0;
    REQUIRE(w.l.ready() == zero);
    REQUIRE(w.g.resumed[0] == (zero ? 1 : 0));
    if (!zero) {
      w.g.left = 0;
      w.l.count_down(n - a - b);
    }
  }
  w.check_all();
}
DRIVER(counts_arrive) {
  std::ptrdiff_t n = std::ptrdiff_t(va_size()), a = std::ptrdiff_t(va_size());
  va_assume(n <= dd::latch::max());
  va_assume(n >= 0 && a >= 0 && a <= n);
  world w(n);
  arriver(w, a);
  bool zero = n - a == 0;
  REQUIRE(w.l.ready() == zero);
  REQUIRE(w.g.resumed[0] == (zero ? 1 : 0));
  if (!zero) {
    w.g.left = 0;
    w.l.count_down(n - a);
  }
  w.check_all();
}
// the awaiter by name
static client named(world& w) {
  tracked t(1);
  int i = w.g.n++;
  w.g.who[i] = co_await self{};
  auto a = w.l.wait();
  w.down(w.g.left - 1);
  co_await a;
  t.check();
  resumed(w, i);
}
DRIVER(named) {
  world w(3);
  named(w);
  REQUIRE(w.g.resumed[0] == 0);
  w.down();
  w.check_all();
}
DRIVER(executor) {
  world w(1);
  dd::any_executor_ref r = w.l.get_executor();
  parking p;
  [](parking& p) -> client { co_await p; }(p);
  dd::task_node x;
  x.task = p.slot;
  w.g.who[0] = p.slot.address();
  w.g.n = 1;
  w.g.left = 0;
  r.attach(&x);
  REQUIRE(w.g.attached[0] == 1);
}
// waiters use the latch again while they are released
static client again(world& w) {
  int i = w.g.n++;
  w.g.who[i] = co_await self{};
  co_await w.l.wait();
  resumed(w, i);
  waiter(w);       // at zero: goes through
}
DRIVER(again) {
  world w(1);
  again(w);
  if (va_bool())
    waiter(w);
  w.down();
  w.check_all();
}

// ------------------------------------------------------------------------------------------------ interference at every operation
static void down1(void* p) { static_cast<world*>(p)->down(1); }
static void down2(void* p) { static_cast<world*>(p)->down(2); }
static void arrive1(void* p) { arriver(*static_cast<world*>(p), 1); }
static void arrive0(void* p) { arriver(*static_cast<world*>(p), 0); }      // only waits
static void wait1(void* p) { waiter(*static_cast<world*>(p)); }
static void interfere(std::ptrdiff_t n, void (*main)(void*), void (*a)(void*), void (*b)(void*)) {
  world w(n);
  va_inject(a, &w);
  if (b)
    va_inject(b, &w);
  main(&w);
  va_run_pending();
  w.check_all();
}
DRIVER(interfere_wait_down) { interfere(1, wait1, down1, nullptr); }
DRIVER(interfere_wait_down_wait) { interfere(1, wait1, down1, wait1); }
DRIVER(interfere_wait_wait_down) { interfere(1, wait1, wait1, down1); }
DRIVER(interfere_down_wait_wait) { interfere(1, down1, wait1, wait1); }
DRIVER(interfere_arrive_down) { interfere(2, arrive1, down1, nullptr); }
DRIVER(interfere_arrive0_down) { interfere(1, arrive0, down1, nullptr); }
DRIVER(interfere_arrive0_wait_down) { interfere(1, arrive0, wait1, down1); }
DRIVER(interfere_down_arrive0) { interfere(1, down1, arrive0, nullptr); }
DRIVER(interfere_arrive_arrive) { interfere(2, arrive1, arrive1, nullptr); }
DRIVER(interfere_arrive_wait_down) { interfere(2, arrive1, wait1, down1); }
DRIVER(interfere_wait_arrive_down) { interfere(3, wait1, arrive1, down2); }
DRIVER(interfere_wait_down_down) { interfere(2, wait1, down1, down1); }

// ------------------------------------------------------------------------------------------------ threads
static void tdown1(void* p) {
  world& w = *static_cast<world*>(p);
  va_data_write(&w.g.data);
  w.down(1);
}
static void twait(void* p) { waiter(*static_cast<world*>(p)); }
static void tarrive(void* p) {
  va_data_write(&static_cast<world*>(p)->g.data);
  arriver(*static_cast<world*>(p), 1);
}
static void tarrive_quiet(void* p) { arriver(*static_cast<world*>(p), 1); }
static void threads(std::ptrdiff_t n, void (*a)(void*), void (*b)(void*), void (*c)(void*)) {
  world w(n);
  va_spawn(a, &w);
  if (c)
    va_spawn(c, &w);
  b(&w);
  va_join();
  w.check_all();
}
DRIVER(threads_wait_down) { threads(1, twait, tdown1, nullptr); }
DRIVER(threads_down_wait) { threads(1, tdown1, twait, nullptr); }
DRIVER(threads_arrive_down) { threads(2, tarrive_quiet, tdown1, nullptr); }
DRIVER(threads_down_arrive) { threads(2, tdown1, tarrive_quiet, nullptr); }
DRIVER(threads_arrive0_down) { threads(1, arrive0, tdown1, nullptr); }
DRIVER(threads_arrive_arrive) { threads(2, tarrive, tarrive_quiet, nullptr); }
DRIVER(threads_wait_wait_down) { threads(1, twait, twait, tdown1); }
DRIVER(threads_arrive_wait) { threads(1, tarrive, twait, nullptr); }
DRIVER(threads_wait_down_down) { threads(2, twait, down1, tdown1); }
// three arrive while one is waiting already
static void down_quiet(void* p) { static_cast<dd::latch*>(p)->count_down(); }
DRIVER(threads_down3) {
  world w(3);
  waiter(w);
  w.g.left = 0;
  va_spawn(down_quiet, &w.l);
  va_spawn(down_quiet, &w.l);
  down_quiet(&w.l);
  va_join();
  REQUIRE(w.l.ready());
  w.check_all();
}
#ifdef VA_THOROUGH
DRIVER(threads_arrive_wait_down) { threads(2, tarrive_quiet, twait, tdown1); }
DRIVER(threads_arrive3) { threads(3, tarrive, tarrive_quiet, tarrive_quiet); }
#endif
// ready() means that what was done before arriving is visible
static void observe(void* p) {
  world& w = *static_cast<world*>(p);
  if (w.l.ready()) {
    va_data_read(&w.g.data);
    va_reach("ready");
  }
}
DRIVER(threads_ready) { 
  world w(1);
  va_spawn(tdown1, &w);
  observe(&w);
  va_join();
  REQUIRE(w.l.ready());
}

// ------------------------------------------------------------------------------------------------ several latches
DRIVER(two_latches) {
  world a(1 + va_choice(2)), b(1 + va_choice(2));
  a.g.keep = va_bool();
  world* w[2] = {&a, &b};
  for (int i = 0; i < 4; ++i) {
    world& x = *w[va_choice(2)];
    if (x.g.n == 0 && va_bool())
      waiter(x);
    else if (x.g.left)
      x.down();
    else
      va_stop();
    for (int k = 0; k < 2; ++k) {
      REQUIRE(w[k]->l.ready() == (w[k]->g.left == 0));
      if (w[k]->g.n)
        REQUIRE((w[k]->g.attached[0] || w[k]->g.resumed[0]) == (w[k]->g.left == 0));
    }
  }
  for (world* x : w) {
    x->down(x->g.left);
    flush(*x);
    for (int i = 0; i < x->g.n; ++i)
      REQUIRE(x->g.resumed[i] == 1 && x->g.attached[i] <= 1);
  }
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ many waiters
struct resumer {
  int attached = 0;
  void attach(dd::task_node* x) {
    ++attached;
    x->next = x;
    x->task.resume();
  }
};
static client one_of_many(dd::latch& l, bool& zero, int& resumed) {
  co_await l.wait();
  REQUIRE(zero);
  ++resumed;
}
DRIVER(many) {
  va_no_weak_failures();
  constexpr int n = 300;
  resumer e;
  dd::latch l(n, dd::any_executor_ref(e));
  bool zero = false;
  int resumed = 0;
  for (int i = 0; i < n; ++i)
    one_of_many(l, zero, resumed);
  for (int i = 0; i + 1 < n; ++i) {
    l.count_down();
    REQUIRE(!l.ready() && resumed == 0);
  }
  zero = true;
  l.count_down();
  REQUIRE(resumed == n && e.attached == n);
  REQUIRE(va_frames() == 0);
}
