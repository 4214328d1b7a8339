// C08: an event wakes every subscriber once, with the notified value.
#include <kelcoro/events.hpp>
#include "client.hpp"

// the value of a notification: may be copied and moved, must be default constructible
struct value {
  int v = -1;
  tracked t{7};
  value() = default;
  explicit value(int v) : v(v) {}
  value(const value&) = default;
  value(value&& o) noexcept : v(std::exchange(o.v, -2)), t(std::move(o.t)) {}
  value& operator=(const value&) = default;
  value& operator=(value&& o) noexcept {
    v = std::exchange(o.v, -2);
    return *this;
  }
};
template <typename T>
using ev = dd::event<T>;

struct ghost {
  static constexpr int N = 4;
  int n = 0;                 // subscriptions so far
  bool woken[N] = {};
  int attached = 0;
  int round = 0;             // number of the notification in progress, 0: none
  int since[N] = {};         // the number of notifications that had begun when it subscribed
  dd::task_node* later[N] = {};
  int nlater = 0;
  bool keep = false;
  int data = 0;
  // everybody has been woken: start over
  void reset() {
    n = attached = round = 0;
    for (int i = 0; i < N; ++i) {
      woken[i] = false;
      since[i] = 0;
      later[i] = nullptr;
    }
  }
  int subscribe() {
    REQUIRE(n < N);
    since[n] = round;
    return n++;
  }
  // subscription i has got its notification
  void wake(int i) {
    REQUIRE(!woken[i]);
    woken[i] = true;
  }
  int sleeping() const {
    int k = 0;
    for (int i = 0; i < n; ++i)
      k += !woken[i];
    return k;
  }
};
struct exec {
  ghost& g;
  void* self = this;
  explicit exec(ghost& g) : g(g) {}
  exec(const exec&) = delete;
  void attach(dd::task_node* x) {
    REQUIRE(self == this);
    REQUIRE(x && x->task && x->status == dd::schedule_errc::ok);
    ++g.attached;
    x->next = x;               // the link is the executor's
    if (g.keep) {
      REQUIRE(g.nlater < ghost::N);
      g.later[g.nlater++] = x;
    } else
      std::coroutine_handle<>(x->task).resume();
  }
};
static void flush(ghost& g) {
  for (int i = 0; i < g.nlater; ++i)
    g.later[i]->task.resume();
  g.nlater = 0;
}
template <typename T>
static void got(ghost& g, int i, T&& x) {
  REQUIRE(x.v == 100 + g.round);
  x.t.check();
  REQUIRE(g.since[i] < g.round);
  g.wake(i);
}
static void got(ghost& g, int i, dd::nullstruct) {
  REQUIRE(g.since[i] < g.round);
  g.wake(i);
}
template <typename T>
static client subscriber(ghost& g, ev<T>& e, int times) {
  tracked t(1);
  for (; times > 0; --times) {
    int i = g.subscribe();
    auto x = co_await e;
    t.check();
    got(g, i, std::move(x));
  }
}
template <typename T>
static bool notify(ghost& g, exec& x, ev<T>& e) {
  ++g.round;
  if constexpr (std::is_void_v<T>)
    return e.notify_all(x);
  else if (va_bool())
    return e.notify_all(x, value(100 + g.round));
  else {
    const value v(100 + g.round);
    bool r = e.notify_all(x, v);
    REQUIRE(v.v >= 100);       // not moved from
    return r;
  }
}
template <typename T>
struct callback {
  ghost* g;
  int i;
  tracked t{3};
  template <typename X>
  void operator()(X&& x)
    requires(!std::is_void_v<T>)
  {
    static_assert(std::is_same_v<X, value>);
    t.check();
    got(*g, i, x);
  }
  void operator()()
    requires(std::is_void_v<T>)
  {
    t.check();
    got(*g, i, dd::nullstruct{});
  }
};
template <typename T>
static void set_callback(ghost& g, ev<T>& e) {
  callback<T> c{&g, g.subscribe()};
  if (va_bool())
    e.set_callback(c);
  else
    e.set_callback(std::move(c));
}
// any sequence of operations of one thread
template <typename T>
static void sequences() {
  ghost g;
  g.keep = va_bool();
  exec x(g);
  {
    ev<T> e;
    for (bool more = true; more;) {
#ifdef VA_THOROUGH
      more = g.n < ghost::N && va_bool();
#else
      more = g.n < 3 && va_bool();
#endif
      switch (more ? va_choice(3) : 2) {
        case 0:
          subscriber<T>(g, e, 1);
          va_reach("subscribe");
          break;
        case 1:
          set_callback<T>(g, e);
          va_reach("callback");
          break;
        case 2: {
          int sleeping = g.sleeping(), before = g.attached;
          REQUIRE(notify(g, x, e) == (sleeping > 0));
          REQUIRE(g.attached - before == sleeping);
          REQUIRE(g.keep || g.sleeping() == 0);
          flush(g);
          REQUIRE(g.sleeping() == 0);
          if (!sleeping)
            va_reach("nobody");
          g.reset();
          break;
        }
      }
    }
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(sequences) { sequences<value>(); }
DRIVER(sequences_void) { sequences<void>(); }

// subscribers that subscribe again while they are being notified
template <typename T>
static void resubscribe() {
  ghost g;
  g.keep = va_bool();
  exec x(g);
  ev<T> e;
  subscriber<T>(g, e, 2);
  bool two = va_bool();
  if (two)
    subscriber<T>(g, e, va_bool() ? 2 : 1);
  int k = g.n;
  REQUIRE(notify(g, x, e));
  REQUIRE(g.attached == k);
  flush(g);
  for (int i = 0; i < k; ++i)
    REQUIRE(g.woken[i]);
  REQUIRE(g.n > k);
  for (int i = k; i < g.n; ++i)
    REQUIRE(!g.woken[i]);
  REQUIRE(notify(g, x, e));
  REQUIRE(g.attached == g.n);
  flush(g);
  REQUIRE(g.sleeping() == 0);
  REQUIRE(!notify(g, x, e));
  REQUIRE(va_frames() == 0);
}
DRIVER(resubscribe) { resubscribe<value>(); }
DRIVER(resubscribe_void) { resubscribe<void>(); }

// a subscriber notifies the same event
template <typename T>
static client echo(ghost& g, exec& x, ev<T>& e) {
  int i = g.subscribe();
  auto v = co_await e;
  got(g, i, std::move(v));
  int before = g.n;
  subscriber<T>(g, e, 1);
  if constexpr (std::is_void_v<T>)
    REQUIRE((++g.round, e.notify_all(x)));
  else
    REQUIRE((++g.round, e.notify_all(x, value(100 + g.round))));
  REQUIRE(g.woken[before]);
}
template <typename T>
static void nested() {
  ghost g;
  exec x(g);
  ev<T> e;
  echo<T>(g, x, e);
  REQUIRE(notify(g, x, e));
  REQUIRE(g.sleeping() == 0 && g.attached == 2);
  REQUIRE(va_frames() == 0);
}
DRIVER(nested) { nested<value>(); }
DRIVER(nested_void) { nested<void>(); }

// the awaiter by name; const executors and temporaries
static client named(ghost& g, ev<value>& e) {
  auto a = e.operator co_await();
  int i = g.subscribe();
  value v = co_await a;
  got(g, i, std::move(v));
}
DRIVER(named) {
  ghost g;
  exec x(g);
  ev<value> e;
  named(g, e);
  REQUIRE(notify(g, x, e));
  REQUIRE(g.sleeping() == 0);
}
DRIVER(stock_executor) {
  ghost g;
  ev<value> e;
  ev<void> w;
  subscriber<value>(g, e, 1);
  subscriber<void>(g, w, 1);
  ++g.round;
  REQUIRE(e.notify_all(dd::this_thread_executor, value(101)));
  REQUIRE(g.woken[0] && !g.woken[1]);
  REQUIRE(w.notify_all(dd::this_thread_executor_t{}));
  REQUIRE(g.woken[1]);
  REQUIRE(!w.notify_all(dd::this_thread_executor));
}
struct some_tag;
DRIVER(event_v) {
  ghost g;
  REQUIRE(&dd::event_v<value> != &dd::event_v<value, some_tag>);
  subscriber<value>(g, dd::event_v<value>, 1);
  subscriber<value>(g, dd::event_v<value, some_tag>, 1);
  ++g.round;
  REQUIRE(dd::event_v<value>.notify_all(dd::this_thread_executor, value(101)));
  REQUIRE(g.woken[0] && !g.woken[1]);
  REQUIRE((dd::event_v<value, some_tag>.notify_all(dd::this_thread_executor, value(101))));
  REQUIRE(g.woken[1]);
}

// ------------------------------------------------------------------------------------------------ threads
// notifications of different threads; each subscription is served by exactly one of them
template <typename T>
struct world {
  ev<T> e;
  int woken[2] = {};
  int by[2] = {};
  int served[3] = {};        // by notifier 1, 2
  bool result[3] = {};
  int data[3] = {};
  int pre[2] = {};
  bool subscribed[2] = {};
};
template <typename T>
struct relay {
  world<T>& w;
  int me;
  void attach(dd::task_node* x) {
    REQUIRE(x && x->task && x->status == dd::schedule_errc::ok);
    ++w.served[me];
    x->next = x;
    std::coroutine_handle<>(x->task).resume();
  }
};
template <typename T>
static client remote(world<T>& w, int i) {
  tracked t(1);
  va_data_write(&w.pre[i]);
  if constexpr (std::is_void_v<T>)
    (void)co_await w.e;
  else {
    value v = co_await w.e;
    REQUIRE(v.v == 1 || v.v == 2);
    va_data_read(&w.data[v.v]);
  }
  t.check();
  va_data_write(&w.pre[i]);
  ++w.woken[i];
  REQUIRE(w.woken[i] == 1);
}
template <typename T, int I>
static void sub(void* p) {
  remote(*static_cast<world<T>*>(p), I);
}
template <typename T, int Me>
static void notifier(void* p) {
  world<T>& w = *static_cast<world<T>*>(p);
  va_data_write(&w.data[Me]);
  relay<T> r{w, Me};
  if constexpr (std::is_void_v<T>)
    w.result[Me] = w.e.notify_all(r);
  else
    w.result[Me] = w.e.notify_all(r, value(Me));
  REQUIRE(w.result[Me] == (w.served[Me] > 0));
}
template <typename T>
static void end(world<T>& w, int subs) {
  va_join();
  relay<T> r{w, 0};
  bool rest;
  if constexpr (std::is_void_v<T>)
    rest = w.e.notify_all(r);
  else
    rest = w.e.notify_all(r, value(1));
  REQUIRE(rest == (w.served[0] > 0));
  REQUIRE(w.served[0] + w.served[1] + w.served[2] == subs);
  for (int i = 0; i < subs; ++i)
    REQUIRE(w.woken[i] == 1);
  REQUIRE(va_frames() == 0);
}
template <typename T>
static void one() {
  world<T> w;
  va_spawn(sub<T, 0>, &w);
  notifier<T, 1>(&w);
  end(w, 1);
}
template <typename T>
static void two_subs() {
  world<T> w;
  va_spawn(sub<T, 0>, &w);
  va_spawn(notifier<T, 1>, &w);
  sub<T, 1>(&w);
  end(w, 2);
}
template <typename T>
static void two_notifiers() {
  world<T> w;
  va_spawn(notifier<T, 1>, &w);
  va_spawn(notifier<T, 2>, &w);
  sub<T, 0>(&w);
  sub<T, 1>(&w);
  end(w, 2);
}
DRIVER(threads_one) { one<value>(); }
DRIVER(threads_one_void) { one<void>(); }
DRIVER(threads_two_subs) { two_subs<value>(); }
DRIVER(threads_two_subs_void) { two_subs<void>(); }
DRIVER(threads_two_notifiers) { two_notifiers<value>(); }
DRIVER(threads_two_notifiers_void) { two_notifiers<void>(); }
// the woken coroutine runs on another thread at once, while notify_all goes on
struct reader_tag;
struct handover {
  ev<value>* e;
  ghost* g;
  dd::task_node* x[2] = {};
  bool here[2] = {};
  int n = 0;
  void attach(dd::task_node* t) {
    x[n] = t;
    va_release(&x[n]);
    here[n] = true;
    ++n;
    va_yield();
  }
};
template <int I>
static void carry(void* p) {
  handover& h = *static_cast<handover*>(p);
  va_wait_for(&h.here[I]);
  va_acquire(&h.x[I]);
  h.x[I]->task.resume();
}
static client reader(int& done) {
  tracked t(1);
  dd::event<value>& e = dd::event_v<value, reader_tag>;
  value v = co_await e;
  REQUIRE(v.v == 5);
  t.check();
  ++done;
}
DRIVER(threads_handover) {
  handover h;
  int done[2] = {};
  reader(done[0]);
  reader(done[1]);
  va_must_finish(1);
  va_spawn(carry<0>, &h);
  va_spawn(carry<1>, &h);
  REQUIRE((dd::event_v<value, reader_tag>.notify_all(h, value(5))));
  va_join();
  REQUIRE(done[0] == 1 && done[1] == 1);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ many subscribers
struct resumer {
  int attached = 0;
  void attach(dd::task_node* x) {
    ++attached;
    x->next = x;
    x->task.resume();
  }
};
static client one_of_many(ev<int>& e, int& got) {
  int x = co_await e;
  REQUIRE(x == 77);
  ++got;
}
static client one_of_many(ev<void>& e, int& got) {
  co_await e;
  ++got;
}
DRIVER(many) {
  va_no_weak_failures();
  constexpr int n = 300;
  resumer x;
  int got = 0;
  if (va_bool()) {
    ev<int> e;
    for (int i = 0; i < n; ++i)
      one_of_many(e, got);
    REQUIRE(e.notify_all(x, 77));
  } else {
    ev<void> e;
    for (int i = 0; i < n; ++i)
      one_of_many(e, got);
    REQUIRE(e.notify_all(x));
  }
  REQUIRE(got == n && x.attached == n);
  REQUIRE(va_frames() == 0);
}
