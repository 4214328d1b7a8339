// C03: shutting down a worker or a pool joins every thread once and cancels every queued task exactly once.
#include <kelcoro/thread_pool.hpp>
#include <memory>
#include "client.hpp"

struct world {
  int scheduled = 0, ran = 0, cancelled = 0;
  bool over = false;       // the object has been destroyed
  bool more = false;       // running tasks may schedule further ones
  dd::thread_pool* pool = nullptr;
  int here = 0, there = 0;
};
template <typename E>
static client task(world& w, E e) {
  tracked t(1);
  ++w.scheduled;
  dd::schedule_status s = co_await dd::jump_on(e);
  t.check();
  REQUIRE(!w.over);
  if (s)
    ++w.ran;
  else {
    REQUIRE(s.what == dd::schedule_errc::cancelled);
    ++w.cancelled;
  }
}
// runs on one queue, then goes on to another one
static client traveller(world& w, dd::strand a, dd::strand b) {
  tracked t(1);
  ++w.scheduled;
  dd::schedule_status s = co_await dd::jump_on(a);
  t.check();
  REQUIRE(!w.over);
  if (s) {
    s = co_await dd::jump_on(b);
    t.check();
    REQUIRE(!w.over);
  }
  if (s)
    ++w.ran;
  else
    ++w.cancelled;
}
static void finish(world& w) {
  w.over = true;
  REQUIRE(w.scheduled == w.ran + w.cancelled);
  REQUIRE(va_frames() == 0);
  REQUIRE(va_threads("running") == 0);
  REQUIRE(va_live_heap() == 0);
}

// ------------------------------------------------------------------------------------------------ worker
static void wrk(int tasks) {
  world w;
  va_run_threads(1);
  va_must_finish(1);
  {
    dd::worker k;
    REQUIRE(va_threads("running") == 1);
    for (int i = 0; i < tasks; ++i)
      task(w, dd::strand(k));
  }
  finish(w);
}
DRIVER(worker0) { wrk(0); }
DRIVER(worker2) { wrk(2); }
// a job that stops at its first marker and leaves in the queue what was behind it
static void lazy_job(dd::task_queue& q) {
  for (;;) {
    dd::task_node* top = q.pop_all_not_empty();
    while (top) {
      dd::task_node* n = top;
      top = top->next;
      if (n->is_deadpill()) {
        q.push_list(top);
        return;
      }
      n->task.resume();
    }
  }
}
DRIVER(worker_leftover) {
  world w;
  va_run_threads(1);
  va_must_finish(1);
  auto pill = dd::task_node::deadpill();
  {
    dd::worker k(lazy_job);
    task(w, dd::strand(k));
    dd::strand(k).get_queue().push(&pill);
    task(w, dd::strand(k));
    if (va_bool())
      task(w, dd::strand(k));
  }
  finish(w);
}
// the thread of the worker was taken away by the user: nothing to join, but the queue is drained
DRIVER(worker_without_thread) {
  world w;
  va_run_threads(1);
  {
    dd::worker k([](dd::task_queue&) {});
    k.get_thread().join();
    task(w, dd::strand(k));
    task(w, dd::strand(k));
  }
  REQUIRE(w.cancelled == 2);
  finish(w);
}

// ------------------------------------------------------------------------------------------------ thread_pool
template <typename F>
static void pool(int n, F body) {
  world w;
  va_run_threads(1);
  va_must_finish(1);
  {
    dd::thread_pool p(n);
    w.pool = &p;
    REQUIRE(va_threads("running") == n);
    body(w, p);
  }
  finish(w);
}
DRIVER(pool1) {
  pool(1, [](world& w, dd::thread_pool& p) {
    task(w, p.get_strand(0));
    task(w, p.get_strand(0));
  });
}
#ifndef NDEBUG
DRIVER(pool2) {
  pool(2, [](world& w, dd::thread_pool& p) {
    task(w, p.get_strand(0));
    task(w, p.get_strand(1));
  });
}
#endif
#ifndef NDEBUG
DRIVER(pool2_stopped) {
  pool(2, [](world& w, dd::thread_pool& p) {
    if (va_bool())
      task(w, p.get_strand(1));
    p.request_stop();
  });
}
#endif
DRIVER(pool1_stopped_twice) {
  pool(1, [](world& w, dd::thread_pool& p) {
    p.request_stop();
    task(w, p.get_strand(0));
    p.request_stop();
    task(w, p.get_strand(0));
  });
}
DRIVER(pool1_wait) {
  pool(1, [](world& w, dd::thread_pool& p) {
    task(w, p.get_strand(0));
    p.request_stop();
    task(w, p.get_strand(0));
    std::move(p).wait_stop();
    REQUIRE(w.scheduled == w.ran + w.cancelled);
    REQUIRE(va_threads("running") == 0);
    REQUIRE(va_frames() == 0);
  });
}
DRIVER(pool2_wait) {
  pool(2, [](world& w, dd::thread_pool& p) {
    p.request_stop();
    task(w, p.get_strand(1));
    std::move(p).wait_stop();
    REQUIRE(w.scheduled == w.ran + w.cancelled);
    REQUIRE(va_threads("running") == 0);
    REQUIRE(va_frames() == 0);
  });
}
// work moves from one queue to the other while the pool goes down
#ifndef NDEBUG
DRIVER(pool2_forward) {
  pool(2, [](world& w, dd::thread_pool& p) { traveller(w, p.get_strand(0), p.get_strand(1)); });
}
#endif
DRIVER(pool2_backward) {
  pool(2, [](world& w, dd::thread_pool& p) { traveller(w, p.get_strand(1), p.get_strand(0)); });
}
DRIVER(pool2_wait_backward) {
  pool(2, [](world& w, dd::thread_pool& p) {
    traveller(w, p.get_strand(1), p.get_strand(0));
    p.request_stop();
    std::move(p).wait_stop();
    REQUIRE(w.scheduled == w.ran + w.cancelled);
    REQUIRE(va_frames() == 0);
  });
}
DRIVER(pool2_stopped_backward) {
  pool(2, [](world& w, dd::thread_pool& p) {
    traveller(w, p.get_strand(1), p.get_strand(0));
    p.request_stop();
  });
}
#ifndef NDEBUG
DRIVER(pool3_wait) {
  pool(3, [](world& w, dd::thread_pool& p) {
    p.request_stop();
    std::move(p).wait_stop();
    REQUIRE(va_frames() == 0);
  });
}
#endif
#ifdef VA_THOROUGH
DRIVER(pool3) {
  pool(3, [](world& w, dd::thread_pool& p) {
    task(w, p.get_strand(2));
    if (va_bool())
      p.request_stop();
  });
}
DRIVER(pool2_more) {
  pool(2, [](world& w, dd::thread_pool& p) {
    traveller(w, p.get_strand(1), p.get_strand(0));
    traveller(w, p.get_strand(0), p.get_strand(1));
    if (va_bool())
      p.request_stop();
  });
}
#endif
// another thread asks to stop
struct elsewhere {
  dd::thread_pool* p;
  bool done = false;
};
static void stopper(void* x) {
  elsewhere& e = *static_cast<elsewhere*>(x);
  e.p->request_stop();
  va_release(&e);
  e.done = true;
}
DRIVER(pool1_stopped_from_elsewhere) {
  pool(1, [](world& w, dd::thread_pool& p) {
    elsewhere e{&p};
    va_spawn(stopper, &e);
    task(w, p.get_strand(0));
    va_wait_for(&e.done);
    va_acquire(&e);
  });
}

// ------------------------------------------------------------------------------------------------ threads that cannot be started
static void start_fails(int n) {
  va_run_threads(1);
  va_must_finish(1);
  va_throws(1);
  try {
    dd::thread_pool p(n);
    va_throws(0);
    va_reach("all started");
    REQUIRE(va_threads("running") == n);
  } catch (...) {
    va_throws(0);
    va_reach("failed");
  }
  REQUIRE(va_threads("running") == 0);
  REQUIRE(va_live_heap() == 0);
}
DRIVER(start_fails1) { start_fails(1); }
DRIVER(start_fails2) { start_fails(2); }
DRIVER(start_fails3) { start_fails(3); }

// the job gives its queue work before it starts and after it has stopped
static std::atomic<int> posted{0}, done_ok{0}, done_cancelled{0};
static client posts(dd::strand e) {
  tracked t(1);
  posted.fetch_add(1);
  dd::schedule_status s = co_await dd::jump_on(e);
  t.check();
  (s ? done_ok : done_cancelled).fetch_add(1);
}
static void posting_job(dd::task_queue& q) {
  posts(dd::strand(q));
  dd::default_worker_job(q);
  posts(dd::strand(q));
}
static void late_job(dd::task_queue& q) {
  dd::default_worker_job(q);
  posts(dd::strand(q));
}
static void posting(int n, dd::worker::job_t job) {
  posted = done_ok = done_cancelled = 0;
  va_run_threads(1);
  va_must_finish(1);
  va_throws(1);
  try {
    dd::thread_pool p(n, job);
    va_throws(0);
    va_reach("all started");
  } catch (...) {
    va_throws(0);
    va_reach("failed");
  }
  REQUIRE(va_threads("running") == 0);
  REQUIRE(posted.load() == done_ok.load() + done_cancelled.load());
  REQUIRE(va_frames() == 0);
  REQUIRE(va_live_heap() == 0);
}
DRIVER(posting1) { posting(1, posting_job); }
DRIVER(posting2) { posting(2, late_job); }
