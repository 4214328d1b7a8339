// C02: default_worker_job resumes every task once, in order, and cancels those behind the stop marker.
#include <kelcoro/thread_pool.hpp>
#include "client.hpp"

struct world {
  dd::task_queue q;
  dd::task_node* pill = nullptr;
  bool stopped = false;       // the marker is in the queue or has been there
  bool pill_gone = false;
  bool job_over = false;
  int pushed = 0, resumed = 0;
  int marker_at = -1;         // number of tasks in front of the marker
  int late = 0;               // tasks that came after the marker
  bool growing = false;
  int budget = 0;             // tasks that may still be added while others run
  int data[6] = {};
};
// puts a node that lives in the waiting coroutine's frame into the queue
struct enqueue {
  world& w;
  dd::task_node node;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    node.task = h;
    w.q.attach(&node);
  }
  dd::schedule_errc await_resume() const noexcept { return node.status; }
};
// two nodes linked by hand: the marker and a task right behind it (as thread_pool::request_stop does)
struct enqueue_behind_marker {
  world& w;
  dd::task_node node;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    node.task = h;
    w.pill->next = &node;
    w.q.push_list(w.pill, &node);
  }
  dd::schedule_errc await_resume() const noexcept { return node.status; }
};
static void stop(world& w) {
  REQUIRE(!w.stopped);
  w.stopped = true;
  w.marker_at = w.pushed;
  w.pill = new dd::task_node(dd::task_node::deadpill());
}
static bool resumed(world& w, int me, dd::schedule_errc st, dd::schedule_errc before) {
  va_data_read(&w.data[me]);
  REQUIRE(w.resumed == me);            // every task once, in the order of the queue
  ++w.resumed;
  bool behind = w.marker_at >= 0 && me >= w.marker_at;
  REQUIRE(st == (behind ? dd::schedule_errc::cancelled : before));
  if (behind && !w.pill_gone) {
    // the marker belongs to the task behind it
    delete w.pill;
    w.pill_gone = true;
  }
  return behind;
}
template <bool Marker>
static client task(world& w);
static void more(world& w, bool main = false) {
  while (main ? w.budget > 0 : w.budget > 0 || (!w.stopped && w.resumed == w.pushed)) {
    switch (va_choice(4)) {
      case 0:
        if (!main && !w.stopped && w.resumed == w.pushed)
          va_stop();      // the last one stops the job
        return;
      case 1:
        if (w.budget == 0)
          va_stop();
        --w.budget;
        task<false>(w);
        break;
      case 2:
        if (w.stopped || w.budget == 0)
          va_stop();
        --w.budget;
        task<true>(w);
        break;
      case 3:
        if (w.stopped)
          va_stop();
        stop(w);
        w.q.push(w.pill);
        break;
    }
  }
}
template <bool Marker>
static client task(world& w) {
  tracked t(1);
  if constexpr (Marker)
    stop(w);
  int me = w.pushed++;
  va_data_write(&w.data[me]);
  // the status is none of the worker's business until it cancels the task
  dd::schedule_errc s, before = static_cast<dd::schedule_errc>(va_int());
  if constexpr (Marker)
    s = co_await enqueue_behind_marker{w, {.status = before}};
  else
    s = co_await enqueue{w, {.status = before}};
  t.check();
  if (!resumed(w, me, s, before) && w.growing)
    more(w);
}
static void finish(world& w, int batch) {
  // what is left came too late for the job
  REQUIRE(w.stopped);
  REQUIRE(w.resumed >= w.marker_at);
  int n = 0;
  for (dd::task_node* top = w.q.pop_all(); top;) {
    dd::task_node* next = top->next;
    REQUIRE(bool(top->task));
    top->status = dd::schedule_errc::cancelled;
    ++n;
    top->task.resume();
    top = next;
  }
  if (batch)
    REQUIRE(n == 0);
  REQUIRE(w.resumed == w.pushed);
  if (!w.pill_gone)
    delete w.pill;
  REQUIRE(va_frames() == 0);
}
// everything is in the queue before the job starts: one batch, nothing may be left
static void one_batch(int before, int after, bool together) {
  world w;
  for (int i = 0; i < before; ++i)
    task<false>(w);
  if (together)
    task<true>(w);
  else {
    stop(w);
    w.q.push(w.pill);
  }
  for (int i = 0; i < after; ++i)
    task<false>(w);
  dd::default_worker_job(w.q);
  finish(w, 1);
}
DRIVER(batch) { one_batch(va_choice(4), va_choice(3), false); }
DRIVER(batch_marker_with_task) { one_batch(va_choice(3), va_choice(3), true); }
// tasks bring more tasks and the marker while they run
DRIVER(growing) {
  world w;
  w.budget = 3;
  w.growing = true;
  task<false>(w);
  more(w, true);
  dd::default_worker_job(w.q);
  finish(w, 0);
}
// two markers in the queue: the second is skipped like any other entry behind the first, never resumed
DRIVER(second_marker) {
  world w;
  if (va_bool())
    task<false>(w);
  stop(w);
  w.q.push(w.pill);
  if (va_bool())
    task<false>(w);
  dd::task_node second = dd::task_node::deadpill();
  w.q.push(&second);
  if (va_bool())
    task<false>(w);
  dd::default_worker_job(w.q);
  finish(w, 1);
}

// ------------------------------------------------------------------------------------------------ the job runs on its own thread
static void run(void* p) {
  world& w = *static_cast<world*>(p);
  dd::default_worker_job(w.q);
  w.job_over = true;
}
static void threads(int before, bool together, int after) {
  world w;
  va_must_finish(1);
  va_spawn(run, &w);
  for (int i = 0; i < before; ++i)
    task<false>(w);
  if (together)
    task<true>(w);
  else {
    stop(w);
    w.q.push(w.pill);
  }
  for (int i = 0; i < after; ++i)
    task<false>(w);
  va_join();
  REQUIRE(w.job_over);
  finish(w, 0);
}
DRIVER(thread) { threads(1, false, 0); }
DRIVER(thread_late) { threads(1, false, 1); }
DRIVER(thread_marker_with_task) { threads(0, true, 1); }
DRIVER(thread_two) { threads(2, false, 0); }
#ifdef VA_THOROUGH
DRIVER(thread_three) { threads(2, true, 1); }
DRIVER(thread_many) { threads(3, false, 1); }
#endif

// ------------------------------------------------------------------------------------------------ many tasks
struct crowd {
  dd::task_queue q;
  int resumed = 0, stop_at = 0;
  dd::task_node pill = dd::task_node::deadpill();
  bool over = false;
};
struct join_crowd {
  crowd& c;
  dd::task_node node;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    node.task = h;
    c.q.attach(&node);
  }
  dd::schedule_errc await_resume() const noexcept { return node.status; }
};
static client one_of_many(crowd& c, int me) {
  dd::schedule_errc s = co_await join_crowd{c, {}};
  REQUIRE(c.resumed == me);
  ++c.resumed;
  REQUIRE(s == (me < c.stop_at ? dd::schedule_errc::ok : dd::schedule_errc::cancelled));
}
DRIVER(many) {
  crowd c;
  c.stop_at = va_bool() ? 280 : 3;
  for (int i = 0; i < 300; ++i) {
    if (i == c.stop_at)
      c.q.push(&c.pill);
    one_of_many(c, i);
  }
  dd::default_worker_job(c.q);
  REQUIRE(c.resumed == 300);
  REQUIRE(va_frames() == 0);
}
