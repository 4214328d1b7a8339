// C26: a pool has as many threads as queues, every thread serves its own queue, memory comes from the given resource.
#include <kelcoro/thread_pool.hpp>
#include "client.hpp"

constexpr int most = 4;
// what the job function sees
static dd::task_queue* served[most + 1];
static int nserved;
static void note(dd::task_queue& q) {
  va_acquire(&nserved);
  for (int i = 0; i < nserved; ++i)
    REQUIRE(served[i] != &q);
  served[nserved++] = &q;
  va_release(&nserved);
}
// what a job has to do when it is told to stop
static void cancel(dd::task_node* n) {
  while (n) {
    dd::task_node* x = n;
    n = n->next;
    REQUIRE(!x->is_deadpill());
    x->status = dd::schedule_errc::cancelled;
    x->task.resume();
  }
}
// notes its queue and waits for the stop marker
static void job(dd::task_queue& q) {
  note(q);
  dd::task_node* n = q.pop_all_not_empty();
  REQUIRE(n->is_deadpill());
  cancel(n->next);
}
static bool is_served(const dd::task_queue& q) {
  for (int i = 0; i < nserved; ++i)
    if (served[i] == &q)
      return true;
  return false;
}
static void shape(dd::thread_pool& p, std::size_t n) {
  const dd::thread_pool& cp = p;
  REQUIRE(p.queues_range().size() == n);
  REQUIRE(p.workers_range().size() == n);
  REQUIRE(cp.queues_range().data() == p.queues_range().data() && cp.queues_range().size() == n);
  REQUIRE(cp.workers_range().data() == p.workers_range().data() && cp.workers_range().size() == n);
  REQUIRE(va_threads("running") == (int)n);
  std::size_t i = 0;
  for (std::thread& t : p.workers_range()) {
    REQUIRE(t.joinable());
    REQUIRE(p.is_worker(t.get_id()));
    REQUIRE(&t == &p.workers_range()[i]);
    ++i;
  }
  REQUIRE(i == n);
  // every queue is in use, each index another one
  i = 0;
  for (dd::task_queue& q : p.queues_range()) {
    REQUIRE(&q == &p.queues_range()[i]);
    REQUIRE(&q == &p.select_queue(i));
    ++i;
  }
  REQUIRE(i == n);
}
// which one asks
static bool from_outside(dd::thread_pool& p) { return p.is_worker(); }
static void pool(int n, bool stop) {
  resource r;
  nserved = 0;
  va_run_threads(1);
  va_must_finish(1);
  const std::size_t real = n < 1 ? 1 : n;
  {
    dd::thread_pool p(n, job, r);
    REQUIRE(&p.get_resource() == static_cast<std::pmr::memory_resource*>(&r));
    REQUIRE(r.live() == 2);
    shape(p, real);
    REQUIRE(!from_outside(p));
    REQUIRE(!p.is_worker(std::thread::id()));
    // remembers the addresses
    dd::task_queue* qs[most];
    for (std::size_t i = 0; i < real; ++i)
      qs[i] = &p.queues_range()[i];
    if (stop) {
      p.request_stop();
      std::move(p).wait_stop();
      REQUIRE(va_threads("running") == 0);
      REQUIRE(nserved == (int)real);
      for (std::size_t i = 0; i < real; ++i)
        REQUIRE(is_served(*qs[i]));
    }
    REQUIRE(r.live() == 2);
  }
  REQUIRE(nserved == (int)real);
  REQUIRE(va_threads("running") == 0);
  REQUIRE(r.live() == 0);
  REQUIRE(va_live_heap() == 0);
}
DRIVER(pool0) { pool(0, va_bool()); }
DRIVER(pool1) { pool(1, va_bool()); }
DRIVER(pool2) { pool(2, va_bool()); }
#ifdef VA_THOROUGH
DRIVER(pool3) { pool(3, va_bool()); }
#endif
// thread i serves queue i: a pool thread that tells where it runs
struct place {
  dd::thread_pool* p = nullptr;
  int ok = 0;
};
static place where;
static void self_check(dd::task_queue& q) {
  dd::task_node* n = q.pop_all_not_empty();
  // the pool is complete when the marker arrives
  dd::thread_pool& p = *where.p;
  REQUIRE(p.is_worker());
  int found = -1;
  for (std::size_t i = 0; i < p.workers_range().size(); ++i)
    if (p.workers_range()[i].get_id() == std::this_thread::get_id()) {
      REQUIRE(found == -1);
      found = (int)i;
    }
  REQUIRE(found >= 0);
  REQUIRE(&p.queues_range()[found] == &q);
  va_acquire(&where);
  ++where.ok;
  va_release(&where);
  REQUIRE(n->is_deadpill());
  cancel(n->next);
}
static void own_queue(int n) {
  where.ok = 0;
  va_run_threads(1);
  va_must_finish(1);
  {
    dd::thread_pool p(n, self_check);
    where.p = &p;
    p.request_stop();
    va_join();
    REQUIRE(where.ok == n);
    std::move(p).wait_stop();
  }
  REQUIRE(va_frames() == 0);
}
DRIVER(own_queue1) { own_queue(1); }
DRIVER(own_queue2) { own_queue(2); }
#ifdef VA_THOROUGH
DRIVER(own_queue3) { own_queue(3); }
#endif
// any number of threads, resource by default
DRIVER(defaults) {
  resource std_default;
  if (va_bool())
    std::pmr::set_default_resource(&std_default);
  {
    dd::thread_pool p(1);
    REQUIRE(&p.get_resource() == std::pmr::get_default_resource());
    REQUIRE(va_blocks_of(std::pmr::get_default_resource()) == 2);
  }
  REQUIRE(va_live_heap() == 0);
}
DRIVER(default_count) { REQUIRE(dd::thread_pool::default_thread_count() >= 1); }
// the default resource may be another one when the pool ends
DRIVER(default_changed) {
  resource a, b;
  std::pmr::set_default_resource(&a);
  {
    dd::thread_pool p(2);
    std::pmr::set_default_resource(&b);
    REQUIRE(&p.get_resource() == static_cast<std::pmr::memory_resource*>(&a));
    bool ran = false;
    p.schedule([&ran] { ran = true; });
    REQUIRE(a.live() == 3 && b.live() == 0);
    std::pmr::set_default_resource(nullptr);
  }
  REQUIRE(a.live() == 0 && b.live() == 0);
}
// tasks use the resource of their pool
struct work {
  bool* ran;
  resource* r;
  void operator()() const {
    *ran = true;
    REQUIRE(r->live() == 3);
  }
};
DRIVER(schedule) {
  resource r, other;
  dd::pmr::pass_resource(other);
  bool ran = false;
  va_run_threads(1);
  {
    dd::thread_pool p(1 + va_choice(2), dd::default_worker_job, r);
    if (va_bool())
      p.schedule(work{&ran, &r});
    else
      p.schedule(work{&ran, &r}, va_size());
    REQUIRE(other.live() == 0);
  }
  REQUIRE(r.live() == 0);
  REQUIRE(va_live_heap() == 0);
}
// construction that fails gives everything back
DRIVER(fails) {
  resource r;
  va_run_threads(1);
  va_must_finish(1);
  nserved = 0;
  try {
    va_throws(1);
    dd::thread_pool p(2, job, r);
    va_reach("constructed");
    REQUIRE(nserved <= 2);
  } catch (...) {
    va_reach("not constructed");
  }
  REQUIRE(r.live() == 0);
  REQUIRE(va_live_heap() == 0);
  REQUIRE(va_threads("running") == 0);
}
// a worker serves its own queue
DRIVER(worker) {
  nserved = 0;
  va_run_threads(1);
  va_must_finish(1);
  {
    dd::worker w(job);
    REQUIRE(va_threads("running") == 1);
    REQUIRE(w.get_id() == w.get_thread().get_id());
    const dd::worker& cw = w;
    REQUIRE(&cw.get_thread() == &w.get_thread());
    REQUIRE(w.get_thread().joinable());
  }
  REQUIRE(nserved == 1);
}
static dd::task_queue* strands_queue;
static void is_it(dd::task_queue& q) {
  dd::task_node* n = q.pop_all_not_empty();
  va_acquire(&strands_queue);
  REQUIRE(strands_queue == &q);
  cancel(n->next);
}
DRIVER(worker_strand) {
  va_run_threads(1);
  {
    dd::worker w(is_it);
    strands_queue = &dd::strand(w).get_queue();
    va_release(&strands_queue);
    dd::strand s(*strands_queue);
    REQUIRE(&s.get_queue() == strands_queue);
  }
}

// several pools at the same time, each with its own threads and its own resource
DRIVER(two_pools) {
  resource r, s;
  bool ran[2] = {};
  va_run_threads(1);
  {
    dd::thread_pool p(1, dd::default_worker_job, r);
    const int had = r.live();
    {
      dd::thread_pool q(2, dd::default_worker_job, s);
      REQUIRE(p.queues_range().size() == 1 && q.queues_range().size() == 2);
      REQUIRE(p.workers_range().size() == 1 && q.workers_range().size() == 2);
      REQUIRE(r.live() == had && s.live() == 2);
      REQUIRE(&p.get_resource() == static_cast<std::pmr::memory_resource*>(&r));
      REQUIRE(&q.get_resource() == static_cast<std::pmr::memory_resource*>(&s));
      REQUIRE(&p.select_queue(va_size()) == &p.queues_range()[0]);
      if (va_bool())
        p.schedule(work{&ran[0], &r});
    }
    REQUIRE(s.live() == 0);
  }
  REQUIRE(r.live() == 0);
  REQUIRE(va_live_heap() == 0);
}
DRIVER(two_pools_schedule) {
  resource r, s;
  const bool second = va_bool();
  bool ran[2] = {};
  {
    dd::thread_pool p(1, job, r), q(1, job, s);
    auto w0 = [&ran] { ran[0] = true; };
    auto w1 = [&ran] { ran[1] = true; };
    p.schedule(w0);
    REQUIRE(r.live() == 3 && s.live() == 2);
    q.schedule(w1);
    REQUIRE(r.live() == 3 && s.live() == 3);
    if (second) {
      p.schedule(w1);
      REQUIRE(r.live() == 4 && s.live() == 3);
    }
  }
  REQUIRE(r.live() == 0 && s.live() == 0);
}
