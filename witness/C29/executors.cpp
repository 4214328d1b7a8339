//@ ok executor_concept: what counts as an executor
static_assert(dd::executor<dd::thread_pool> && dd::executor<dd::worker> && dd::executor<dd::strand> && dd::executor<dd::task_queue> && dd::executor<dd::any_executor_ref>);
static_assert(dd::executor<dd::noop_executor_t> && dd::executor<const dd::noop_executor_t> && dd::executor<dd::this_thread_executor_t> && dd::executor<const dd::new_thread_executor_t> && dd::executor<w::my_exec> && !dd::executor<int>);
static_assert(dd::executor<const dd::strand>);
//@ ok jump_on: jump_on every executor, from every coroutine kind
template <typename C>
C all(dd::thread_pool& p, dd::worker& k, dd::strand s, dd::task_queue& q, dd::any_executor_ref a, w::my_exec& e, const dd::strand& cs) {
  if (!co_await dd::jump_on(p)) co_return;
  AWAITS(dd::schedule_status, dd::jump_on(p));
  AWAITS(dd::schedule_status, dd::jump_on(k));
  AWAITS(dd::schedule_status, dd::jump_on(a));
  (void)co_await dd::jump_on(k);
  (void)co_await dd::jump_on(s);
  (void)co_await dd::jump_on(cs);
  (void)co_await dd::jump_on(q);
  (void)co_await dd::jump_on(a);
  (void)co_await dd::jump_on(e);
  (void)co_await dd::jump_on(dd::noop_executor);
  (void)co_await dd::jump_on(dd::this_thread_executor);
  (void)co_await dd::jump_on(dd::new_thread_executor);
  dd::schedule_status st = co_await dd::jump_on(p.get_strand(3));
  if (st) {}
  bool b = st.what == dd::schedule_errc::cancelled;
  (void)b;
}
#define ARGS dd::thread_pool&, dd::worker&, dd::strand, dd::task_queue&, dd::any_executor_ref, w::my_exec&, const dd::strand&
template dd::task<void> all(ARGS);
template dd::async_task<void> all(ARGS);
template dd::job all(ARGS);
template dd::logical_thread all(ARGS);
template dd::channel<int> all(ARGS);
template dd::pmr::task<void> all(ARGS);
template dd::pmr::async_task<void> all(ARGS);
template dd::pmr::job<void> all(ARGS);
template dd::pmr::logical_thread<void> all(ARGS);
template dd::pmr::channel<int> all(ARGS);
template dd::task_r<void, w::empty_res> all(ARGS);
template dd::job_r<w::empty_res> all(ARGS);
//@ ok any_executor_ref: type erasure of executors
void f(dd::thread_pool& p, dd::worker& k, dd::strand s, dd::task_queue& q, w::my_exec& e, dd::task_node* n) {
  dd::any_executor_ref a = p, b = k, c = s, d = q, x = e;
  dd::any_executor_ref copy = a;
  dd::any_executor_ref moved = std::move(b);
  copy.attach(n);
  static_assert(std::is_copy_constructible_v<dd::any_executor_ref>);
  dd::attach_list(a, n);
  dd::attach_list(p, n);
  dd::attach_list(k, n);
  dd::attach_list(s, n);
  dd::attach_list(q, n);
  dd::attach_list(e, n);
  SAME(dd::task_node*, decltype(dd::reverse_list(n)));
  n = dd::reverse_list(n);
  dd::latch l(3, e);
  dd::any_executor_ref g = l.get_executor();
}
//@ ok schedule_to: schedule_to with and without a resource, on every executor
void f(dd::thread_pool& p, dd::worker& k, dd::strand s, dd::task_queue& q, dd::any_executor_ref a, w::my_exec& e, w::fat_res& r, std::pmr::memory_resource& m) {
  auto fn = [] {};
  dd::schedule_to(p, fn);
  dd::schedule_to(k, fn);
  dd::schedule_to(s, [&p] { (void)p; });
  dd::schedule_to(q, [x = w::moveonly{}] {});
  dd::schedule_to(a, fn);
  dd::schedule_to(e, fn);
  dd::schedule_to(dd::this_thread_executor, fn);
  dd::schedule_to(dd::noop_executor, [] { return 1; });
  dd::schedule_to(p, fn, dd::with_resource<w::fat_res>(1));
  dd::schedule_to(k, fn, dd::with_pmr_resource(m));
  dd::schedule_to(k, fn, dd::with_resource(r));
  dd::schedule_to(e, fn, dd::with_resource(m));
}
//@ ok pool_interface: every member of thread_pool, worker, strand and task_queue
void my_job(dd::task_queue&);
void f(dd::thread_pool& p, const dd::thread_pool& cp, dd::worker& k, const dd::worker& ck, dd::strand s, dd::task_queue& q, dd::task_node* n, std::pmr::memory_resource& m) {
  dd::thread_pool a, b(3), c(3, my_job), d(3, my_job, m), e(dd::thread_pool::default_thread_count(), dd::default_worker_job);
  p.attach(n);
  SAME(bool, decltype(p.is_worker()));
  (void)p.is_worker(), (void)p.is_worker(std::this_thread::get_id());
  p.schedule([] {});
  p.schedule([x = w::moveonly{}] {});
  p.schedule([] {}, 5);
  auto fn = [] {};
  p.schedule(fn);
  p.schedule(fn, dd::calculate_operation_hash(fn));
  SAME(std::span<std::thread>, decltype(p.workers_range()));
  SAME(std::span<const std::thread>, decltype(cp.workers_range()));
  SAME(std::span<dd::task_queue>, decltype(p.queues_range()));
  SAME(std::span<const dd::task_queue>, decltype(cp.queues_range()));
  (void)p.workers_range(), (void)cp.workers_range(), (void)p.queues_range(), (void)cp.queues_range();
  SAME(dd::strand, decltype(p.get_strand(1)));
  (void)p.get_strand(1);
  SAME(dd::task_queue&, decltype(p.select_queue(1)));
  (void)p.select_queue(1);
  SAME(std::pmr::memory_resource&, decltype(cp.get_resource()));
  (void)cp.get_resource();
  p.request_stop();
  std::move(p).wait_stop();
  dd::worker w1, w2(my_job), w3(dd::default_worker_job);
  k.attach(n);
  SAME(std::thread::id, decltype(ck.get_id()));
  SAME(std::thread&, decltype(k.get_thread()));
  SAME(const std::thread&, decltype(ck.get_thread()));
  (void)ck.get_id(), (void)k.get_thread(), (void)ck.get_thread();
  dd::strand s1(k), s2(q), s3 = s1;
  s3 = s2;
  s.attach(n);
  SAME(dd::task_queue&, decltype(s.get_queue()));
  (void)s.get_queue();
  q.push(n);
  q.push_list(n);
  q.push_list(n, n);
  q.attach(n);
  SAME(dd::task_node*, decltype(q.pop_all()));
  SAME(dd::task_node*, decltype(q.pop_all_not_empty()));
  (void)q.pop_all(), (void)q.pop_all_not_empty();
  dd::default_worker_job(q);
}
//@ ok latch_interface: every member of latch, awaited from every coroutine kind
void f(w::my_exec& e, dd::latch& l, const dd::latch& c) {
  dd::latch a(2, e), b(0, dd::any_executor_ref(e));
  l.count_down();
  l.count_down(3);
  SAME(bool, decltype(c.ready()));
  (void)c.ready();
  SAME(dd::any_executor_ref, decltype(c.get_executor()));
  (void)c.get_executor();
  SAME(std::ptrdiff_t, decltype(dd::latch::max()));
  static_assert(dd::latch::max() > 0);
}
template <typename C>
C wait(dd::latch& l) {
  
  co_await l.wait();
  co_await l.arrive_and_wait();
  co_await l.arrive_and_wait(2);
  co_return;
}
template dd::task<void> wait(dd::latch&);
template dd::async_task<void> wait(dd::latch&);
template dd::job wait(dd::latch&);
template dd::logical_thread wait(dd::latch&);
template dd::channel<int> wait(dd::latch&);
template dd::pmr::task<void> wait(dd::latch&);
template dd::pmr::job<void> wait(dd::latch&);
//@ ok lockfree_stack: the intrusive stack with any node type
struct node { node* next; int x; };
static_assert(dd::singly_linked_node<node> && dd::singly_linked_node<dd::task_node> && !dd::singly_linked_node<const node> && !dd::singly_linked_node<int>);
void f(dd::nonowner_lockfree_stack<node>& s, node* n) {
  dd::nonowner_lockfree_stack<node> d;
  s.push(n);
  s.push_stack(n);
  SAME(node*, decltype(s.try_pop_all()));
  (void)s.try_pop_all();
}
//@ ok operation_hash: operation_hash of operations and of every coroutine handle
void f(std::coroutine_handle<> h, dd::task<int>& t, dd::pmr::task<int>& pt, dd::generator<int>& g, dd::channel<int>& c, dd::job& j, dd::job_r<w::empty_res>& jr, dd::channel<int>::handle_type ch, std::coroutine_handle<dd::resourced_promise<dd::channel_promise<int>, w::empty_res>> rh, std::coroutine_handle<dd::resourced_promise<dd::task_promise<int, dd::null_context>, w::empty_res>> th, std::coroutine_handle<dd::resourced_promise<dd::job_promise, w::empty_res>> jh) {
  dd::operation_hash_t x = dd::calculate_operation_hash(h);
  x += dd::calculate_operation_hash(t.raw_handle());
  x += dd::calculate_operation_hash(pt.raw_handle());
  x += dd::calculate_operation_hash(g.raw_handle());
  x += dd::calculate_operation_hash(c.raw_handle());
  x += dd::calculate_operation_hash(j.handle);
  x += dd::calculate_operation_hash(jr.handle);
  x += dd::calculate_operation_hash(ch);
  x += dd::calculate_operation_hash(rh);
  x += dd::calculate_operation_hash(th);
  x += dd::calculate_operation_hash(jh);
  auto l = [] {};
  x += dd::calculate_operation_hash(l);
  x += dd::calculate_operation_hash(5);
  SAME(dd::operation_hash_t, decltype(dd::calculate_operation_hash(h)));
}
