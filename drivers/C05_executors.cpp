// C05: executors, attach_list and reverse_list pass every node on exactly once.
#include <kelcoro/thread_pool.hpp>
#include "client.hpp"

using node = dd::task_node;

// A list whose nodes die (their memory is given back) as soon as they are attached.
struct nodes {
  static constexpr int N = 4;
  node* n[N] = {};
  dd::schedule_errc st[N] = {};
  bool seen[N] = {};
  int count = 0, attached = 0;
  node* make(int k) {
    count = k;
    for (int i = 0; i < k; ++i) {
      n[i] = new node;
      n[i]->task = std::noop_coroutine();
      n[i]->status = st[i] = static_cast<dd::schedule_errc>(va_int());
    }
    for (int i = 0; i + 1 < k; ++i)
      n[i]->next = n[i + 1];
    return k ? n[0] : nullptr;
  }
  int index(node* x) {
    int i = 0;
    while (i < count && n[i] != x)
      ++i;
    REQUIRE(i < count);
    return i;
  }
  void take(node* x) {
    int i = index(x);
    REQUIRE(!seen[i]);
    REQUIRE(x->status == st[i]);
    REQUIRE(x->task == std::noop_coroutine());
    seen[i] = true;
    ++attached;
    n[i] = nullptr;
    delete x;
  }
};
// an executor with an identity: a copy of it is not it
struct exec {
  nodes* list;
  const exec* self = this;
  bool in_order = true;
  int calls = 0;
  explicit exec(nodes& l) : list(&l) {}
  exec(const exec&) = default;
  void attach(node* x) {
    REQUIRE(self == this);
    REQUIRE(!in_order || list->n[calls] == x);
    ++calls;
    list->take(x);
  }
};
DRIVER(attach_list_generic) {
  nodes l;
  int k = va_choice(nodes::N + 1);
  node* top = l.make(k);
  exec e(l);
  dd::attach_list(e, top);
  REQUIRE(e.calls == k && l.attached == k);
}
DRIVER(attach_list_any_ref) {
  nodes l;
  int k = va_choice(nodes::N + 1);
  node* top = l.make(k);
  exec e(l);
  dd::any_executor_ref r(e), copy(r);
  dd::attach_list(copy, top);
  REQUIRE(e.calls == k && l.attached == k);
}
DRIVER(attach_list_strand) {
  nodes l;
  int k = va_choice(nodes::N + 1);
  node* top = l.make(k);
  dd::task_queue q;
  dd::strand s(q);
  dd::attach_list(s, top);
  node* x = q.pop_all();
  for (int i = 0; i < k; ++i) {
    REQUIRE(x == l.n[i]);
    node* next = x->next;
    l.take(x);
    x = next;
  }
  REQUIRE(!x);
}
// exec which relinks the node it was given at once
struct relinker {
  int calls = 0;
  node* given[4] = {};
  void attach(node* x) {
    given[calls++] = x;
    x->next = calls == 1 ? nullptr : given[0];
  }
};
DRIVER(attach_list_relinked) {
  nodes l;
  node* top = l.make(3);
  relinker e;
  dd::attach_list(e, top);
  REQUIRE(e.calls == 3);
  for (int i = 0; i < 3; ++i)
    REQUIRE(e.given[i] == l.n[i]);
  for (node* x : l.n)
    delete x;
}

// ------------------------------------------------------------------------------------------------ the pool's own attach_list
static void nothing(dd::task_queue&) {}
static void pool_list(int threads) {
  nodes l;
  int k = va_choice(nodes::N + 1);
  dd::thread_pool p(threads, nothing);
  node* top = l.make(k);
  attach_list(p, top);
  for (dd::task_queue& q : p.queues_range())
    for (node* x = q.pop_all(); x;) {
      node* next = x->next;
      l.take(x);
      x = next;
    }
  REQUIRE(l.attached == k);
}
DRIVER(attach_list_pool1) { pool_list(1); }
DRIVER(attach_list_pool2) { pool_list(2); }
// as soon as a node is in the queue a worker may take it and free it
struct stream {
  dd::thread_pool* p;
  nodes l;
};
static void worker(void* s_) {
  stream& s = *static_cast<stream*>(s_);
  while (s.l.attached < s.l.count)
    for (node* x = s.p->queues_range()[0].pop_all_not_empty(); x;) {
      node* next = x->next;
      s.l.take(x);
      x = next;
    }
}
DRIVER(attach_list_pool_threads) {
  stream s;
  dd::thread_pool p(1, nothing);
  s.p = &p;
  node* top = s.l.make(2);
  va_must_finish(1);
  va_spawn(worker, &s);
  attach_list(p, top);
  va_join();
  REQUIRE(s.l.attached == 2);
}

// ------------------------------------------------------------------------------------------------ any_executor_ref
struct plain {
  int* calls;
  node** last;
  void attach(node* x) {
    ++*calls;
    *last = x;
  }
};
DRIVER(any_ref) {
  int a = 0, b = 0;
  node *la = nullptr, *lb = nullptr;
  plain ea{&a, &la}, eb{&b, &lb};
  dd::any_executor_ref ra(ea), rb(eb);
  dd::any_executor_ref ca(ra), ma(std::move(ca));
  node x, y;
  ra.attach(&x);
  REQUIRE(a == 1 && b == 0 && la == &x);
  rb.attach(&y);
  REQUIRE(a == 1 && b == 1 && la == &x && lb == &y);
  ma.attach(&y);
  REQUIRE(a == 2 && b == 1 && la == &y);
}
// refers to the executor, not to what it was
DRIVER(any_ref_follows) {
  int a = 0, b = 0;
  node *la = nullptr, *lb = nullptr;
  plain e{&a, &la};
  dd::any_executor_ref r(e);
  e = plain{&b, &lb};
  node x;
  r.attach(&x);
  REQUIRE(a == 0 && b == 1 && lb == &x);
}
struct base_exec {
  int calls = 0;
  void attach(node*) { ++calls; }
  base_exec* operator&() { return nullptr; }     // an unhelpful operator
};
DRIVER(any_ref_addressof) {
  base_exec e;
  dd::any_executor_ref r(e);
  node x;
  r.attach(&x);
  REQUIRE(e.calls == 1);
}
DRIVER(any_ref_pool) {
  nodes l;
  dd::thread_pool p(1, nothing);
  dd::any_executor_ref r(p);
  r.attach(l.make(1));
  node* x = p.queues_range()[0].pop_all();
  REQUIRE(x && !x->next);
  l.take(x);
}

// ------------------------------------------------------------------------------------------------ the stock executors
struct ghost {
  int resumed = 0;
  int thread = -1;
  int data = 0;
  bool over = false;
};
template <typename E>
struct by {
  E& e;
  node n;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    n.task = h;
    n.next = va_bool() ? &n : nullptr;      // not part of a list for the stock executors
    E& ex = e;
    ex.attach(&n);
  }
  dd::schedule_errc await_resume() const noexcept { return n.status; }
};
template <typename E>
static client goes(ghost& g, E& e) {
  tracked t(1);
  va_data_write(&g.data);
  auto s = co_await by<E>{e};
  t.check();
  REQUIRE(s == dd::schedule_errc::ok);
  ++g.resumed;
  g.thread = va_thread_id();
  va_data_write(&g.data);
}
static client parks(ghost& g, parking& p) {
  co_await p;
  ++g.resumed;
}
DRIVER(this_thread) {
  ghost g;
  goes(g, dd::this_thread_executor);
  REQUIRE(g.resumed == 1);
  REQUIRE(g.thread == va_thread_id());
  REQUIRE(va_frames() == 0);
}
DRIVER(this_thread_not_started) {
  ghost g;
  parking p;
  parks(g, p);
  node n;
  n.task = p.slot;
  dd::this_thread_executor_t{}.attach(&n);
  REQUIRE(g.resumed == 1);
  REQUIRE(va_frames() == 0);
}
DRIVER(noop) {
  ghost g;
  parking p;
  parks(g, p);
  node n;
  n.task = p.slot;
  dd::noop_executor.attach(&n);
  REQUIRE(g.resumed == 0);
  REQUIRE(n.task == p.slot && n.status == dd::schedule_errc::ok);
  p.wake();
  REQUIRE(g.resumed == 1);
}
DRIVER(new_thread) {
  ghost g;
  va_run_threads(1);
  va_must_finish(1);
  int before = va_threads("detach");
  goes(g, dd::new_thread_executor);
  REQUIRE(va_threads("detach") == before + 1);
  va_join();
  REQUIRE(g.resumed == 1);
  REQUIRE(g.thread != va_thread_id());
  REQUIRE(va_frames() == 0);
}
DRIVER(new_thread_twice) {
  ghost g, h;
  va_run_threads(1);
  va_must_finish(1);
  goes(g, dd::new_thread_executor);
  goes(h, dd::new_thread_executor);
  va_join();
  REQUIRE(g.resumed == 1 && h.resumed == 1);
  REQUIRE(g.thread != h.thread);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ reverse_list
DRIVER(reverse) {
  nodes l;
  int k = va_choice(nodes::N + 1);
  node* top = dd::reverse_list(l.make(k));
  for (int i = k; i-- > 0;) {
    REQUIRE(top == l.n[i]);
    REQUIRE(top->task == std::noop_coroutine());
    node* next = top->next;
    delete top;
    top = next;
  }
  REQUIRE(!top);
}

// ------------------------------------------------------------------------------------------------ many nodes
struct counting {
  node* first;
  int calls = 0;
  void attach(node* x) {
    REQUIRE(x == first + calls);
    ++calls;
    x->next = nullptr;
  }
};
DRIVER(many) {
  constexpr int n = 300;
  static node all[n];
  for (int i = 0; i + 1 < n; ++i)
    all[i].next = &all[i + 1];
  counting c{all};
  switch (va_choice(3)) {
    case 0:
      dd::attach_list(c, all);
      break;
    case 1: {
      dd::any_executor_ref r(c);
      dd::attach_list(r, all);
      break;
    }
    case 2: {
      node* top = dd::reverse_list(all);
      for (int i = n; i-- > 0;) {
        REQUIRE(top == &all[i]);
        top = top->next;
      }
      REQUIRE(!top);
      return;
    }
  }
  REQUIRE(c.calls == n);
}
