// C01: task_queue hands out every pushed node exactly once, in order, and a consumer never sleeps over a non-empty queue.
#include <kelcoro/thread_pool.hpp>
#include "client.hpp"

using node = dd::task_node;
// whatever the node went through before
static dd::schedule_errc any_status() { return static_cast<dd::schedule_errc>(va_int()); }

// ------------------------------------------------------------------------------------------------ one thread, any sequence of operations
// the nodes handed in, in order; the queue must give back exactly this
struct model {
  static constexpr int N = 5;
  node* n[N];
  dd::schedule_errc st[N];
  int pill;
  int in = 0;       // nodes pushed since the last pop
  explicit model(bool with_pill = false) : pill(with_pill ? va_choice(3) : N) {
    for (int i = 0; i < N; ++i) {
      node*& x = n[i];
      x = new node;
      if (i != pill)
        x->task = std::noop_coroutine();
      x->status = st[i] = any_status();
      x->next = va_bool() ? x : nullptr;   // leftover of an earlier use
    }
  }
  ~model() {
    for (node* x : n)
      delete x;
  }
  void link(int from, int to) {
    for (int i = from; i < to; ++i)
      n[i]->next = n[i + 1];
    n[to]->next = nullptr;
  }
  void taken(node* top) {
    for (int i = 0; i < in; ++i) {
      REQUIRE(top == n[i]);
      REQUIRE(bool(top->task) == (i != pill));
      REQUIRE(top->status == st[i]);
      top = top->next;
    }
    REQUIRE(!top);
    in = 0;
  }
};
static void step(dd::task_queue& q, model& m) {
  int left = model::N - m.in;
  switch (va_choice(7)) {
    case 0:
      if (left < 1)
        va_stop();
      q.push(m.n[m.in++]);
      break;
    case 1:
      if (left < 1 || m.in == m.pill)
        va_stop();
      q.attach(m.n[m.in++]);
      break;
    case 2: {
      int k = 1 + va_choice(3);
      if (left < k)
        va_stop();
      m.link(m.in, m.in + k - 1);
      q.push_list(m.n[m.in], m.n[m.in + k - 1]);
      m.in += k;
      break;
    }
    case 3: {
      int k = 1 + va_choice(3);
      if (left < k)
        va_stop();
      m.link(m.in, m.in + k - 1);
      q.push_list(m.n[m.in]);
      m.in += k;
      break;
    }
    case 4:
      q.push_list(nullptr);
      break;
    case 5:
      m.taken(q.pop_all());
      va_reach("pop_all");
      break;
    case 6:
      if (!m.in)
        va_stop();
      m.taken(q.pop_all_not_empty());
      va_reach("pop_all_not_empty");
      break;
  }
  REQUIRE(va_locks_held() == 0);
}
DRIVER(sequences) {
  dd::task_queue q;
  model m(true);
  while (va_bool())
    step(q, m);
  m.taken(q.pop_all());
  REQUIRE(!q.pop_all());
}
DRIVER(strand) {
  dd::task_queue q;
  dd::strand s(q), copy = s;
  REQUIRE(&s.get_queue() == &q && &copy.get_queue() == &q);
  model m;
  for (int i = 0; i < 3; ++i)
    (va_bool() ? s : copy).attach(m.n[m.in++]);
  m.taken(s.get_queue().pop_all());
}

// ------------------------------------------------------------------------------------------------ several threads
// every node is freed as soon as it has been taken out
struct shared {
  dd::task_queue q;
  node* n[4] = {};
  int data[4] = {};
  bool out[4] = {};
  int kind = 0;
  int got = 0;
  void make(int i) {
    n[i] = new node;
    n[i]->status = any_status();
    if (kind == 3 || va_bool())     // anything may be pushed, also a stop marker
      n[i]->task = std::noop_coroutine();
  }
  // who prepared the data of a node must have done so before its taker sees it
  void take(node* top) {
    while (top) {
      node* next = top->next;
      int i = 0;
      while (i < 4 && n[i] != top)
        ++i;
      REQUIRE(i < 4);
      REQUIRE(!out[i]);
      va_data_read(&data[i]);
      REQUIRE((i & 1) == 0 || out[i - 1]);      // in the order of their producer: 0 before 1, 2 before 3
      out[i] = true;
      ++got;
      n[i] = nullptr;
      delete top;
      top = next;
    }
  }
};
static void produce01(void* p) {
  shared& s = *static_cast<shared*>(p);
  node *a = s.n[0], *b = s.n[1];
  va_data_write(&s.data[0]);
  va_data_write(&s.data[1]);
  switch (s.kind) {
    case 0:
      s.q.push(a);
      s.q.push(b);
      break;
    case 1:
      a->next = b;
      s.q.push_list(a, b);
      break;
    case 2:
      a->next = b;
      s.q.push_list(a);
      break;
    case 3:
      s.q.attach(a);
      s.q.attach(b);
      break;
  }
}
static void produce2(void* p) {
  shared& s = *static_cast<shared*>(p);
  va_data_write(&s.data[2]);
  s.q.push(s.n[2]);
}
static void consume(shared& s, int all) {
  while (s.got < all) {
    node* top = s.q.pop_all_not_empty();
    REQUIRE(top);
    s.take(top);
  }
  REQUIRE(!s.q.pop_all());
}
static void one_producer(int kind) {
  shared s;
  s.kind = kind;
  s.make(0);
  s.make(1);
  va_must_finish(1);
  va_spawn(produce01, &s);
  consume(s, 2);
  va_join();
}
DRIVER(push_push) { one_producer(0); }
DRIVER(push_list2) { one_producer(1); }
DRIVER(push_list1) { one_producer(2); }
DRIVER(attach_attach) { one_producer(3); }
static void two_producers(int kind) {
  shared s;
  s.make(0);
  s.make(1);
  s.make(2);
  s.kind = kind;
  va_must_finish(1);
  va_spawn(produce01, &s);
  va_spawn(produce2, &s);
  consume(s, 3);
  va_join();
}
DRIVER(two_producers) { two_producers(0); }
#ifdef VA_THOROUGH
DRIVER(two_producers_list) { two_producers(1); }
#endif
// pop_all of another thread in between: nothing is lost, nothing comes twice
static void helper(void* p) {
  shared& s = *static_cast<shared*>(p);
  if (node* top = s.q.pop_all())
    s.q.push_list(top);
}
DRIVER(stealing) {
  shared s;
  s.make(0);
  s.kind = 0;
  va_must_finish(1);
  va_spawn(helper, &s);
  s.q.push(s.n[0]);
  consume(s, 1);
  va_join();
}
// two consumers, each gets a node and goes home
struct twosome {
  dd::task_queue q;
  node a, b;
};
static void eat(void* p) {
  twosome& s = *static_cast<twosome*>(p);
  node* top = s.q.pop_all_not_empty();
  REQUIRE(top);
  // whoever got both nodes passes one on
  if (node* more = top->next)
    s.q.push(more);
}
DRIVER(two_consumers) {
  twosome s;
  s.a.task = s.b.task = std::noop_coroutine();
  va_must_finish(1);
  va_spawn(eat, &s);
  va_spawn(eat, &s);
  s.q.push(&s.a);
  s.q.push(&s.b);
  va_join();
}

// ------------------------------------------------------------------------------------------------ many nodes
DRIVER(many) {
  constexpr int n = 300;
  static node all[n];
  dd::task_queue q;
  for (int i = 0; i < n; ++i) {
    all[i].task = std::noop_coroutine();
    all[i].next = nullptr;
  }
  int i = 0;
  for (; i < 100; ++i)
    q.push(&all[i]);
  for (int j = i; j + 1 < 200; ++j)
    all[j].next = &all[j + 1];
  if (va_bool())
    q.push_list(&all[i]);
  else
    q.push_list(&all[i], &all[199]);
  for (i = 200; i < n; ++i)
    q.attach(&all[i]);
  node* top = va_bool() ? q.pop_all() : q.pop_all_not_empty();
  for (i = 0; i < n; ++i) {
    REQUIRE(top == &all[i]);
    top = top->next;
  }
  REQUIRE(!top);
  REQUIRE(!q.pop_all());
}
