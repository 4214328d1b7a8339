// C06: the lock-free stack neither loses nor duplicates nodes, and orders pushers with poppers.
#include <atomic>
#include <kelcoro/nonowner_lockfree_stack.hpp>
#include "client.hpp"

struct item {
  item* next = nullptr;
  int id = 0;
  int data = 0;
};
using stack = dd::nonowner_lockfree_stack<item>;

// ------------------------------------------------------------------------------------------------ one thread, any sequence of operations
struct model {
  static constexpr int N = 5;
  item* n[N];
  item* in[N];      // bottom first
  int count = 0, used = 0;
  model() {
    for (int i = 0; i < N; ++i) {
      n[i] = new item;
      n[i]->id = i;
      n[i]->next = va_bool() ? n[i] : nullptr;     // leftover of an earlier use
    }
  }
  ~model() {
    for (item* x : n)
      delete x;
  }
  void taken(item* top) {
    for (int i = count; i-- > 0;) {
      REQUIRE(top == in[i]);
      REQUIRE(top->id >= 0 && top->id < N && n[top->id] == top);
      top = top->next;
    }
    REQUIRE(!top);
    count = 0;
  }
};
DRIVER(sequences) {
  stack s;
  model m;
  while (va_bool())
    switch (va_choice(4)) {
      case 0:
        if (m.used == model::N)
          va_stop();
        m.in[m.count++] = m.n[m.used];
        s.push(m.n[m.used++]);
        va_reach("push");
        break;
      case 1: {
        int k = 1 + va_choice(3);
        if (m.used + k > model::N)
          va_stop();
        // a list, top first
        item* top = m.n[m.used];
        for (int i = 0; i < k; ++i)
          m.n[m.used + i]->next = i + 1 < k ? m.n[m.used + i + 1] : nullptr;
        for (int i = k; i-- > 0;)
          m.in[m.count++] = m.n[m.used + i];
        m.used += k;
        s.push_stack(top);
        va_reach("push_stack");
        break;
      }
      case 2:
        s.push_stack(nullptr);
        break;
      case 3:
        m.taken(s.try_pop_all());
        va_reach("pop");
        break;
    }
  m.taken(s.try_pop_all());
  REQUIRE(!s.try_pop_all());
}

// ------------------------------------------------------------------------------------------------ several threads
// every item is freed by whoever took it out
struct shared {
  stack s;
  item* n[4] = {};
  bool out[4] = {};
  int got = 0;
  int flags[4] = {};
  void make(int i) {
    n[i] = new item;
    n[i]->id = i;
  }
  void take(item* top) {
    while (top) {
      item* next = top->next;
      int i = top->id;
      va_data_read(&top->data);
      REQUIRE(i >= 0 && i < 4 && n[i] == top && !out[i]);
      out[i] = true;
      ++got;
      delete top;
      top = next;
    }
  }
  void prepared(int i) { va_data_write(&n[i]->data); }
  // everything that was pushed is taken exactly once
  void finish(int all) {
    take(s.try_pop_all());
    REQUIRE(got == all);
    REQUIRE(!s.try_pop_all());
  }
};
static void push0(void* p) {
  shared& s = *static_cast<shared*>(p);
  s.prepared(0);
  s.s.push(s.n[0]);
}
static void push1(void* p) {
  shared& s = *static_cast<shared*>(p);
  s.prepared(1);
  s.s.push(s.n[1]);
}
static void list01(void* p) {
  shared& s = *static_cast<shared*>(p);
  s.prepared(0);
  s.prepared(1);
  s.n[0]->next = s.n[1];
  s.s.push_stack(s.n[0]);
}
static void push01(void* p) {
  push0(p);
  push1(p);
}
static void push2(void* p) {
  shared& s = *static_cast<shared*>(p);
  s.prepared(2);
  s.s.push(s.n[2]);
}
static void list2(void* p) {
  shared& s = *static_cast<shared*>(p);
  s.prepared(2);
  s.s.push_stack(s.n[2]);
}
static void pop(void* p) {
  shared& s = *static_cast<shared*>(p);
  s.take(s.s.try_pop_all());
}
static void run(void (*a)(void*), void (*b)(void*), int all) {
  shared s;
  for (int i = 0; i < all; ++i)
    s.make(i);
  va_must_finish(1);
  va_spawn(a, &s);
  if (b)
    va_spawn(b, &s);
  if (va_bool())
    pop(&s);
  va_join();
  s.finish(all);
}
DRIVER(push_pop) { run(push01, nullptr, 2); }
DRIVER(push_push) { run(push0, push1, 2); }
DRIVER(list_pop) { run(list01, nullptr, 2); }
DRIVER(list_push) { run(list01, push2, 3); }
DRIVER(push_push_pop) { run(push01, pop, 2); }
DRIVER(list_list) { run(list01, list2, 3); }
#ifdef VA_THOROUGH
DRIVER(three) { run(push01, push2, 3); }
DRIVER(list_two_pops) { run(list01, pop, 2); }
static void push01pop(void* p) {
  push01(p);
  pop(p);
}
DRIVER(push_own_pop) { run(push01pop, push2, 3); }
#endif
// the same node again after it was taken out while somebody else is pushing
static void recycle(void* p) {
  shared& s = *static_cast<shared*>(p);
  for (item* top = s.s.try_pop_all(); top;) {
    item* next = top->next;
    va_data_read(&top->data);
    va_data_write(&top->data);
    s.s.push(top);
    top = next;
  }
}
DRIVER(recycled) {
  shared s;
  s.make(0);
  s.make(1);
  va_must_finish(1);
  va_spawn(recycle, &s);
  push01(&s);
  va_join();
  s.finish(2);
}
// a popper's earlier work is visible to a later pusher: push takes part in the acquire/release chain
struct flagged {
  stack s;
  item a, b;
  int data = 0;
  bool empty = false;
};
static void popper(void* p) {
  flagged& f = *static_cast<flagged*>(p);
  va_data_write(&f.data);
  f.s.try_pop_all();
}
static void ordered(void (*add)(stack&, item*)) {
  flagged f;
  va_spawn(popper, &f);
  add(f.s, &f.a);
  add(f.s, &f.b);
  // b is on top of nothing: somebody has taken a out in between
  if (!f.b.next)
    va_data_write(&f.data);
  va_join();
}
DRIVER(pushers_are_ordered) {
  ordered([](stack& s, item* x) { s.push(x); });
}
DRIVER(list_pushers_are_ordered) {
  ordered([](stack& s, item* x) {
    x->next = nullptr;
    s.push_stack(x);
  });
}
// Either the popper finds the node or the pusher sees what the popper did before, even if there was nothing to pop.
struct handshake {
  stack s;
  item a;
  std::atomic<int> flag = 0;
  bool found = false;
};
static void flag_and_pop(void* p) {
  handshake& h = *static_cast<handshake*>(p);
  h.flag.store(1, std::memory_order::relaxed);
  h.found = h.s.try_pop_all() != nullptr;
}
static void meet(void (*add)(stack&, item*)) {
  handshake h;
  va_spawn(flag_and_pop, &h);
  add(h.s, &h.a);
  bool seen = h.flag.load(std::memory_order::relaxed);
  va_join();
  REQUIRE(seen || h.found);
}
DRIVER(handshake) {
  meet([](stack& s, item* x) { s.push(x); });
}
DRIVER(handshake_list) {
  meet([](stack& s, item* x) { s.push_stack(x); });
}

// ------------------------------------------------------------------------------------------------ any amount of contention
// others push and pop at every synchronisation operation, as often as they like
struct crowd {
  stack s;
  item mine;
  item other[2];
  bool inside[2] = {};     // which of the others' nodes are in the stack
  int mine_in = 0;         // 0 not pushed yet, 1 may be in, 2 was taken
  int turns = 0;
  bool in_order = true;
  void take(item* top) {
    while (top) {
      item* next = top->next;
      if (top == &mine) {
        REQUIRE(mine_in == 1);
        mine_in = 2;
      } else {
        int i = top == &other[1];
        REQUIRE(top == &other[i] && inside[i]);
        inside[i] = false;
        top->next = nullptr;
      }
      top = next;
    }
  }
};
static void rush(void* p) {
  crowd& c = *static_cast<crowd*>(p);
  switch (va_choice(4)) {
    case 0:
      break;
    case 1:
      c.take(c.s.try_pop_all());
      break;
    default: {
      int i = va_choice(2);
      if (c.inside[i])
        break;
      c.inside[i] = true;
      c.s.push(&c.other[i]);
    }
  }
  va_inject(rush, p);
}
DRIVER(crowded_push) {
  crowd c;
  va_inject(rush, &c);
  c.mine_in = 1;
  c.s.push(&c.mine);
  c.take(c.s.try_pop_all());
  REQUIRE(c.mine_in == 2);
}
DRIVER(crowded_push_stack) {
  crowd c;
  va_inject(rush, &c);
  c.mine_in = 1;
  c.s.push_stack(&c.mine);
  c.take(c.s.try_pop_all());
  REQUIRE(c.mine_in == 2);
}

// ------------------------------------------------------------------------------------------------ many nodes
DRIVER(many) {
  va_no_weak_failures();
  constexpr int n = 300;
  static item all[n];
  stack s;
  for (int i = 0; i < 100; ++i)
    s.push(&all[i]);
  for (int i = 199; i > 100; --i)
    all[i].next = &all[i - 1];
  all[100].next = nullptr;
  s.push_stack(&all[199]);
  for (int i = 200; i < n; ++i)
    s.push(&all[i]);
  item* top = s.try_pop_all();
  for (int i = n; i-- > 0;) {
    REQUIRE(top == &all[i]);
    top = top->next;
  }
  REQUIRE(!top);
  REQUIRE(!s.try_pop_all());
}
