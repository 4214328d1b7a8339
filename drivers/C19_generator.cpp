// C19: a generator produces exactly what its body yields, one resume per increment, whatever the body does.
#include <kelcoro/generator.hpp>
#include "va.hpp"

struct ghost {
  bool running = false;   // the body has been resumed since the consumer last looked
  bool yielded = false;   // it stopped at a co_yield
  bool ended = false;
  bool threw = false;
  int value = 0;
  const void* addr = nullptr;
  const void* src = nullptr;
  bool check_addr = false;
};

static dd::generator<int> body(ghost& g) {
  tracked local(1);
  for (;;) {
    REQUIRE(!g.running);
    g.running = true;
    if (va_bool())
      break;
    if (va_bool()) {
      g.threw = true;
      throw 1;
    }
    tracked inner(2);
    int x = va_int();
    g.value = x;
    g.yielded = true;
    g.check_addr = false;
    switch (va_choice(4)) {
      case 0:
        co_yield int(x);
        break;
      case 1: {
        const int y = x;
        g.src = &y;
        co_yield y;
        REQUIRE(y == x);
        g.src = nullptr;
        break;
      }
      case 2:
        g.addr = &x;
        g.check_addr = true;
        co_yield std::move(x);
        break;
      case 3: {
        int y = x;
        g.addr = &y;
        g.check_addr = true;
        co_yield dd::by_ref{y};
        break;
      }
    }
    inner.check();
    local.check();
  }
  g.ended = true;
}

static void expect_value(ghost& g, dd::generator_iterator<int>& it) {
  REQUIRE(g.running);
  REQUIRE(g.yielded);
  REQUIRE(!g.ended && !g.threw);
  REQUIRE(it != std::default_sentinel);
  REQUIRE(*it == g.value);
  if (g.check_addr) {
    int&& r = *it;
    REQUIRE((const void*)&r == g.addr);
  }
  g.running = false;
  g.yielded = false;
  g.addr = nullptr;
  g.check_addr = false;
}

DRIVER(range_for) {
  ghost g;
  dd::generator<int> gen = body(g);
  REQUIRE(!g.running);
  REQUIRE(!gen.empty());
  REQUIRE(bool(gen));
  try {
    for (int&& x : gen) {
      REQUIRE(g.running && g.yielded && !g.ended && !g.threw);
      REQUIRE(x == g.value);
      if (g.check_addr)
        REQUIRE((const void*)&x == g.addr);
      REQUIRE((const void*)&x != g.src);
      g.running = g.yielded = false;
      g.addr = nullptr;
    }
    REQUIRE(g.ended && !g.threw);
    REQUIRE(g.running && !g.yielded);
    va_reach("loop over the whole sequence");
  } catch (int) {
    REQUIRE(g.threw && !g.ended);
    va_reach("exception reaches the consumer");
  }
  REQUIRE(gen.empty());
  REQUIRE(!gen);
  bool before = g.running;
  auto it = gen.begin();
  REQUIRE(it == std::default_sentinel);
  REQUIRE(it == gen.end());
  REQUIRE(g.running == before);
  REQUIRE(&it.owner() == &gen);
  dd::generator<int> other;
  REQUIRE(it.equivalent(gen.begin()));
  REQUIRE(!it.equivalent(other.begin()));
}

DRIVER(step_and_abandon) {
  ghost g;
  {
    dd::generator<int> gen = body(g);
    if (va_bool()) {
      va_reach("destroyed unstarted");
      return;
    }
    try {
      auto it = gen.begin();
      for (;;) {
        REQUIRE(g.running);
        REQUIRE((it == std::default_sentinel) == g.ended);
        if (g.ended)
          break;
        expect_value(g, it);
        int k = va_choice(3);
        if (k == 0) {
          va_reach("abandoned in the middle");
          break;
        }
        if (k == 1) {
          if (va_bool())
            ++it;
          else
            it++;
        } else {
          // another begin() continues with the next value
          it = gen.begin();
          va_reach("begin again");
        }
      }
    } catch (int) {
      REQUIRE(g.threw);
      REQUIRE(gen.empty());
      auto it = gen.cur_iterator();
      REQUIRE(it == std::default_sentinel);
    }
  }
}

DRIVER(default_constructed) {
  dd::generator<int> gen;
  REQUIRE(gen.empty());
  REQUIRE(gen.begin() == gen.end());
  for (int&& x : gen) {
    (void)x;
    va_fail("an empty generator yields nothing");
  }
  va_reach("empty");
}
DRIVER(default_constructed_nothing) {
  dd::generator<dd::nothing_t> gen;
  REQUIRE(gen.empty());
  for (dd::nothing_t x : gen) {
    (void)x;
    va_fail("an empty generator yields nothing");
  }
  REQUIRE(gen.begin() == gen.end());
  va_reach("empty");
}

// references: the consumer sees and may change the very object
static dd::generator<int&> refs(ghost& g) {
  while (va_bool()) {
    int x = va_int();
    g.addr = &x;
    g.value = va_int();
    co_yield x;
    REQUIRE(x == g.value);
  }
  g.ended = true;
}
DRIVER(references) {
  ghost g;
  for (int& x : refs(g)) {
    REQUIRE((const void*)&x == g.addr);
    x = g.value;
  }
  REQUIRE(g.ended);
  va_reach("end");
}

static dd::generator<int> chars(ghost& g) {
  while (va_bool()) {
    int x = va_int();
    g.value = x;
    co_yield int(x);
    g.running = true;
  }
  g.ended = true;
}
DRIVER(output_iterator) {
  ghost g;
  auto gen = chars(g);
  auto it = gen.begin();
  if (g.ended)
    return;
  auto out = std::move(it).out();
  REQUIRE(*out == g.value);
  ++out;
  REQUIRE(g.running);
  REQUIRE((out == std::default_sentinel) == g.ended);
  if (!g.ended) {
    REQUIRE(*out == g.value);
    g.running = false;
    out++;
    REQUIRE(g.running);
    va_reach("postfix");
  }
}

// non trivial values: copies of const lvalues live until the next resume, rvalues are passed by address
static dd::generator<tracked> objs(ghost& g) {
  while (va_bool()) {
    g.value = va_int();
    if (va_bool()) {
      const tracked t(g.value);
      co_yield t;
    } else
      co_yield tracked(g.value);
  }
  g.ended = true;
}
DRIVER(objects) {
  ghost g;
  auto gen = objs(g);
  for (auto it = gen.begin(); it != gen.end(); ++it) {
    it->check();
    REQUIRE(it->v == g.value);
    if (va_bool()) {
      tracked taken = *it;
      REQUIRE(taken.v == g.value);
      if (va_bool())
        return;
    }
  }
  REQUIRE(g.ended);
  va_reach("end");
}

// generators of nothing_t
static dd::generator<dd::nothing_t> nothing(ghost& g) {
  while (va_bool()) {
    REQUIRE(!g.running);
    g.running = true;
    if (va_bool()) {
      g.threw = true;
      throw 1;
    }
    co_yield {};
  }
  REQUIRE(!g.running);
  g.ended = true;
}
DRIVER(nothing_t) {
  ghost g;
  auto gen = nothing(g);
  try {
    for (auto it = gen.begin(); it != gen.end(); ++it) {
      REQUIRE(g.running && !g.ended && !g.threw);
      (void)*it;
      g.running = false;
    }
    REQUIRE(g.ended && !g.threw);
    va_reach("end");
  } catch (int) {
    REQUIRE(g.threw);
    va_reach("threw");
  }
  REQUIRE(gen.empty());
}

// with memory resources
static dd::generator_r<int, dd::pmr::polymorphic_resource> resourced_body(ghost& g) {
  while (va_bool()) {
    g.value = va_int();
    if (va_bool()) {
      g.threw = true;
      throw 1;
    }
    if (va_bool()) {
      const int v = g.value;
      co_yield v;
    } else
      co_yield int(g.value);
  }
  g.ended = true;
}
DRIVER(with_resource) {
  ghost g;
  dd::generator<int> gen = resourced_body(g);
  try {
    for (int&& x : gen)
      REQUIRE(x == g.value);
    REQUIRE(g.ended && !g.threw);
    va_reach("end");
  } catch (int) {
    REQUIRE(g.threw);
  }
  REQUIRE(gen.empty());
}

// two generators consumed alternately: what one of them yielded stays what it is while the other one goes on
struct two {
  ghost g[2];
  bool end[2] = {};
  template <typename G>
  void run(G& a, G& b) {
    auto i = a.begin();
    auto j = b.begin();
    for (;;) {
      same(i, g[0]);
      same(j, g[1]);
      if (i == a.end() && j == b.end())
        break;
      if (j == b.end() || (i != a.end() && va_bool()))
        ++i;
      else
        ++j;
    }
    REQUIRE(a.empty() && b.empty());
    va_reach("both at their end");
  }
  template <typename I>
  static void same(I& i, ghost& g) {
    REQUIRE((i == std::default_sentinel) == g.ended);
    if (g.ended)
      return;
    REQUIRE(*i == g.value);
    if (g.check_addr)
      REQUIRE((const void*)std::addressof(static_cast<const std::decay_t<decltype(*i)>&>(*i)) == g.addr);
  }
};
template <typename G>
static G alternating(ghost& g) {
  while (va_bool()) {
    g.value = va_int();
    g.check_addr = false;
    if (va_bool()) {
      const int x = g.value;
      co_yield x;
      REQUIRE(x == g.value);
    } else {
      int x = g.value;
      g.check_addr = true;
      g.addr = &x;
      co_yield dd::by_ref{x};
      REQUIRE(x == g.value);
    }
  }
  g.ended = true;
}
DRIVER(alternately) {
  two t;
  auto a = alternating<dd::generator<int>>(t.g[0]), b = alternating<dd::generator<int>>(t.g[1]);
  t.run(a, b);
}
DRIVER(alternately_resourced) {
  two t;
  dd::generator<int> a = alternating<dd::generator_r<int, dd::pmr::polymorphic_resource>>(t.g[0]);
  dd::generator<int> b = alternating<dd::generator<int>>(t.g[1]);
  t.run(a, b);
}

// ------------------------------------------------------------------------------------------------ a long sequence
static dd::generator<int> long_body(int n) {
  for (int i = 0; i < n; ++i) {
    if (i & 1) {
      const int c = i;
      co_yield c;
    } else
      co_yield int(i);
  }
}
DRIVER(long_sequence) {
  int k = 0;
  for (int x : long_body(600))
    REQUIRE(x == k++);
  REQUIRE(k == 600);
  auto g = long_body(600);
  k = 0;
  for (auto it = g.begin(); it != std::default_sentinel; ++it, ++k)
    REQUIRE(*it == k);
  REQUIRE(k == 600);
}
