// C30: inplace_generator computes eagerly and yields exactly the body's sequence.
#include <kelcoro/inplace_generator.hpp>
#include "va.hpp"

struct ghost {
  bool run = false;
  bool ended = false;
  bool threw = false;
  int value = 0;
  const void* addr = nullptr;
  const void* src = nullptr;
};

static dd::inplace_generator<int> body(ghost& g) {
  tracked local(1);
  for (;;) {
    REQUIRE(!g.run);
    g.run = true;
    if (va_bool())
      break;
    if (va_bool()) {
      g.ended = g.threw = true;
      throw 1;
    }
    tracked inner(2);
    int x = va_int();
    g.value = x;
    switch (va_choice(4)) {
      case 0:
        co_yield int(x);
        break;
      case 1: {
        const int y = x;
        g.src = &y;
        co_yield y;
        REQUIRE(y == x);
        g.src = nullptr;
        break;
      }
      case 2:
        g.addr = &x;
        co_yield std::move(x);
        break;
      case 3: {
        int y = x;
        g.addr = &y;
        co_yield dd::by_ref{y};
        break;
      }
    }
    g.value = 0;
    inner.check();
    local.check();
  }
  g.ended = true;
}

template <typename It>
static void expect(ghost& g, It& it) {
  REQUIRE(g.run && !g.ended);
  REQUIRE(*it == g.value);
  REQUIRE(*it.operator->() == g.value);
  if (g.addr) {
    int&& r = *it;
    REQUIRE((const void*)&r == g.addr);
  }
  REQUIRE((const void*)it.operator->() != g.src);
  g.run = false;
  g.addr = nullptr;
}

DRIVER(eager_and_in_order) {
  ghost g;
  try {
    auto gen = body(g);
    REQUIRE(g.run);
    REQUIRE(gen.empty() == g.ended);
    REQUIRE(bool(gen) == !g.ended);
    auto it = gen.begin();
    REQUIRE((it == gen.end()) == g.ended);
    for (;;) {
      REQUIRE((it == std::default_sentinel) == g.ended);
      REQUIRE(gen.empty() == g.ended);
      if (g.ended)
        break;
      expect(g, it);
      if (va_bool()) {
        // begin() does not resume
        auto again = gen.begin();
        REQUIRE(!g.run);
        REQUIRE(*again == g.value);
        it = again;
      }
      if (va_bool()) {
        va_reach("abandoned");
        return;
      }
      try {
        if (va_bool())
          ++it;
        else
          it++;
      } catch (int) {
        REQUIRE(g.threw);
        REQUIRE(gen.empty());
        REQUIRE(it == gen.end());
        va_reach("exception from an increment");
        return;
      }
      REQUIRE(g.run);
      REQUIRE(!g.threw);
    }
    REQUIRE(!g.threw);
    REQUIRE(gen.begin() == gen.end());
    va_reach("end");
  } catch (int) {
    REQUIRE(g.threw);
    va_reach("exception at creation");
  }
}

DRIVER(range_for) {
  ghost g;
  try {
    for (int&& x : body(g)) {
      REQUIRE(g.run && !g.ended);
      REQUIRE(x == g.value);
      if (g.addr)
        REQUIRE((const void*)&x == g.addr);
      g.run = false;
      g.addr = nullptr;
    }
    REQUIRE(g.ended && !g.threw);
    va_reach("end");
  } catch (int) {
    REQUIRE(g.threw);
    va_reach("exception");
  }
}

// moved while at a value
DRIVER(moved) {
  ghost g;
  try {
    auto gen = body(g);
    auto it = gen.begin();
    auto moved = std::move(gen);
    REQUIRE(gen.empty());
    REQUIRE(!gen);
    REQUIRE(gen.begin() == gen.end());
    int n = 0;
    for (int x : gen)
      n += 1 + x;
    REQUIRE(n == 0);
    REQUIRE(moved.empty() == g.ended);
    REQUIRE((it == std::default_sentinel) == g.ended);
    if (!g.ended) {
      expect(g, it);
      auto third = std::move(moved);
      REQUIRE(moved.empty());
      REQUIRE(!g.run);
      REQUIRE(*third.begin() == g.value);
      ++it;
      REQUIRE(g.run);
      REQUIRE(third.empty() == g.ended);
      va_reach("went on after moves");
      moved = std::move(third);
      REQUIRE(third.empty());
      REQUIRE(moved.empty() == g.ended);
      if (!g.ended)
        REQUIRE(*moved.begin() == g.value);
    }
  } catch (int) {
    REQUIRE(g.threw);
  }
}

// yielded objects live until the next resume and no longer
static dd::inplace_generator<tracked> objects(ghost& g) {
  for (int i = 0; va_bool(); ++i) {
    if (va_bool())
      co_yield tracked(7);
    else {
      const tracked t(7);
      co_yield t;
      t.check();
    }
    i = 0;
  }
  g.ended = true;
}
DRIVER(objects_alive) {
  ghost g;
  {
    auto gen = objects(g);
    for (tracked&& t : gen) {
      t.check();
      REQUIRE(t.v == 7);
      if (va_bool()) {
        tracked mine(std::move(t));
        mine.check();
      }
      if (va_bool())
        return;
    }
    REQUIRE(g.ended);
    va_reach("end");
  }
}

// references
static dd::inplace_generator<int&> refs(ghost& g, int& storage) {
  while (va_bool()) {
    int local = va_int();
    int& r = va_bool() ? storage : local;
    g.addr = &r;
    g.run = true;
    co_yield r;
    if (&r == &storage)
      REQUIRE(storage == 5);
    g.addr = nullptr;
  }
  g.ended = true;
}
DRIVER(references) {
  ghost g;
  int storage = 1;
  {
    auto gen = refs(g, storage);
    for (int& x : gen) {
      REQUIRE(&x == g.addr);
      REQUIRE(g.run);
      g.run = false;
      x = 5;
    }
    REQUIRE(g.ended);
    va_reach("end");
  }
}

// two generators consumed alternately: what one of them yielded stays what it is while the other one goes on
static dd::inplace_generator<int> alternating(ghost& g) {
  while (va_bool()) {
    g.value = va_int();
    g.addr = nullptr;
    if (va_bool()) {
      const int x = g.value;
      co_yield x;
      REQUIRE(x == g.value);
    } else {
      int x = g.value;
      g.addr = &x;
      co_yield dd::by_ref{x};
      REQUIRE(x == g.value);
    }
  }
  g.ended = true;
}
DRIVER(alternately) {
  ghost g[2];
  {
    auto a = alternating(g[0]), b = alternating(g[1]);
    auto i = a.begin(), j = b.begin();
    for (;;) {
      REQUIRE((i == a.end()) == g[0].ended);
      REQUIRE((j == b.end()) == g[1].ended);
      if (!g[0].ended) {
        REQUIRE(*i == g[0].value);
        REQUIRE(!g[0].addr || (const void*)i.operator->() == g[0].addr);
      }
      if (!g[1].ended) {
        REQUIRE(*j == g[1].value);
        REQUIRE(!g[1].addr || (const void*)j.operator->() == g[1].addr);
      }
      if (g[0].ended && g[1].ended)
        break;
      if (g[1].ended || (!g[0].ended && va_bool()))
        ++i;
      else
        ++j;
    }
    REQUIRE(a.empty() && b.empty());
    va_reach("both at their end");
  }
}

// ------------------------------------------------------------------------------------------------ a long sequence
static dd::inplace_generator<int> long_body(int n) {
  for (int i = 0; i < n; ++i) {
    if (i & 1) {
      const int c = i;
      co_yield c;
    } else
      co_yield int(i);
  }
}
DRIVER(long_sequence) {
  int k = 0;
  auto g = long_body(600);
  for (auto it = g.begin(); it != g.end(); ++it, ++k)
    REQUIRE(*it == k);
  REQUIRE(k == 600);
  REQUIRE(g.empty());
}
