// C20: co_yield elements_of(x) produces the elements of x in place, in order, at any depth.
#include <kelcoro/generator.hpp>
#include <kelcoro/channel.hpp>
#include "client.hpp"

#ifdef VA_THOROUGH
constexpr int max_depth = 3;
#else
constexpr int max_depth = 2;
#endif

struct ghost {
  int active = 0;        // depth of the producer whose turn it is
  bool made = false;     // a value was produced and not consumed yet
  bool threw = false;    // an exception was raised and not seen by the consumer yet
  bool ended = false;
  bool over_ok = false;
  int resumes = 0;
  int value = 0;
};

static void produce(ghost& g, int depth) {
  REQUIRE(g.active == depth);
  REQUIRE(!g.made && !g.threw && !g.ended);
  g.made = true;
  g.value = va_int();
}

template <typename G>
struct gens {
  static G leafy(ghost& g, int depth) {
    tracked local(depth);
    REQUIRE(g.active == depth);
    REQUIRE(!g.made);
    for (;;) {
      int k = va_choice(depth < max_depth ? 4 : 3);
      if (k == 0)
        break;
      if (k == 1) {
        produce(g, depth);
        if (va_bool())
          co_yield int(g.value);
        else {
          const int c = g.value;
          co_yield c;
        }
        REQUIRE(!g.made);
        REQUIRE(g.active == depth);
        continue;
      }
      if (k == 2) {
        if (depth == 0 || g.threw)
          break;
        g.threw = true;
        g.active = depth - 1;
        throw 1;
      }
      g.active = depth + 1;
      co_yield dd::elements_of(leafy(g, depth + 1));
      REQUIRE(g.active == depth);
      REQUIRE(!g.made && !g.threw);
      local.check();
    }
    if (depth == 0)
      g.ended = true;
    else
      g.active = depth - 1;
  }
};

// recursion with leaves that may throw; the consumer goes on with begin()
DRIVER(generator_tree) {
  ghost g;
  {
    dd::generator<int> gen = gens<dd::generator<int>>::leafy(g, 0);
    auto it = gen.cur_iterator();
    for (bool again = true; again;) {
      again = false;
      try {
        it = gen.begin();
      } catch (int) {
        REQUIRE(g.threw);
        g.threw = false;
        REQUIRE(gen.cur_iterator() == std::default_sentinel);
        REQUIRE(!gen.empty());
        again = true;
        va_reach("exception of a leaf reaches the consumer");
      }
    }
    for (;;) {
      if (it == std::default_sentinel) {
        if (g.threw)
          va_fail("exception lost");
        break;
      }
      REQUIRE(g.made);
      REQUIRE(*it == g.value);
      g.made = false;
      if (va_bool()) {
        va_reach("abandoned");
        return;
      }
      try {
        ++it;
      } catch (int) {
        REQUIRE(g.threw);
        g.threw = false;
        REQUIRE(!gen.empty());
        REQUIRE(it == std::default_sentinel);
        it = gen.cur_iterator();
        bool again = true;
        while (again) {
          again = false;
          try {
            it = gen.begin();
          } catch (int) {
            REQUIRE(g.threw);
            g.threw = false;
            again = true;
            va_reach("second exception");
          }
        }
        va_reach("continued after an exception");
      }
    }
    REQUIRE(g.ended);
    REQUIRE(gen.empty());
    va_reach("end");
  }
}

// what may be nested
struct plain_range {
  int v[2];
  int* begin() { return v; }
  int* end() { return v + 2; }
};
static dd::generator<int> counted(ghost& g) {
  REQUIRE(g.active == 1);
  for (int i = 0; i < 2; ++i) {
    produce(g, 1);
    co_yield int(g.value);
    REQUIRE(!g.made);
  }
  g.active = 0;
}
static dd::generator_r<int, dd::pmr::polymorphic_resource> counted_pmr(ghost& g) {
  REQUIRE(g.active == 1);
  for (int i = 0; i < 2; ++i) {
    produce(g, 1);
    const int c = g.value;
    co_yield c;
    REQUIRE(!g.made);
  }
  g.active = 0;
}
// levels `from`, from + 1, from + 2; each yields its own value after the deeper ones
static dd::generator<int> tower(ghost& g, int depth, int last, bool fail = false) {
  REQUIRE(g.active == depth);
  if (depth < last) {
    g.active = depth + 1;
    co_yield dd::elements_of(tower(g, depth + 1, last, fail));
    REQUIRE(g.active == depth);
  } else {
    produce(g, depth);
    co_yield int(g.value);
    REQUIRE(!g.made);
  }
  if (fail && depth == last && va_bool()) {
    g.threw = true;
    g.active = depth - 1;
    throw 1;
  }
  produce(g, depth);
  co_yield int(g.value);
  REQUIRE(!g.made);
  g.active = depth - 1;
}
static dd::generator<int> on_tower(ghost& g, int last) {
  g.active = 1;
  auto inner = tower(g, 1, last, true);
  auto it = inner.begin();
  REQUIRE(it != inner.end());
  REQUIRE(*it == g.value);
  g.made = false;
  co_yield dd::elements_of(std::move(inner));
  REQUIRE(g.active == 0);
  produce(g, 0);
  co_yield int(g.value);
  REQUIRE(!g.made);
  g.ended = true;
}
// the nested one was consumed up to a value of a deeper leaf
DRIVER(partly_consumed_tower) {
  ghost g;
  int last = 1 + va_choice(3);
  auto gen = on_tower(g, last);
  int n = 0;
  bool threw = false;
  for (;;) {
    try {
      for (int x : gen) {
        REQUIRE(g.made);
        REQUIRE(x == g.value);
        g.made = false;
        ++n;
      }
      break;
    } catch (int) {
      REQUIRE(g.threw);
      g.threw = false;
      threw = true;
      REQUIRE(!gen.empty());
      va_reach("exception out of the tower");
    }
  }
  REQUIRE(g.ended);
  REQUIRE(n == last + 1 - threw);
  REQUIRE(gen.empty());
  va_reach("end");
}
static dd::generator<int> outer(ghost& g, int kind) {
  int a = va_int(), b = va_int();
  switch (kind) {
    case 0: {
      g.active = 1;
      co_yield dd::elements_of(counted(g));
      REQUIRE(g.active == 0);
      break;
    }
    case 1: {
      g.active = 1;
      auto gen = counted(g);
      co_yield dd::elements_of(gen);
      REQUIRE(g.active == 0);
      REQUIRE(gen.empty());
      break;
    }
    case 2: {  // partly consumed
      g.active = 1;
      auto gen = counted(g);
      auto it = gen.begin();
      REQUIRE(*it == g.value);
      g.made = false;
      g.over_ok = true;
      co_yield dd::elements_of(std::move(gen));
      REQUIRE(g.active == 0);
      break;
    }
    case 3: {  // finished
      g.active = 1;
      auto gen = counted(g);
      for (int x : gen) {
        REQUIRE(x == g.value);
        g.made = false;
      }
      g.over_ok = true;
      co_yield dd::elements_of(gen);
      break;
    }
    case 4:
      g.over_ok = true;
      co_yield dd::elements_of(dd::generator<int>{});
      break;
    case 5:
      g.active = 1;
      co_yield dd::elements_of(counted_pmr(g));
      REQUIRE(g.active == 0);
      break;
    case 6: {
      int arr[2] = {a, b};
      g.resumes = -1;
      g.value = a;
      g.made = true;
      co_yield dd::elements_of(arr);
      break;
    }
    case 7: {
      g.resumes = -1;
      g.value = a;
      g.made = true;
      co_yield dd::elements_of(plain_range{{a, b}});
      break;
    }
  }
  produce(g, 0);
  co_yield int(g.value);
  REQUIRE(!g.made);
  g.ended = true;
}
DRIVER(what_may_be_nested) {
  int kind = va_choice(8);
  ghost g;
  auto gen = outer(g, kind);
  int n = 0;
  for (int x : gen) {
    ++n;
    if (g.resumes == -1 && n <= 2) {
      // elements of a range: the first, then the second
      if (n == 1) {
        REQUIRE(x == g.value);
        g.resumes = -2;
      }
      g.made = false;
      continue;
    }
    if (g.resumes == -2 && n == 2) {
      continue;
    }
    REQUIRE(g.made);
    REQUIRE(x == g.value);
    g.made = false;
  }
  REQUIRE(g.ended);
  REQUIRE(n == (kind == 2 ? 2 : kind == 3 || kind == 4 ? 1 : 3));
  va_reach("end");
}

static dd::generator<int> of_range(const int* p, int a, int b) {
  plain_range r{{a, b}};
  co_yield dd::elements_of(r);
  co_yield int(*p);
  const plain_range empty{{0, 0}};
  co_yield dd::elements_of(std::move(r));
}
DRIVER(ranges_in_order) {
  int a = va_int(), b = va_int(), c = va_int();
  auto gen = of_range(&c, a, b);
  auto it = gen.begin();
  REQUIRE(it != std::default_sentinel);
  REQUIRE(*it == a);
  ++it;
  REQUIRE(it != std::default_sentinel);
  REQUIRE(*it == b);
  ++it;
  REQUIRE(it != std::default_sentinel);
  REQUIRE(*it == c);
  ++it;
  REQUIRE(it != std::default_sentinel);
  REQUIRE(*it == a);
  ++it;
  REQUIRE(*it == b);
  ++it;
  REQUIRE(it == std::default_sentinel);
  va_reach("end");
}

// the nested generator belongs to a resourced outer one
static dd::pmr::generator<int> outer_pmr(ghost& g) {
  g.active = 1;
  if (va_bool())
    co_yield dd::elements_of(counted(g));
  else
    co_yield dd::elements_of(counted_pmr(g));
  REQUIRE(g.active == 0);
  produce(g, 0);
  co_yield int(g.value);
  g.ended = true;
}
DRIVER(resourced_outer) {
  ghost g;
  auto gen = outer_pmr(g);
  int n = 0;
  for (int x : gen) {
    REQUIRE(g.made);
    REQUIRE(x == g.value);
    g.made = false;
    ++n;
  }
  REQUIRE(g.ended);
  REQUIRE(n == 3);
  va_reach("end");
}

// ------------------------------------------------------------------------------------------------ channels
static client consume_tree(ghost& g, bool& done) {
  {
    dd::channel<int> ch = gens<dd::channel<int>>::leafy(g, 0);
    for (;;) {
      int* p = co_await ch.next();
      if (!p) {
        auto e = ch.take_exception();
        if (e) {
          REQUIRE(g.threw);
          g.threw = false;
          REQUIRE(!ch.empty());
          REQUIRE(!ch.take_exception());
          va_reach("exception of a leaf reaches the consumer");
          continue;
        }
        REQUIRE(!g.threw);
        break;
      }
      REQUIRE(g.made);
      REQUIRE(*p == g.value);
      g.made = false;
      if (va_bool()) {
        va_reach("abandoned");
        done = true;
        co_return;
      }
    }
    REQUIRE(g.ended);
    REQUIRE(ch.empty());
    va_reach("end");
  }
  done = true;
}
DRIVER(channel_tree) {
  ghost g;
  bool done = false;
  consume_tree(g, done);
  REQUIRE(done);
}

static dd::channel<int> chan_counted(ghost& g, parking& park) {
  REQUIRE(g.active == 1);
  for (int i = 0; i < 2; ++i) {
    if (va_bool())
      co_await park;
    produce(g, 1);
    co_yield int(g.value);
    REQUIRE(!g.made);
  }
  if (va_bool())
    co_await park;
  g.active = 0;
}
static dd::channel_r<int, dd::pmr::polymorphic_resource> chan_counted_pmr(ghost& g) {
  REQUIRE(g.active == 1);
  for (int i = 0; i < 2; ++i) {
    produce(g, 1);
    const int c = g.value;
    co_yield c;
    REQUIRE(!g.made);
  }
  g.active = 0;
}
static dd::channel<int> chan_outer(ghost& g, parking& park, int kind) {
  switch (kind) {
    case 0:
      g.active = 1;
      co_yield dd::elements_of(chan_counted(g, park));
      REQUIRE(g.active == 0);
      break;
    case 1:
      g.active = 1;
      co_yield dd::elements_of(chan_counted_pmr(g));
      REQUIRE(g.active == 0);
      break;
    case 2:
      co_yield dd::elements_of(dd::channel<int>{});
      break;
  }
  produce(g, 0);
  co_yield int(g.value);
  REQUIRE(!g.made);
  g.ended = true;
}
static client consume_outer(ghost& g, parking& park, int kind, bool& done) {
  {
    auto ch = chan_outer(g, park, kind);
    int n = 0;
    co_foreach(int x, ch) {
      REQUIRE(g.made);
      REQUIRE(x == g.value);
      g.made = false;
      ++n;
    }
    REQUIRE(g.ended);
    REQUIRE(n == (kind == 2 ? 1 : 3));
  }
  va_reach("end");
  done = true;
}
DRIVER(channel_nested) {
  ghost g;
  parking park;
  bool done = false;
  consume_outer(g, park, va_choice(3), done);
  while (park)
    park.wake();
  REQUIRE(done);
}
static dd::channel<int> chan_range(int a, int b) {
  int arr[2] = {a, b};
  co_yield dd::elements_of(arr);
}
static client consume_range(bool& done) {
  int a = va_int(), b = va_int();
  auto ch = chan_range(a, b);
  int* p = co_await ch.next();
  REQUIRE(p && *p == a);
  p = co_await ch.next();
  REQUIRE(p && *p == b);
  p = co_await ch.next();
  REQUIRE(!p);
  REQUIRE(ch.empty());
  done = true;
}
DRIVER(channel_range) {
  bool done = false;
  consume_range(done);
  REQUIRE(done);
}

static dd::channel<int> chan_tower(ghost& g, parking& park, int depth, int last) {
  REQUIRE(g.active == depth);
  if (depth < last) {
    g.active = depth + 1;
    co_yield dd::elements_of(chan_tower(g, park, depth + 1, last));
    REQUIRE(g.active == depth);
  } else {
    produce(g, depth);
    co_yield int(g.value);
    REQUIRE(!g.made);
  }
  if (depth == last && va_bool()) {
    g.threw = true;
    g.active = depth - 1;
    throw 1;
  }
  if (va_bool())
    co_await park;
  produce(g, depth);
  co_yield int(g.value);
  REQUIRE(!g.made);
  g.active = depth - 1;
}
static dd::channel<int> chan_on_tower(ghost& g, parking& park, int last) {
  g.active = 1;
  auto inner = chan_tower(g, park, 1, last);
  int* p = co_await inner.next();
  REQUIRE(p && *p == g.value);
  g.made = false;
  co_yield dd::elements_of(std::move(inner));
  REQUIRE(g.active == 0);
  produce(g, 0);
  co_yield int(g.value);
  REQUIRE(!g.made);
  g.ended = true;
}
static client consume_on_tower(ghost& g, parking& park, int last, bool& done) {
  {
    auto ch = chan_on_tower(g, park, last);
    int n = 0;
    bool threw = false;
    for (;;) {
      int* p = co_await ch.next();
      if (!p) {
        if (auto e = ch.take_exception()) {
          REQUIRE(g.threw);
          g.threw = false;
          threw = true;
          va_reach("exception out of the tower");
          continue;
        }
        break;
      }
      REQUIRE(g.made);
      REQUIRE(*p == g.value);
      g.made = false;
      ++n;
    }
    REQUIRE(g.ended);
    REQUIRE(n == last + 1 - threw);
    REQUIRE(ch.empty());
  }
  va_reach("end");
  done = true;
}
DRIVER(partly_consumed_channel_tower) {
  ghost g;
  parking park;
  bool done = false;
  consume_on_tower(g, park, 1 + va_choice(3), done);
  while (park)
    park.wake();
  REQUIRE(done);
}

// other value types
static dd::generator<int> two(int a, int b) {
  co_yield int(a);
  co_yield b;
}
static dd::generator<long> widened(int a, int b) {
  co_yield dd::elements_of(two(a, b));
  co_yield 7l;
}
DRIVER(other_value_type) {
  int a = va_int(), b = va_int();
  int n = 0;
  for (long x : widened(a, b)) {
    REQUIRE(x == (n == 0 ? long(a) : n == 1 ? long(b) : 7l));
    ++n;
  }
  REQUIRE(n == 3);
}
static dd::channel<int> chan_two(parking& park, int a, int b) {
  co_yield int(a);
  if (va_bool())
    co_await park;
  co_yield b;
}
static dd::channel<long> chan_widened(parking& park, int a, int b, int kind) {
  if (kind == 0)
    co_yield dd::elements_of(chan_two(park, a, b));
  else
    co_yield dd::elements_of(two(a, b));
  co_yield 7l;
}
static client consume_widened(parking& park, int a, int b, int kind, bool& done) {
  {
    int n = 0;
    co_foreach(long x, chan_widened(park, a, b, kind)) {
      REQUIRE(x == (n == 0 ? long(a) : n == 1 ? long(b) : 7l));
      ++n;
    }
    REQUIRE(n == 3);
  }
  done = true;
}
DRIVER(channel_other_value_type) {
  parking park;
  bool done = false;
  int a = va_int(), b = va_int();
  consume_widened(park, a, b, va_choice(2), done);
  while (park)
    park.wake();
  REQUIRE(done);
}

// two towers consumed alternately: what one of them yields stays what it is while the other one goes on
struct storeys {
  ghost g;
  bool end = false;
};
template <typename G>
static G floor_of(storeys& t, bool inner) {
  while (va_bool()) {
    if (inner || va_bool()) {
      t.g.value = va_int();
      if (va_bool()) {
        const int c = t.g.value;
        co_yield c;
      } else
        co_yield int(t.g.value);
    } else
      co_yield dd::elements_of(floor_of<G>(t, true));
  }
  if (!inner)
    t.end = true;
}
DRIVER(two_generator_towers) {
  storeys t[2];
  {
    auto a = floor_of<dd::generator<int>>(t[0], false), b = floor_of<dd::generator<int>>(t[1], false);
    auto i = a.begin(), j = b.begin();
    for (;;) {
      REQUIRE((i == std::default_sentinel) == t[0].end);
      REQUIRE((j == std::default_sentinel) == t[1].end);
      REQUIRE(t[0].end || *i == t[0].g.value);
      REQUIRE(t[1].end || *j == t[1].g.value);
      if (t[0].end && t[1].end)
        break;
      if (t[1].end || (!t[0].end && va_bool()))
        ++i;
      else
        ++j;
    }
    va_reach("both at their end");
  }
}
static client two_towers(storeys* t, bool& done) {
  auto a = floor_of<dd::channel<int>>(t[0], false), b = floor_of<dd::channel<int>>(t[1], false);
  auto i = co_await a.begin(), j = co_await b.begin();
  for (;;) {
    REQUIRE((i == std::default_sentinel) == t[0].end);
    REQUIRE((j == std::default_sentinel) == t[1].end);
    REQUIRE(t[0].end || *i == t[0].g.value);
    REQUIRE(t[1].end || *j == t[1].g.value);
    if (t[0].end && t[1].end)
      break;
    if (t[1].end || (!t[0].end && va_bool()))
      co_await ++i;
    else
      co_await ++j;
  }
  done = true;
}
DRIVER(two_channel_towers) {
  storeys t[2];
  bool done = false;
  two_towers(t, done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ deep and wide
template <typename G>
static G deep(int depth) {
  if (depth > 0)
    co_yield dd::elements_of(deep<G>(depth - 1));
  co_yield int(depth);
}
template <typename G>
static G wide(int n) {
  for (int i = 0; i < n; ++i)
    co_yield dd::elements_of(deep<G>(1));
}
DRIVER(deep_generator) {
  int k = 0;
  for (int x : deep<dd::generator<int>>(100))
    REQUIRE(x == k++);
  REQUIRE(k == 101);
}
DRIVER(wide_generator) {
  int k = 0;
  for (int x : wide<dd::generator<int>>(150))
    REQUIRE(x == k++ % 2);
  REQUIRE(k == 300);
}
static client deep_consumer(bool& done) {
  int k = 0;
  auto c = deep<dd::channel<int>>(100);
  while (int* p = co_await c.next())
    REQUIRE(*p == k++);
  REQUIRE(k == 101);
  k = 0;
  auto w = wide<dd::channel<int>>(150);
  while (int* p = co_await w.next())
    REQUIRE(*p == k++ % 2);
  REQUIRE(k == 300);
  done = true;
}
DRIVER(deep_and_wide_channel) {
  bool done = false;
  deep_consumer(done);
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
