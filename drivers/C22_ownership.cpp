// C22: moving, swapping, resetting, releasing, clearing generators, channels and inplace_generators.
#include <kelcoro/generator.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/inplace_generator.hpp>
#include "client.hpp"

struct ghost {
  bool run = false;    // resumed since last look
  bool at = false;     // stopped at a co_yield
  bool ended = false;
  bool threw = false;
  int value = 0;
};

#ifdef VA_THOROUGH
constexpr int body_choices = 3;
#else
constexpr int body_choices = 2;
#endif
template <typename G, int choices = 3>
static G body(ghost& g) {
  tracked local(1);
  for (;;) {
    REQUIRE(!g.run);
    g.run = true;
    g.at = false;
    int k = va_choice(choices);
    if (k == 0)
      break;
    if (k == 2) {
      g.ended = true;
      g.threw = true;
      throw 1;
    }
    g.at = true;
    g.value = va_int();
    co_yield int(g.value);
    g.value = 0;
    local.check();
  }
  g.ended = true;
}

static bool has(const ghost* g) {
  return g && g->at;
}
static bool alive(const ghost* g) {
  return g && !g->ended;
}

using gen_t = dd::generator<int>;
using it_t = dd::generator_iterator<int>;

static void look(gen_t& g, ghost* own, it_t& it) {
  REQUIRE(g.empty() == !alive(own));
  REQUIRE(bool(g) == alive(own));
  REQUIRE((it == std::default_sentinel) == !has(own));
  if (has(own))
    REQUIRE(*it == own->value);
  if (!alive(own))
    REQUIRE(g.begin() == g.end());
}

static void drop(ghost*& own) {
  if (own)
    *own = ghost{};
  own = nullptr;
}

DRIVER(generator_ops) {
  ghost g0, g1;
  {
    gen_t a = body<gen_t, body_choices>(g0), b;
    ghost *oa = &g0, *ob = nullptr;
    if (va_bool()) {
      gen_t t = body<gen_t, body_choices>(g1);
      b = std::move(t);
      REQUIRE(t.empty());
      REQUIRE(t.begin() == t.end());
      ob = &g1;
    }
    it_t ia(a), ib(b);
    REQUIRE(&ia.owner() == &a);
    REQUIRE(&ib.owner() == &b);
    for (;;) {
      look(a, oa, ia);
      look(b, ob, ib);
      REQUIRE(a == a);
      REQUIRE((a == b) == (a.empty() && b.empty()));
      switch (va_choice(8)) {
        case 0:
          va_reach("end");
          return;
        case 1: {  // consume
          bool second = va_bool();
          gen_t& x = second ? b : a;
          it_t& ix = second ? ib : ia;
          ghost* ox = second ? ob : oa;
          if (ox) {
            bool live = alive(ox);
            try {
              if (has(ox) && va_bool())
                ++ix;
              else {
                auto it = x.begin();
                REQUIRE(it.equivalent(ix));
                REQUIRE(!it.equivalent(second ? ia : ib));
              }
              REQUIRE(!ox->threw || !live);
            } catch (int) {
              REQUIRE(live && ox->threw);
              ox->threw = false;
              
            }
            REQUIRE(ox->run == live);
            ox->run = false;
          } else {
            REQUIRE(x.begin() == x.end());
          }
          break;
        }
        case 2:
          a.swap(b);
          std::swap(oa, ob);
          break;
        case 3: {
          gen_t t(std::move(a));
          REQUIRE(a.empty());
          REQUIRE(a.begin() == a.end());
          REQUIRE(ia == std::default_sentinel);
          REQUIRE(t.empty() == !alive(oa));
          if (has(oa))
            REQUIRE(*it_t(t) == oa->value);
          if (va_bool()) {
            a = std::move(t);
          } else {
            t.clear();
            drop(oa);
            va_reach("destroyed after move");
          }
          break;
        }
        case 4: {  // whatever becomes of the old coroutine of b, it must not come back to a
          b = std::move(a);
          b.swap(b);
          ghost* old = ob;
          ob = oa;
          oa = old;
          if (!a.empty()) {
            REQUIRE(alive(oa));
          } else {
            REQUIRE(!alive(oa));
          }
          break;
        }
        case 5:
          a.clear();
          drop(oa);
          REQUIRE(a.empty());
          REQUIRE(ia == std::default_sentinel);
          REQUIRE(!a.raw_handle());
          break;
        case 6: {
          auto h = a.raw_handle();
          REQUIRE(bool(h) == bool(oa));
          auto r = a.release();
          REQUIRE(r == h);
          REQUIRE(a.empty());
          REQUIRE(!a.raw_handle());
          REQUIRE(a.begin() == a.end());
          if (oa)
            REQUIRE(r.done() == oa->ended);
          if (va_bool()) {
            b.reset(r);
            if (ob && ob != oa)
              *ob = ghost{};
            ob = oa;
            if (ob)
              ob->at = false;  // position is unknown to the new owner until begin()
            va_reach("reset");
            oa = nullptr;
          } else {
            if (r)
              r.destroy();
            drop(oa);
          }
          break;
        }
        case 7:
          a.reset(nullptr);
          drop(oa);
          break;
      }
    }
  }
}

DRIVER(generator_ends) {
  ghost g0, g1;
  {
    gen_t a = body<gen_t>(g0), b = body<gen_t>(g1);
    try {
      auto it = a.begin();
      gen_t& self = a;
      switch (va_choice(4)) {
        case 0:
          swap(a, b);
          REQUIRE((it_t(b) == std::default_sentinel) == g0.ended);
          if (!g0.ended)
            REQUIRE(*it_t(b) == g0.value);
          swap(b, a);
          break;
        case 1:
          a = std::move(self);
          break;
        case 2:
          a.swap(self);
          break;
        case 3: {
          gen_t c;
          swap(a, c);
          REQUIRE(a.empty());
          REQUIRE(a.begin() == a.end());
          REQUIRE(it == a.end());
          swap(c, a);
          break;
        }
      }
      REQUIRE(a.empty() == g0.ended);
      REQUIRE((it == std::default_sentinel) == g0.ended);
      if (!g0.ended) {
        REQUIRE(*it == g0.value);
        g0.run = false;
        ++it;
        REQUIRE(g0.run);
        REQUIRE((it == std::default_sentinel) == g0.ended);
        if (!g0.ended)
          REQUIRE(*it == g0.value);
      }
      va_reach("end");
    } catch (int) {
      REQUIRE(g0.threw);
      REQUIRE(a.empty());
    }
  }
}

// generator of nothing has no stored result
template <typename G>
static G ticks(ghost& g) {
  tracked local(1);
  for (;;) {
    REQUIRE(!g.run);
    g.run = true;
    if (va_bool())
      break;
    co_yield dd::nothing_t{};
  }
  g.ended = true;
}
DRIVER(generator_of_nothing) {
  ghost g0, g1;
  {
    using gen = dd::generator<dd::nothing_t>;
    gen a = ticks<gen>(g0), b;
    ghost *oa = &g0, *ob = nullptr;
    if (va_bool()) {
      b = ticks<gen>(g1);
      ob = &g1;
    }
    for (;;) {
      REQUIRE(a.empty() == !alive(oa));
      REQUIRE(b.empty() == !alive(ob));
      switch (va_choice(6)) {
        case 0:
          va_reach("end");
          return;
        case 1: {
          bool live = alive(oa);
          auto it = a.begin();
          REQUIRE((it == a.end()) == !alive(oa));
          REQUIRE((oa && oa->run) == live);
          if (oa)
            oa->run = false;
          break;
        }
        case 2:
          swap(a, b);
          std::swap(oa, ob);
          break;
        case 3: {
          gen t(std::move(a));
          REQUIRE(a.empty());
          b = std::move(t);
          ob = oa;
          oa = nullptr;
          break;
        }
        case 4:
          a.clear();
          oa = nullptr;
          break;
        case 5: {
          auto r = a.release();
          REQUIRE(a.empty());
          b.reset(r);
          ob = oa;
          oa = nullptr;
          break;
        }
      }
    }
  }
}

// resourced and plain owners of one family
DRIVER(resourced_to_plain) {
  ghost g;
  {
    gen_t a = body<dd::pmr::generator<int>>(g);
    dd::pmr::generator<int> c = body<dd::pmr::generator<int>>(g);
    gen_t& b = c;
    bool first = va_bool();
    if (first)
      b.clear();
    else
      a.swap(b);
    try {
      auto it = first ? a.begin() : b.begin();
      REQUIRE(g.run);
      REQUIRE((it == std::default_sentinel) == g.ended);
      if (!g.ended)
        REQUIRE(*it == g.value);
    } catch (int) {
      REQUIRE(g.threw);
    }
    va_reach("end");
  }
}

// ------------------------------------------------------------------------------------------------ channel
using chan_t = dd::channel<int>;
static void look(chan_t& c, ghost* own) {
  REQUIRE(c.empty() == !alive(own));
  REQUIRE(bool(c) == alive(own));
}
static client channel_user(bool& done) {
  ghost g0, g1;
  {
    chan_t a = body<chan_t, body_choices>(g0), b;
    ghost *oa = &g0, *ob = nullptr;
    if (va_bool()) {
      chan_t t = body<chan_t, body_choices>(g1);
      b = std::move(t);
      REQUIRE(t.empty());
      ob = &g1;
    }
    for (;;) {
      look(a, oa);
      look(b, ob);
      REQUIRE(a == a);
      REQUIRE((a == b) == (a.empty() && b.empty()));
      switch (va_choice(6)) {
        case 0:
          done = true;
          va_reach("end");
          co_return;
        case 1: {
          bool second = va_bool();
          chan_t& x = second ? b : a;
          ghost* ox = second ? ob : oa;
          bool live = alive(ox);
          int* p = co_await x.next();
          REQUIRE((p != nullptr) == (live && has(ox)));
          if (p)
            REQUIRE(*p == ox->value);
          if (ox) {
            REQUIRE(ox->run == live);
            ox->run = false;
          }
          auto e = x.take_exception();
          REQUIRE(bool(e) == (live && ox->threw));
          if (ox)
            ox->threw = false;
          break;
        }
        case 2:
          a.swap(b);
          std::swap(oa, ob);
          break;
        case 3: {
          chan_t t(std::move(a));
          REQUIRE(a.empty());
          int* p = co_await a.next();
          REQUIRE(!p);
          REQUIRE(t.empty() == !alive(oa));
          if (va_bool())
            a = std::move(t);
          else {
            t.clear();
            drop(oa);
          }
          break;
        }
        case 4:
          a.clear();
          drop(oa);
          REQUIRE(!a.raw_handle());
          break;
        case 5: {
          auto r = a.release();
          REQUIRE(a.empty());
          REQUIRE(!a.raw_handle());
          {
            int* p = co_await a.next();
            REQUIRE(!p);
          }
          if (va_bool()) {
            b.reset(r);
            if (ob && ob != oa)
              *ob = ghost{};
            ob = oa;
            va_reach("reset");
          } else if (r) {
            r.destroy();
            *oa = ghost{};
          }
          oa = nullptr;
          break;
        }
      }
    }
  }
}
DRIVER(channel_ops) {
  bool done = false;
  channel_user(done);
  REQUIRE(done);
}

// an exception nobody took yet moves along
static client channel_exception(bool& done) {
  ghost g0, g1;
  {
    chan_t a = body<chan_t>(g0), b = body<chan_t>(g1);
    int* p = co_await a.next();
    if (!p && g0.threw) {
      int k = va_choice(3);
      if (k == 0) {
        swap(a, b);
        REQUIRE(!a.take_exception());
        REQUIRE(bool(b.take_exception()));
        REQUIRE(!b.take_exception());
        g0.run = false;
        p = co_await a.next();
        REQUIRE(g1.run && !g0.run);
        REQUIRE(bool(p) == has(&g1));
        REQUIRE(bool(a.take_exception()) == g1.threw);
        va_reach("exception swapped");
      } else if (k == 1) {
        chan_t c(std::move(a));
        REQUIRE(!a.take_exception());
        REQUIRE(bool(c.take_exception()));
      } else {
        b = std::move(a);
        REQUIRE(!a.take_exception());
        REQUIRE(bool(b.take_exception()));
      }
    }
  }
  done = true;
}
DRIVER(channel_exception_moves) {
  bool done = false;
  channel_exception(done);
  REQUIRE(done);
}

// a channel moves between two increments of an iterator over it
static client channel_iterating(bool& done) {
  ghost g0, g1;
  {
    chan_t a = body<chan_t>(g0), b = body<chan_t>(g1);
    ghost *oa = &g0, *ob = &g1;
    try {
      auto it = co_await a.begin();
      REQUIRE(oa->run);
      REQUIRE((it == std::default_sentinel) == !has(oa));
      if (it != std::default_sentinel) {
        REQUIRE(*it == oa->value);
        oa->run = false;
        int k = va_choice(3);
        if (k == 0) {
          chan_t t = std::move(a);
          a = std::move(t);
        } else if (k == 1) {
          b = std::move(a);
          a.swap(b);
        } else {
          a.swap(b);
          std::swap(oa, ob);
          REQUIRE(it == std::default_sentinel);
          int* p = co_await a.next();
          REQUIRE((p != nullptr) == has(oa));
          REQUIRE((it == std::default_sentinel) == !has(oa));
          if (p)
            REQUIRE(*it == oa->value);
          oa->run = false;
        }
        if (it != std::default_sentinel) {
          REQUIRE(*it == oa->value);
          co_await ++it;
          REQUIRE(oa->run);
          oa->run = false;
          REQUIRE((it == std::default_sentinel) == !has(oa));
          if (has(oa))
            REQUIRE(*it == oa->value);
          va_reach("iterated on");
        }
      }
    } catch (int) {
      REQUIRE(oa->threw);
      va_reach("exception");
    }
    auto e = b.take_exception();
    REQUIRE(bool(e) == false);
  }
  done = true;
}
DRIVER(channel_iterator_follows) {
  bool done = false;
  channel_iterating(done);
  REQUIRE(done);
}

// both started, exchanged, both iterators go on
static client channel_both(bool& done) {
  ghost g0, g1;
  {
    chan_t a = body<chan_t>(g0), b = body<chan_t>(g1);
    try {
      auto ia = co_await a.begin();
      if (!has(&g0)) {
        done = true;
        co_return;
      }
      auto ib = co_await b.begin();
      if (has(&g0) && has(&g1)) {
        g0.run = g1.run = false;
        if (va_bool())
          a.swap(b);
        else
          swap(b, a);
        REQUIRE(*ia == g1.value);
        REQUIRE(*ib == g0.value);
        co_await ++ib;
        REQUIRE(g0.run && !g1.run);
        REQUIRE(*ia == g1.value);
        REQUIRE((ib == std::default_sentinel) == !has(&g0));
        if (has(&g0))
          REQUIRE(*ib == g0.value);
        g0.run = false;
        if (!g0.threw) {
          co_await ++ia;
          REQUIRE(g1.run && !g0.run);
          REQUIRE((ia == std::default_sentinel) == !has(&g1));
          if (has(&g1))
            REQUIRE(*ia == g1.value);
          if (has(&g0))
            REQUIRE(*ib == g0.value);
          va_reach("both iterated on");
        }
      }
    } catch (int) {
      REQUIRE(g0.threw || g1.threw);
    }
  }
  done = true;
}
DRIVER(channel_both_follow) {
  bool done = false;
  channel_both(done);
  REQUIRE(done);
}

// the channel an iterator belongs to gets another coroutine; begin() was never awaited on that one
static client channel_replaced(bool& done) {
  ghost g0, g1;
  {
    chan_t a = body<chan_t>(g0);
    try {
      auto it = co_await a.begin();
      g0.run = false;
      if (g0.threw) {
        done = true;
        co_return;
      }
      switch (va_choice(3)) {
        case 0:
          a = body<chan_t>(g1);
          break;
        case 1: {
          chan_t b = body<chan_t>(g1);
          a.swap(b);
          break;
        }
        case 2: {
          chan_t b = body<chan_t>(g1);
          a.reset(b.release());
          break;
        }
      }
      REQUIRE(it == std::default_sentinel);
      co_await ++it;
      REQUIRE(g1.run && !g0.run);
      REQUIRE((it == std::default_sentinel) == !has(&g1));
      if (has(&g1))
        REQUIRE(*it == g1.value);
      va_reach("continued with the new coroutine");
    } catch (int) {
      REQUIRE(g0.threw || g1.threw);
    }
  }
  done = true;
}
DRIVER(channel_replaced) {
  bool done = false;
  channel_replaced(done);
  REQUIRE(done);
}
// two consumers, whose channels are exchanged while both are somewhere else
static client channel_consumer(chan_t& mine, ghost*& own, parking& park, bool& alone) {
  tracked local(5);
  bool threw = false;
  try {
    auto it = co_await mine.begin();
    local.check();
    REQUIRE(own->run);
    own->run = false;
    co_await park;
    if (it != std::default_sentinel) {
      alone = true;
      co_await ++it;
      REQUIRE(alone);
      alone = false;
      local.check();
      REQUIRE(own->run);
      REQUIRE((it == std::default_sentinel) == !has(own));
      if (has(own))
        REQUIRE(*it == own->value);
      va_reach("went on");
    }
  } catch (int) {
    threw = true;
    alone = false;
  }
}
DRIVER(channel_two_consumers) {
  ghost g0, g1;
  ghost *oa = &g0, *ob = &g1;
  parking pa, pb;
  bool alone = false;
  {
    chan_t a = body<chan_t>(g0), b = body<chan_t>(g1);
    channel_consumer(a, oa, pa, alone);
    channel_consumer(b, ob, pb, alone);
    a.swap(b);
    std::swap(oa, ob);
    REQUIRE(!alone);
    if (pa)
      pa.wake();
    REQUIRE(!alone);
    if (pb)
      pb.wake();
    REQUIRE(!alone);
  }
}

// ------------------------------------------------------------------------------------------------ inplace_generator
static dd::inplace_generator<int> inplace(ghost& g) {
  tracked local(1);
  for (;;) {
    REQUIRE(!g.run);
    g.run = true;
    g.at = false;
    if (va_bool())
      break;
    g.at = true;
    g.value = va_int();
    co_yield int(g.value);
  }
  g.ended = true;
}
static void look(dd::inplace_generator<int>& x, ghost* own) {
  REQUIRE(x.empty() == !alive(own));
  REQUIRE(bool(x) == alive(own));
  REQUIRE((x.begin() == x.end()) == !alive(own));
  if (alive(own))
    REQUIRE(*x.begin() == own->value);
}
DRIVER(inplace_ops) {
  ghost g0, g1;
  {
    auto a = inplace(g0), b = inplace(g1);
    REQUIRE(g0.run && g1.run);
    g0.run = g1.run = false;
    ghost *oa = &g0, *ob = &g1;
    for (;;) {
      look(a, oa);
      look(b, ob);
      switch (va_choice(6)) {
        case 0:
          va_reach("end");
          return;
        case 1:
          if (alive(oa)) {
            auto it = a.begin();
            ++it;
            REQUIRE(oa->run);
            oa->run = false;
            REQUIRE((it == std::default_sentinel) == !alive(oa));
          }
          break;
        case 2:
          a.swap(b);
          std::swap(oa, ob);
          break;
        case 3:
          swap(a, b);
          std::swap(oa, ob);
          break;
        case 4: {
          dd::inplace_generator<int> t(std::move(a));
          look(t, oa);
          look(a, nullptr);
          if (va_bool())
            a = std::move(t);
          else
            oa = nullptr;
          break;
        }
        case 5: {
          b = std::move(a);
          ghost* old = ob;
          ob = oa;
          oa = old;
          break;
        }
      }
    }
  }
}
