// C21: a channel delivers each value to its consumer and hands control back correctly.
#include <kelcoro/channel.hpp>
#include "client.hpp"

struct ghost {
  bool asked = false;   // a consumer asked and was not answered yet
  bool at = false;      // the producer stands at a co_yield
  bool ended = false;
  bool threw = false;
  bool consumer_in_loop = false;
  int value = 0;
  const void* addr = nullptr;
  const void* src = nullptr;
};

static dd::channel<int> producer(ghost& g, parking& park) {
  tracked local(1);
  for (;;) {
    REQUIRE(g.asked);
    REQUIRE(!g.at);
    int k = va_choice(7);
    if (k == 0)
      break;
    if (k == 1) {
      g.threw = g.ended = true;
      throw 1;
    }
    if (k == 2) {
      co_await park;
      REQUIRE(g.asked);
      continue;
    }
    tracked inner(2);
    int x = va_int();
    g.value = x;
    g.at = true;
    switch (k) {
      case 3:
        co_yield int(x);
        break;
      case 4: {
        const int y = x;
        g.src = &y;
        co_yield y;
        REQUIRE(y == x);
        g.src = nullptr;
        break;
      }
      case 5:
        g.addr = &x;
        co_yield std::move(x);
        break;
      case 6: {
        int y = x;
        g.addr = &y;
        co_yield dd::by_ref{y};
        break;
      }
    }
    g.addr = nullptr;
    g.value = 0;
    REQUIRE(g.at);
    g.at = false;
    inner.check();
    local.check();
  }
  g.ended = true;
}

static void answered(ghost& g, const int* p) {
  REQUIRE(g.asked);
  g.asked = false;
  REQUIRE((p != nullptr) == (g.at && !g.ended));
  if (p) {
    REQUIRE(*p == g.value);
    if (g.addr)
      REQUIRE((const void*)p == g.addr);
    REQUIRE((const void*)p != g.src);
  }
}

// ------------------------------------------------------------------------------------------------ next()
static client by_next(ghost& g, parking& park, bool& done) {
  tracked mine(3);
  {
    auto ch = producer(g, park);
    REQUIRE(!ch.empty());
    for (;;) {
      g.asked = true;
      int* p = co_await ch.next();
      answered(g, p);
      mine.check();
      REQUIRE(ch.empty() == g.ended);
      if (!p)
        break;
      if (va_bool()) {
        va_reach("abandoned");
        done = true;
        co_return;
      }
    }
    auto e = ch.take_exception();
    REQUIRE(bool(e) == g.threw);
    if (e) {
      bool caught = false;
      try {
        std::rethrow_exception(e);
      } catch (int) {
        caught = true;
      }
      REQUIRE(caught);
      va_reach("exception");
    } else {
      va_reach("end");
    }
    REQUIRE(!ch.take_exception());
    // finished: answers at once, nobody is resumed
    int* p = co_await ch.next();
    REQUIRE(!p);
    auto it = co_await ch.begin();
    REQUIRE(it == ch.end());
  }
  done = true;
}
DRIVER(next) {
  ghost g;
  parking park;
  bool done = false;
  by_next(g, park, done);
  while (park) {
    REQUIRE(!done);
    park.wake();
  }
  REQUIRE(done);
}

// ------------------------------------------------------------------------------------------------ co_foreach
static client by_foreach(ghost& g, parking& park, bool& done) {
  try {
    auto ch = producer(g, park);
    g.asked = true;
    co_foreach(int&& x, ch) {
      answered(g, &x);
      REQUIRE(!g.ended);
      if (va_bool()) {
        va_reach("break");
        break;
      }
      g.asked = true;
    }
    if (g.ended) {
      REQUIRE(!g.threw);
      REQUIRE(ch.empty());
      REQUIRE(!ch.take_exception());
      va_reach("end");
    }
  } catch (int) {
    REQUIRE(g.threw);
    va_reach("exception");
  }
  done = true;
}
DRIVER(foreach) {
  ghost g;
  parking park;
  bool done = false;
  by_foreach(g, park, done);
  while (park) {
    REQUIRE(!done);
    park.wake();
  }
  REQUIRE(done);
}
// over a temporary; the body of the loop suspends and throws
static client by_foreach_temporary(ghost& g, parking& park, parking& own, bool& done) {
  bool mine = false;
  try {
    g.asked = true;
    co_foreach(int&& x, producer(g, park)) {
      answered(g, &x);
      if (va_bool()) {
        co_await own;
        REQUIRE(x == g.value);
      }
      if (va_bool()) {
        mine = true;
        throw 2;
      }
      g.asked = true;
    }
    REQUIRE(g.ended && !g.threw);
    va_reach("end");
  } catch (int) {
    REQUIRE(g.threw != mine);
    va_reach("exception");
  }
  done = true;
}
DRIVER(foreach_temporary) {
  ghost g;
  parking park, own;
  bool done = false;
  by_foreach_temporary(g, park, own, done);
  while (park || own) {
    REQUIRE(!done);
    REQUIRE(!(park && own));
    if (park)
      park.wake();
    else
      own.wake();
  }
  REQUIRE(done);
}

// ------------------------------------------------------------------------------------------------ iterators by hand
static client by_hand(ghost& g, parking& park, bool& done) {
  bool raised = false;
  auto ch = producer(g, park);
  try {
    g.asked = true;
    auto it = co_await ch.begin();
    for (;;) {
      answered(g, it != ch.end() ? it.operator->() : nullptr);
      REQUIRE((it == ch.end()) == g.ended);
      REQUIRE(ch.empty() == g.ended);
      if (g.ended)
        break;
      REQUIRE(it.operator->() != nullptr);
      if (va_bool()) {
        va_reach("left early");
        break;
      }
      g.asked = true;
      co_await ++it;
    }
    raised = g.threw;
  } catch (int) {
    REQUIRE(g.threw);
    REQUIRE(raised);   // the exception comes out of the iterator's end, not before
    raised = false;
    va_reach("exception");
  }
  REQUIRE(!raised);
  REQUIRE(!ch.take_exception());
  if (!g.ended) {
    // goes on where it was
    g.asked = true;
    int* p = co_await ch.next();
    answered(g, p);
    if (p)
      va_reach("went on");
    (void)ch.take_exception();
  }
  done = true;
}
DRIVER(by_hand) {
  ghost g;
  parking park;
  bool done = false;
  by_hand(g, park, done);
  while (park) {
    REQUIRE(!done);
    park.wake();
  }
  REQUIRE(done);
}

// ------------------------------------------------------------------------------------------------ several consumers in turn
static client take_one(ghost& g, dd::channel<int>& ch, int me, int& who, bool with_begin) {
  tracked mine(me);
  REQUIRE(who == 0);
  who = me;
  g.asked = true;
  if (with_begin) {
    bool threw = false;
    try {
      auto it = co_await ch.begin();
      REQUIRE(who == me);
      answered(g, it != ch.end() ? it.operator->() : nullptr);
    } catch (int) {
      threw = true;
    }
    REQUIRE(threw == g.threw);
  } else {
    int* p = co_await ch.next();
    REQUIRE(who == me);
    answered(g, p);
    REQUIRE(bool(ch.take_exception()) == g.threw);
  }
  who = 0;
  g.threw = false;
}
DRIVER(consumers_take_turns) {
  ghost g;
  parking park;
  {
    auto ch = producer(g, park);
    int who = 0;
    for (int me = 1; !ch.empty(); me = 3 - me) {
      take_one(g, ch, me, who, va_bool());
      while (park) {
        REQUIRE(who == me);
        park.wake();
      }
      REQUIRE(who == 0);
      if (va_bool()) {
        va_reach("abandoned");
        return;
      }
    }
    REQUIRE(g.ended);
    va_reach("end");
  }
}

// an iterator is incremented by another coroutine than the one that made it
static client increments(ghost& g, dd::channel_iterator<int>& it, int me, int& who) {
  tracked mine(me);
  REQUIRE(who == 0);
  who = me;
  g.asked = true;
  co_await ++it;
  REQUIRE(who == me);
  mine.check();
  answered(g, it == std::default_sentinel ? nullptr : it.operator->());
  who = 0;
}
static client lends_iterator(ghost& g, parking& park, parking& own, int& who) {
  tracked mine(9);
  {
    auto ch = producer(g, park);
    try {
      who = 9;
      g.asked = true;
      auto it = co_await ch.begin();
      REQUIRE(who == 9);
      answered(g, it == ch.end() ? nullptr : it.operator->());
      REQUIRE(&it.owner() == &ch);
      for (int i = 1; it != ch.end(); i = 3 - i) {
        who = 0;
        if (va_bool()) {
          va_reach("left early");
          break;
        }
        increments(g, it, i, who);
        while (who != 0)
          co_await own;  // the producer suspended meanwhile
        mine.check();
      }
      va_reach("lent");
    } catch (int) {
      REQUIRE(g.threw);
    }
  }
  who = -1;
}
DRIVER(iterator_is_lent) {
  ghost g;
  parking park, own;
  int who = 0;
  lends_iterator(g, park, own, who);
  while (park || own) {
    REQUIRE(who != -1);
    if (park)
      park.wake();
    else
      own.wake();
  }
  REQUIRE(who == -1);
}
static client compares(bool& done, ghost& g, parking& park) {
  dd::channel<int> a, b;
  auto ia = co_await a.begin();
  auto ib = co_await b.begin();
  REQUIRE(ia.equivalent(ia) && ib.equivalent(ib));
  REQUIRE(!ia.equivalent(ib));
  dd::channel_iterator<int> other(a);
  REQUIRE(other.equivalent(ia));
  REQUIRE(&ib.owner() == &b && &other.owner() == &a);
  done = true;
}
DRIVER(iterators_compare) {
  ghost g;
  parking park;
  bool done = false;
  compares(done, g, park);
  REQUIRE(done);
}

// ------------------------------------------------------------------------------------------------ empty ones
static client on_empty(bool& done) {
  dd::channel<int> ch;
  REQUIRE(ch.empty());
  REQUIRE(!ch);
  int* p = co_await ch.next();
  REQUIRE(!p);
  auto it = co_await ch.begin();
  REQUIRE(it == ch.end());
  co_foreach(int x, ch) {
    (void)x;
    va_fail("nothing to iterate");
  }
  REQUIRE(!ch.take_exception());
  done = true;
}
DRIVER(empty) {
  bool done = false;
  on_empty(done);
  REQUIRE(done);
}

// ------------------------------------------------------------------------------------------------ references
static dd::channel<int&> refs(ghost& g, parking& park, int& storage) {
  while (va_bool()) {
    int local = va_int();
    int& r = va_bool() ? storage : local;
    g.addr = &r;
    co_yield r;
    if (va_bool())
      co_await park;
    g.addr = nullptr;
  }
  g.ended = true;
}
static client use_refs(ghost& g, parking& park, bool& done) {
  int storage = 0;
  {
    co_foreach(int& x, refs(g, park, storage)) {
      REQUIRE(&x == g.addr);
      x = 5;
    }
    REQUIRE(g.ended);
  }
  done = true;
}
DRIVER(references) {
  ghost g;
  parking park;
  bool done = false;
  use_refs(g, park, done);
  while (park)
    park.wake();
  REQUIRE(done);
}

// ------------------------------------------------------------------------------------------------ objects, exceptions with no consumer iterator
static dd::pmr::channel<tracked> objects(ghost& g, parking& park) {
  while (va_bool()) {
    if (va_bool())
      co_yield tracked(7);
    else {
      const tracked t(7);
      co_yield t;
      t.check();
    }
    if (va_bool())
      co_await park;
  }
  g.ended = true;
}
static client use_objects(ghost& g, parking& park, bool& done) {
  {
    dd::channel<tracked> ch = objects(g, park);
    while (tracked* t = co_await ch.next()) {
      t->check();
      REQUIRE(t->v == 7);
      tracked mine(std::move(*t));
      mine.check();
      if (va_bool())
        break;
    }
  }
  done = true;
}
DRIVER(objects) {
  ghost g;
  parking park;
  bool done = false;
  use_objects(g, park, done);
  while (park)
    park.wake();
  REQUIRE(done);
}
static dd::channel<int> fails_at_once(ghost& g) {
  g.threw = true;
  throw 1;
  co_yield 1;
}
static client leaves_exception(bool& done, ghost& g) {
  {
    auto ch = fails_at_once(g);
    int* p = co_await ch.next();
    REQUIRE(!p);
    REQUIRE(g.threw);
    REQUIRE(ch.empty());
    if (va_bool()) {
      bool raised = false;
      try {
        auto it = co_await ch.begin();
        REQUIRE(it == ch.end());
      } catch (int) {
        raised = true;
      }
      REQUIRE(raised);
      va_reach("raised by the iterator");
    } else {
      va_reach("ignored");
    }
  }
  done = true;
}
DRIVER(exception_stays_until_taken) {
  ghost g;
  bool done = false;
  leaves_exception(done, g);
  REQUIRE(done);
}

// an exception nobody took yet is not lost to a second one: the program ends
static dd::channel<int> leaf_fails() {
  throw 1;
  co_yield 1;
}
static dd::channel<int> two_failures() {
  co_yield dd::elements_of(leaf_fails());
  throw 2;
}
static client ignores_first() {
  auto ch = two_failures();
  int* p = co_await ch.next();
  REQUIRE(!p);
  REQUIRE(!ch.empty());
  bool take = va_bool();
  if (take) {
    bool first = false;
    try {
      std::rethrow_exception(ch.take_exception());
    } catch (int x) {
      first = x == 1;
    }
    REQUIRE(first);
  } else {
    va_must_terminate(1);
    va_may_terminate(1);
  }
  p = co_await ch.next();
  REQUIRE(take);
  REQUIRE(!p);
  bool second = false;
  try {
    std::rethrow_exception(ch.take_exception());
  } catch (int x) {
    second = x == 2;
  }
  REQUIRE(second);
  va_reach("both taken");
}
DRIVER(second_exception) { ignores_first(); }

// two channels consumed alternately, their producers parked anywhere: what one of them yielded stays what it is
struct side {
  ghost g;
  parking park;
};
static dd::channel<int> alternating(side& s) {
  while (va_bool()) {
    if (va_bool())
      co_await s.park;
    s.g.value = va_int();
    s.g.addr = nullptr;
    if (va_bool()) {
      const int x = s.g.value;
      co_yield x;
      REQUIRE(x == s.g.value);
    } else {
      int x = s.g.value;
      s.g.addr = &x;
      co_yield dd::by_ref{x};
      REQUIRE(x == s.g.value);
    }
  }
  s.g.ended = true;
}
static client by_turns(side* s, bool& done) {
  tracked mine(3);
  auto a = alternating(s[0]), b = alternating(s[1]);
  int* p = co_await a.next();
  int* q = co_await b.next();
  for (;;) {
    REQUIRE(!p == s[0].g.ended);
    REQUIRE(!q == s[1].g.ended);
    if (p) {
      REQUIRE(*p == s[0].g.value);
      REQUIRE(!s[0].g.addr || s[0].g.addr == p);
    }
    if (q) {
      REQUIRE(*q == s[1].g.value);
      REQUIRE(!s[1].g.addr || s[1].g.addr == q);
    }
    if (!p && !q)
      break;
    if (!q || (p && va_bool()))
      p = co_await a.next();
    else
      q = co_await b.next();
  }
  mine.check();
  done = true;
}
DRIVER(alternately) {
  side s[2];
  bool done = false;
  by_turns(s, done);
  while (s[0].park || s[1].park) {
    REQUIRE(!done);
    REQUIRE(!(s[0].park && s[1].park));
    (s[0].park ? s[0].park : s[1].park).wake();
  }
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
// two channels consumed by two coroutines, in any order
static client one_side(side& s, bool& done) {
  auto ch = alternating(s);
  while (int* p = co_await ch.next()) {
    REQUIRE(*p == s.g.value);
    REQUIRE(!s.g.ended);
  }
  REQUIRE(s.g.ended);
  done = true;
}
DRIVER(two_consumers) {
  side s[2];
  bool done[2] = {};
  one_side(s[0], done[0]);
  one_side(s[1], done[1]);
  while (s[0].park || s[1].park)
    (s[0].park && (!s[1].park || va_bool()) ? s[0].park : s[1].park).wake();
  REQUIRE(done[0] && done[1]);
  REQUIRE(va_frames() == 0);
}

// ------------------------------------------------------------------------------------------------ a long sequence
static dd::channel<int> long_body(int n, parking& park, int stop) {
  for (int i = 0; i < n; ++i) {
    if (i == stop)
      co_await park;
    if (i & 1) {
      const int c = i;
      co_yield c;
    } else
      co_yield int(i);
  }
}
static client long_consumer(parking& park, bool& done, bool iterators) {
  int k = 0;
  if (iterators) {
    co_foreach(int x, long_body(600, park, 300)) {
      REQUIRE(x == k);
      ++k;
    }
  } else {
    auto c = long_body(600, park, 300);
    while (int* p = co_await c.next()) {
      REQUIRE(*p == k);
      ++k;
    }
  }
  REQUIRE(k == 600);
  done = true;
}
DRIVER(long_sequence) {
  parking park;
  bool done = false;
  long_consumer(park, done, va_bool());
  REQUIRE(!done);
  park.wake();
  REQUIRE(done);
  REQUIRE(va_frames() == 0);
}
