// C25: stack_resource gives out aligned, in-bounds, disjoint memory for any sizes, and frees what it owns exactly once.
#include <kelcoro/stack_memory_resource.hpp>
#include <kelcoro/generator.hpp>
#include "client.hpp"

#ifdef VA_THOROUGH
constexpr int steps = 5;
#else
constexpr int steps = 4;
#endif

using byte = unsigned char;
static std::size_t some_size() {
  std::size_t n = va_size();
  va_assume(n >= 1);
  va_assume(n <= (std::size_t(1) << 40));
  return n;
}
// what is allocated now, in order of allocation
struct history {
  struct one {
    byte* p;
    std::size_t n;
  };
  one live[8];
  int count = 0;

  void made(void* v, std::size_t n) {
    byte* p = static_cast<byte*>(v);
    REQUIRE(p != nullptr);
    REQUIRE(va_align_of(p, dd::coroframe_align()) == 0);
    byte* block = static_cast<byte*>(va_block_of(p));
    REQUIRE(block != nullptr);
    REQUIRE(block <= p);
    REQUIRE(p + n <= block + va_size_of_block(p));
    for (int i = 0; i < count; ++i)
      if (va_block_of(live[i].p) == block)
        REQUIRE(p + n <= live[i].p || live[i].p + live[i].n <= p);
    // the user's data
    *p = 1;
    live[count++] = {p, n};
  }
  one take() {
    one x = live[--count];
    *x.p = 2;
    return x;
  }
};
static void alloc(dd::stack_resource& r, history& h) {
  std::size_t n = some_size();
  h.made(r.allocate(n), n);
}
static void free_last(dd::stack_resource& r, history& h) {
  auto x = h.take();
  r.deallocate(x.p, x.n);
}
static void free_all(dd::stack_resource& r, history& h) {
  while (h.count)
    free_last(r, h);
}
// the memory of the first allocations; belongs to the user
struct buffer {
  std::size_t n;
  byte* p;
  int blocks;
  explicit buffer(int kind) : n(0), p(nullptr) {
    if (kind == 1) {
      n = va_size();
      va_assume(n <= (std::size_t(1) << 40));
      p = new byte[n];
    }
    blocks = va_live_heap();
  }
  std::span<byte> get() const { return {p, n}; }
  // nothing else is alive
  void check() const { REQUIRE(va_live_heap() == blocks); }
  ~buffer() { delete[] p; }
};

// every history of a few steps
static void any(int kind) {
  buffer buf(kind);
  {
    history h;
    dd::stack_resource r(buf.get());
    for (int i = 0; i < steps; ++i) {
      int c = va_choice(h.count ? 3 : 1);
      if (c == 0) {
        alloc(r, h);
      } else if (c == 1) {
        free_last(r, h);
      } else {
        r.reuse_memory();
        h.count = 0;
      }
    }
    free_all(r, h);
    va_reach("done");
  }
  buf.check();
}
DRIVER(any_no_buffer) { any(0); }
DRIVER(any_buffer) { any(1); }

// filled, emptied in reverse, filled again
static void refill(int kind) {
  buffer buf(kind);
  {
    history h;
    dd::stack_resource r(buf.get());
    for (int i = 0; i < 3; ++i)
      alloc(r, h);
    int keep = va_choice(3);
    while (h.count > keep)
      free_last(r, h);
#ifdef VA_THOROUGH
    alloc(r, h);
#endif
    alloc(r, h);
    free_all(r, h);
    alloc(r, h);
    va_reach("done");
  }
  buf.check();
}
DRIVER(refill_no_buffer) { refill(0); }
DRIVER(refill_buffer) { refill(1); }

// what was given back last is given out again
static void again(int kind) {
  buffer buf(kind);
  {
    history h;
    dd::stack_resource r(buf.get());
    int k = 1 + va_choice(3);
    for (int i = 0; i < k; ++i)
      alloc(r, h);
    int blocks = va_live_heap();
    int frees = 1 + va_choice(k);
    history::one x;
    for (int i = 0; i < frees; ++i) {
      x = h.take();
      r.deallocate(x.p, x.n);
    }
    void* p = r.allocate(x.n);
    REQUIRE(p == x.p);
    REQUIRE(va_live_heap() == blocks);
    h.made(p, x.n);
    va_reach("done");
  }
  buf.check();
}
DRIVER(again_no_buffer) { again(0); }
DRIVER(again_buffer) { again(1); }

// after reuse_memory everything is available again, nothing new is needed
static void reuse(int kind) {
  buffer buf(kind);
  {
    history h;
    dd::stack_resource r(buf.get());
    int k = 1 + va_choice(3);
    for (int i = 0; i < k; ++i)
      alloc(r, h);
    if (va_bool())
      free_last(r, h);
    int blocks = va_live_heap();
    r.reuse_memory();
    REQUIRE(va_live_heap() == blocks);
    std::size_t n = h.live[va_choice(k)].n;
    h.count = 0;
    h.made(r.allocate(n), n);
    REQUIRE(va_live_heap() == blocks);
    free_last(r, h);
    alloc(r, h);
    alloc(r, h);
    va_reach("done");
  }
  buf.check();
}
DRIVER(reuse_no_buffer) { reuse(0); }
DRIVER(reuse_buffer) { reuse(1); }

// the buffer is used first, and only for what fits
DRIVER(buffer_first) {
  buffer buf(1);
  {
    history h;
    dd::stack_resource r(buf.get());
    int blocks = va_live_heap();
    std::size_t n = some_size();
    byte* p = static_cast<byte*>(r.allocate(n));
    h.made(p, n);
    if (p == buf.p) {
      REQUIRE(va_live_heap() == blocks);
      va_reach("fits");
    } else {
      REQUIRE(va_live_heap() == blocks + 1);
      va_reach("does not fit");
    }
  }
  buf.check();
}
// a move takes everything along
static void moved(int kind, bool assign) {
  buffer buf(kind);
  buffer other(1);
  int start = va_live_heap();
  {
    history h;
    dd::stack_resource a(buf.get());
    int k = va_choice(3);
    for (int i = 0; i < k; ++i)
      alloc(a, h);
    if (k && va_bool()) {
      if (va_bool()) {
        a.reuse_memory();
        h.count = 0;
      } else {
        free_last(a, h);
      }
    }
    int blocks = va_live_heap();
    auto rest = [&](dd::stack_resource& b) {
      // the source is empty
      history g;
      int n = va_live_heap();
      alloc(a, g);
      REQUIRE(va_live_heap() == n + 1);
      REQUIRE(va_block_of(g.live[0].p) != buf.p || !buf.p);
      // the other one goes on
      alloc(b, h);
      if (va_bool()) {
        free_all(b, h);
        alloc(b, h);
      } else if (va_bool()) {
        b.reuse_memory();
        h.count = 0;
        alloc(b, h);
      }
      free_all(a, g);
      va_reach("done");
    };
    if (assign) {
      dd::stack_resource b(other.get());
      history g;
      if (va_bool())
        alloc(b, g);
      b = std::move(a);
      REQUIRE(va_live_heap() == blocks);
      rest(b);
    } else {
      dd::stack_resource b(std::move(a));
      REQUIRE(va_live_heap() == blocks);
      rest(b);
    }
  }
  REQUIRE(va_live_heap() == start);
}
DRIVER(move_construct_no_buffer) { moved(0, false); }
DRIVER(move_construct_buffer) { moved(1, false); }
DRIVER(move_assign) { moved(1, true); }

// allocation failure leaves everything as it was
DRIVER(out_of_memory) {
  buffer buf(1);
  {
    history h;
    dd::stack_resource r(buf.get());
    if (va_bool())
      alloc(r, h);
    int blocks = va_live_heap();
    std::size_t n = some_size();
    va_throws(1);
    void* p = nullptr;
    try {
      p = r.allocate(n);
    } catch (const std::bad_alloc&) {
      va_reach("failed");
      REQUIRE(va_live_heap() == blocks);
    }
    va_throws(0);
    if (p)
      h.made(p, n);
    if (va_bool())
      alloc(r, h);
    free_all(r, h);
  }
  buf.check();
}

// coroutines nested like calls
static dd::generator<int> count(int n, dd::with_stack_resource r) {
  for (int i = 0; i < n; ++i)
    co_yield i;
}
DRIVER(coroutine_frames) {
  buffer buf(1);
  {
    dd::stack_resource r(buf.get());
    {
      auto a = count(1, dd::chunk_from(r));
      {
        auto b = count(2, dd::chunk_from(r));
        int k = 0;
        for (int x : b)
          REQUIRE(x == k++);
        REQUIRE(k == 2);
      }
      auto c = count(1, dd::chunk_from(r));
      for (int x : c)
        REQUIRE(x == 0);
      for (int x : a)
        REQUIRE(x == 0);
    }
    // everything is available again
    void* p = r.allocate(16);
    va_reach("done");
    r.deallocate(p, 16);
  }
  buf.check();
}

// many allocations, more than once
DRIVER(many) {
  buffer buf(0);
  {
    dd::stack_resource r(buf.get());
    void* p[14];
    for (int round = 0; round < 2; ++round) {
      for (int i = 0; i < 14; ++i) {
        p[i] = r.allocate(64 + 16 * (i % 3));
        for (int j = 0; j < i; ++j)
          REQUIRE(p[j] != p[i]);
      }
      for (int i = 14; i-- > 0;)
        r.deallocate(p[i], 64 + 16 * (i % 3));
    }
  }
  buf.check();
}
