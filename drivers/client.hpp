// Minimal coroutine types that play the user's part; they use nothing of the library.
#pragma once
#include <coroutine>
#include <utility>
#include "va.hpp"

// starts at once, frees itself at its end, must not throw
struct client {
  struct promise_type {
    client get_return_object() noexcept { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { va_fail("no exception escapes here"); }
  };
};

// suspends until somebody resumes the handle left in the slot
struct parking {
  std::coroutine_handle<> slot;
  struct awaiter {
    parking& p;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) noexcept {
      REQUIRE(!p.slot);
      p.slot = h;
      va_release(&p);
    }
    void await_resume() const noexcept {}
  };
  awaiter operator co_await() noexcept { return awaiter{*this}; }
  explicit operator bool() const noexcept { return bool(slot); }
  void wake() {
    va_acquire(this);
    std::exchange(slot, nullptr).resume();
  }
};

// resumed later by the driver, or at once "by another thread" while await_suspend still runs
struct anywhere : parking {
  bool inside = false;
  struct awaiter {
    anywhere& p;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) noexcept {
      REQUIRE(!p.slot);
      p.slot = h;
      va_release(&p);
      anywhere& q = p;  // the awaiter may be gone soon
      if (!q.inside && va_bool()) {
        q.inside = true;
        q.wake();
        q.inside = false;
      }
    }
    void await_resume() const noexcept {}
  };
  awaiter operator co_await() noexcept { return awaiter{*this}; }
};

// a parking place whose coroutine is resumed by another thread, which waits until somebody is parked there
struct meeting : parking {
  bool here = false;
  struct awaiter {
    meeting& p;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) noexcept {
      REQUIRE(!p.slot);
      p.slot = h;
      va_release(&p);
      p.here = true;
      va_yield();
    }
    void await_resume() const noexcept {}
  };
  awaiter operator co_await() noexcept { return awaiter{*this}; }
  // body of the other thread
  static void come(void* self) {
    meeting& m = *static_cast<meeting*>(self);
    va_wait_for(&m.here);
    m.wake();
  }
};

// a memory resource of which only the identity matters; the analyser checks that what it gave out comes back to it
#include <memory_resource>
struct resource : std::pmr::memory_resource {
  void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
  void do_deallocate(void*, std::size_t, std::size_t) override {}
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
  int live() const noexcept { return va_blocks_of(this); }
};
