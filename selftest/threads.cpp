#include <atomic>
#include <mutex>
#include <condition_variable>
#include "client.hpp"
struct S { std::atomic<int> f{0}; int data = 0; int got = 0; };
DRIVER(ok) {
  S s; va_must_finish(1);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); s.f.store(1, std::memory_order_release); s.f.notify_one(); }, &s);
  s.f.wait(0, std::memory_order_acquire);
  va_data_read(&s.data);
  va_join();
}
DRIVER(bad) {
  S s; va_must_finish(1);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); s.f.store(1, std::memory_order_relaxed); s.f.notify_one(); }, &s);
  s.f.wait(0, std::memory_order_acquire);
  va_data_read(&s.data);
  va_join();
}
DRIVER(bad_nonotify) {
  S s; va_must_finish(1);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); s.f.store(1, std::memory_order_release); }, &s);
  s.f.wait(0, std::memory_order_acquire);
  va_data_read(&s.data);
  va_join();
}
struct M { std::mutex m; std::condition_variable cv; bool ready = false; int data = 0; };
DRIVER(ok_cv) {
  M s; va_must_finish(1);
  va_spawn([](void* p) { M& s = *(M*)p; { std::lock_guard l(s.m); va_data_write(&s.data); s.ready = true; } s.cv.notify_one(); }, &s);
  { std::unique_lock l(s.m); while (!s.ready) s.cv.wait(l); va_data_read(&s.data); }
  va_join();
}
DRIVER(bad_spurious) {
  M s; va_must_finish(1);
  va_spawn([](void* p) { M& s = *(M*)p; { std::lock_guard l(s.m); va_data_write(&s.data); s.ready = true; } s.cv.notify_one(); }, &s);
  { std::unique_lock l(s.m); if (!s.ready) s.cv.wait(l); REQUIRE(s.ready); va_data_read(&s.data); }
  va_join();
}
DRIVER(bad_lost) {
  M s; va_must_finish(1);
  va_spawn([](void* p) { M& s = *(M*)p; bool n; { std::lock_guard l(s.m); va_data_write(&s.data); s.ready = true;  }  }, &s);
  { std::unique_lock l(s.m); while (!s.ready) s.cv.wait(l); va_data_read(&s.data); }
  va_join();
}
DRIVER(ok_fence) {
  S s; va_must_finish(1);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); std::atomic_thread_fence(std::memory_order_release); s.f.store(1, std::memory_order_relaxed); }, &s);
  if (s.f.load(std::memory_order_relaxed) == 1) {
    std::atomic_thread_fence(std::memory_order_acquire);
    va_data_read(&s.data);
    va_reach("seen");
  }
  va_join();
  va_data_read(&s.data);
}
DRIVER(ok_rmw3) {
  S s; va_must_finish(1);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); s.f.fetch_add(1, std::memory_order_release); }, &s);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.got); s.f.fetch_add(1, std::memory_order_acq_rel); }, &s);
  if (s.f.load(std::memory_order_acquire) == 2) {
    va_data_read(&s.data); va_data_read(&s.got);
    va_reach("seen");
  }
  va_join();
}
DRIVER(bad_rmw3) {
  S s; va_must_finish(1);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); s.f.fetch_add(1, std::memory_order_release); }, &s);
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.got); s.f.fetch_add(1, std::memory_order_acquire); }, &s);
  if (s.f.load(std::memory_order_acquire) == 2) {
    va_data_read(&s.data); va_data_read(&s.got);
    va_reach("seen");
  }
  va_join();
}
// ---- outdated values
struct B { std::atomic<int> x = 0, y = 0; bool a = true; };
template <std::memory_order St, std::memory_order Ld, bool Fence = false>
static void sb() {
  B s;
  va_spawn([](void* p) { B& s = *(B*)p; s.x.store(1, St); if (Fence) std::atomic_thread_fence(std::memory_order_seq_cst); s.a = s.y.load(Ld); }, &s);
  s.y.store(1, St);
  if (Fence) std::atomic_thread_fence(std::memory_order_seq_cst);
  bool b = s.x.load(Ld);
  va_join();
  REQUIRE(s.a || b);
}
DRIVER(bad_sb) { sb<std::memory_order_relaxed, std::memory_order_relaxed>(); }
DRIVER(bad_sb_ra) { sb<std::memory_order_release, std::memory_order_acquire>(); }
DRIVER(ok_sb) { sb<std::memory_order_seq_cst, std::memory_order_seq_cst>(); }
DRIVER(ok_sb_fence) { sb<std::memory_order_relaxed, std::memory_order_relaxed, true>(); }
// message passing through atomics only
template <std::memory_order St, std::memory_order Ld>
static void mp() {
  B s;
  va_spawn([](void* p) { B& s = *(B*)p; s.x.store(1, std::memory_order_relaxed); s.y.store(1, St); }, &s);
  if (s.y.load(Ld) == 1) {
    REQUIRE(s.x.load(std::memory_order_relaxed) == 1);
    va_reach("seen");
  }
  va_join();
}
DRIVER(ok_mp) { mp<std::memory_order_release, std::memory_order_acquire>(); }
DRIVER(bad_mp) { mp<std::memory_order_relaxed, std::memory_order_relaxed>(); }
DRIVER(bad_mp_rel) { mp<std::memory_order_release, std::memory_order_relaxed>(); }
DRIVER(ok_corr) {
  B s;
  va_spawn([](void* p) { B& s = *(B*)p; s.x.store(1, std::memory_order_relaxed); s.x.store(2, std::memory_order_relaxed); }, &s);
  int a = s.x.load(std::memory_order_relaxed);
  int b = s.x.load(std::memory_order_relaxed);
  REQUIRE(b >= a);
  if (a == 0 && b == 2)
    va_reach("both");
  va_join();
  REQUIRE(s.x.load(std::memory_order_relaxed) == 2);
}
// a stale value still carries what its writer released
DRIVER(ok_stale_acquire) {
  S s;
  va_spawn([](void* p) { S& s = *(S*)p; va_data_write(&s.data); s.f.store(1, std::memory_order_release); s.f.store(2, std::memory_order_relaxed); }, &s);
  if (s.f.load(std::memory_order_acquire) == 1) {
    va_data_read(&s.data);
    va_reach("seen");
  }
  va_join();
}
