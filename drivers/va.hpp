// Vocabulary for the analysed clients. Nothing here is ever executed: the analyser gives these functions their meaning.
#pragma once
#include <coroutine>
#include <cstddef>
#include <new>
extern "C" {
bool va_bool() noexcept;                              // unknown
int va_int() noexcept;                                // unknown
std::size_t va_size() noexcept;                       // unknown, >= 0
void* va_ptr() noexcept;                              // a fresh unknown object, not null
int va_choice(int n) noexcept;                        // 0..n-1, every value analysed separately
void va_assume(bool) noexcept;
void va_assert(bool, const char* rule) noexcept;      // obligation
void va_fail(const char* rule) noexcept;              // must be unreachable
void va_reach(const char* outcome) noexcept;          // outcome that must be possible
void va_event(const char*, const void*) noexcept;
void va_use(const void*) noexcept;
void va_stop() noexcept;                              // ends the path
void va_inject(void (*fn)(void*), void* arg) noexcept;  // another thread may make this call at any synchronisation point
void va_spawn(void (*fn)(void*), void* arg) noexcept;   // a new thread runs fn(arg), interleaved at every synchronisation operation
void va_join() noexcept;                              // waits for all other threads
void va_yield() noexcept;                             // another thread may run here
void va_release(const void*) noexcept;                // the client's own synchronisation: what happened before va_release(p) ...
void va_acquire(const void*) noexcept;                // ... is visible after a later va_acquire(p)
void va_data_write(const void*) noexcept;             // access to user data which must be ordered by the library
void va_data_read(const void*) noexcept;
void va_wait_for(const bool* flag) noexcept;          // blocks until the flag is set; no synchronisation
void va_wait_idle() noexcept;                         // blocks until every other thread is blocked; no synchronisation
void va_up_to_date() noexcept;                        // from here on atomic loads see the newest value
void va_run_threads(int) noexcept;                    // std::thread runs its function as a further thread
int va_thread_id() noexcept;
int va_pending() noexcept;
void va_run_pending();
void va_throws(int n) noexcept;                       // from here on up to n allocations/thread starts may fail
void va_may_terminate(int) noexcept;
void va_must_terminate(int) noexcept;
void va_leaks_ok() noexcept;
void va_must_finish(int) noexcept;                    // blocking forever from here on is a violation
void va_no_weak_failures() noexcept;                  // weak compare-exchanges do not fail spuriously from here on
void va_handoff(void* coroutine) noexcept;            // other thread may resume/destroy this coroutine from now on
void va_takeback(void* coroutine) noexcept;
void va_kill(void* object) noexcept;                  // the object is gone
int va_live_heap() noexcept;
int va_blocks_of(const void* memory_resource) noexcept; // live blocks allocated from it
int va_locks_held() noexcept;
int va_threads(const char* state) noexcept;           // number of threads "running" / "join" / "detach"
int va_is_suspended(void* coroutine) noexcept;
int va_frames() noexcept;                             // coroutine frames alive
std::size_t va_size_of_block(void*) noexcept;
void* va_block_of(void*) noexcept;                    // begin of the object it points into
int va_align_of(void*, std::size_t) noexcept;         // pointer modulo n, -1 if unknown
bool va_provable(bool) noexcept;
void va_set(const char*, int) noexcept;
int va_get(const char*) noexcept;
void va_inc(const char*, int) noexcept;
}
#define REQUIRE(...) va_assert(bool(__VA_ARGS__), #__VA_ARGS__)
#define DRIVER(name) extern "C" void drv_##name()

#ifdef VA_COUNT_COPIES
#define VA_COUNT(x) va_inc(x, 1)
#else
#define VA_COUNT(x) (void)0
#endif
// counts constructions and destructions; every object made must be destroyed exactly once
struct tracked {
  int v = 0;
  tracked* self = this;
  static void made() noexcept { va_inc("tracked", 1); }
  explicit tracked(int v = 0) noexcept : v(v) { made(); }
  tracked(const tracked& o) noexcept : v(o.v) { o.check(); made(); VA_COUNT("copies"); }
  tracked(tracked&& o) noexcept : v(o.v) { o.check(); made(); VA_COUNT("moves"); }
  tracked& operator=(const tracked& o) noexcept { check(); o.check(); v = o.v; return *this; }
  tracked& operator=(tracked&& o) noexcept { check(); o.check(); v = o.v; return *this; }
  void check() const noexcept { va_assert(self == this, "object used only while alive"); }
  ~tracked() { check(); self = nullptr; va_inc("tracked", -1); }
};
