// Everything the witnesses use: the whole public interface plus a few client types.
#pragma once
#include <kelcoro/kelcoro.hpp>
#include <kelcoro/algorithm.hpp>
#include <kelcoro/inplace_generator.hpp>
#include <kelcoro/stack_memory_resource.hpp>
#include <string>
#include <vector>
#include <tuple>
#include <variant>
#include <ranges>
#include <memory>
#include <mutex>

#define SAME(T, ...) static_assert(std::same_as<T, __VA_ARGS__>)
// awaiting EXPR yields a T (T is not void)
#define AWAITS(T, ...) { decltype(auto) awaited_ = co_await (__VA_ARGS__); SAME(T, decltype(awaited_)); (void)awaited_; }

namespace w {
struct no_default {                 // neither default constructible nor copyable
  explicit no_default(int);
  no_default(no_default&&) noexcept;
  no_default& operator=(no_default&&) noexcept;
  ~no_default();
};
struct moveonly {
  moveonly() noexcept;
  moveonly(moveonly&&) noexcept;
  moveonly& operator=(moveonly&&) noexcept;
  ~moveonly();
};
struct rich {                       // copyable, non-trivial
  rich();
  rich(const rich&);
  rich(rich&&) noexcept;
  rich& operator=(const rich&);
  rich& operator=(rich&&) noexcept;
  ~rich();
  int x;
};
struct plain {
  int a = 0, b = 0;
};
struct empty_res {
  void* allocate(std::size_t);
  void deallocate(void*, std::size_t) noexcept;
};
struct fat_res {
  int id;
  explicit fat_res(int);
  fat_res(fat_res&&) noexcept;
  fat_res(const fat_res&) noexcept;
  ~fat_res();
  void* allocate(std::size_t);
  void deallocate(void*, std::size_t) noexcept;
};
struct lazy_res {                   // not empty, default constructible: usable with *_r
  void* state = nullptr;
  void* allocate(std::size_t);
  void deallocate(void*, std::size_t) noexcept;
};
struct my_exec {
  void attach(dd::task_node*);
};
struct my_ctx {
  int started = 0;
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O>, std::coroutine_handle<T>) noexcept {}
  template <typename T>
  void on_start(std::coroutine_handle<T>) noexcept {}
  template <typename T>
  void on_end(std::coroutine_handle<T>) noexcept {}
};
template <typename T>
T&& make();
}  // namespace w
