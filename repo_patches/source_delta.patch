From 538658b8e24bb319d538c2b49f68dd0dc9683b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 01/20] fix: fixed_array remembers the resource its memory came
 from

---
 include/kelcoro/noexport/fixed_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..96b90b9 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,7 +27,8 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource())
+      : n(n), resource(&resource) {
     if (n == 0)
       return;
     arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
-- 
2.43.0


From e57403c099809e9aaa4b4e896e293bb37d3894af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 02/20] fix: dd::pmr coroutines use the resource set by
 dd::pmr::set_default_resource

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From 4810aeebd93b5fb290219a8507ae4654bea5dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 03/20] fix: generator reset/release/clear leave no stale
 result and reset attaches the new coroutine

---
 include/kelcoro/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..cf03faa 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,11 +304,14 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -320,6 +323,7 @@ struct generator : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   constexpr ~generator() {
-- 
2.43.0


From e7880eac709cfed249044f756125051e76eadabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 04/20] fix: iterator of an empty generator<nothing_t> does not
 dereference a null handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index cf03faa..4585fec 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From 74e01f63138d82d401c592eaa3f6b6340656ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 05/20] fix: channel swap/move/reset/release/clear keep the
 coroutine attached to the object which owns it

---
 include/kelcoro/channel.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..13ac895 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -220,6 +220,11 @@ struct channel : enable_resource_deduction {
   constexpr explicit channel(handle_type top) noexcept : top(top) {
   }
 
+  constexpr void attach_consumer() noexcept {
+    if (top)
+      top.promise()._consumer = this;
+  }
+
  public:
   // postcondition: empty()
   constexpr channel() noexcept = default;
@@ -238,6 +243,8 @@ struct channel : enable_resource_deduction {
     std::swap(handle, other.handle);
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    attach_consumer();
+    other.attach_consumer();
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
@@ -246,10 +253,12 @@ struct channel : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    attach_consumer();
   }
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -261,6 +270,7 @@ struct channel : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   ~channel() {
-- 
2.43.0


From 33bd9f36309b5c0b278c2bb02eae68d1fa8badcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 06/20] fix: channel_iterator::equivalent compares channels,
 owner() compiles

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 13ac895..7417596 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 1f0a6f3e3e74aa5c5c0b132c3f8f14222ebb34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 07/20] fix: expected::error() compiles

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From 0406d82753ed35c7e759a1f10bbb17be6caa5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 08/20] fix: stack_resource::reuse_memory also reuses the
 initial buffer

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From ac519fcdefedba27bd9c4b70997522d297a2f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 09/20] fix: async_task with memory resource compiles

---
 include/kelcoro/async_task.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..dc704cb 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // P may be resourced_promise
+    template <std::derived_from<async_task_promise> P>
+    bool await_suspend(std::coroutine_handle<P> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
-- 
2.43.0


From 64ce1911b435a365f3043dd3b422a0ebc6dbb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 10/20] fix: co_await this_coro::stop_token compiles in
 logical_thread with memory resource

---
 include/kelcoro/logical_thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..819f733 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // P may be resourced_promise
+    template <std::derived_from<logical_thread_promise> P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From 6b481f5968411e12c456a7f8e1bd415214e99dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 11/20] fix: co_await this_coro::operation_hash compiles

---
 include/kelcoro/operation_hash.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index e71bc98..099f21c 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -34,18 +34,23 @@ static size_t do_hash(const void* ptr) noexcept {
 }
 
 struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
-  operation_hash_t hash;
-
-  static constexpr bool await_ready() noexcept {
-    return false;
-  }
-  template <typename P>
-  constexpr bool await_suspend(std::coroutine_handle<P> handle) noexcept {
-    hash = calculate_operation_hash(handle);
-    return false;
-  }
-  constexpr operation_hash_t await_resume() noexcept {
-    return hash;
+  struct awaiter {
+    operation_hash_t hash;
+
+    static constexpr bool await_ready() noexcept {
+      return false;
+    }
+    template <typename P>
+    constexpr bool await_suspend(std::coroutine_handle<P> handle) noexcept {
+      hash = calculate_operation_hash(handle);
+      return false;
+    }
+    constexpr operation_hash_t await_resume() noexcept {
+      return hash;
+    }
+  };
+  constexpr awaiter operator co_await() const noexcept {
+    return {};
   }
 };
 
-- 
2.43.0


From 309d964a79ba0e9caedc8ae55bf1a5d6f7b67379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 12/20] fix: co_await this_coro::handle compiles in coroutines
 with memory resource

---
 include/kelcoro/common.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..286a359 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,13 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // P may be resourced_promise
+    template <typename P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
+      if constexpr (std::is_void_v<PromiseType>)
+        handle_ = handle;
+      else
+        handle_ = std::coroutine_handle<PromiseType>::from_promise(handle.promise());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
-- 
2.43.0


From 188504a7edd93a44b1a0cc40bc00393f03e8f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 13/20] fix: when_any(event...) does not touch the coroutine
 frame after it may have been resumed

---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..9e42796 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -182,6 +182,8 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
       return false;
     }
     void await_suspend(std::coroutine_handle<void> handle) {
+      // coroutine may be resumed (and *this destroyed) before all subscribed
+      auto events = events_;
       // need to allocate, because after coro resuming awaiter will die(with flag in it)
       auto count_ptr = std::make_shared<std::atomic<uint8_t>>(0);
       const auto create_cb_for = [&]<typename Input, size_t EventIndex>(
@@ -206,7 +208,7 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
         }
       };
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(events).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From cfeb07bc74820af1b60471d4d8de12bbc5bb34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 14/20] fix: latch awaiters do not touch the coroutine frame
 after it may have been resumed

---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..b088c84 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -22,11 +22,13 @@ struct latch {
       return l.ready();
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // after push coroutine may be resumed (and *this destroyed) on other thread
+      latch& lat = l;
       node.task = handle;
-      l.stack.push(&node);
+      lat.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (lat.ready())
+        lat.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -47,9 +49,12 @@ struct latch {
       return false;
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // after push coroutine may be resumed (and *this destroyed) on other thread
+      latch& lat = l;
+      const ptrdiff_t count = n;
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      lat.stack.push(&node);
+      lat.count_down(count);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From b69392a86eed88804cae6799a2023fafe1f0e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 15/20] fix: memory_support.hpp includes <utility>

---
 include/kelcoro/memory_support.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 9748b7b..2f5f568 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -2,6 +2,7 @@
 
 #include <atomic>
 #include <memory_resource>
+#include <utility>
 #include <cassert>
 
 #include "noexport/macro.hpp"
-- 
2.43.0


From bb604427d954e3440a0a56698c2bc3685f969afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 16/20] fix: ~thread_pool does not push its stop marker into a
 queue while it is still linked in another

---
 include/kelcoro/thread_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..0dec3cd 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -283,6 +283,9 @@ struct thread_pool {
       if (threads[i].joinable()) {
         queues[i].push(&pill);
         threads[i].join();
+        // thread may have been stopped by 'request_stop', then 'pill' is still here
+        // and must be removed before it is pushed into the next queue
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From 78f3028647abe20be0e753dd58e5927ab8985279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 17/20] fix: operation_hash of a channel coroutine can read
 channel_promise::root

---
 include/kelcoro/channel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 7417596..af7961b 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -18,6 +18,7 @@ struct channel_promise : not_movable {
   friend channel_iterator<Yield>;
   friend noexport::attach_leaf<channel<Yield>>;
   friend noexport::hold_value_until_resume<Yield>;
+  friend struct operation_hash<std::coroutine_handle<channel_promise>>;
 
   // invariant: root != nullptr
   channel_promise* root = this;
-- 
2.43.0


From 88291d44da362a8627141640a5c98e7b87a3ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 18/20] fix: expected cannot be copied from a non-const lvalue

---
 include/kelcoro/noexport/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index b972d9f..e6cb68c 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -29,6 +29,7 @@ struct expected {
   expected() = default;
 
   template <typename U = T>
+    requires(!std::is_same_v<std::remove_cvref_t<U>, expected>)
   expected(U&& arg) : data(std::forward<U>(arg)) {
   }
   template <typename U>
-- 
2.43.0


From 9581b08323016aef8e4c418de397f4be279d6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 19/20] fix: incrementing a channel_iterator resumes the
 coroutine which awaits the increment, not the one which awaited begin()

---
 include/kelcoro/channel.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index af7961b..46682a9 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -143,6 +143,22 @@ struct channel_iterator {
   // invariant: != nullptr, ptr for trivial copy/move
   channel<Yield>* chan;
 
+  struct increment_awaiter {
+    channel<Yield>& chan;
+
+    static constexpr bool await_ready() noexcept {
+      return false;
+    }
+    KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(
+        std::coroutine_handle<> consumer) noexcept {
+      // may be not the coroutine which awaited 'begin'
+      chan.handle = consumer;
+      return chan.top.promise().current_worker;
+    }
+    static constexpr void await_resume() noexcept {
+    }
+  };
+
  public:
   // do not resumes 'c'
   constexpr explicit channel_iterator(channel<Yield>& c KELCORO_LIFETIMEBOUND) noexcept
@@ -174,9 +190,9 @@ struct channel_iterator {
     return std::addressof(ref);
   }
   // * after invoking references to value from operator* are invalidated
-  KELCORO_CO_AWAIT_REQUIRED transfer_control_to operator++() noexcept {
+  KELCORO_CO_AWAIT_REQUIRED increment_awaiter operator++() noexcept {
     KELCORO_ASSUME(!chan->empty());
-    return transfer_control_to{chan->top.promise().current_worker};
+    return increment_awaiter{*chan};
   }
 
   // on the end of loop, when current_value == nullptr reached
-- 
2.43.0


From e0935e0cf86ffcdebfe97664e04211b6e8ff9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 20/20] fix: cancel tasks left in the queues of a thread_pool
 whose constructor fails

Threads that were started are stopped and joined, but a task that was posted
behind the stop marker's batch stayed in its queue for ever. Drain the queue after
the join, as the destructor does.
---
 include/kelcoro/thread_pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 0dec3cd..f72feb4 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -267,6 +267,7 @@ struct thread_pool {
           break;
         queues[i].push(&pill);
         threads[i].join();
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }};
     for (size_t i = 0; i < threads.size(); i++)
-- 
2.43.0

