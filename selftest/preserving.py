#!/usr/bin/env python3
"""Behaviour-preserving edits of the headers: every check must stay quiet on each variant.

  python3 selftest/preserving.py [VARIANT...]       (all checks on copies of /repo/include with the edits of each variant)

Every variant is a set of edits (file, old text, new text). An edit whose old text is no longer there is skipped with a note.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = {}


def variant(name, text):
    es = []
    for block in text.split("\n@@ ")[1:]:
        head, body = block.split("\n", 1)
        old, new = body.split("\n===\n")
        es.append((head.strip(), old.strip("\n"), new.strip("\n")))
    V[name] = es


variant("queue-style", """
@@ thread_pool.hpp
    std::lock_guard l{mtx};
    if (first) {
      last->next = first_;
      last = last_;
    } else {
      first = first_;
      last = last_;
===
    std::scoped_lock guard(mtx);
    const bool was_empty = first == nullptr;
    if (!was_empty)
      last->next = first_;
    else
      first = first_;
    last = last_;
    if (was_empty) {
@@ thread_pool.hpp
      not_empty.notify_one();
===
      not_empty.notify_all();
@@ thread_pool.hpp
      while (!first)
        not_empty.wait(l);
===
      not_empty.wait(l, [this] { return has_tasks(); });
@@ thread_pool.hpp
  [[nodiscard]] task_node* pop_all_nolock() noexcept {
    return std::exchange(first, nullptr);
  }
===
  [[nodiscard]] bool has_tasks() const noexcept {
    return first != nullptr;
  }
  [[nodiscard]] task_node* pop_all_nolock() noexcept {
    task_node* all = first;
    last = nullptr;
    first = nullptr;
    return all;
  }
@@ thread_pool.hpp
    task_node* tasks;
    {
      std::lock_guard l(mtx);
      tasks = pop_all_nolock();
    }
    return tasks;
===
    mtx.lock();
    task_node* tasks = pop_all_nolock();
    mtx.unlock();
    return tasks;
@@ thread_pool.hpp
    auto last_ = first_;
    while (last_->next)
      last_ = last_->next;
    push_list(first_, last_);
===
    task_node* tail = first_;
    for (task_node* n = first_->next; n != nullptr; n = n->next)
      tail = n;
    push_list(first_, tail);
@@ thread_pool.hpp
    do {
      // grab task from memory which will be invalidated after task.resume()
      task = top->task;
      // ++ before invoking a task
      top = top->next;
      if (!task) [[unlikely]]
        goto work_end;  // dead pill
      // if exception thrown, std::terminate called
      task.resume();
    } while (top);
  }
work_end:
===
    while (top) {
      task_node* cur = std::exchange(top, top->next);
      if (cur->is_deadpill()) {
        noexport::cancel_tasks(top);
        return;
      }
      std::coroutine_handle<> t = cur->task;
      t();
    }
  }
@@ thread_pool.hpp
    for (auto& q : queues)
      noexport::push_deadpill(q);
===
    for (size_t i = 0, n = queues.size(); i != n; ++i)
      (void)noexport::push_deadpill(queues[i]);
@@ thread_pool.hpp
    for (auto& t : threads)
      if (t.joinable())
        t.join();
    for (auto& q : queues)
      noexport::cancel_tasks(q.pop_all());
  }
};
===
    for (size_t i = 0; i < threads.size(); ++i) {
      if (!threads[i].joinable())
        continue;
      threads[i].join();
    }
    cancel_rest();
  }

 private:
  void cancel_rest() {
    for (task_queue* q = queues.begin(); q != queues.end(); ++q)
      noexport::cancel_tasks(q->pop_all());
  }
};
@@ thread_pool.hpp
    return queues[op_hash % queues.size()];
===
    const size_t index = op_hash % queues.size();
    return *(queues.data() + index);
@@ thread_pool.hpp
  while (top) {
    task_node* next = top->next;
    e.select_queue(hash).attach(top);
    ++hash;
    top = next;
  }
===
  for (; top; ++hash) {
    task_node* cur = top;
    top = top->next;
    task_queue& q = e.select_queue(hash);
    q.push(cur);
  }
@@ thread_pool.hpp
    task_queue& q = select_queue(calculate_operation_hash(node->task));
    q.attach(node);
===
    const operation_hash_t h = calculate_operation_hash(node->task);
    select_queue(h).attach(node);
@@ thread_pool.hpp
    for (auto& t : threads)
      if (t.get_id() == id)
        return true;
    return false;
===
    bool found = false;
    for (size_t i = 0; i < threads.size() && !found; ++i)
      found = threads[i].get_id() == id;
    return found;
@@ thread_pool.hpp
    if (!thread.joinable()) {
      noexport::cancel_tasks(queue.pop_all());
      return;
    }
    auto pill = task_node::deadpill();
    queue.push(&pill);
    thread.join();
    noexport::cancel_tasks(queue.pop_all());
===
    task_node pill = task_node::deadpill();
    if (thread.joinable()) {
      queue.push(&pill);
      thread.join();
    }
    noexport::cancel_tasks(queue.pop_all());
@@ thread_pool.hpp
    bool failed = true;

    scope_exit _{[&]() {
      if (!failed)
        return;
      task_node pill = task_node::deadpill();
      for (size_t i = 0; i < threads.size(); i++) {
        if (!threads[i].joinable())
          break;
        queues[i].push(&pill);
        threads[i].join();
        noexport::cancel_tasks(queues[i].pop_all());
      }
    }};
    for (size_t i = 0; i < threads.size(); i++)
      threads[i] = std::thread(job, std::ref(queues[i]));
    failed = false;
===
    size_t started = 0;
    try {
      for (; started < threads.size(); ++started)
        threads[started] = std::thread(job, std::ref(queues[started]));
    } catch (...) {
      while (started != 0) {
        --started;
        task_node pill = task_node::deadpill();
        queues[started].push(&pill);
        threads[started].join();
        noexport::cancel_tasks(queues[started].pop_all());
      }
      throw;
    }
""")

variant("shared-primitives", """
@@ nonowner_lockfree_stack.hpp
    value_ptr->next = top.load(relaxed);
    // after this loop this->top == value_ptr, value_ptr->next == previous value of this->top
    while (!top.compare_exchange_weak(value_ptr->next, value_ptr, acq_rel, acquire)) {
    }
===
    push_range(value_ptr, value_ptr);
@@ nonowner_lockfree_stack.hpp
    last->next = top.load(relaxed);
    while (!top.compare_exchange_weak(last->next, other_top, acq_rel, acquire)) {
    }
  }
===
    push_range(other_top, last);
  }

 private:
  void push_range(node_type* begin, node_type* end) noexcept {
    node_type* expected = top.load(acquire);
    do {
      end->next = expected;
    } while (!top.compare_exchange_strong(expected, begin, seq_cst, acquire));
  }
@@ nonowner_lockfree_stack.hpp
    auto* last = other_top;
    while (last->next)
      last = last->next;
===
    node_type* last = other_top;
    for (; last->next != nullptr; last = last->next) {
    }
@@ nonowner_lockfree_stack.hpp
    return top.exchange(nullptr, acq_rel);
===
    node_type* all = top.exchange(nullptr);
    return all;
@@ latch.hpp
    return counter.load(std::memory_order::acquire) == 0;
===
    const ptrdiff_t now = counter.load();
    return !(now != 0);
@@ latch.hpp
    ptrdiff_t c = counter.fetch_sub(n, std::memory_order::acq_rel);
    assert(c >= n && "precondition violated");
    if (c == n) [[unlikely]]
      wakeup_all();
===
    const ptrdiff_t before = counter.fetch_add(-n, std::memory_order::seq_cst);
    assert(before >= n && "precondition violated");
    if (before - n > 0) [[likely]]
      return;
    wakeup_all();
@@ latch.hpp
      latch& lat = l;
      node.task = handle;
      lat.stack.push(&node);
      // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
      if (lat.ready())
        lat.wakeup_all();
===
      latch& lat = l;
      lat.add_waiter(node, handle);
      // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
      if (!lat.ready())
        return;
      lat.wakeup_all();
@@ latch.hpp
      const ptrdiff_t count = n;
      node.task = handle;
      lat.stack.push(&node);
      lat.count_down(count);
===
      const ptrdiff_t count = n;
      lat.add_waiter(node, handle);
      lat.count_down(count);
@@ latch.hpp
 private:
  void wakeup_all() noexcept {
    task_node* top = stack.try_pop_all();
    attach_list(exe, top);
  }
===
 private:
  void add_waiter(task_node& node, std::coroutine_handle<> h) noexcept {
    node.task = h;
    stack.push(std::addressof(node));
  }
  void wakeup_all() noexcept {
    any_executor_ref e = exe;
    task_node* top = stack.try_pop_all();
    while (top != nullptr) {
      task_node* cur = std::exchange(top, top->next);
      e.attach(cur);
    }
  }
@@ executor_interface.hpp
  while (top) {
    task_node* next = top->next;
    e.attach(top);
    top = next;
  }
===
  for (task_node* cur = top; cur != nullptr;) {
    task_node* const following = cur->next;
    e.attach(std::exchange(cur, following));
  }
@@ executor_interface.hpp
    task_node* next = std::exchange(top->next, prev);
    prev = std::exchange(top, next);
===
    task_node* next = top->next;
    top->next = prev;
    prev = top;
    top = next;
@@ executor_interface.hpp
    T& exe = *static_cast<T*>(e);
    exe.attach(node);
===
    static_cast<T*>(e)->attach(node);
@@ executor_interface.hpp
    std::thread([node]() mutable { node->task.resume(); }).detach();
===
    std::thread t([h = node->task] { h.resume(); });
    t.detach();
@@ executor_interface.hpp
    // set task before it is attached
    task = handle;
    e.attach(this);
===
    this->task = handle;
    task_node* self = this;
    e.attach(self);
@@ events.hpp
    task_node* top = subscribers.try_pop_all();
    if (!top)
      return false;
    // TODO not ignore possible exception from 'attach'
    attach_list(exe, top);
    return true;
===
    if (task_node* top = subscribers.try_pop_all()) {
      attach_list(exe, top);
      return true;
    }
    return false;
@@ events.hpp
    while (top) {
      static_cast<subscribe*>(top)->input = input;
      task_node* next = top->next;
      exe.attach(top);
      top = next;
    }
    return true;
===
    do {
      subscribe* cur = static_cast<subscribe*>(top);
      top = cur->next;
      cur->input = input;
      exe.attach(cur);
    } while (top != nullptr);
    return true;
@@ events.hpp
          return [this, handle] {
            // count_ declared here and not in [ ] of lambda because of MSVC BUG
            auto count_ = std::atomic_ref(this->count);
            if (count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1)
              handle.resume();
          };
===
          return [this, handle] { one_more(handle); };
@@ events.hpp
            auto count_ = std::atomic_ref(this->count);
            std::get<EventIndex>(this->input) = std::move(input_);
            if (count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1)
              handle.resume();
===
            std::get<EventIndex>(this->input) = std::move(input_);
            one_more(handle);
@@ events.hpp
    bool await_ready() const noexcept {
      return false;
    }
    void await_suspend(std::coroutine_handle<void> handle) {
      const auto create_cb_for
===
    void one_more(std::coroutine_handle<> handle) {
      const uint8_t total = sizeof...(Inputs);
      auto counter = std::atomic_ref(count);
      const uint8_t now = counter.fetch_add(1) + 1;
      if (now == total)
        handle.resume();
    }
    bool await_ready() const noexcept {
      return false;
    }
    void await_suspend(std::coroutine_handle<void> handle) {
      const auto create_cb_for
""")

variant("owners", """
@@ async_task.hpp
      p.ready.exchange(true, std::memory_order::acq_rel);
      p.ready.notify_one();
===
      p.publish();
@@ async_task.hpp
 private:
  struct destroy_if_consumer_dead_t {
===
 private:
  void publish() noexcept {
    ready.store(true, std::memory_order::release);
    ready.notify_all();
  }
  struct destroy_if_consumer_dead_t {
@@ async_task.hpp
      bool im_last_owner = p.ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1;
      return !im_last_owner;
===
      const auto owners_before = p.ref_count.fetch_sub(1, std::memory_order::seq_cst);
      return owners_before != 1;
@@ async_task.hpp
    if (!empty())
      handle.promise().ready.wait(false, std::memory_order::acquire);
===
    if (empty())
      return;
    auto& p = handle.promise();
    while (!p.ready.load(std::memory_order::acquire))
      p.ready.wait(false, std::memory_order::acquire);
@@ async_task.hpp
    if (empty())
      return;
    if (handle.promise().ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1)
      handle.destroy();
    handle = nullptr;
===
    handle_type h = std::exchange(handle, nullptr);
    if (!h)
      return;
    const bool last = --h.promise().ref_count == 0;
    if (last)
      h.destroy();
@@ async_task.hpp
    auto& promise = handle.promise();
    if (promise.exception) [[unlikely]]
      std::rethrow_exception(promise.exception);
    return promise.result();
===
    promise_type* p = std::addressof(handle.promise());
    if (p->exception == nullptr) [[likely]]
      return p->result();
    std::rethrow_exception(p->exception);
@@ logical_thread.hpp
    bool informed = !flag.exchange(true, std::memory_order::acq_rel);
    if (informed)
      flag.notify_one();
    return informed;
===
    bool expected = false;
    if (!flag.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::acquire))
      return false;
    flag.notify_all();
    return true;
@@ logical_thread.hpp
    flag.wait(false, std::memory_order::acquire);
===
    while (!flag.load(std::memory_order::acquire))
      flag.wait(false);
@@ logical_thread.hpp
    try_cancel_and_join();
    handle_ = std::exchange(other.handle_, nullptr);
    return *this;
===
    try_cancel_and_join();
    std::swap(handle_, other.handle_);
    return *this;
@@ logical_thread.hpp
    // created here for nrvo
    handle_.promise().stopped.wait();
    assert(handle_.done());
    handle_.destroy();
    handle_ = nullptr;
===
    auto h = handle_;
    h.promise().stopped.wait();
    assert(h.done());
    handle_ = nullptr;
    h.destroy();
@@ logical_thread.hpp
    if (!handle_.promise().stopped.try_inform()) [[unlikely]]
      handle_.destroy();
    handle_ = nullptr;
===
    const handle_type h = std::exchange(handle_, handle_type(nullptr));
    const bool will_die_itself = h.promise().stopped.try_inform();
    if (will_die_itself)
      return;
    h.destroy();
@@ logical_thread.hpp
    handle_.promise().stop_requested_.store(true, std::memory_order::release);
    return true;
===
    std::atomic_bool& flag = handle_.promise().stop_requested_;
    (void)flag.exchange(true);
    return true;
@@ logical_thread.hpp
    if (joinable()) {
      request_stop();
      join();
    }
===
    if (request_stop())
      join();
@@ logical_thread.hpp
  ((args.request_stop()), ...);
  ((args.join()), ...);
===
  auto ask = [](auto& x) { x.request_stop(); };
  auto wait = [](auto& x) { x.join(); };
  (ask(args), ...);
  (wait(args), ...);
@@ logical_thread.hpp
  for (auto& value : rng)
    value.request_stop();
  for (auto& value : rng)
    value.join();
===
  const auto e = std::ranges::end(rng);
  for (auto it = std::ranges::begin(rng); it != e; ++it)
    it->request_stop();
  for (auto it = std::ranges::begin(rng); it != e; ++it)
    it->join();
@@ task.hpp
    if (exception) [[unlikely]]
      std::rethrow_exception(exception);
    return this->result();
===
    if (exception == nullptr)
      return this->result();
    std::rethrow_exception(exception);
@@ task.hpp
    ctx.on_end(self_handle());
    return transfer_control_to{who_waits};
===
    auto self = self_handle();
    ctx.on_end(self);
    std::coroutine_handle<> next = who_waits;
    return transfer_control_to{next};
@@ task.hpp
    std::swap(handle_, other.handle_);
    return *this;
===
    handle_type mine = handle_;
    handle_ = other.handle_;
    other.handle_ = mine;
    return *this;
@@ task.hpp
    if (handle_)
      handle_.destroy();
===
    if (!empty())
      release().destroy();
@@ task.hpp
    promise.who_waits = owner;
    promise.ctx.on_owner_setted(owner, task_handle);
    promise.ctx.on_start(task_handle);
===
    auto& ctx = promise.ctx;
    ctx.on_owner_setted(owner, task_handle);
    promise.who_waits = std::coroutine_handle<>(owner);
    ctx.on_start(task_handle);
@@ task.hpp
    if (handle_.done()) {
      // fast path without creating a coroutine
      return handle_.promise().result_or_rethrow();
    }
    return [](task t)
===
    if (auto& p = handle_.promise(); handle_.done())
      return p.result_or_rethrow();
    return [](task t)
@@ task.hpp
    if (!handle_)
      return nullptr;
    handle_type h = detach();
    if (h.done()) {
      if (!stop_at_end) {
        h.destroy();
        return nullptr;
      }
      return h;
    }
    // task resumes itself at end and destroys itself or just stops with noop_coroutine
    h.promise().who_waits = stop_at_end ? std::noop_coroutine() : std::coroutine_handle<>(nullptr);
    h.promise().ctx.on_start(h);
    h.resume();
    return h;
===
    handle_type h = detach();
    if (!h)
      return h;
    if (h.done()) {
      if (stop_at_end)
        return h;
      h.destroy();
      return nullptr;
    }
    promise_type& p = h.promise();
    if (stop_at_end)
      p.who_waits = std::noop_coroutine();
    else
      p.who_waits = nullptr;
    p.ctx.on_start(h);
    h.resume();
    return h;
@@ job.hpp
    return job{std::coroutine_handle<job_promise>::from_promise(*this)};
===
    auto h = std::coroutine_handle<job_promise>::from_promise(*this);
    job j;
    j.handle = h;
    return j;
""")

variant("algorithms", """
@@ algorithm.hpp
  co_await child.wait_with_proxy_owner(owner);

  if (child.raw_handle().promise().exception) [[unlikely]]
    result.data.template emplace<1>(child.raw_handle().promise().exception);
  else {
    if constexpr (!std::is_void_v<T>) {
      result.data.template emplace<0>(child.raw_handle().promise().result());
    } else {
      result.data.template emplace<0>();
    }
  }
  size_t i = count.fetch_sub(1, std::memory_order_acq_rel);
  if (i == 1)  // im last, now 'count' == 0
    co_await this_coro::destroy_and_transfer_control_to(owner);
===
  co_await child.wait_with_proxy_owner(owner);
  auto& promise = child.raw_handle().promise();
  const bool failed = promise.exception != nullptr;
  if (failed) {
    std::exception_ptr e = promise.exception;
    result.data.template emplace<1>(std::move(e));
  } else if constexpr (std::is_void_v<T>) {
    result.data.template emplace<0>();
  } else {
    result.data.template emplace<0>(promise.result());
  }
  const bool last = --count == 0;
  if (!last)
    co_return;
  co_await this_coro::destroy_and_transfer_control_to(owner);
@@ algorithm.hpp
    std::lock_guard l(mtx);
    if (!owner)  // do not overwrite value, if set_result setted
      return nullptr;
    result.template emplace<I>(unexpected(std::move(p)));
    --count_waiters;
    // returns true only if all tasks ended with exception
    return count_waiters == 0 ? owner : nullptr;
===
    std::lock_guard<std::mutex> lock(mtx);
    const bool decided = owner == nullptr;
    if (decided)
      return nullptr;
    result.template emplace<I>(unexpected(std::move(p)));
    if (--count_waiters != 0)
      return nullptr;
    return owner;
@@ algorithm.hpp
    std::lock_guard l(mtx);
    if (!owner)
      return nullptr;
    result.template emplace<I>(std::forward<Args>(args)...);
    return std::exchange(owner, nullptr);
===
    std::lock_guard<std::mutex> lock(mtx);
    std::coroutine_handle<> who = owner;
    if (who) {
      result.template emplace<I>(std::forward<Args>(args)...);
      owner = nullptr;
    }
    return who;
@@ algorithm.hpp
    size_t i = 0;
    for (auto& task : tasks)
      noexport::job_for_when_all(task, when_all_handle, results[i++], count);
===
    const size_t n = tasks.size();
    for (size_t k = 0; k != n; ++k) {
      auto& child = tasks[k];
      auto& where = results[k];
      (void)noexport::job_for_when_all(child, when_all_handle, where, count);
    }
@@ algorithm.hpp
      job jobs[] = {noexport::job_for_when_any<Is + 1>(std::move(tasks), guard)...};
      // must not throw
      for (job& j : jobs)
        j.handle.resume();
===
      job jobs[sizeof...(Is)] = {noexport::job_for_when_any<Is + 1>(std::move(tasks), guard)...};
      for (size_t k = 0; k < sizeof...(Is); ++k)
        jobs[k].handle.resume();
@@ algorithm.hpp
  std::shared_ptr state_s = state.lock();
  if (!state_s)  // no one waits
    co_return;
===
  auto state_s = state.lock();
  if (state_s == nullptr)
    co_return;
@@ algorithm.hpp
  if (owner)
    co_await this_coro::destroy_and_transfer_control_to(owner);
}

}  // namespace noexport
===
  if (!owner)
    co_return;
  state_s.reset();
  co_await this_coro::destroy_and_transfer_control_to{owner};
}

}  // namespace noexport
@@ common.hpp
    storage.emplace(std::forward<U>(value));
===
    storage.reset();
    storage.emplace(std::forward<U>(value));
@@ common.hpp
    return std::move(*storage);
===
    T& value = storage.value();
    return static_cast<T&&>(value);
@@ common.hpp
    auto w = who_waits;
    self.destroy();
    return w ? w : std::noop_coroutine();  // symmetric transfer here
===
    std::coroutine_handle<> next = std::noop_coroutine();
    if (who_waits)
      next = who_waits;
    self.destroy();
    return next;
@@ common.hpp
    ctx = std::addressof(h.promise().ctx);
      return false;
===
    auto& promise = h.promise();
      ctx = &promise.ctx;
      return false;
@@ noexport/expected.hpp
    return std::holds_alternative<value_type>(data);
===
    return data.index() == 0;
@@ noexport/expected.hpp
    assert(!has_value());
    return *std::get_if<1>(&data);
  }
  // precondition: !has_value()
  const E& error() const noexcept {
===
    assert(!has_value());
    return std::get<1>(data);
  }
  // precondition: !has_value()
  const E& error() const noexcept {
@@ noexport/fixed_array.hpp
    std::swap(arr, rhs.arr);
    std::swap(n, rhs.n);
    std::swap(resource, rhs.resource);
    return *this;
===
    std::swap(resource, rhs.resource);
    std::swap(n, rhs.n);
    std::swap(arr, rhs.arr);
    return *this;
@@ noexport/fixed_array.hpp
    if (n == 0)
      return;
    arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
    std::uninitialized_default_construct_n(arr, n);
===
    if (n != 0) {
      void* bytes = resource.allocate(n * sizeof(T), alignof(T));
      arr = static_cast<T*>(bytes);
      for (size_t i = 0; i < n; ++i)
        ::new (static_cast<void*>(arr + i)) T;
    }
@@ noexport/fixed_array.hpp
    if (arr) {
      std::destroy_n(arr, n);
      // assume noexcept
      resource->deallocate(arr, sizeof(T) * n, alignof(T));
    }
===
    if (arr == nullptr)
      return;
    for (T* p = arr; p != arr + n; ++p)
      std::destroy_at(p);
    resource->deallocate(arr, n * sizeof(T), alignof(T));
@@ operation_hash.hpp
  size_t val = fnv_offset_basis;
  const unsigned char* bytes = reinterpret_cast<const unsigned char*>(&ptr);
  for (int i = 0; i < sizeof(void*); ++i) {
    val ^= static_cast<size_t>(bytes[i]);
    val *= fnv_prime;
  }
  return val;
===
  unsigned char bytes[sizeof(void*)];
  __builtin_memcpy(bytes, &ptr, sizeof(ptr));
  size_t val = fnv_offset_basis;
  for (unsigned char b : bytes)
    val = (val ^ b) * fnv_prime;
  return val;
@@ operation_hash.hpp
    return noexport::do_hash(handle.address());
===
    const void* frame = handle.address();
    return noexport::do_hash(frame);
""")

variant("generators", """
@@ generator.hpp
    if constexpr (!std::is_same_v<nothing_t, Yield>) {
      root->_consumer->current_result = p;
    }
===
    if constexpr (!std::is_same_v<nothing_t, Yield>) {
      generator<Yield>& consumer = *root->_consumer;
      consumer.current_result = p;
    }
@@ generator.hpp
      if (p.root != &p) {
        p.skip_this_leaf();
        return p.owner();
      }
      p.set_result(nullptr);
      return std::noop_coroutine();
===
      const bool is_root = p.root == std::addressof(p);
      if (is_root) {
        p.set_result(nullptr);
        return std::noop_coroutine();
      }
      handle_type next = p.owner();
      p.skip_this_leaf();
      return next;
@@ generator.hpp
    if (root != this)
      skip_this_leaf();
    set_result(nullptr);
    throw;
===
    set_result(nullptr);
    if (this != root)
      skip_this_leaf();
    throw;
@@ generator.hpp
    owner_p.root = root;
    root->current_worker = _owner;
===
    auto* r = root;
    r->current_worker = _owner;
    owner_p.root = r;
@@ generator.hpp
    std::swap(current_result, other.current_result);
    std::swap(top, other.top);
    if (top)
      prepare_to_start();
    if (other.top)
      other.prepare_to_start();
===
    handle_type mine = top;
    top = other.top;
    other.top = mine;
    std::swap(current_result, other.current_result);
    for (generator* g : {&other, this})
      if (g->top)
        g->prepare_to_start();
@@ generator.hpp
    if (top) {
      top.destroy();
      top = nullptr;
      current_result = nullptr;
    }
===
    if (handle_type h = release())
      h.destroy();
@@ generator.hpp
    iterator it(*this);
    if (!empty()) [[likely]]
      ++it;
    return it;
===
    if (empty())
      return iterator(*this);
    return ++iterator(*this);
@@ generator.hpp
    return !top || top.done();
===
    if (top)
      return top.done();
    return true;
@@ generator.hpp
  void operator++(int) {
    ++(*this);
  }
===
  void operator++(int) {
    operator++();
  }
@@ noexport/generators_common.hpp
    auto& leaf_p = leaf.top.promise();
    auto& root_p = *owner.promise().root;
    leaf_p.current_worker.promise().root = &root_p;
    leaf_p._owner = owner;
    root_p.current_worker = leaf_p.current_worker;
    return leaf_p.current_worker;
===
    auto* root = owner.promise().root;
    auto& leaf_p = leaf.top.promise();
    auto worker = leaf_p.current_worker;
    leaf_p._owner = owner;
    root->current_worker = worker;
    worker.promise().root = root;
    return worker;
@@ noexport/generators_common.hpp
    for (auto&& x : rng)
      co_yield static_cast<Y&&>(std::forward<decltype(x)>(x));
===
    using std::begin;
    using std::end;
    auto&& first = begin(rng);
    auto&& last = end(rng);
    for (; first != last; ++first) {
      auto&& x = *first;
      co_yield static_cast<Y&&>(std::forward<decltype(x)>(x));
    }
@@ channel.hpp
      if (p.root != &p) {
        p.skip_this_leaf();
        return p.owner();
      }
      p.set_result(nullptr);
      return p.consumer_handle();
===
      if (p.root == &p) {
        auto who = p.consumer_handle();
        p.set_result(nullptr);
        return who;
      }
      auto up = p.owner();
      p.skip_this_leaf();
      return up;
@@ channel.hpp
    if (root != this)
      skip_this_leaf();
===
    if (this != root) {
      skip_this_leaf();
    }
@@ channel.hpp
    set_exception(std::current_exception());  // notify root->consumer about exception
    _consumer = root->_consumer;              // 'final_suspend' will 'set_result' through root->consumer
    root = this;                              // force final suspend return into consumer
===
    channel<Yield>* c = root->_consumer;
    c->exception = std::current_exception();
    root = this;
    _consumer = c;
@@ channel.hpp
    std::swap(current_result, other.current_result);
    std::swap(handle, other.handle);
    std::swap(top, other.top);
    std::swap(exception, other.exception);
    attach_consumer();
    other.attach_consumer();
===
    std::swap(top, other.top);
    other.attach_consumer();
    attach_consumer();
    std::swap(exception, other.exception);
    std::swap(handle, other.handle);
    std::swap(current_result, other.current_result);
@@ channel.hpp
    if (chan->exception) [[unlikely]]
      std::rethrow_exception(chan->take_exception());
===
    if (std::exception_ptr e = chan->take_exception(); e != nullptr)
      std::rethrow_exception(std::move(e));
@@ channel.hpp
    [[nodiscard]] std::add_pointer_t<Yield> await_resume() const noexcept {
      return self.current_result;  // nullptr if empty
    }
===
    [[nodiscard]] std::add_pointer_t<Yield> await_resume() const noexcept {
      auto* p = self.current_result;
      return p;
    }
@@ channel.hpp
    if (top) {
      top.destroy();
      top = nullptr;
      current_result = nullptr;
    }
===
    if (!top)
      return;
    current_result = nullptr;
    handle_type h = std::exchange(top, nullptr);
    h.destroy();
@@ inplace_generator.hpp
    std::coroutine_handle<inplace_generator_promise<Yield>>::from_promise(*self).resume();
===
    auto h = std::coroutine_handle<inplace_generator_promise<Yield>>::from_promise(*self);
    h.resume();
@@ inplace_generator.hpp
  constexpr inplace_generator(inplace_generator&& other) noexcept : top(other.top) {
    // assume not allocates (noexcept)
    other.top = empty_generator().handle;
  }
===
  constexpr inplace_generator(inplace_generator&& other) noexcept : top(empty_generator().handle) {
    swap(other);
  }
""")

variant("memory", """
@@ memory_support.hpp
    if constexpr (std::is_empty_v<R>)
      return (void*)r.allocate(frame_sz);
    else {
      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
      new (p + frame_sz) R(std::move(r));
      return p;
    }
===
    if constexpr (std::is_empty_v<R>) {
      void* p = r.allocate(frame_sz);
      return p;
    } else {
      const size_t where = resource_offset(frame_sz);
      void* p = r.allocate(where + sizeof(R));
      std::construct_at((R*)(static_cast<std::byte*>(p) + where), std::move(r));
      return p;
    }
@@ memory_support.hpp
 private:
  static void* do_allocate(size_t frame_sz, R& r) {
===
 private:
  static constexpr size_t resource_offset(size_t frame_sz) noexcept {
    return (frame_sz + alignof(R) - 1) / alignof(R) * alignof(R);
  }
  static void* do_allocate(size_t frame_sz, R& r) {
@@ memory_support.hpp
      if constexpr (std::is_trivially_destructible_v<R>) {
        onframe_resource->deallocate(ptr, frame_sz + sizeof(R));
      } else {
        // save to stack from deallocated memory
        R r = std::move(*onframe_resource);
        std::destroy_at(onframe_resource);
        r.deallocate(ptr, frame_sz + sizeof(R));
      }
===
      const size_t total = frame_sz + sizeof(R);
      R r = std::move(*onframe_resource);
      onframe_resource->~R();
      r.deallocate(ptr, total);
@@ memory_support.hpp
    if (!passed)
      passed = default_resource().load(std::memory_order_acquire);
    assert(passed != nullptr);
===
    if (passed == nullptr)
      passed = default_resource();
    assert(passed != nullptr);
@@ memory_support.hpp
  polymorphic_resource::passed_resource() = &m;
===
  std::pmr::memory_resource*& slot = polymorphic_resource::passed_resource();
  slot = std::addressof(m);
@@ memory_support.hpp
    return new char[sz];
  }
  static void deallocate(void* p, std::size_t) noexcept {
    delete[] static_cast<char*>(p);
===
    return ::operator new(sz);
  }
  static void deallocate(void* p, std::size_t) noexcept {
    ::operator delete(p);
@@ stack_memory_resource.hpp
      while (c) {
        assert(c->b == c->m);
        if (c->capacity() >= bytes) {
          if (prev)
            prev->freelist_next = c->freelist_next;
          else
            top = c->freelist_next;
          c->freelist_next = nullptr;
          assert(count() == sz_before - 1);
          return c;
        }
        prev = c;
        c = c->freelist_next;
      }
      return nullptr;
===
      for (chunk_header** link = &top; *link; link = &(*link)->freelist_next) {
        c = *link;
        assert(c->b == c->m);
        if (bytes > c->capacity())
          continue;
        *link = std::exchange(c->freelist_next, nullptr);
        assert(count() == sz_before - 1);
        return c;
      }
      (void)prev;
      return nullptr;
@@ stack_memory_resource.hpp
      while (top) {
        chunk_header* next = top->freelist_next;
        delete[] (byte_t*)top;
        top = next;
      }
===
      for (chunk_header* c = std::exchange(top, nullptr); c != nullptr;) {
        byte_t* bytes = reinterpret_cast<byte_t*>(c);
        c = c->freelist_next;
        delete[] bytes;
      }
@@ stack_memory_resource.hpp
    b = std::exchange(chunk->b, b);
    m = std::exchange(chunk->m, m);
    e = std::exchange(chunk->e, e);
    freelist.push(chunk);
===
    std::swap(e, chunk->e);
    std::swap(m, chunk->m);
    std::swap(b, chunk->b);
    freelist.push(chunk);
@@ stack_memory_resource.hpp
    if (e - m >= len)
      return std::exchange(m, m + len);
===
    if (static_cast<size_t>(e - m) >= len) {
      byte_t* result = m;
      m += len;
      return result;
    }
@@ stack_memory_resource.hpp
    return bytes + noexport::padding_len<dd::coroframe_align()>(bytes);
===
    constexpr std::size_t align = dd::coroframe_align();
    return (bytes + (align - 1)) / align * align;
@@ stack_memory_resource.hpp
    while ((byte_t*)ptr != m - len) {
      assert(ptr <= b || ptr >= e);
      drop_cur_chunk();
    }
    m -= len;
===
    for (;;) {
      byte_t* begin_of_last = m - len;
      if (begin_of_last == static_cast<byte_t*>(ptr))
        break;
      drop_cur_chunk();
    }
    m = static_cast<byte_t*>(ptr);
""")

variant("growth", """
@@ stack_memory_resource.hpp
      const size_t alloc_bytes = (len + (e - b) + initial_buffer.size()) * 2;
===
      const size_t alloc_bytes = std::max<size_t>(len, 256);
""")

variant("growth-doubling", """
@@ stack_memory_resource.hpp
      const size_t alloc_bytes = (len + (e - b) + initial_buffer.size()) * 2;
===
      const size_t alloc_bytes = std::max<size_t>(len, size_t(e - b) * 2);
@@ stack_memory_resource.hpp
    return bytes + noexport::padding_len<dd::coroframe_align()>(bytes);
===
    return (bytes + dd::coroframe_align() - 1) & ~(dd::coroframe_align() - 1);
""")

variant("exotic", """
@@ logical_thread.hpp
  std::atomic_bool flag = false;

 public:
===
  std::atomic_flag flag;

 public:
@@ logical_thread.hpp
    bool informed = !flag.exchange(true, std::memory_order::acq_rel);
===
    bool informed = !flag.test_and_set(std::memory_order::acq_rel);
@@ logical_thread.hpp
    flag.store(false, std::memory_order::release);
===
    flag.clear(std::memory_order::release);
@@ logical_thread.hpp
    handle_.promise().stop_requested_.store(true, std::memory_order::release);
===
    std::atomic_thread_fence(std::memory_order::release);
    handle_.promise().stop_requested_.store(true, std::memory_order::relaxed);
@@ logical_thread.hpp
    return stop_state_->load(std::memory_order::acquire);
===
    const bool asked = stop_state_->load(std::memory_order::relaxed);
    std::atomic_thread_fence(std::memory_order::acquire);
    return asked;
@@ async_task.hpp
    return handle.promise().ready.load(std::memory_order::acquire);
===
    if (!handle.promise().ready.load(std::memory_order::relaxed))
      return false;
    std::atomic_thread_fence(std::memory_order::acquire);
    return true;
@@ async_task.hpp
      bool im_last_owner = p.ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1;
      return !im_last_owner;
===
      if (p.ref_count.fetch_sub(1, std::memory_order::release) != 1)
        return true;
      std::atomic_thread_fence(std::memory_order::acquire);
      return false;
@@ thread_pool.hpp
    std::lock_guard l{mtx};
    if (first) {
===
    std::unique_lock l(mtx, std::defer_lock);
    l.lock();
    if (first) {
@@ thread_pool.hpp
      std::unique_lock l(mtx);
      while (!first)
        not_empty.wait(l);
===
      mtx.lock();
      std::unique_lock l(mtx, std::adopt_lock);
      for (;;) {
        if (first)
          break;
        not_empty.wait(l);
      }
@@ thread_pool.hpp
  noexport::fixed_array<std::thread> threads;  // invariant: size > 0
===
  std::pmr::vector<std::thread> threads;  // invariant: size > 0
@@ thread_pool.hpp
threads(std::max<size_t>(1, thread_count), r) {
===
threads(std::max<size_t>(1, thread_count), &r) {
@@ thread_pool.hpp
#include <mutex>
===
#include <mutex>
#include <vector>
#include <algorithm>
@@ thread_pool.hpp
    for (auto& t : threads)
      if (t.get_id() == id)
        return true;
    return false;
===
    return std::ranges::find(threads, id, [](const std::thread& t) { return t.get_id(); }) != threads.end();
@@ thread_pool.hpp
    task_node* tasks;
    {
      std::lock_guard l(mtx);
      tasks = pop_all_nolock();
    }
    return tasks;
===
    return [this] {
      std::lock_guard l(mtx);
      return pop_all_nolock();
    }();
@@ latch.hpp
    if (c == n) [[unlikely]]
      wakeup_all();
===
    [[maybe_unused]] std::ptrdiff_t rest = c - n;
    switch (rest) {
      case 0:
        wakeup_all();
        break;
      default:
        break;
    }
@@ events.hpp
    uint8_t count;
===
    std::atomic<uint32_t> count = 0;
@@ events.hpp
            // count_ declared here and not in [ ] of lambda because of MSVC BUG
            auto count_ = std::atomic_ref(this->count);
===
            auto& count_ = this->count;
@@ events.hpp
            auto count_ = std::atomic_ref(this->count);
===
            auto& count_ = this->count;
@@ events.hpp
      auto count_ptr = std::make_shared<std::atomic<uint8_t>>(0);
===
      std::shared_ptr<std::atomic<uint8_t>> count_ptr(new std::atomic<uint8_t>(0));
@@ algorithm.hpp
      job jobs[] = {noexport::job_for_when_any<Is + 1>(std::move(tasks), guard)...};
      // must not throw
      for (job& j : jobs)
        j.handle.resume();
===
      std::vector<job> jobs;
      jobs.reserve(sizeof...(Is));
      (jobs.push_back(noexport::job_for_when_any<Is + 1>(std::move(tasks), guard)), ...);
      for (job& j : jobs)
        j.handle.resume();
@@ algorithm.hpp
  co_await child.wait();
  std::shared_ptr state_s = state.lock();
===
  co_await child.wait();
  std::shared_ptr<when_any_state<Ts...>> state_s(state.lock());
@@ task.hpp
  ~task() {
    if (handle_)
      handle_.destroy();
  }
===
  struct destroyer {
    void operator()(void* p) const {
      handle_type::from_address(p).destroy();
    }
  };
  ~task() {
    std::unique_ptr<void, destroyer> owned(handle_.address());
    handle_ = nullptr;
  }
@@ nonowner_lockfree_stack.hpp
    return top.exchange(nullptr, acq_rel);
===
    node_type* all = top.load(relaxed);
    while (!top.compare_exchange_weak(all, nullptr, acq_rel, relaxed)) {
    }
    return all;
@@ noexport/fixed_array.hpp
    if (arr) {
      std::destroy_n(arr, n);
      // assume noexcept
      resource->deallocate(arr, sizeof(T) * n, alignof(T));
    }
===
    if (!arr)
      return;
    std::pmr::polymorphic_allocator<T> alloc(resource);
    std::destroy(begin(), end());
    alloc.deallocate(arr, n);
""")

# a statement that does nothing in every function body that starts on a line of its own, a comment at the end of every file
NOISE = "noise"
V[NOISE] = []


def tree(name):
    d = tempfile.mkdtemp(prefix="preserve-")
    shutil.copytree("/repo/include", d + "/include")
    skipped = []
    if name == NOISE:
        for root, _, fs in os.walk(d + "/include"):
            for f in fs:
                p = os.path.join(root, f)
                s = open(p).read()
                if f != "macro.hpp":
                    s = re.sub(r"(\n[ \t]+(?!.*(?:constexpr|consteval|struct |namespace|enum|class ))[^\n/]*\)(?: const)?(?: noexcept)? \{\n)(?![ \t]*(?:if constexpr|static_assert|\}|:))",
                               lambda m: m.group(1) + "    (void)0;\n" if not re.search(r"^\s*(switch|do|else)", m.group(1)) else m.group(1), s)
                open(p, "w").write(s + "\n// the end\n")
    for f, old, new in V[name]:
        p = d + "/include/kelcoro/" + f
        s = open(p).read()
        if s.count(old) < 1:
            skipped.append((f, old.split("\n")[0]))
            continue
        open(p, "w").write(s.replace(old, new))
    return d, skipped


def main():
    checks = re.findall(r'"property": "(C\d+)"', open(VERIF + "/MANIFEST.json").read().split('"not_applicable"')[0])
    checks = sorted(set(checks))
    only = os.environ.get("PIDS")
    if only:
        checks = only.split(",")
    bad = 0
    for name in sys.argv[1:] or list(V):
        d, skipped = tree(name)
        for f, l in skipped:
            print("%s: not applied (%s: %s)" % (name, f, l.strip()))
        t = d + "/t.cpp"
        open(t, "w").write("".join("#include <kelcoro/%s>\n" % h for h in sorted(os.listdir(d + "/include/kelcoro")) if h.endswith(".hpp")))
        r = subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-w", "-I" + d + "/include", t], capture_output=True, text=True)
        if r.returncode:
            print("%s: does not compile\n%s" % (name, r.stderr[:1500]))
            bad += 1
            continue
        w = tempfile.mkdtemp(prefix="preserve-v-")
        for x in ("check.py", "specs.py", "tools", "engine", "drivers", "witness", "known-findings.txt", "properties.jsonl", "MANIFEST.json", "build"):
            if os.path.isdir(VERIF + "/" + x):
                shutil.copytree(VERIF + "/" + x, w + "/" + x)
            else:
                shutil.copy(VERIF + "/" + x, w)
        quiet = 0
        for c in checks:
            r = subprocess.run([sys.executable, w + "/check.py", c, "quick"], cwd=w, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            gaps = re.search(r"gaps=(\d+)", r.stdout)
            if r.returncode or "VIOLATION" in r.stdout or not gaps or gaps.group(1) != "0":
                bad += 1
                print("%s: %s is not quiet (exit %d)\n%s" % (name, c, r.returncode, r.stdout[:1200] + r.stderr[-600:]))
            else:
                quiet += 1
        print("%s: %d edits, %d of %d checks quiet" % (name, len(V[name]) - len(skipped), quiet, len(checks)))
        sys.stdout.flush()
        shutil.rmtree(w)
        if not os.environ.get("KEEP"):
            shutil.rmtree(d)
        else:
            print("  tree kept in " + d)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
