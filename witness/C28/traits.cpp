//@ ok owners_not_copyable: coroutine owners can be moved but not copied
template <typename T>
constexpr bool unique_owner = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T> && !std::is_constructible_v<T, T&> && !std::is_constructible_v<T, const T&&> &&
                              !std::is_assignable_v<T&, T&> && !std::is_assignable_v<T&, const T&&> && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;
static_assert(unique_owner<dd::task<int>>);
static_assert(unique_owner<dd::task<void>>);
static_assert(unique_owner<dd::task<int&>>);
static_assert(unique_owner<dd::task<int, w::my_ctx>>);
static_assert(unique_owner<dd::generator<int>>);
static_assert(unique_owner<dd::generator<int&>>);
static_assert(unique_owner<dd::generator<dd::nothing_t>>);
static_assert(unique_owner<dd::channel<int>>);
static_assert(unique_owner<dd::channel<int&>>);
static_assert(unique_owner<dd::async_task<int>>);
static_assert(unique_owner<dd::async_task<void>>);
static_assert(unique_owner<dd::async_task<int&>>);
static_assert(unique_owner<dd::logical_thread>);
static_assert(unique_owner<dd::inplace_generator<int>>);
static_assert(unique_owner<dd::inplace_generator<int&>>);
static_assert(unique_owner<dd::pmr::task<int>>);
static_assert(unique_owner<dd::pmr::generator<int>>);
static_assert(unique_owner<dd::pmr::channel<int>>);
static_assert(unique_owner<dd::pmr::async_task<int>>);
static_assert(unique_owner<dd::pmr::logical_thread<void>>);
static_assert(unique_owner<dd::task_r<int, w::empty_res>>);
static_assert(unique_owner<dd::generator_r<int, w::empty_res>>);
static_assert(unique_owner<dd::channel_r<int, w::lazy_res>>);
static_assert(unique_owner<dd::async_task_r<int, w::lazy_res>>);
static_assert(unique_owner<dd::logical_thread_r<w::lazy_res>>);
static_assert(unique_owner<dd::noexport::fixed_array<dd::task_queue>>);
static_assert(unique_owner<dd::stack_resource>);
template <typename A, typename B>
constexpr bool no_copy_into = !std::is_constructible_v<A, B&> && !std::is_constructible_v<A, const B&> && !std::is_assignable_v<A&, B&> && !std::is_assignable_v<A&, const B&>;
static_assert(no_copy_into<dd::task<int>, dd::pmr::task<int>>);
static_assert(no_copy_into<dd::pmr::task<int>, dd::task<int>>);
static_assert(no_copy_into<dd::generator<int>, dd::pmr::generator<int>>);
static_assert(no_copy_into<dd::pmr::generator<int>, dd::generator<int>>);
static_assert(no_copy_into<dd::channel<int>, dd::pmr::channel<int>>);
static_assert(no_copy_into<dd::pmr::channel<int>, dd::channel<int>>);
static_assert(no_copy_into<dd::async_task<int>, dd::pmr::async_task<int>>);
static_assert(no_copy_into<dd::pmr::async_task<int>, dd::async_task<int>>);
static_assert(no_copy_into<dd::logical_thread, dd::pmr::logical_thread<int>>);
//@ ok pinned: objects that other threads or frames point into can be neither copied nor moved
template <typename T>
constexpr bool pinned = !std::is_copy_constructible_v<T> && !std::is_move_constructible_v<T> && !std::is_copy_assignable_v<T> && !std::is_move_assignable_v<T> &&
                        !std::is_constructible_v<T, T&> && !std::is_constructible_v<T, T> && !std::is_assignable_v<T&, T&> && !std::is_assignable_v<T&, T>;
static_assert(pinned<dd::latch>);
static_assert(pinned<dd::event<int>>);
static_assert(pinned<dd::event<void>>);
static_assert(pinned<dd::worker>);
static_assert(pinned<dd::thread_pool>);
static_assert(pinned<dd::task_queue>);
static_assert(pinned<dd::stop_token>);
static_assert(pinned<dd::two_way_bound>);
static_assert(pinned<dd::not_movable>);
static_assert(pinned<dd::nonowner_lockfree_stack<dd::task_node>>);
static_assert(pinned<dd::generator<int>::promise_type>);
static_assert(pinned<dd::channel<int>::promise_type>);
static_assert(pinned<dd::async_task<int>::promise_type>);
static_assert(pinned<dd::logical_thread::promise_type>);
static_assert(pinned<dd::noexport::when_any_state<int>>);
//@ ok executor_refs: an executor reference cannot be made from a const object, a temporary or something that is no executor
template <typename... A>
constexpr bool makes_ref = std::is_constructible_v<dd::any_executor_ref, A...>;
static_assert(makes_ref<dd::worker&> && makes_ref<dd::thread_pool&> && makes_ref<dd::strand&> && makes_ref<w::my_exec&> && makes_ref<dd::any_executor_ref&> && makes_ref<const dd::any_executor_ref&>);
static_assert(!makes_ref<const dd::worker&>);
static_assert(!makes_ref<const dd::thread_pool&>);
static_assert(!makes_ref<const dd::strand&>);
static_assert(!makes_ref<const w::my_exec&>);
static_assert(!makes_ref<const dd::this_thread_executor_t&>);
static_assert(!makes_ref<int&>);
static_assert(!makes_ref<w::my_exec>);
static_assert(!makes_ref<dd::worker>);
static_assert(!makes_ref<>);
static_assert(!std::is_convertible_v<const w::my_exec&, dd::any_executor_ref>);
static_assert(!std::is_assignable_v<const dd::any_executor_ref&, dd::any_executor_ref>);
//@ ok explicit_ones: conversions that have to be spelled out
static_assert(!std::is_convertible_v<dd::worker&, dd::strand> && std::is_constructible_v<dd::strand, dd::worker&> && !std::is_constructible_v<dd::strand, dd::worker> && !std::is_default_constructible_v<dd::strand>);
static_assert(!std::is_convertible_v<std::size_t, dd::thread_pool>);
static_assert(!std::is_default_constructible_v<dd::latch> && !std::is_constructible_v<dd::latch, int>);
static_assert(!std::is_default_constructible_v<dd::stop_token> && !std::is_constructible_v<dd::stop_token, std::atomic_bool*>);
static_assert(!std::is_convertible_v<dd::task<int>, bool> && !std::is_convertible_v<dd::generator<int>, bool> && !std::is_convertible_v<dd::channel<int>, bool> && !std::is_convertible_v<dd::async_task<int>, bool> && !std::is_convertible_v<dd::inplace_generator<int>, bool>);
static_assert(!std::is_convertible_v<dd::schedule_status, bool> && std::is_constructible_v<bool, dd::schedule_status>);
static_assert(!std::is_convertible_v<dd::expected<std::string, int>, bool>);
static_assert(!std::is_constructible_v<dd::generator<int>, dd::generator<int>::handle_type> && !std::is_constructible_v<dd::channel<int>, dd::channel<int>::handle_type> && !std::is_constructible_v<dd::async_task<int>, dd::async_task<int>::handle_type>);
static_assert(!std::is_default_constructible_v<dd::inplace_generator<int>>);
static_assert(!std::is_default_constructible_v<dd::rvo_tag_t> && !std::is_constructible_v<dd::rvo_tag_t, int>);
static_assert(!std::is_convertible_v<std::span<unsigned char>, dd::stack_resource>);
static_assert(!std::is_default_constructible_v<dd::generator_iterator<int>> && !std::is_convertible_v<dd::generator<int>&, dd::generator_iterator<int>>);
//@ ok wrong_owner: one kind of coroutine object is not made from another
static_assert(!std::is_constructible_v<dd::task<int>, dd::task<long>> && !std::is_constructible_v<dd::generator<int>, dd::channel<int>> && !std::is_constructible_v<dd::channel<int>, dd::generator<int>> && !std::is_constructible_v<dd::task<int>, dd::async_task<int>> && !std::is_constructible_v<dd::async_task<int>, dd::task<int>> && !std::is_constructible_v<dd::logical_thread, dd::job>);
static_assert(!std::is_constructible_v<dd::pmr::task<int>, dd::pmr::task<long>> && !std::is_constructible_v<dd::pmr::generator<int>, dd::pmr::channel<int>>);
//@ ok noexcept_moves: moves and swaps of owners are noexcept, and so are their observers
template <typename T>
constexpr bool nothrow_owner = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_swappable_v<T> && std::is_nothrow_destructible_v<T>;
static_assert(nothrow_owner<dd::task<int>>);
static_assert(nothrow_owner<dd::task<w::no_default>>);
static_assert(nothrow_owner<dd::generator<int>>);
static_assert(nothrow_owner<dd::generator<std::string>>);
static_assert(nothrow_owner<dd::generator<dd::nothing_t>>);
static_assert(nothrow_owner<dd::channel<int>>);
static_assert(nothrow_owner<dd::async_task<int>>);
static_assert(nothrow_owner<dd::async_task<void>>);
static_assert(nothrow_owner<dd::logical_thread>);
static_assert(nothrow_owner<dd::inplace_generator<int>>);
static_assert(nothrow_owner<dd::noexport::fixed_array<dd::task_queue>>);
static_assert(std::is_nothrow_move_constructible_v<dd::stack_resource> && std::is_nothrow_move_assignable_v<dd::stack_resource>);
static_assert(std::is_nothrow_move_constructible_v<dd::generator_iterator<int>> && std::is_nothrow_copy_constructible_v<dd::generator_iterator<int>>);
template <typename T>
constexpr bool nothrow_swap = noexcept(std::declval<T&>().swap(std::declval<T&>())) && noexcept(swap(std::declval<T&>(), std::declval<T&>()));
static_assert(nothrow_swap<dd::generator<int>> && nothrow_swap<dd::channel<int>> && nothrow_swap<dd::async_task<int>> && nothrow_swap<dd::logical_thread> && nothrow_swap<dd::inplace_generator<int>>);
template <typename T>
constexpr bool nothrow_handles = noexcept(std::declval<T&>().release()) && noexcept(std::declval<T&>().raw_handle()) && noexcept(std::declval<T&>().empty()) && noexcept(bool(std::declval<T&>()));
static_assert(nothrow_handles<dd::task<int>> && nothrow_handles<dd::generator<int>> && nothrow_handles<dd::channel<int>>);
template <typename T>
constexpr bool nothrow_clear = noexcept(std::declval<T&>().clear()) && noexcept(std::declval<T&>().reset(typename T::handle_type{}));
static_assert(nothrow_clear<dd::generator<int>> && nothrow_clear<dd::channel<int>>);
static_assert(noexcept(std::declval<dd::task<int>&>().detach()) && noexcept(std::declval<dd::async_task<int>&>().detach()) && noexcept(std::declval<dd::async_task<int>&>().wait()) && noexcept(std::declval<dd::async_task<int>&>().ready()));
static_assert(noexcept(std::declval<dd::logical_thread&>().join()) && noexcept(std::declval<dd::logical_thread&>().detach()) && noexcept(std::declval<dd::logical_thread&>().request_stop()) && noexcept(std::declval<dd::logical_thread&>().joinable()));
static_assert(noexcept(std::declval<dd::latch&>().count_down()) && noexcept(std::declval<dd::latch&>().ready()) && noexcept(std::declval<dd::latch&>().wait()) && noexcept(std::declval<dd::latch&>().arrive_and_wait()));
static_assert(noexcept(std::declval<dd::stop_token&>().stop_requested()) && noexcept(std::declval<dd::channel<int>&>().take_exception()));
static_assert(noexcept(std::declval<dd::nonowner_lockfree_stack<dd::task_node>&>().push(nullptr)) && noexcept(std::declval<dd::nonowner_lockfree_stack<dd::task_node>&>().push_stack(nullptr)) && noexcept(std::declval<dd::nonowner_lockfree_stack<dd::task_node>&>().try_pop_all()));
static_assert(noexcept(std::declval<dd::stack_resource&>().deallocate(nullptr, 1)) && noexcept(std::declval<dd::stack_resource&>().reuse_memory()));
//@ ok noexcept_awaiters: awaiters never throw before the coroutine is suspended or after it is resumed
template <typename A>
constexpr bool nothrow_awaiter = noexcept(std::declval<A&>().await_ready()) && noexcept(std::declval<A&>().await_resume());
static_assert(nothrow_awaiter<decltype(std::declval<dd::latch&>().wait())> && nothrow_awaiter<decltype(std::declval<dd::latch&>().arrive_and_wait())>);
static_assert(nothrow_awaiter<decltype(dd::jump_on(std::declval<dd::worker&>()))> && nothrow_awaiter<decltype(dd::jump_on(std::declval<dd::thread_pool&>()))>);
static_assert(nothrow_awaiter<dd::transfer_control_to> && nothrow_awaiter<decltype(std::declval<dd::channel<int>&>().next())>);
static_assert(nothrow_awaiter<decltype(std::declval<dd::event<int>&>().operator co_await())> && nothrow_awaiter<decltype(std::declval<dd::task<int>&>().wait())>);
static_assert(noexcept(std::declval<dd::latch&>().wait().await_suspend(std::coroutine_handle<>{})) && noexcept(std::declval<dd::latch&>().arrive_and_wait().await_suspend(std::coroutine_handle<>{})));
static_assert(noexcept(std::declval<dd::event<int>&>().operator co_await().await_suspend(std::coroutine_handle<>{})));
//@ ok concept_limits: types the concepts must turn away
struct no_dealloc { void* allocate(std::size_t); };
struct bad_ret { int allocate(std::size_t); void deallocate(void*, std::size_t); };
struct throwing_move { throwing_move(throwing_move&&) noexcept(false); void* allocate(std::size_t); void deallocate(void*, std::size_t); };
struct alignas(64) overaligned { void* allocate(std::size_t); void deallocate(void*, std::size_t); };
struct empty_nodefault { empty_nodefault(int); void* allocate(std::size_t); void deallocate(void*, std::size_t); };
static_assert(!dd::memory_resource<no_dealloc>);
static_assert(!dd::memory_resource<bad_ret>);
static_assert(!dd::memory_resource<throwing_move>);
static_assert(!dd::memory_resource<overaligned>);
static_assert(!dd::memory_resource<empty_nodefault>);
static_assert(!dd::memory_resource<w::empty_res&>);
static_assert(!dd::memory_resource<void>);
static_assert(dd::yieldable<int> && dd::yieldable<int&> && dd::yieldable<const int&> && !dd::yieldable<const int> && !dd::yieldable<int&&> && !dd::yieldable<int[3]> && !dd::yieldable<void()>);
static_assert(!dd::stopable<int> && dd::stopable<dd::logical_thread> && !dd::stopable<dd::job>);
static_assert(!dd::executor<dd::task<int>> && !dd::executor<std::thread>);
//@ ok resource_needs: a coroutine type with a resource that cannot be default constructed needs the argument
template <typename P>
concept plain_new = requires { P::operator new(std::size_t(1)); };
template <typename P, typename A>
concept new_with = requires(A a) { P::operator new(std::size_t(1), a); };
template <typename R>
using P = std::coroutine_traits<dd::task_r<int, R>>::promise_type;
static_assert(plain_new<P<w::empty_res>> && plain_new<P<w::lazy_res>> && !plain_new<P<w::fat_res>>);
static_assert(new_with<P<w::fat_res>, dd::with_resource<w::fat_res>> && !new_with<P<w::fat_res>, dd::with_resource<w::empty_res>> && !new_with<P<w::fat_res>, int>);
