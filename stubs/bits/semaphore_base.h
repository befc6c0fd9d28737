// The semaphores of GCC 13 can sleep for ever (libstdc++ PR 104928: a waiter that saw the count change twice waits for it to change from
// a positive value, and a release that finds a positive value wakes nobody).  A rewrite of the code under test that uses std::counting_semaphore must not be blamed for that,
// so the scenarios get this corrected one.
#ifndef DETSIM_SEMAPHORE_BASE
#define DETSIM_SEMAPHORE_BASE
#define __atomic_semaphore __atomic_semaphore_gcc
#define __semaphore_impl   __semaphore_impl_gcc
#include_next <bits/semaphore_base.h>
#undef __atomic_semaphore
#undef __semaphore_impl
namespace std {
struct __semaphore_impl {
    static constexpr ptrdiff_t _S_max = __gnu_cxx::__int_traits<int>::__max;
    explicit __semaphore_impl(ptrdiff_t n) noexcept : count_(int(n)) {}
    __semaphore_impl(__semaphore_impl const&) = delete;
    __semaphore_impl& operator=(__semaphore_impl const&) = delete;

    bool _M_try_acquire() noexcept
    {
        int old = __atomic_load_n(&count_, __ATOMIC_ACQUIRE);
        while (old > 0)
            if (__atomic_compare_exchange_n(&count_, &old, old - 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return true;
        return false;
    }
    void _M_acquire() noexcept
    {
        while (!_M_try_acquire()) __detail::__platform_wait(&count_, 0);
    }
    template <class Clock, class Dur>
    bool _M_try_acquire_until(chrono::time_point<Clock, Dur> const& t) noexcept
    {
        for (;;) {
            if (_M_try_acquire()) return true;
            if (Clock::now() >= t) return false;
            if constexpr (is_same_v<Clock, chrono::system_clock> || is_same_v<Clock, chrono::steady_clock>) {
                auto s  = chrono::time_point_cast<chrono::seconds>(t);
                auto ns = chrono::duration_cast<chrono::nanoseconds>(t - s);
                timespec ts{time_t(s.time_since_epoch().count()), long(ns.count())};
                long const op = 9 /* FUTEX_WAIT_BITSET */ | 128 | (is_same_v<Clock, chrono::system_clock> ? 256 : 0);
                ::syscall(SYS_futex, &count_, op, 0, &ts, nullptr, -1);
            } else {
                _M_try_acquire_for(t - Clock::now());
            }
        }
    }
    template <class Rep, class Period>
    bool _M_try_acquire_for(chrono::duration<Rep, Period> const& d) noexcept
    {
        return _M_try_acquire_until(chrono::steady_clock::now() + chrono::ceil<chrono::nanoseconds>(d));
    }
    void _M_release(ptrdiff_t n) noexcept
    {
        __atomic_fetch_add(&count_, int(n), __ATOMIC_RELEASE);
        ::syscall(SYS_futex, &count_, 1 | 128, n, nullptr, nullptr, 0);
    }

private:
    alignas(__detail::__platform_wait_alignment) __detail::__platform_wait_t count_;
};
}    // namespace std
#endif
