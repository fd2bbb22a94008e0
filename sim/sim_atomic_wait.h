// Force-included before everything else in instrumented translation units.
// Replaces libstdc++'s <bits/atomic_wait.h> and <bits/atomic_timed_wait.h>: std::atomic::wait/notify,
// std::latch, std::barrier and std::counting_semaphore block in the simulator instead of in a futex.
// Semantics: a notify call uses the address only (never dereferences it), a wait re-checks the value
// atomically with blocking, and the simulator may wake a waiter spuriously.
#ifndef SIM_ATOMIC_WAIT_H
#define SIM_ATOMIC_WAIT_H
#define _GLIBCXX_ATOMIC_WAIT_H 1
#define _GLIBCXX_ATOMIC_TIMED_WAIT_H 1
#include <bits/c++config.h>
#include <cstdint>
#include <bits/functional_hash.h>
#include <bits/gthr.h>
#include <ext/numeric_traits.h>
#include <bits/functexcept.h>
#include <bits/std_mutex.h>
#include <bits/chrono.h>
#define __cpp_lib_atomic_wait 201907L
#define _GLIBCXX_HAVE_PLATFORM_WAIT 1
#define _GLIBCXX_HAVE_PLATFORM_TIMED_WAIT 1

extern "C" {
// blocks while *addr (size bytes) equals *old; returns after a notification or spuriously.
// deadline: absolute simulated nanoseconds, 0 = none. Returns 0 on timeout.
int sim_atomic_wait(const void* addr, const void* old, unsigned size, unsigned long long deadline);
unsigned long long sim_atomic_ticket(const void* addr);
int sim_atomic_wait_ticket(const void* addr, unsigned long long ticket, unsigned long long deadline);
void sim_atomic_notify(const void* addr, int all);
unsigned long long sim_now_ns(void);
}

namespace std {
namespace __detail {
using __platform_wait_t = int;
inline constexpr size_t __platform_wait_alignment = 4;
}  // namespace __detail
template <typename _Tp>
inline constexpr bool __platform_wait_uses_type =
    is_scalar_v<_Tp> && ((sizeof(_Tp) == sizeof(__detail::__platform_wait_t)) &&
                         (alignof(_Tp*) >= __detail::__platform_wait_alignment));
namespace __detail {
inline void __thread_yield() noexcept {
  __gthread_yield();
}
inline void __thread_relax() noexcept {
  __gthread_yield();
}
inline constexpr auto __atomic_spin_count_relax = 12;
inline constexpr auto __atomic_spin_count = 16;
struct __default_spin_policy {
  bool operator()() const noexcept {
    return false;
  }
};
template <typename _Pred, typename _Spin = __default_spin_policy>
bool __atomic_spin(_Pred& __pred, _Spin = _Spin{}) noexcept {
  for (int i = 0; i < 2; ++i)
    if (__pred())
      return true;
  return false;
}
template <typename _Tp>
bool __atomic_compare(const _Tp& __a, const _Tp& __b) {
  return __builtin_memcmp(&__a, &__b, sizeof(_Tp)) == 0;
}
template <typename _Clock, typename _Dur>
unsigned long long __sim_deadline(const chrono::time_point<_Clock, _Dur>& t) {
  auto rel = chrono::duration_cast<chrono::nanoseconds>(t - _Clock::now()).count();
  return sim_now_ns() + (rel > 0 ? (unsigned long long)rel : 0ull) + 1;
}
}  // namespace __detail

template <typename _Tp, typename _ValFn>
void __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept {
  for (;;) {
    _Tp __v = __vfn();
    if (!__detail::__atomic_compare(__old, __v))
      return;
    sim_atomic_wait(__addr, &__old, sizeof(_Tp), 0);
  }
}
template <typename _Tp, typename _Pred>
void __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept {
  for (;;) {
    auto __t = sim_atomic_ticket(__addr);
    if (__pred())
      return;
    sim_atomic_wait_ticket(__addr, __t, 0);
  }
}
template <typename _Pred>
void __atomic_wait_address_bare(const __detail::__platform_wait_t* __addr, _Pred __pred) noexcept {
  std::__atomic_wait_address(__addr, __pred);
}
template <typename _Tp>
void __atomic_notify_address(const _Tp* __addr, bool __all) noexcept {
  sim_atomic_notify(__addr, __all);
}
inline void __atomic_notify_address_bare(const __detail::__platform_wait_t* __addr, bool __all) noexcept {
  sim_atomic_notify(__addr, __all);
}
template <typename _Tp, typename _ValFn, typename _Clock, typename _Dur>
bool __atomic_wait_address_until_v(const _Tp* __addr, _Tp&& __old, _ValFn&& __vfn,
                                   const chrono::time_point<_Clock, _Dur>& __t) noexcept {
  auto __d = __detail::__sim_deadline(__t);
  for (;;) {
    auto __v = __vfn();
    if (!__detail::__atomic_compare(__old, __v))
      return true;
    if (!sim_atomic_wait(__addr, &__old, sizeof(__v), __d))
      return false;
  }
}
template <typename _Tp, typename _Pred, typename _Clock, typename _Dur>
bool __atomic_wait_address_until(const _Tp* __addr, _Pred __pred,
                                 const chrono::time_point<_Clock, _Dur>& __t) noexcept {
  auto __d = __detail::__sim_deadline(__t);
  for (;;) {
    auto __k = sim_atomic_ticket(__addr);
    if (__pred())
      return true;
    if (!sim_atomic_wait_ticket(__addr, __k, __d))
      return __pred();
  }
}
template <typename _Pred, typename _Clock, typename _Dur>
bool __atomic_wait_address_until_bare(const __detail::__platform_wait_t* __addr, _Pred __pred,
                                      const chrono::time_point<_Clock, _Dur>& __t) noexcept {
  return std::__atomic_wait_address_until(__addr, __pred, __t);
}
template <typename _Tp, typename _ValFn, typename _Rep, typename _Period>
bool __atomic_wait_address_for_v(const _Tp* __addr, _Tp&& __old, _ValFn&& __vfn,
                                 const chrono::duration<_Rep, _Period>& __r) noexcept {
  return std::__atomic_wait_address_until_v(__addr, __old, __vfn, chrono::steady_clock::now() + __r);
}
template <typename _Tp, typename _Pred, typename _Rep, typename _Period>
bool __atomic_wait_address_for(const _Tp* __addr, _Pred __pred,
                               const chrono::duration<_Rep, _Period>& __r) noexcept {
  return std::__atomic_wait_address_until(__addr, __pred, chrono::steady_clock::now() + __r);
}
template <typename _Pred, typename _Rep, typename _Period>
bool __atomic_wait_address_for_bare(const __detail::__platform_wait_t* __addr, _Pred __pred,
                                    const chrono::duration<_Rep, _Period>& __r) noexcept {
  return std::__atomic_wait_address_until(__addr, __pred, chrono::steady_clock::now() + __r);
}
}  // namespace std
#endif
