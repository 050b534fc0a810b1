// Force-included (instead of verif_compat.hpp) in the harnesses that run under
// the controlled scheduler: after all the headers that must not be affected,
// renames the synchronization primitives so that the code under test uses
// the ones below, whose operations are scheduling points.
#pragma once

#define VERIF_SCHED 1
#include "verif_compat.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <barrier>
#include <bit>
#include <cctype>
#include <charconv>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <coroutine>
#include <deque>
#include <exception>
#include <execution>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <latch>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <ranges>
#include <regex>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <stop_token>
#include <string>
#include <thread>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "absl/base/call_once.h"
#include "absl/base/thread_annotations.h"
#include "absl/container/btree_map.h"
#include "absl/container/btree_set.h"
#include "absl/container/fixed_array.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/node_hash_map.h"
#include "absl/container/node_hash_set.h"
#include "absl/functional/any_invocable.h"
#include "absl/log/check.h"
#include "absl/log/die_if_null.h"
#include "absl/log/log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_split.h"
#include "absl/synchronization/barrier.h"
#include "absl/synchronization/blocking_counter.h"
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#ifdef VERIF_SCHED_PROTOBUF
#include "google/protobuf/arena.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/message.h"
#include VERIF_SCHED_PROTOBUF
#ifdef VERIF_SCHED_PROTOBUF2
#include VERIF_SCHED_PROTOBUF2
#endif
#endif

#include "sched.hpp"

namespace std::chrono {

struct VerifSteadyClock : steady_clock {
  static time_point now() noexcept {
    verif::sched::Point();
    return time_point(nanoseconds(verif::sched::Now()));
  }
};

struct VerifSystemClock : system_clock {
  static time_point now() noexcept {
    verif::sched::Point();
    return time_point(
        duration_cast<duration>(nanoseconds(verif::sched::Now())));
  }
};

}  // namespace std::chrono

namespace verif::sched {

template<typename Duration>
Nanos ToNanos(Duration const& d) {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
}
inline Nanos ToNanos(absl::Duration const d) {
  return d == absl::InfiniteDuration() ? kNever : absl::ToInt64Nanoseconds(d);
}
inline Nanos DeadlineIn(Nanos const d) {
  if (d >= kNever / 2) {
    return kNever;
  }
  return Now() + (d < 0 ? 0 : d);
}
inline Nanos DeadlineAt(absl::Time const t) {
  if (t == absl::InfiniteFuture()) {
    return kNever;
  }
  return absl::ToUnixNanos(t);
}

// A reader-writer lock.
// While a condition is being evaluated, by whatever thread, the lock counts as
// held, and the evaluation is atomic: there are no scheduling points, and a
// condition that would have to block to acquire a lock does not hold yet.
inline int evaluating_condition = 0;
struct WouldBlock {};

class Lock {
 public:
  // With this macro, the release of a lock is a scheduling point, for what the
  // code does after it without any synchronization.
  static void Released() {
#ifdef VERIF_POINT_ON_UNLOCK
    if (std::uncaught_exceptions() == 0 && evaluating_condition == 0) {
      Point();
    }
#endif
  }
  void AcquireExclusive() {
    if (evaluating_condition > 0) {
      if (writer_ >= 0 || readers_ > 0) throw WouldBlock();
      writer_ = 0;
      return;
    }
    Block([this]() { return writer_ < 0 && readers_ == 0; });
    writer_ = Active() ? Self() : 0;
  }
  bool TryAcquireExclusive() {
    Point();
    if (writer_ < 0 && readers_ == 0) {
      writer_ = Active() ? Self() : 0;
      return true;
    }
    return false;
  }
  void ReleaseExclusive() {
    Held();
    writer_ = -1;
    Released();
  }
  void AcquireShared() {
    if (evaluating_condition > 0) {
      if (writer_ >= 0) throw WouldBlock();
      ++readers_;
      return;
    }
    Block([this]() { return writer_ < 0; });
    ++readers_;
  }
  bool TryAcquireShared() {
    Point();
    if (writer_ < 0) {
      ++readers_;
      return true;
    }
    return false;
  }
  void ReleaseShared() {
    if (readers_ <= 0) {
      Die("releasing a shared lock that is not held");
    }
    --readers_;
    Released();
  }
  // Releases the lock in whatever mode it is held, waits, and reacquires it.
  bool Await(std::function<bool()> const& condition, Nanos const deadline) {
    if (condition()) {
      return true;
    }
    bool const exclusive = writer_ >= 0;
    if (exclusive) {
      writer_ = -1;
    } else {
      --readers_;
    }
    auto const available = [this, exclusive]() {
      return writer_ < 0 && (!exclusive || readers_ == 0);
    };
    BlockUntil([&]() { return available() && condition(); }, deadline);
    // In case of a timeout, the lock must still be reacquired.
    if (!available()) {
      Block(available);
    }
    if (exclusive) {
      writer_ = Active() ? Self() : 0;
    } else {
      ++readers_;
    }
    return condition();
  }
  void Held() const {
    if (writer_ < 0 && evaluating_condition == 0) {
      Die("lock not held");
    }
  }
  bool held_exclusive() const { return writer_ >= 0; }
  void HeldShared() const {
    if (writer_ < 0 && readers_ == 0 && evaluating_condition == 0) {
      Die("lock not held");
    }
  }

 private:
  int writer_ = -1;
  int readers_ = 0;
};

}  // namespace verif::sched

namespace absl {

class VerifCondition {
 public:
  VerifCondition() : eval_([]() { return true; }) {}
  VerifCondition(bool (*func)(void*), void* arg)
      : eval_([func, arg]() { return func(arg); }) {}
  template<typename T>
  VerifCondition(bool (*func)(T*), T* arg)
      : eval_([func, arg]() { return func(arg); }) {}
  template<typename T>
  VerifCondition(T* object, bool (T::*method)())
      : eval_([object, method]() { return (object->*method)(); }) {}
  template<typename T>
  VerifCondition(T const* object, bool (T::*method)() const)
      : eval_([object, method]() { return (object->*method)(); }) {}
  template<typename T,
           typename = std::enable_if_t<
               std::is_same_v<decltype(std::declval<T const&>()()), bool>>>
  explicit VerifCondition(T const* functor)
      : eval_([functor]() { return (*functor)(); }) {}
  explicit VerifCondition(bool const* cond)
      : eval_([cond]() { return *cond; }) {}
  bool Eval() const {
    ++verif::sched::evaluating_condition;
    bool result = false;
    try {
      result = eval_();
    } catch (verif::sched::WouldBlock const&) {}
    --verif::sched::evaluating_condition;
    return result;
  }

 private:
  std::function<bool()> eval_;
};

class VerifMutex {
 public:
  VerifMutex() = default;
  explicit constexpr VerifMutex(ConstInitType) {}
  void Lock() { lock_.AcquireExclusive(); }
  void Unlock() { lock_.ReleaseExclusive(); }
  bool TryLock() { return lock_.TryAcquireExclusive(); }
  void AssertHeld() const { lock_.Held(); }
  void AssertReaderHeld() const { lock_.HeldShared(); }
  void AssertNotHeld() const {}
  void ReaderLock() { lock_.AcquireShared(); }
  void ReaderUnlock() { lock_.ReleaseShared(); }
  bool ReaderTryLock() { return lock_.TryAcquireShared(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  bool WriterTryLock() { return TryLock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
  void Await(VerifCondition const& c) {
    lock_.HeldShared();
    lock_.Await([&c]() { return c.Eval(); }, verif::sched::kNever);
  }
  bool AwaitWithTimeout(VerifCondition const& c, Duration const timeout) {
    lock_.HeldShared();
    return lock_.Await(
        [&c]() { return c.Eval(); },
        verif::sched::DeadlineIn(verif::sched::ToNanos(timeout)));
  }
  bool AwaitWithDeadline(VerifCondition const& c, Time const deadline) {
    lock_.HeldShared();
    return lock_.Await([&c]() { return c.Eval(); },
                       verif::sched::DeadlineAt(deadline));
  }
  void LockWhen(VerifCondition const& c) {
    Lock();
    Await(c);
  }
  void ReaderLockWhen(VerifCondition const& c) {
    ReaderLock();
    Await(c);
  }
  bool LockWhenWithTimeout(VerifCondition const& c, Duration const timeout) {
    Lock();
    return AwaitWithTimeout(c, timeout);
  }
  bool LockWhenWithDeadline(VerifCondition const& c, Time const deadline) {
    Lock();
    return AwaitWithDeadline(c, deadline);
  }
  bool ReaderLockWhenWithTimeout(VerifCondition const& c,
                                 Duration const timeout) {
    ReaderLock();
    return AwaitWithTimeout(c, timeout);
  }
  bool held_exclusive() const { return lock_.held_exclusive(); }

 private:
  verif::sched::Lock lock_;
};

class VerifSchedMutexLock {
 public:
  explicit VerifSchedMutexLock(VerifMutex* mu) : mu_(mu) { mu_->Lock(); }
  explicit VerifSchedMutexLock(VerifMutex& mu) : mu_(&mu) { mu_->Lock(); }
  VerifSchedMutexLock(VerifMutex* mu, VerifCondition const& c) : mu_(mu) {
    mu_->LockWhen(c);
  }
  VerifSchedMutexLock(VerifMutex& mu, VerifCondition const& c)
      : VerifSchedMutexLock(&mu, c) {}
  VerifSchedMutexLock(VerifSchedMutexLock const&) = delete;
  ~VerifSchedMutexLock() { mu_->Unlock(); }

 private:
  VerifMutex* const mu_;
};

class VerifReleasableMutexLock {
 public:
  explicit VerifReleasableMutexLock(VerifMutex* mu) : mu_(mu) { mu_->Lock(); }
  explicit VerifReleasableMutexLock(VerifMutex& mu)
      : VerifReleasableMutexLock(&mu) {}
  ~VerifReleasableMutexLock() {
    if (mu_ != nullptr) {
      mu_->Unlock();
    }
  }
  void Release() {
    mu_->Unlock();
    mu_ = nullptr;
  }

 private:
  VerifMutex* mu_;
};

class VerifSchedReaderMutexLock {
 public:
  explicit VerifSchedReaderMutexLock(VerifMutex* mu) : mu_(mu) {
    mu_->ReaderLock();
  }
  explicit VerifSchedReaderMutexLock(VerifMutex& mu)
      : VerifSchedReaderMutexLock(&mu) {}
  VerifSchedReaderMutexLock(VerifMutex* mu, VerifCondition const& c)
      : mu_(mu) {
    mu_->ReaderLockWhen(c);
  }
  VerifSchedReaderMutexLock(VerifMutex& mu, VerifCondition const& c)
      : VerifSchedReaderMutexLock(&mu, c) {}
  VerifSchedReaderMutexLock(VerifSchedReaderMutexLock const&) = delete;
  ~VerifSchedReaderMutexLock() { mu_->ReaderUnlock(); }

 private:
  VerifMutex* const mu_;
};

class VerifCondVar {
 public:
  void Wait(VerifMutex* mu) { WaitUntil(mu, verif::sched::kNever); }
  bool WaitWithTimeout(VerifMutex* mu, Duration const timeout) {
    return WaitUntil(mu,
                     verif::sched::DeadlineIn(verif::sched::ToNanos(timeout)));
  }
  bool WaitWithDeadline(VerifMutex* mu, Time const deadline) {
    return WaitUntil(mu, verif::sched::DeadlineAt(deadline));
  }
  void Signal() {
    verif::sched::Point();
    if (!waiters_.empty()) {
      *waiters_.front() = true;
      waiters_.pop_front();
    }
  }
  void SignalAll() {
    verif::sched::Point();
    for (bool* const w : waiters_) {
      *w = true;
    }
    waiters_.clear();
  }

 private:
  bool WaitUntil(VerifMutex* mu, verif::sched::Nanos const deadline) {
    bool signaled = false;
    waiters_.push_back(&signaled);
    mu->Unlock();
    verif::sched::BlockUntil([&signaled]() { return signaled; }, deadline);
    if (!signaled) {
      waiters_.remove(&signaled);
    }
    mu->Lock();
    return !signaled;
  }
  std::list<bool*> waiters_;
};

class VerifNotification {
 public:
  VerifNotification() = default;
  explicit VerifNotification(bool const prenotify) : notified_(prenotify) {}
  bool HasBeenNotified() const {
    verif::sched::Point();
    return notified_;
  }
  void WaitForNotification() const {
    verif::sched::Block([this]() { return notified_; });
  }
  bool WaitForNotificationWithTimeout(Duration const timeout) const {
    return verif::sched::BlockUntil(
        [this]() { return notified_; },
        verif::sched::DeadlineIn(verif::sched::ToNanos(timeout)));
  }
  bool WaitForNotificationWithDeadline(Time const deadline) const {
    return verif::sched::BlockUntil([this]() { return notified_; },
                                    verif::sched::DeadlineAt(deadline));
  }
  void Notify() {
    verif::sched::Point();
    if (notified_) {
      // The contract of absl::Notification, which is checked in debug mode.
      verif::sched::Die("Notify() method called more than once");
    }
    notified_ = true;
  }

 private:
  bool notified_ = false;
};

inline Time VerifNow() {
  verif::sched::Point();
  return FromUnixNanos(verif::sched::Now());
}

inline void VerifSleepFor(Duration const d) {
  verif::sched::BlockUntil([]() { return false; },
                           verif::sched::DeadlineIn(verif::sched::ToNanos(d)));
}

}  // namespace absl

namespace std {

template<typename T>
class VerifAtomic {
 public:
  using value_type = T;
  static constexpr bool is_always_lock_free = atomic<T>::is_always_lock_free;
  constexpr VerifAtomic() : value_() {}
  constexpr VerifAtomic(T const value) : value_(value) {}
  VerifAtomic(VerifAtomic const&) = delete;
  VerifAtomic& operator=(VerifAtomic const&) = delete;
  bool is_lock_free() const { return true; }
  T operator=(T const value) {
    store(value);
    return value;
  }
  operator T() const { return load(); }
  T load(memory_order = memory_order_seq_cst) const {
    verif::sched::Point();
    return value_;
  }
  void store(T const value, memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    value_ = value;
    ++version_;
  }
  T exchange(T const value, memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    T const old = value_;
    value_ = value;
    return old;
  }
  bool compare_exchange_strong(T& expected,
                               T const desired,
                               memory_order = memory_order_seq_cst,
                               memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    if (value_ == expected) {
      value_ = desired;
      return true;
    }
    expected = value_;
    return false;
  }
  bool compare_exchange_weak(T& expected,
                             T const desired,
                             memory_order = memory_order_seq_cst,
                             memory_order = memory_order_seq_cst) {
    return compare_exchange_strong(expected, desired);
  }
  template<typename U>
  T fetch_add(U const u, memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    T const old = value_;
    value_ += u;
    return old;
  }
  template<typename U>
  T fetch_sub(U const u, memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    T const old = value_;
    value_ -= u;
    return old;
  }
  template<typename U>
  T fetch_or(U const u, memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    T const old = value_;
    value_ |= u;
    return old;
  }
  template<typename U>
  T fetch_and(U const u, memory_order = memory_order_seq_cst) {
    verif::sched::Point();
    T const old = value_;
    value_ &= u;
    return old;
  }
  T operator++() { return fetch_add(1) + 1; }
  T operator--() { return fetch_sub(1) - 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--(int) { return fetch_sub(1); }
  template<typename U>
  T operator+=(U const u) { return fetch_add(u) + u; }
  template<typename U>
  T operator-=(U const u) { return fetch_sub(u) - u; }
  template<typename U>
  T operator|=(U const u) { return fetch_or(u) | u; }
  template<typename U>
  T operator&=(U const u) { return fetch_and(u) & u; }
  void wait(T const old, memory_order = memory_order_seq_cst) const {
    verif::sched::Block([this, old]() { return value_ != old; });
  }
  void notify_one() { verif::sched::Point(); }
  void notify_all() { verif::sched::Point(); }

 private:
  T value_;
  int version_ = 0;
};

using VerifAtomicBool = VerifAtomic<bool>;
using VerifAtomicInt = VerifAtomic<int>;

class VerifAtomicFlag {
 public:
  constexpr VerifAtomicFlag() = default;
  bool test_and_set(memory_order = memory_order_seq_cst) {
    return value_.exchange(true);
  }
  void clear(memory_order = memory_order_seq_cst) { value_.store(false); }
  bool test(memory_order = memory_order_seq_cst) const { return value_.load(); }

 private:
  VerifAtomic<bool> value_ = false;
};

// The thread ids are the ones of the scheduler.
class VerifThread {
 public:
  using id = int;
  using native_handle_type = int;
  VerifThread() noexcept = default;
  VerifThread(VerifThread const&) = delete;
  VerifThread(VerifThread&& other) noexcept : id_(other.id_) { other.id_ = -1; }
  template<typename F,
           typename... Args,
           typename = enable_if_t<!is_same_v<remove_cvref_t<F>, VerifThread>>>
  explicit VerifThread(F&& f, Args&&... args) {
    auto bound = make_shared<tuple<decay_t<F>, decay_t<Args>...>>(
        std::forward<F>(f), std::forward<Args>(args)...);
    id_ = verif::sched::Spawn([bound = std::move(bound)]() mutable {
      std::apply(
          [](auto&... a) { std::invoke(std::move(a)...); }, *bound);
      bound.reset();
    });
  }
  VerifThread& operator=(VerifThread&& other) noexcept {
    if (joinable()) {
      verif::sched::Die("std::terminate: assignment to a joinable thread");
    }
    id_ = other.id_;
    other.id_ = -1;
    return *this;
  }
  ~VerifThread() {
    if (joinable()) {
      verif::sched::Die("std::terminate: destruction of a joinable thread");
    }
  }
  bool joinable() const noexcept { return id_ >= 0; }
  void join() {
    if (!joinable()) {
      verif::sched::Die("join: invalid argument");
    }
    if (id_ == verif::sched::Self()) {
      verif::sched::Die("join: resource deadlock would occur");
    }
    verif::sched::JoinThread(id_);
    id_ = -1;
  }
  void detach() { id_ = -1; }
  id get_id() const noexcept { return id_; }
  void swap(VerifThread& other) noexcept { std::swap(id_, other.id_); }
  static unsigned hardware_concurrency() noexcept { return 2; }

 private:
  int id_ = -1;
};

class VerifStopToken {
 public:
  VerifStopToken() = default;
  explicit VerifStopToken(stop_token st) : st_(std::move(st)) {}
  bool stop_requested() const noexcept {
    verif::sched::Point();
    return st_.stop_requested();
  }
  bool stop_possible() const noexcept { return st_.stop_possible(); }
  bool operator==(VerifStopToken const& other) const {
    return st_ == other.st_;
  }

 private:
  stop_token st_;
};

class VerifStopSource {
 public:
  VerifStopSource() = default;
  explicit VerifStopSource(nostopstate_t) : ss_(nostopstate) {}
  VerifStopToken get_token() const noexcept {
    return VerifStopToken(ss_.get_token());
  }
  bool request_stop() noexcept {
    verif::sched::Point();
    return ss_.request_stop();
  }
  bool stop_requested() const noexcept {
    verif::sched::Point();
    return ss_.stop_requested();
  }
  bool stop_possible() const noexcept { return ss_.stop_possible(); }

 private:
  stop_source ss_;
};

class VerifJthread {
 public:
  using id = VerifThread::id;
  VerifJthread() noexcept : ss_(nostopstate) {}
  template<typename F,
           typename... Args,
           typename = enable_if_t<!is_same_v<remove_cvref_t<F>, VerifJthread>>>
  explicit VerifJthread(F&& f, Args&&... args) {
    if constexpr (is_invocable_v<decay_t<F>, VerifStopToken, decay_t<Args>...>) {
      t_ = VerifThread(
          std::forward<F>(f), ss_.get_token(), std::forward<Args>(args)...);
    } else {
      t_ = VerifThread(std::forward<F>(f), std::forward<Args>(args)...);
    }
  }
  VerifJthread(VerifJthread&&) noexcept = default;
  VerifJthread& operator=(VerifJthread&& other) noexcept {
    VerifJthread old(std::move(*this));
    ss_ = std::move(other.ss_);
    t_ = std::move(other.t_);
    other.ss_ = VerifStopSource(nostopstate);
    return *this;
  }
  ~VerifJthread() {
    if (t_.joinable()) {
      ss_.request_stop();
      t_.join();
    }
  }
  bool joinable() const noexcept { return t_.joinable(); }
  void join() { t_.join(); }
  void detach() { t_.detach(); }
  bool request_stop() noexcept { return ss_.request_stop(); }
  VerifStopToken get_stop_token() const noexcept { return ss_.get_token(); }
  VerifStopSource get_stop_source() const noexcept { return ss_; }
  id get_id() const noexcept { return t_.get_id(); }
  void swap(VerifJthread& other) noexcept {
    std::swap(ss_, other.ss_);
    t_.swap(other.t_);
  }
  static unsigned hardware_concurrency() noexcept { return 2; }

 private:
  VerifStopSource ss_;
  VerifThread t_;
};

template<typename T>
struct VerifFutureState {
  bool ready = false;
  bool retrieved = false;
  exception_ptr exception;
  conditional_t<is_void_v<T>,
                bool,
                conditional_t<is_reference_v<T>,
                              add_pointer_t<T>,
                              optional<T>>>
      value{};
};

template<typename T>
class VerifFuture {
 public:
  VerifFuture() = default;
  explicit VerifFuture(shared_ptr<VerifFutureState<T>> s) : s_(std::move(s)) {}
  VerifFuture(VerifFuture&&) = default;
  VerifFuture& operator=(VerifFuture&&) = default;
  bool valid() const { return s_ != nullptr; }
  void wait() const {
    Check();
    verif::sched::Block([s = s_]() { return s->ready; });
  }
  template<typename R, typename P>
  future_status wait_for(chrono::duration<R, P> const& d) const {
    Check();
    return verif::sched::BlockUntil(
               [s = s_]() { return s->ready; },
               verif::sched::DeadlineIn(verif::sched::ToNanos(d)))
               ? future_status::ready
               : future_status::timeout;
  }
  template<typename C, typename D>
  future_status wait_until(chrono::time_point<C, D> const& t) const {
    Check();
    return verif::sched::BlockUntil(
               [s = s_]() { return s->ready; },
               verif::sched::ToNanos(t.time_since_epoch()))
               ? future_status::ready
               : future_status::timeout;
  }
  T get() {
    wait();
    auto s = std::move(s_);
    if (s->exception) {
      rethrow_exception(s->exception);
    }
    if constexpr (is_void_v<T>) {
      return;
    } else if constexpr (is_reference_v<T>) {
      return *s->value;
    } else {
      return std::move(*s->value);
    }
  }

 private:
  void Check() const {
    if (s_ == nullptr) {
      throw future_error(future_errc::no_state);
    }
  }
  shared_ptr<VerifFutureState<T>> s_;
};

template<typename T>
class VerifPromise {
 public:
  VerifPromise() : s_(make_shared<VerifFutureState<T>>()) {}
  VerifPromise(VerifPromise&& other) noexcept : s_(std::move(other.s_)) {
    other.s_.reset();
  }
  VerifPromise& operator=(VerifPromise&& other) noexcept {
    Abandon();
    s_ = std::move(other.s_);
    other.s_.reset();
    return *this;
  }
  ~VerifPromise() { Abandon(); }
  VerifFuture<T> get_future() {
    Check();
    if (s_->retrieved) {
      throw future_error(future_errc::future_already_retrieved);
    }
    s_->retrieved = true;
    return VerifFuture<T>(s_);
  }
  template<typename... U>
  void set_value(U&&... u) {
    Check();
    verif::sched::Point();
    if (s_->ready) {
      throw future_error(future_errc::promise_already_satisfied);
    }
    if constexpr (is_reference_v<T>) {
      s_->value = (&u, ...);
    } else if constexpr (!is_void_v<T>) {
      s_->value.emplace(std::forward<U>(u)...);
    }
    s_->ready = true;
  }
  void set_exception(exception_ptr p) {
    Check();
    verif::sched::Point();
    if (s_->ready) {
      throw future_error(future_errc::promise_already_satisfied);
    }
    s_->exception = p;
    s_->ready = true;
  }
  void swap(VerifPromise& other) noexcept { s_.swap(other.s_); }

 private:
  void Check() const {
    if (s_ == nullptr) {
      throw future_error(future_errc::no_state);
    }
  }
  void Abandon() {
    if (s_ != nullptr && !s_->ready) {
      s_->exception =
          make_exception_ptr(future_error(future_errc::broken_promise));
      s_->ready = true;
    }
    s_.reset();
  }
  shared_ptr<VerifFutureState<T>> s_;
};

class VerifStdMutex {
 public:
  void lock() { lock_.AcquireExclusive(); }
  void unlock() { lock_.ReleaseExclusive(); }
  bool try_lock() { return lock_.TryAcquireExclusive(); }
  void lock_shared() { lock_.AcquireShared(); }
  void unlock_shared() { lock_.ReleaseShared(); }
  bool try_lock_shared() { return lock_.TryAcquireShared(); }

 private:
  verif::sched::Lock lock_;
};

class VerifConditionVariable {
 public:
  void notify_one() {
    verif::sched::Point();
    if (!waiters_.empty()) {
      *waiters_.front() = true;
      waiters_.pop_front();
    }
  }
  void notify_all() {
    verif::sched::Point();
    for (bool* const w : waiters_) {
      *w = true;
    }
    waiters_.clear();
  }
  template<typename L>
  void wait(L& l) {
    WaitUntil(l, verif::sched::kNever);
  }
  template<typename L, typename P>
  void wait(L& l, P p) {
    while (!p()) {
      wait(l);
    }
  }
  template<typename L, typename R, typename Q>
  cv_status wait_for(L& l, chrono::duration<R, Q> const& d) {
    return WaitUntil(l, verif::sched::DeadlineIn(verif::sched::ToNanos(d)));
  }
  template<typename L, typename R, typename Q, typename P>
  bool wait_for(L& l, chrono::duration<R, Q> const& d, P p) {
    auto const deadline = verif::sched::DeadlineIn(verif::sched::ToNanos(d));
    while (!p()) {
      if (WaitUntil(l, deadline) == cv_status::timeout) {
        return p();
      }
    }
    return true;
  }
  template<typename L, typename C, typename D>
  cv_status wait_until(L& l, chrono::time_point<C, D> const& t) {
    return WaitUntil(l, verif::sched::ToNanos(t.time_since_epoch()));
  }
  template<typename L, typename C, typename D, typename P>
  bool wait_until(L& l, chrono::time_point<C, D> const& t, P p) {
    while (!p()) {
      if (wait_until(l, t) == cv_status::timeout) {
        return p();
      }
    }
    return true;
  }

 private:
  template<typename L>
  cv_status WaitUntil(L& l, verif::sched::Nanos const deadline) {
    bool signaled = false;
    waiters_.push_back(&signaled);
    l.unlock();
    verif::sched::BlockUntil([&signaled]() { return signaled; }, deadline);
    if (!signaled) {
      waiters_.remove(&signaled);
    }
    l.lock();
    return signaled ? cv_status::no_timeout : cv_status::timeout;
  }
  list<bool*> waiters_;
};

namespace this_thread {
template<typename R, typename P>
void VerifSleepFor(chrono::duration<R, P> const& d) {
  verif::sched::BlockUntil([]() { return false; },
                           verif::sched::DeadlineIn(verif::sched::ToNanos(d)));
}
template<typename C, typename D>
void VerifSleepUntil(chrono::time_point<C, D> const& t) {
  verif::sched::BlockUntil([]() { return false; },
                           verif::sched::ToNanos(t.time_since_epoch()));
}
inline void VerifYield() {
  verif::sched::Point();
}
inline int VerifGetId() {
  return verif::sched::Self();
}
}  // namespace this_thread

}  // namespace std

#undef MutexLock
#undef ReaderMutexLock
#define Mutex VerifMutex
#define MutexLock VerifSchedMutexLock
#define ReleasableMutexLock VerifReleasableMutexLock
#define ReaderMutexLock VerifSchedReaderMutexLock
#define WriterMutexLock VerifSchedMutexLock
#define Condition VerifCondition
#define CondVar VerifCondVar
#define Notification VerifNotification
#define SleepFor VerifSleepFor

#define thread VerifThread
#define jthread VerifJthread
#define stop_token VerifStopToken
#define stop_source VerifStopSource
#define atomic VerifAtomic
#define atomic_bool VerifAtomicBool
#define atomic_int VerifAtomicInt
#define atomic_flag VerifAtomicFlag
#define promise VerifPromise
#define future VerifFuture
#define mutex VerifStdMutex
#define shared_mutex VerifStdMutex
#define condition_variable VerifConditionVariable
#define condition_variable_any VerifConditionVariable
#define steady_clock VerifSteadyClock
#define system_clock VerifSystemClock
#define sleep_for VerifSleepFor
#define sleep_until VerifSleepUntil
