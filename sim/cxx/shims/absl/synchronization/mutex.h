// absl/synchronization/mutex.h over the simulated scheduler.  The types live
// in their own namespace so that nothing clashes with the Abseil library that
// the binary is linked with; sizes match, because absl/flags embeds a Mutex.
#ifndef ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_MUTEX_H_

#include <cstdint>
#include <functional>
#include <type_traits>

#include "absl/base/attributes.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "simrt.h"

namespace simabsl {

inline int64_t TimeoutNs(absl::Duration d) {
  if (d == absl::InfiniteDuration()) return -1;
  int64_t n = absl::ToInt64Nanoseconds(d);
  return n < 0 ? 0 : n;
}
inline int64_t DeadlineNs(absl::Time t) {
  if (t == absl::InfiniteFuture()) return -1;
  int64_t n = absl::ToUnixNanos(t) - ::sim::WallNs();
  return n < 0 ? 0 : n;
}

class Condition {
 public:
  Condition(bool (*f)(void *), void *a) : f_([f, a] { return f(a); }) {}
  template <class T>
  Condition(bool (*f)(T *), T *a) : f_([f, a] { return f(a); }) {}
  template <class T>
  Condition(bool (*f)(T *), typename std::common_type<T>::type *a, int = 0) : f_([f, a] { return f(a); }) {}
  template <class T>
  Condition(T *o, bool (std::common_type<T>::type::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <class T>
  Condition(const T *o, bool (std::common_type<T>::type::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool *b) : f_([b] { return *b; }) {}
  template <class F, class = decltype(static_cast<bool (F::*)() const>(&F::operator()))>
  explicit Condition(const F *f) : f_([f] { return (*f)(); }) {}
  static const Condition kTrue;
  bool Eval() const { return f_(); }

 private:
  Condition() : f_([] { return true; }) {}
  std::function<bool()> f_;
};
inline const Condition Condition::kTrue;

inline bool EvalCondition(void *c) { return static_cast<const Condition *>(c)->Eval(); }

class ABSL_LOCKABLE Mutex {
 public:
  Mutex() { (void)pad_; }
  explicit constexpr Mutex(int) : pad_(0) {}
  ~Mutex() { ::sim::MuDestroy(this); }
  Mutex(const Mutex &) = delete;
  Mutex &operator=(const Mutex &) = delete;

  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { ::sim::MuLock(this, false); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { ::sim::MuUnlock(this, false); }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return ::sim::MuTryLock(this, false); }
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { ::sim::MuLock(this, true); }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { ::sim::MuUnlock(this, true); }
  bool ReaderTryLock() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return ::sim::MuTryLock(this, true); }
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  bool WriterTryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
  // Names of newer releases.
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
  void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { ReaderLock(); }
  void unlock_shared() ABSL_UNLOCK_FUNCTION() { ReaderUnlock(); }
  bool try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return ReaderTryLock(); }

  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
  void AssertNotHeld() const {}

  void Await(const Condition &c) {
    ::sim::MuAwait(this, Shared(), EvalCondition, const_cast<Condition *>(&c), -1);
  }
  bool AwaitWithTimeout(const Condition &c, absl::Duration d) {
    return ::sim::MuAwait(this, Shared(), EvalCondition, const_cast<Condition *>(&c), TimeoutNs(d));
  }
  bool AwaitWithDeadline(const Condition &c, absl::Time t) {
    return ::sim::MuAwait(this, Shared(), EvalCondition, const_cast<Condition *>(&c), DeadlineNs(t));
  }
  void LockWhen(const Condition &c) ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); Await(c); }
  void WriterLockWhen(const Condition &c) ABSL_EXCLUSIVE_LOCK_FUNCTION() { LockWhen(c); }
  void ReaderLockWhen(const Condition &c) ABSL_SHARED_LOCK_FUNCTION() { ReaderLock(); Await(c); }
  bool LockWhenWithTimeout(const Condition &c, absl::Duration d) ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    Lock();
    return AwaitWithTimeout(c, d);
  }
  bool LockWhenWithDeadline(const Condition &c, absl::Time t) ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    Lock();
    return AwaitWithDeadline(c, t);
  }
  void EnableDebugLog(const char *) {}
  void ForgetDeadlockInfo() {}

 private:
  bool Shared() { return ::sim::MuSharedByMe(this); }
  int64_t pad_ = 0;
};

class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex *m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex &m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->Lock(); }
  MutexLock(Mutex *m, const Condition &c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->LockWhen(c); }
  MutexLock(Mutex &m, const Condition &c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->LockWhen(c); }
  MutexLock(const MutexLock &) = delete;
  MutexLock &operator=(const MutexLock &) = delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }

 private:
  Mutex *const m_;
};
class ABSL_SCOPED_LOCKABLE WriterMutexLock {
 public:
  explicit WriterMutexLock(Mutex *m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  explicit WriterMutexLock(Mutex &m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->Lock(); }
  WriterMutexLock(Mutex *m, const Condition &c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->LockWhen(c); }
  WriterMutexLock(Mutex &m, const Condition &c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->LockWhen(c); }
  WriterMutexLock(const WriterMutexLock &) = delete;
  ~WriterMutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }

 private:
  Mutex *const m_;
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex *m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->ReaderLock(); }
  explicit ReaderMutexLock(Mutex &m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(&m) { m_->ReaderLock(); }
  ReaderMutexLock(Mutex *m, const Condition &c) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->ReaderLockWhen(c); }
  ReaderMutexLock(Mutex &m, const Condition &c) ABSL_SHARED_LOCK_FUNCTION(m) : m_(&m) { m_->ReaderLockWhen(c); }
  ReaderMutexLock(const ReaderMutexLock &) = delete;
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->ReaderUnlock(); }

 private:
  Mutex *const m_;
};
class ABSL_SCOPED_LOCKABLE MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex *m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { if (m_) m_->Lock(); }
  ~MutexLockMaybe() ABSL_UNLOCK_FUNCTION() { if (m_) m_->Unlock(); }

 private:
  Mutex *const m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex *m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
  explicit ReleasableMutexLock(Mutex &m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->Lock(); }
  ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION() { if (m_) m_->Unlock(); }
  void Release() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); m_ = nullptr; }

 private:
  Mutex *m_;
};

class CondVar {
 public:
  CondVar() = default;
  void Wait(Mutex *m) { ::sim::CvWait(this, m, -1); }
  bool WaitWithTimeout(Mutex *m, absl::Duration d) { return !::sim::CvWait(this, m, TimeoutNs(d)); }
  bool WaitWithDeadline(Mutex *m, absl::Time t) { return !::sim::CvWait(this, m, DeadlineNs(t)); }
  void Signal() { ::sim::CvSignal(this, false); }
  void SignalAll() { ::sim::CvSignal(this, true); }

 private:
  int64_t pad_ = 0;
};

}  // namespace simabsl

namespace absl {
ABSL_NAMESPACE_BEGIN
using kConstInitType_sim = int;
ABSL_NAMESPACE_END
#ifndef VERIF_ABSL_MUTEX_NAMES
#define VERIF_ABSL_MUTEX_NAMES
using ::simabsl::CondVar;
using ::simabsl::Condition;
using ::simabsl::Mutex;
using ::simabsl::MutexLock;
using ::simabsl::MutexLockMaybe;
using ::simabsl::ReaderMutexLock;
using ::simabsl::ReleasableMutexLock;
using ::simabsl::WriterMutexLock;
#endif
}  // namespace absl

#endif  // ABSL_SYNCHRONIZATION_MUTEX_H_
