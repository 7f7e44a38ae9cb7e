// A plain reader/writer mutex with the interface of newer Abseil releases.
#ifndef ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#include <condition_variable>
#include <functional>
#include <mutex>
#include "absl/base/thread_annotations.h"
#include "absl/time/clock.h"
namespace demoabsl {
struct Condition {
  std::function<bool()> f;
  template <class T> Condition(T *o, bool (T::*m)() const) : f([=] { return (o->*m)(); }) {}
  template <class T> Condition(T *o, bool (T::*m)()) : f([=] { return (o->*m)(); }) {}
  template <class T> Condition(bool (*g)(T *), T *a) : f([=] { return g(a); }) {}
  explicit Condition(const bool *b) : f([=] { return *b; }) {}
};
class ABSL_LOCKABLE Mutex {
 public:
  Mutex() = default;
  explicit Mutex(int) {}
  void Lock() { std::unique_lock<std::mutex> l(m_); c_.wait(l, [this] { return !w_ && !r_; }); w_ = true; }
  void Unlock() { std::unique_lock<std::mutex> l(m_); w_ = false; c_.notify_all(); }
  void ReaderLock() { std::unique_lock<std::mutex> l(m_); c_.wait(l, [this] { return !w_; }); ++r_; }
  void ReaderUnlock() { std::unique_lock<std::mutex> l(m_); --r_; c_.notify_all(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  void Await(const Condition &c) {
    std::unique_lock<std::mutex> l(m_);
    while (!c.f()) { w_ = false; c_.notify_all(); c_.wait(l, [this] { return !w_ && !r_; }); w_ = true;
      if (!c.f()) { w_ = false; c_.wait_for(l, std::chrono::milliseconds(1)); c_.wait(l, [this] { return !w_ && !r_; }); w_ = true; } }
  }
 private:
  std::mutex m_;
  std::condition_variable c_;
  bool w_ = false;
  int r_ = 0;
};
struct MutexLock {
  Mutex *m;
  explicit MutexLock(Mutex *x) : m(x) { m->Lock(); }
  explicit MutexLock(Mutex &x) : m(&x) { m->Lock(); }
  MutexLock(Mutex *x, const Condition &c) : m(x) { m->Lock(); m->Await(c); }
  ~MutexLock() { m->Unlock(); }
};
typedef MutexLock WriterMutexLock;
struct ReaderMutexLock {
  Mutex *m;
  explicit ReaderMutexLock(Mutex *x) : m(x) { m->ReaderLock(); }
  explicit ReaderMutexLock(Mutex &x) : m(&x) { m->ReaderLock(); }
  ~ReaderMutexLock() { m->ReaderUnlock(); }
};
}  // namespace demoabsl
namespace absl { using demoabsl::Condition; using demoabsl::Mutex; using demoabsl::MutexLock; using demoabsl::WriterMutexLock; using demoabsl::ReaderMutexLock; }
#endif
