#ifndef ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#define ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#include "absl/synchronization/mutex.h"
namespace simabsl {
class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : n_(n) {}
  bool DecrementCount() {
    ::sim::Yield();
    ::sim::HbRelease(this);
    ::sim::Quiet q;
    if (n_ <= 0) ::sim::Violation("counter-misuse", "BlockingCounter decremented below zero");
    return --n_ == 0;
  }
  void Wait() {
    ::sim::WaitUntil(Zero, this, -1);
    ::sim::HbAcquire(this);
  }

 private:
  static bool Zero(void *p) { return static_cast<BlockingCounter *>(p)->n_ == 0; }
  int n_;
};
}  // namespace simabsl
namespace absl { using ::simabsl::BlockingCounter; }
#endif
