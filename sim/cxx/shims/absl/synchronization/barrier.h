#ifndef ABSL_SYNCHRONIZATION_BARRIER_H_
#define ABSL_SYNCHRONIZATION_BARRIER_H_
#include "absl/synchronization/mutex.h"
namespace simabsl {
class Barrier {
 public:
  explicit Barrier(int n) : n_(n), left_(n) {}
  bool Block() {
    ::sim::Yield();
    ::sim::HbRelease(this);
    { ::sim::Quiet q; --n_; }
    ::sim::WaitUntil(Zero, this, -1);
    ::sim::HbAcquire(this);
    ::sim::Quiet q;
    return --left_ == 0;
  }

 private:
  static bool Zero(void *p) { return static_cast<Barrier *>(p)->n_ <= 0; }
  int n_, left_;
};
}  // namespace simabsl
namespace absl { using ::simabsl::Barrier; }
#endif
