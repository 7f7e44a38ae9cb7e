#ifndef ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#define ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#include "absl/synchronization/mutex.h"
namespace simabsl {
class Notification {
 public:
  Notification() = default;
  explicit Notification(bool n) : done_(n) {}
  Notification(const Notification &) = delete;
  void Notify() {
    ::sim::Yield();
    ::sim::Quiet q;
    if (done_) ::sim::Violation("notification-misuse", "Notify called twice");
    ::sim::HbRelease(this);
    done_ = true;
  }
  bool HasBeenNotified() const {
    ::sim::Yield();
    bool d;
    { ::sim::Quiet q; d = done_; }
    if (d) ::sim::HbAcquire(const_cast<Notification *>(this));
    return d;
  }
  void WaitForNotification() const {
    ::sim::WaitUntil(Done, const_cast<Notification *>(this), -1);
    ::sim::HbAcquire(const_cast<Notification *>(this));
  }
  bool WaitForNotificationWithTimeout(absl::Duration d) const {
    bool r = ::sim::WaitUntil(Done, const_cast<Notification *>(this), TimeoutNs(d));
    if (r) ::sim::HbAcquire(const_cast<Notification *>(this));
    return r;
  }

 private:
  static bool Done(void *p) { return static_cast<Notification *>(p)->done_; }
  bool done_ = false;
};
}  // namespace simabsl
namespace absl { using ::simabsl::Notification; }
#endif
