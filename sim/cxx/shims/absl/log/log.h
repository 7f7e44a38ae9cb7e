// Stand-in for absl/log of newer Abseil: ERROR and below are dropped (they go
// to a null stream), FATAL ends the run through the simulator.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_

#include <memory>
#include <ostream>
#include <sstream>
#include <string>

#include "simrt.h"

namespace simlog {

// One type for every severity: OpenFst picks between two of them with ?:.
class Msg {
 public:
  Msg() = default;
  Msg(const char *f, int l, const char *pre = "") : f_(f), l_(l), s_(new std::ostringstream) { *s_ << pre; }
  Msg(Msg &&) = default;
  ~Msg() {
    if (s_) ::sim::Fatal(f_, l_, s_->str().c_str());
  }
  template <class T>
  Msg &operator<<(const T &v) {
    if (s_) *s_ << v;
    return *this;
  }
  Msg &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  Msg &stream() { return *this; }

 private:
  const char *f_ = nullptr;
  int l_ = 0;
  std::unique_ptr<std::ostringstream> s_;
};
struct Voidify {
  template <class T>
  void operator&&(T &&) const {}
};
}  // namespace simlog

#undef LOG
#undef VLOG
#undef LOG_IF
#undef PLOG
#undef DLOG
#define SIMLOG_INFO ::simlog::Msg()
#define SIMLOG_WARNING ::simlog::Msg()
#define SIMLOG_ERROR ::simlog::Msg()
#define SIMLOG_DFATAL ::simlog::Msg(__FILE__, __LINE__)
#define SIMLOG_QFATAL ::simlog::Msg(__FILE__, __LINE__)
#define SIMLOG_FATAL ::simlog::Msg(__FILE__, __LINE__)
#define LOG(sev) SIMLOG_##sev
#define PLOG(sev) SIMLOG_##sev
#define DLOG(sev) SIMLOG_##sev
#define VLOG(n) ::simlog::Msg()
#define DVLOG(n) ::simlog::Msg()
#define VLOG_IS_ON(n) false
#define LOG_IF(sev, c) (c) ? ::simlog::Voidify() && SIMLOG_##sev : (void)0
#define LOG_FIRST_N(sev, n) SIMLOG_##sev
#define LOG_EVERY_N(sev, n) SIMLOG_##sev
#define LOG_EVERY_N_SEC(sev, n) SIMLOG_##sev

#endif
