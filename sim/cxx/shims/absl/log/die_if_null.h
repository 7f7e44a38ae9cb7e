#ifndef VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H_
#define VERIF_SHIM_ABSL_LOG_DIE_IF_NULL_H_
#include <utility>
#include "absl/log/check.h"
namespace simlog {
template <class T>
T DieIfNull(const char *f, int l, T &&t) {
  if (t == nullptr) ::sim::Fatal(f, l, "null");
  return std::forward<T>(t);
}
}  // namespace simlog
#define ABSL_DIE_IF_NULL(v) ::simlog::DieIfNull(__FILE__, __LINE__, (v))
#endif
