#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_

#include "absl/log/log.h"

namespace simlog {
template <class T>
inline auto StatusText(const T &s, int) -> decltype(s.ToString()) { return s.ToString(); }
template <class T>
inline auto StatusText(const T &s, long) -> decltype(s.status().ToString()) { return s.status().ToString(); }
}  // namespace simlog

#undef CHECK
#undef CHECK_EQ
#undef CHECK_NE
#undef CHECK_LT
#undef CHECK_LE
#undef CHECK_GT
#undef CHECK_GE
#undef DCHECK
#undef DCHECK_EQ
#undef DCHECK_NE
#undef DCHECK_LT
#undef DCHECK_LE
#undef DCHECK_GT
#undef DCHECK_GE
#undef QCHECK
#undef CHECK_OK
#define SIMLOG_CHECK(c, t)           \
  (__builtin_expect(!!(c), 1))       \
      ? (void)0                      \
      : ::simlog::Voidify() && ::simlog::Msg(__FILE__, __LINE__, "Check failed: " t " ")
#define CHECK(c) SIMLOG_CHECK(c, #c)
#define CHECK_EQ(a, b) SIMLOG_CHECK((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) SIMLOG_CHECK((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) SIMLOG_CHECK((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) SIMLOG_CHECK((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) SIMLOG_CHECK((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) SIMLOG_CHECK((a) >= (b), #a " >= " #b)
#define CHECK_STREQ(a, b) SIMLOG_CHECK(std::string(a) == std::string(b), #a " streq " #b)
#define CHECK_OK(s)                                                          \
  for (auto &&simlog_s = (s); !simlog_s.ok();)                               \
  ::simlog::Msg(__FILE__, __LINE__, #s " is OK ") << ::simlog::StatusText(simlog_s, 0)
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
#define QCHECK_LT CHECK_LT
#define QCHECK_LE CHECK_LE
#define QCHECK_GT CHECK_GT
#define QCHECK_GE CHECK_GE
#define QCHECK_OK CHECK_OK
#define PCHECK CHECK
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_OK CHECK_OK

#endif
