#pragma once
#include "absl/log/log.h"
#undef CHECK
#undef CHECK_EQ
#undef CHECK_NE
#undef CHECK_LT
#undef CHECK_LE
#undef CHECK_GT
#undef CHECK_GE
#undef DCHECK
#undef DCHECK_EQ
#undef DCHECK_NE
#undef DCHECK_LT
#undef DCHECK_LE
#undef DCHECK_GT
#undef DCHECK_GE
#define CHECK(c) (c) ? (void)0 : DemoVoidify() && DemoLog(true) << #c
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_OK(s) for (auto &&demo_s = (s); !demo_s.ok();) DemoLog(true) << #s
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
#define QCHECK_LT CHECK_LT
#define QCHECK_LE CHECK_LE
#define QCHECK_GT CHECK_GT
#define QCHECK_GE CHECK_GE
#define QCHECK_OK CHECK_OK
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
