// Replaces OpenFst's logging macros by the simulator's.
#ifndef FST_LIB_LOG_H_
#define FST_LIB_LOG_H_
#include <cassert>
#include <iostream>
#include <string>
#include <fst/types.h>
#include <fst/flags.h>
#include "absl/log/log.h"
#include "absl/log/check.h"
DECLARE_int32(v);
#define ATTRIBUTE_DEPRECATED __attribute__((deprecated))
#endif
