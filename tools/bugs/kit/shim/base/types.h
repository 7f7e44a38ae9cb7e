#ifndef VERIF_SHIM_BASE_TYPES_H_
#define VERIF_SHIM_BASE_TYPES_H_
#include <cstdint>
#include "base/char32.h"
#endif
