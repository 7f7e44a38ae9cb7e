#ifndef VERIF_SHIM_BASE_CHAR32_H_
#define VERIF_SHIM_BASE_CHAR32_H_
using char32 = int;
#endif
