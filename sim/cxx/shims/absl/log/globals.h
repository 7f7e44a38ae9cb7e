#ifndef VERIF_SHIM_ABSL_LOG_GLOBALS_H_
#define VERIF_SHIM_ABSL_LOG_GLOBALS_H_
#endif
