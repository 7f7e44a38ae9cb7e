#ifndef VERIF_SHIM_ABSL_LOG_INITIALIZE_H_
#define VERIF_SHIM_ABSL_LOG_INITIALIZE_H_
namespace absl {
inline void InitializeLog() {}
}  // namespace absl
#endif
