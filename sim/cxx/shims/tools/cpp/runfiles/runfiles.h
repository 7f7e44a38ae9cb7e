// Bazel's runfiles lookup: one fixed tree in the simulated file system.
#ifndef VERIF_SHIM_RUNFILES_H_
#define VERIF_SHIM_RUNFILES_H_
#include <string>
namespace bazel::tools::cpp::runfiles {
class Runfiles {
 public:
  static Runfiles *Create(const std::string &, std::string *e = nullptr) { (void)e; return new Runfiles; }
  static Runfiles *CreateForTest(std::string *e = nullptr) { (void)e; return new Runfiles; }
  template <class A, class B>
  static Runfiles *Create(const A &, const B &, std::string *e = nullptr) { (void)e; return new Runfiles; }
  std::string Rlocation(const std::string &p) const { return "/sim/runfiles/" + p; }
};
}  // namespace bazel::tools::cpp::runfiles
#endif
