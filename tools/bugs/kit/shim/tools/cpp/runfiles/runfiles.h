#pragma once
#include <cstdlib>
#include <string>
namespace bazel { namespace tools { namespace cpp { namespace runfiles {
class Runfiles { public:
  static Runfiles *Create(const std::string &, std::string *) { return new Runfiles; }
  std::string Rlocation(const std::string &p) const {
    const char *d = getenv("DEMO_RUNFILES");
    return d ? std::string(d) + "/" + p : p; } };
}}}}
