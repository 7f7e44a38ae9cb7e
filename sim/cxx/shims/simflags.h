// Stands in for Abseil's flag registry when the main programs of the tools are
// linked into one binary: every main has its own flags, and they are set from
// the argument list by the flag parsers of Abseil itself.
#ifndef VERIF_SHIM_SIMFLAGS_H_
#define VERIF_SHIM_SIMFLAGS_H_

#include <cstdio>
#include <cstdlib>
#include <optional>
#include <string>
#include <vector>

#include "absl/flags/flag.h"
#include "absl/flags/marshalling.h"
#include "absl/flags/parse.h"
#include "absl/flags/usage.h"
#include "absl/strings/string_view.h"

namespace sim_flags {

class Base {
 public:
  Base(const void *unit, const char *name) : unit_(unit), name_(name), next_(Head()) { Head() = this; }
  virtual ~Base() {}
  virtual bool Parse(absl::string_view text, std::string *err) = 0;
  virtual bool IsBool() const = 0;
  virtual void Reset() = 0;
  static Base *&Head() { static Base *head = nullptr; return head; }
  const void *unit_;
  const char *name_;
  Base *next_;
};

template <typename T>
class Flag : public Base {
 public:
  Flag(const void *unit, const char *name, T (*def)()) : Base(unit, name), def_(def) {}
  bool Parse(absl::string_view text, std::string *err) override {
    T v{};
    if (!absl::ParseFlag(text, &v, err)) return false;
    value_ = v;
    return true;
  }
  bool IsBool() const override { return std::is_same<T, bool>::value; }
  void Reset() override { value_.reset(); }
  T Get() const { return value_ ? *value_ : def_(); }
  void Set(const T &v) { value_ = v; }

 private:
  T (*def_)();
  std::optional<T> value_;
};

inline void ResetAll() {
  for (Base *f = Base::Head(); f; f = f->next_) f->Reset();
}

inline std::vector<char *> Parse(const void *unit, int argc, char **argv) {
  std::vector<char *> rest;
  for (int i = 0; i < argc; ++i) {
    absl::string_view a = argv[i];
    if (i == 0 || a.substr(0, 2) != "--") { rest.push_back(argv[i]); continue; }
    a.remove_prefix(2);
    const size_t eq = a.find('=');
    const absl::string_view name = a.substr(0, eq);
    Base *f = Base::Head();
    while (f && (f->unit_ != unit || name != f->name_)) f = f->next_;
    std::string err;
    if (!f || !f->Parse(eq == absl::string_view::npos && f->IsBool() ? "true" : a.substr(eq + 1), &err)) {
      // As Abseil does.
      fprintf(stderr, "ERROR: bad flag %s\n", argv[i]);
      exit(1);
    }
  }
  return rest;
}

namespace {
const int unit = 0;  // one per main program
}  // namespace

}  // namespace sim_flags

namespace absl {
template <typename T>
T GetFlag(const sim_flags::Flag<T> &f) { return f.Get(); }
template <typename T, typename V>
void SetFlag(sim_flags::Flag<T> *f, const V &v) { f->Set(T(v)); }
namespace {
inline std::vector<char *> SimParseCommandLine(int argc, char **argv) { return sim_flags::Parse(&sim_flags::unit, argc, argv); }
inline void SimSetProgramUsageMessage(absl::string_view) {}
}  // namespace
}  // namespace absl

#undef ABSL_FLAG
#define ABSL_FLAG(T, name, def, help) static sim_flags::Flag<T> FLAGS_##name(&sim_flags::unit, #name, []() -> T { return T(def); })
#define ParseCommandLine SimParseCommandLine
#define SetProgramUsageMessage SimSetProgramUsageMessage

#endif  // VERIF_SHIM_SIMFLAGS_H_
