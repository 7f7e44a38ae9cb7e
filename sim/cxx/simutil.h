// Helpers shared by the harnesses.
#ifndef VERIF_SIMUTIL_H_
#define VERIF_SIMUTIL_H_
#include <cstdlib>
#include <string>
#include <vector>

#include "simrt.h"

namespace simutil {

inline void Put(const std::string &path, const std::string &data) { sim::PutFile(path.c_str(), data.data(), data.size()); }

inline std::string OnDisk(const std::string &path) {
  char *d = nullptr;
  size_t n = 0;
  if (!sim::Slurp(path.c_str(), &d, &n)) return "";
  std::string s(d, n);
  free(d);
  return s;
}

// Text of one of several size classes; sizes around the stream buffers matter.
inline std::string Content(int cls) {
  static const int kSpan[] = {1, 60, 600, 9000, 40000, 150000};
  size_t n = cls <= 0 ? 0 : sim::W(kSpan[cls]);
  const unsigned salt = sim::W(1000);
  std::string s(n, ' ');
  unsigned x = salt * 2654435761u + 12345;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525u + 1013904223u;
    const unsigned v = x >> 24;
    // Mostly printable, with line ends and (rarely) any other byte.
    s[i] = v < 6 ? '\n' : static_cast<char>(v < 180 ? 33 + v % 94 : v < 190 ? (x >> 16) & 0xff : v);
  }
  return s;
}

// Runs the main function of a tool with the given flags.
inline int RunMain(int (*entry)(int, char **), std::vector<std::string> args) {
  args.insert(args.begin(), "tool");
  std::vector<char *> argv;
  for (auto &a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  sim::Probe("main");
  return entry(static_cast<int>(args.size()), argv.data());
}

}  // namespace simutil
#endif
