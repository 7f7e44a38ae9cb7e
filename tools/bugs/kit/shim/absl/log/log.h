#pragma once
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
struct DemoLog {
  bool fatal = false;
  std::shared_ptr<std::ostringstream> s = std::make_shared<std::ostringstream>();
  explicit DemoLog(bool f) : fatal(f) {}
  ~DemoLog() { if (fatal) { std::cerr << "FATAL " << s->str() << std::endl; _Exit(134); } }
  template <class T> DemoLog &operator<<(const T &v) { *s << v; return *this; }
  DemoLog &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
struct DemoVoidify { template <class T> void operator&&(T &&) const {} };
#undef LOG
#undef VLOG
#define DEMO_IS_FATAL(x) (#x[0] == 'F' || #x[0] == 'Q')
#define LOG(x) DemoLog(DEMO_IS_FATAL(x))
#define VLOG(n) DemoLog(false)
#define LOG_EVERY_N(s, n) LOG(s)
