#include <sys/stat.h>
#include <unistd.h>

#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "absl/flags/flag.h"
#include "fst/extensions/far/far.h"
#include "fst/fstlib.h"
#include "nisaba/interim/grm2/rewrite/rule_cascade.h"
#include "nisaba/interim/grm2/thrax/grm-manager.h"
#include "nisaba/interim/grm2/thrax/rewrite-tester.h"
#include "nisaba/interim/grm2/thrax/walker/util/function/symbols.h"
#include "nisaba/scripts/brahmic/grammar.h"

using fst::StdArc;
using fst::StdVectorFst;

// Maps the bytes of `from` to those of `to`.
inline StdVectorFst Map(const std::string &from, const std::string &to) {
  StdVectorFst f;
  f.SetStart(f.AddState());
  f.SetFinal(0, StdArc::Weight::One());
  for (size_t i = 0; i < from.size(); ++i) f.AddArc(0, StdArc(from[i], to[i], 0, 0));
  return f;
}

inline void Save(const std::string &path, const std::map<std::string, StdVectorFst> &fsts) {
  for (size_t i = 1; i < path.size(); ++i)
    if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0777);
  std::unique_ptr<fst::FarWriter<StdArc>> w(fst::STTableFarWriter<StdArc>::Create(path));
  for (const auto &x : fsts) w->Add(x.first, x.second);
}

inline void Runfiles(const std::string &dir) { setenv("DEMO_RUNFILES", dir.c_str(), 1); }
