// Scenarios for P15, P16, P23: grammar archives (thrax managers, rule cascades,
// the rewrite tester, the Brahmic C++ grammars) and the shared symbol tables.
#include <algorithm>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "fst/extensions/far/far.h"
#include "fst/fstlib.h"
#include "nisaba/interim/grm2/rewrite/rule_cascade.h"
#include "nisaba/interim/grm2/thrax/grm-manager.h"
#include "nisaba/interim/grm2/thrax/rewrite-tester.h"
#include "nisaba/interim/grm2/thrax/walker/util/function/symbols.h"
#include "nisaba/scripts/brahmic/far.h"
#include "nisaba/scripts/brahmic/grammar.h"
#include "simrt.h"
#include "simutil.h"

ABSL_DECLARE_FLAG(std::string, far);
ABSL_DECLARE_FLAG(std::string, rules);
ABSL_DECLARE_FLAG(std::string, input_mode);
ABSL_DECLARE_FLAG(std::string, output_mode);
ABSL_DECLARE_FLAG(int, noutput);
ABSL_DECLARE_FLAG(bool, show_details);
ABSL_DECLARE_FLAG(std::string, field_separator);

DECLARE_bool(fst_error_fatal);

namespace {

using ::fst::StdArc;
using ::fst::StdFst;
using ::fst::StdVectorFst;
using sim::Quiet;
using simutil::OnDisk;
using simutil::Put;

// ---- rules: a transducer and the table it was made from ----------------------
const int kLetters = 6;  // a..f
// Bracket labels of the first kind; other archives use others.
const int kOpen1 = 0x110001, kClose1 = 0x110002, kOpen2 = 0x110003, kClose2 = 0x110004;

typedef std::map<std::string, float> Paths;  // output -> least cost

struct Rule {
  enum Kind { kTable, kPdt, kMpdt, kParens, kAssign, kSymbols } kind = kTable;
  int states = 1;
  bool wide = false;      // passes every other byte through
  bool symbols = false;   // carries the byte symbol table
  bool konst = false;     // stored as a ConstFst
  bool forget = false;    // stored without knowing whether it is sorted
  int shift = 0;          // added to the bracket labels
  struct Cell { int next = 0; std::vector<std::pair<std::string, int>> outs; } cell[2][kLetters];

  Paths Eval(const std::string &in) const {
    Paths r;
    if (kind == kPdt) {
      const size_t n = in.size() / 2;
      if (in == std::string(n, 'a') + std::string(n, 'c')) r[std::string(n, 'b') + std::string(n, 'd')] = 0;
      return r;
    }
    if (kind == kMpdt) {
      size_t n = 0, m = 0;
      while (n < in.size() && in[n] == 'a') ++n;
      while (n + m < in.size() && in[n + m] == 'b') ++m;
      if (in == std::string(n, 'a') + std::string(m, 'b') + std::string(n, 'c') + std::string(m, 'd'))
        r[std::string(n, 'b') + std::string(m, 'c') + std::string(n, 'd') + std::string(m, 'a')] = 0;
      return r;
    }
    if (kind != kTable) return r;
    Paths now;
    now[""] = 0;
    int s = 0;
    for (unsigned char ch : in) {
      Paths next;
      if (ch >= 'a' && ch < 'a' + kLetters) {
        const Cell &c = cell[s][ch - 'a'];
        for (const auto &p : now)
          for (const auto &o : c.outs) {
            auto it = next.emplace(p.first + o.first, p.second + o.second).first;
            it->second = std::min<float>(it->second, p.second + o.second);
          }
        s = c.next;
      } else if (wide) {
        for (const auto &p : now) next.emplace(p.first + static_cast<char>(ch), p.second);
        s = 0;
      }
      now.swap(next);
    }
    return now;
  }

  StdVectorFst Fst() const {
    StdVectorFst f;
    auto arc = [&](int from, int i, int o, float w, int to) { f.AddArc(from, StdArc(i, o, w, to)); };
    if (kind == kPdt || kind == kMpdt) {
      // PDT: 0 -a-> 1 -(-> 0, 0 -> 2, 2 -)-> 3 -c-> 2.
      // MPDT: the same with a second bracket between b and d.
      const int n = kind == kPdt ? 4 : 8;
      for (int i = 0; i < n; ++i) f.AddState();
      f.SetStart(0);
      if (kind == kPdt) {
        arc(0, 'a', 'b', 0, 1); arc(1, (kOpen1 + shift), (kOpen1 + shift), 0, 0); arc(0, 0, 0, 0, 2);
        arc(2, (kClose1 + shift), (kClose1 + shift), 0, 3); arc(3, 'c', 'd', 0, 2);
        f.SetFinal(2, StdArc::Weight::One());
      } else {
        arc(0, 'a', 'b', 0, 1); arc(1, (kOpen1 + shift), (kOpen1 + shift), 0, 0); arc(0, 0, 0, 0, 2);
        arc(2, 'b', 'c', 0, 3); arc(3, (kOpen2 + shift), (kOpen2 + shift), 0, 2); arc(2, 0, 0, 0, 4);
        arc(4, (kClose1 + shift), (kClose1 + shift), 0, 5); arc(5, 'c', 'd', 0, 4); arc(4, 0, 0, 0, 6);
        arc(6, (kClose2 + shift), (kClose2 + shift), 0, 7); arc(7, 'd', 'a', 0, 6);
        f.SetFinal(6, StdArc::Weight::One());
      }
      return f;
    }
    if (kind == kParens || kind == kAssign) {
      f.AddState();
      f.SetStart(0);
      f.SetFinal(0, StdArc::Weight::One());
      arc(0, (kOpen1 + shift), kind == kParens ? (kClose1 + shift) : 1, 0, 0);
      if (states > 1) arc(0, (kOpen2 + shift), kind == kParens ? (kClose2 + shift) : 2, 0, 0);
      return f;
    }
    if (kind == kSymbols) {
      f.AddState();
      f.SetStart(0);
      fst::SymbolTable t("generated");
      t.AddSymbol("<epsilon>", 0);
      t.AddSymbol("left", (kOpen1 + shift));
      t.AddSymbol("right", (kClose1 + shift));
      f.SetInputSymbols(&t);
      return f;
    }
    for (int s = 0; s < states; ++s) {
      f.AddState();
      f.SetFinal(s, StdArc::Weight::One());
    }
    f.SetStart(0);
    for (int s = 0; s < states; ++s) {
      // Input labels in no particular order.
      for (int l = kLetters - 1; l >= 0; --l) {
        const Cell &c = cell[s][l];
        for (const auto &o : c.outs) {
          int from = s;
          const size_t n = std::max<size_t>(1, o.first.size());
          for (size_t i = 0; i < n; ++i) {
            const int to = i + 1 == n ? c.next : f.AddState();
            arc(from, i ? 0 : 'a' + l, i < o.first.size() ? static_cast<unsigned char>(o.first[i]) : 0, i ? 0 : o.second, to);
            from = to;
          }
        }
      }
      if (wide)
        for (int b = 255; b >= 1; --b)
          if (b < 'a' || b >= 'a' + kLetters) arc(s, b, b, 0, 0);
    }
    if (symbols) {
      fst::SymbolTable t(thrax::function::kByteSymbolTableName);
      t.AddSymbol("<epsilon>", 0);
      for (int b = 1; b < 256; ++b) t.AddSymbol("b" + std::to_string(b), b);
      f.SetInputSymbols(&t);
      f.SetOutputSymbols(&t);
    }
    if (forget) f.SetProperties(0, fst::kILabelSorted | fst::kNotILabelSorted);
    return f;
  }
};

std::string RandomOut(int max) {
  std::string s;
  for (size_t n = sim::W(max + 1); n; --n) s += static_cast<char>('a' + sim::W(kLetters));
  return s;
}

Rule TableRule(bool weighted) {
  Rule r;
  r.states = 1 + sim::W(2);
  r.wide = sim::W(2);
  r.konst = sim::W(3) == 2;
  r.forget = sim::W(3) == 2;
  for (int s = 0; s < r.states; ++s)
    for (int l = 0; l < kLetters; ++l) {
      Rule::Cell &c = r.cell[s][l];
      c.next = sim::W(r.states);
      if (sim::Chance(1, 12)) continue;  // not accepted
      c.outs.emplace_back(RandomOut(2), weighted ? static_cast<int>(sim::W(2)) : 0);
      if (weighted && sim::Chance(1, 2)) c.outs.emplace_back(RandomOut(2), static_cast<int>(sim::W(3)));
    }
  return r;
}

typedef std::map<std::string, Rule> Archive;

// Writes the archive to the simulated disk; its bytes are returned too.
std::string Store(const Archive &a, const std::string &path) {
  Quiet q;
  {
    std::unique_ptr<fst::FarWriter<StdArc>> w(fst::STTableFarWriter<StdArc>::Create(path));
    for (const auto &e : a) {
      const StdVectorFst f = e.second.Fst();
      if (e.second.konst) w->Add(e.first, fst::ConstFst<StdArc>(f));
      else w->Add(e.first, f);
    }
    if (w->Error()) sim::HarnessError("cannot write the archive");
  }
  return OnDisk(path);
}

std::string RandomInput(bool letters_only) {
  std::string s;
  for (size_t n = sim::W(6); n; --n) {
    if (!letters_only && sim::Chance(1, 5)) s += static_cast<char>(1 + sim::W(255));
    else s += static_cast<char>('a' + sim::W(kLetters));
  }
  return s;
}

std::string InputFor(const Rule &r) {
  if (r.kind == Rule::kPdt && sim::W(3)) { const size_t n = sim::W(4); return std::string(n, 'a') + std::string(n, 'c'); }
  if (r.kind == Rule::kMpdt && sim::W(3)) {
    const size_t n = sim::W(3), m = sim::W(3);
    return std::string(n, 'a') + std::string(m, 'b') + std::string(n, 'c') + std::string(m, 'd');
  }
  return RandomInput(false);
}

float Best(const Paths &p) {
  float b = 1e30;
  for (const auto &x : p) b = std::min(b, x.second);
  return b;
}

std::vector<std::string> Optimal(const Paths &p) {
  std::vector<std::string> v;
  const float b = Best(p);
  for (const auto &x : p) if (x.second == b) v.push_back(x.first);
  return v;
}

std::string Show(const std::string &s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 33 && c < 127) r += c;
    else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; }
  }
  return r;
}

// `ok`/`got`: what one best rewrite said.
void CheckTop(const char *what, const std::string &rule, const std::string &in, bool ok, const std::string &got, const Paths &want) {
  Quiet q;
  if (ok != !want.empty())
    sim::Violation("rewrite", "%s: %s of '%s' %s, but the rule %s it", what, rule.c_str(), Show(in).c_str(), ok ? "succeeds" : "fails", want.empty() ? "does not accept" : "accepts");
  if (!ok) return;
  const auto it = want.find(got);
  if (it == want.end() || it->second != Best(want))
    sim::Violation("rewrite", "%s: %s of '%s' is '%s', expected '%s'%s", what, rule.c_str(), Show(in).c_str(), Show(got).c_str(),
                   Show(Optimal(want)[0]).c_str(), Optimal(want).size() > 1 ? " (or another)" : "");
}

void CheckSet(const char *what, const std::string &rule, const std::string &in, bool ok, std::vector<std::string> got, std::vector<std::string> want, bool none) {
  Quiet q;
  if (ok != !none)
    sim::Violation("rewrite", "%s: %s of '%s' %s, but the rule %s it", what, rule.c_str(), Show(in).c_str(), ok ? "succeeds" : "fails", none ? "does not accept" : "accepts");
  if (!ok) return;
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (got == want) return;
  std::string g, w;
  for (const auto &x : got) g += " '" + Show(x) + "'";
  for (const auto &x : want) w += " '" + Show(x) + "'";
  sim::Violation("rewrite", "%s: %s of '%s' gives%.200s, expected%.200s", what, rule.c_str(), Show(in).c_str(), g.c_str(), w.c_str());
}

Paths Cascade(const std::vector<const Rule *> &rules, const std::string &in) {
  Paths now;
  now[in] = 0;
  for (const Rule *r : rules) {
    Paths next;
    for (const auto &p : now)
      for (const auto &x : r->Eval(p.first)) {
        auto it = next.emplace(x.first, p.second + x.second).first;
        it->second = std::min(it->second, p.second + x.second);
      }
    now.swap(next);
    if (now.size() > 3000) break;
  }
  return now;
}

// Rule names and their brackets.
struct Spec { std::string main, parens, assign; };
Spec SpecOf(const std::string &name, const Rule &r) {
  Spec s;
  s.main = name;
  if (r.kind == Rule::kPdt) s.parens = "PARENS";
  if (r.kind == Rule::kMpdt) { s.parens = "PARENS"; s.assign = "STACKS"; }
  return s;
}
std::string Def(const Spec &s) {
  std::string d = s.main;
  if (!s.parens.empty()) d += "$" + s.parens;
  if (!s.assign.empty()) d += "$" + s.assign;
  return d;
}

const char *const kNames[] = {"DEVA", "BENG", "GUJR", "R1", "R2", "TAML"};

Archive RandomArchive(bool plain) {
  Archive a;
  const int n = 1 + sim::W(plain ? 3 : 4);
  for (int i = 0; i < n; ++i) {
    Rule r = TableRule(!plain && sim::W(2));
    if (!plain && sim::Chance(1, 4)) r.symbols = true;
    a[kNames[i]] = r;
  }
  if (!plain && sim::Chance(1, 2)) {
    Rule r;
    r.kind = sim::W(2) ? Rule::kMpdt : Rule::kPdt;
    r.shift = sim::W(2) * 16;
    a["STACKED"] = r;
    Rule p;
    p.shift = r.shift;
    p.kind = Rule::kParens;
    p.states = 2;
    a["PARENS"] = p;
    p.kind = Rule::kAssign;
    a["STACKS"] = p;
  }
  if (!plain && sim::Chance(1, 3)) {
    Rule r;
    r.kind = Rule::kSymbols;
    a["*StringFstSymbolTable"] = r;
  }
  return a;
}

// Main rules only.
std::vector<std::string> Mains(const Archive &a) {
  std::vector<std::string> v;
  for (const auto &e : a)
    if (e.second.kind <= Rule::kMpdt) v.push_back(e.first);
  return v;
}

// ---- checks on one loaded object ---------------------------------------------
void CheckMap(const char *what, const thrax::GrmManager &m, const Archive &a) {
  Quiet q;
  const auto &map = m.GetFstMap();
  for (const auto &e : a)
    if (!map.count(e.first)) sim::Violation("incomplete", "%s: the load succeeded, but '%s' is missing", what, e.first.c_str());
  if (map.size() != a.size()) sim::Violation("incomplete", "%s: %zu grammars are loaded, %zu are stored", what, map.size(), a.size());
}

void RewriteWith(const char *what, const thrax::GrmManager &m, const Archive &a) {
  const auto names = Mains(a);
  const std::string name = names[sim::W(names.size())];
  const Rule &r = a.at(name);
  const Spec s = SpecOf(name, r);
  const std::string in = InputFor(r);
  std::string out = "junk";
  const bool ok = m.RewriteBytes(s.main, in, &out, s.parens, s.assign);
  CheckTop(what, name, in, ok, out, r.Eval(in));
}

// ---- storage states ------------------------------------------------------------
const unsigned kHardRead = sim::kReadEIO | sim::kOpenFail | sim::kSeekFail;

struct Disk {
  std::string path;
  bool bad = false;       // a load of this file cannot succeed
  bool index = false;     // its index is lost: OpenFst 1.7.9 follows whatever is there
  const Archive *archive = nullptr;
};

// OpenFst takes the last 8 bytes for the number of entries, and so on.
enum Index { kHarmless, kThrows, kRuns };
Index PredictIndex(const std::string &d) {
  if (d.size() < 8) return kHarmless;
  int64_t n;
  memcpy(&n, d.data() + d.size() - 8, 8);
  if (n <= 0) return kHarmless;
  if (n > (int64_t{1} << 25)) return kThrows;
  const int64_t at = static_cast<int64_t>(d.size()) - 8 * (n + 1);
  if (at < 0) return kHarmless;
  int64_t p0;
  memcpy(&p0, d.data() + at, 8);
  if (p0 < 0 || p0 + 4 > static_cast<int64_t>(d.size())) return kHarmless;
  int32_t len;
  memcpy(&len, d.data() + p0, 4);
  return len > 100000 ? kRuns : kHarmless;
}

// Puts the file into one of several states. `a` outlives the disk.
Disk Prepare(const std::string &path, const Archive &a, int state) {
  Disk d;
  d.path = path;
  d.archive = &a;
  const std::string bytes = Store(a, path);
  Quiet q;
  switch (state) {
    default: break;
    case 1:  // missing
      d.path = path + ".none";
      d.bad = true;
      break;
    case 2: {  // cut short
      d.bad = true;
      // Often right after an entry or within the index.
      size_t n = sim::W(3) ? sim::W(bytes.size()) : bytes.size() - 1 - sim::W(std::min<size_t>(bytes.size(), 8 * (a.size() + 1)));
      if (PredictIndex(bytes.substr(0, n)) == kRuns) n = 5;
      d.index = PredictIndex(bytes.substr(0, n)) != kHarmless;
      Put(path, bytes.substr(0, n));
      break;
    }
    case 3: {  // the start of one entry was lost: its name and header are zeros
      d.bad = true;
      int64_t n, p;
      memcpy(&n, bytes.data() + bytes.size() - 8, 8);
      memcpy(&p, bytes.data() + bytes.size() - 8 * (n + 1) + 8 * sim::W(n), 8);
      std::string b = bytes;
      for (size_t i = p; i < static_cast<size_t>(p) + 40; ++i) b[i] = 0;
      Put(path, b);
      break;
    }
    case 4:  // an archive of nothing
      d.bad = true;
      Store(Archive(), path);
      break;
    case 5:  // not an archive
      d.bad = true;
      Put(path, "this is not an archive of transducers");
      break;
  }
  return d;
}

// With OpenFst's default its own errors end the process, loudly; callers that
// want a status turn that off.
unsigned BeginFaults(bool bad) {
  FLAGS_fst_error_fatal = sim::W(5) == 4;
  unsigned hard = 0;
  static const unsigned kFocus[] = {sim::kReadEIO, kHardRead, sim::kReadEIO | sim::kSeekFail};
  if (sim::Chance(1, 2)) hard = kFocus[sim::W(3)];
  if (FLAGS_fst_error_fatal) {
    sim::AllowFatal(bad);
    sim::AllowFatalAfter(hard);
  }
  sim::SetFaults(hard | sim::kBenignFaults);
  return hard;
}

void EndFaults() {
  FLAGS_fst_error_fatal = false;
  sim::SetFaults(0);
  sim::AllowFatal(false);
  sim::AllowFatalAfter(0);
}

// Runs the load; the ways in which OpenFst gives up on a lost index are told
// apart from everything else.
template <class F>
bool Loading(const Disk &d, F f) {
  try {
    return f();
  } catch (const std::bad_alloc &) {
    if (d.index) sim::Violation("far-index-garbage", "an archive without its index ends the process (std::bad_alloc)");
    throw;
  } catch (const std::length_error &) {
    if (d.index) sim::Violation("far-index-garbage", "an archive without its index ends the process (std::length_error)");
    throw;
  }
}

// What a load may report.
void Judge(const char *what, bool ok, bool bad, unsigned hard, uint64_t before) {
  const bool fired = hard && sim::FaultsFired(hard) > before;
  if (ok && bad) sim::Violation("damaged-accepted", "%s: success for a missing, incomplete or damaged archive", what);
  if (!ok && !bad && !fired) sim::Violation("healthy-refused", "%s: a healthy archive was refused", what);
  if (ok && fired) sim::Probe("loaded_after_hard_fault");
  sim::Probe(ok ? "loaded" : "refused");
}

int FileState() { return sim::Chance(1, 2) ? 1 + sim::W(5) : 0; }

std::string Brahmic(const std::string &name) { return "/sim/runfiles/com_google_nisaba/nisaba/scripts/brahmic/" + name + ".far"; }

// Half-loaded grammars: after a failed load only all of an earlier archive or
// nothing may be there.
void AfterFailure(const char *what, const thrax::GrmManager &m, const Archive *old) {
  Quiet q;
  const auto &map = m.GetFstMap();
  if (map.empty()) return;
  if (!old) sim::Violation("half-loaded", "%s: after a failed load %zu grammars are in use", what, map.size());
  if (map.size() != old->size()) sim::Violation("half-loaded", "%s: after a failed load %zu grammars are in use, not the former %zu", what, map.size(), old->size());
  for (const auto &e : *old)
    if (!map.count(e.first)) sim::Violation("half-loaded", "%s: after a failed load '%s' is gone and others are not", what, e.first.c_str());
}

}  // namespace

// ---- P15 -------------------------------------------------------------------------
SIM_SCENARIO(grm_load) {
  sim::SetStepBudget(1 << 22, 1 << 28);
  FLAGS_fst_error_fatal = false;
  const Archive versions[2] = {RandomArchive(false), RandomArchive(false)};
  thrax::GrmManager grm;
  rewrite::StdRuleCascade cascade;
  const Archive *grm_has = nullptr, *cascade_has = nullptr;
  bool cascade_loaded = false;
  const int steps = 1 + sim::W(4);
  for (int step = 0; step < steps; ++step) {
    const Archive &a = versions[sim::W(2)];
    // The last step is a healthy load in every third run.
    const bool heal = step + 1 == steps && sim::W(3) == 0;
    const int state = heal ? 0 : FileState();
    const Disk d = Prepare("/sim/g/rules.far", a, state);
    const int api = sim::W(3);
    if (api == 2 && state == 4) continue;  // an empty set is complete
    const unsigned hard = heal ? 0 : BeginFaults(d.bad);
    const uint64_t before = sim::FaultsFired(hard);
    sim::Note("step %d api %d state %d", step, api, state);
    if (state || hard || step) sim::Nontrivial();
    if (api <= 1) {
      const bool ok = Loading(d, [&] { return grm.LoadArchive(d.path); });
      EndFaults();
      Judge("GrmManager", ok, d.bad, hard, before);
      if (ok) {
        grm_has = &a;
        CheckMap("GrmManager", grm, a);
        for (int i = 0; i < 3; ++i) RewriteWith("GrmManager", grm, a);
        const auto syms = grm.GetGeneratedSymbolTable();
        if ((syms != nullptr) != (a.count("*StringFstSymbolTable") > 0) || (syms && syms->Find(kOpen1) != "left"))
          sim::Violation("incomplete", "generated symbols are missing or made up");
      } else {
        AfterFailure("GrmManager", grm, grm_has);
        if (grm.GetFstMap()->empty()) grm_has = nullptr;
        else RewriteWith("GrmManager after a failure", grm, *grm_has);
      }
    } else {
      const bool ok = Loading(d, [&] { return cascade.Load(d.path); });
      EndFaults();
      Judge("RuleCascade", ok, d.bad, hard, before);
      if (ok) cascade_has = &a;
      else if (!cascade_loaded) cascade_has = nullptr;
      cascade_loaded = cascade_has != nullptr;
      // Every rule is there; after a failure: all of the former ones or none.
      size_t there = 0, known = 0;
      for (const Archive &v : versions)
        for (const auto &name : Mains(v)) {
          Quiet q;
          if (!cascade.SetRules(std::vector<std::string>{name})) continue;
          ++there;
          if (ok && !a.count(name)) sim::Violation("stale", "RuleCascade: '%s' of an archive loaded before is still there", name.c_str());
        }
      if (cascade_has)
        for (const auto &name : Mains(*cascade_has)) {
          Quiet q;
          if (cascade.SetRules(std::vector<std::string>{Def(SpecOf(name, cascade_has->at(name)))})) ++known;
        }
      if (ok && known != Mains(a).size()) sim::Violation("incomplete", "RuleCascade: the load succeeded, but only %zu of %zu rules are there", known, Mains(a).size());
      if (!ok && there && (!cascade_has || known != Mains(*cascade_has).size()))
        sim::Violation("half-loaded", "RuleCascade: after a failed load %zu rules are in use", there);
      if (!ok && !there) { cascade_has = nullptr; cascade_loaded = false; }
      if (cascade_has) {
        const auto names = Mains(*cascade_has);
        const std::string name = names[sim::W(names.size())];
        const Rule &r = cascade_has->at(name);
        const std::string in = InputFor(r);
        std::string out;
        {
          Quiet q;
          cascade.SetRules(std::vector<std::string>{Def(SpecOf(name, r))});
        }
        const bool done = cascade.TopRewrite(in, &out);
        CheckTop("RuleCascade", name, in, done, out, r.Eval(in));
        const auto *syms = cascade.GeneratedSymbols();
        if (ok && (syms != nullptr) != (a.count("*StringFstSymbolTable") > 0)) sim::Violation("incomplete", "RuleCascade: generated symbols are missing or made up");
      }
    }
  }
}

// The rewrite tester ends the process loudly, or works.
namespace {

// The ways in which a tester reads and prints strings.
enum TesterMode { kModeByte, kModeUtf8, kModeSymbols };

// Every byte as the UTF-8 form of the code point of that number.
std::string Latin(const std::string &bytes) {
  std::string r;
  for (unsigned char c : bytes) {
    if (c < 0x80) r += static_cast<char>(c);
    else { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 0x3F)); }
  }
  return r;
}

std::string SymbolName(unsigned char c) { return c >= 'a' && c < 'a' + kLetters ? std::string(1, c) : "s" + std::to_string(c); }

std::string InMode(const std::string &bytes, TesterMode m, const char *sep) {
  if (m == kModeByte) return bytes;
  if (m == kModeUtf8) return Latin(bytes);
  std::string r;
  for (unsigned char c : bytes) r += (r.empty() ? "" : sep) + SymbolName(c);
  return r;
}

struct TesterSetup {
  int noutput = 1;
  bool details = false;
  TesterMode in = kModeByte, out = kModeByte;

  // Sets the flags from which a tester takes all this.
  void Apply() const {
    absl::SetFlag(&FLAGS_noutput, noutput);
    absl::SetFlag(&FLAGS_show_details, details);
    // Its first use is guarded inside Abseil, which is not simulated.
    absl::GetFlag(FLAGS_field_separator);
    static const char *const kModes[] = {"byte", "utf8", "/sim/g/symbols.txt"};
    absl::SetFlag(&FLAGS_input_mode, kModes[in]);
    absl::SetFlag(&FLAGS_output_mode, kModes[out]);
    if (in != kModeSymbols && out != kModeSymbols) return;
    std::string text = "<epsilon>\t0\n";
    for (int c = 1; c < 256; ++c) text += SymbolName(c) + "\t" + std::to_string(c) + "\n";
    Put("/sim/g/symbols.txt", text);
  }
};

TesterSetup RandomSetup(const std::vector<const Rule *> &rules) {
  TesterSetup t;
  t.noutput = 1 + sim::W(3);
  t.details = sim::Chance(1, 4);
  if (sim::Chance(1, 2)) return t;
  t.out = static_cast<TesterMode>(sim::W(3));
  t.in = static_cast<TesterMode>(sim::W(3));
  for (const Rule *r : rules)
    if (r->symbols) t.in = t.out = kModeByte;  // tables that do not fit are refused
  return t;
}

// `in` is what the rules get, `got` what the tester answered for it.
void CheckTester(const TesterSetup &t, const std::vector<const Rule *> &rules, const std::string &in, bool prepend, const std::string &got) {
  const Paths raw = Cascade(rules, in);
  Quiet q;
  if (raw.size() > 3000) return;
  const std::string typed = InMode(in, t.in, " ");
  if (raw.empty()) {
    if (got != "Rewrite failed for \"" + typed + "\"") sim::Violation("rewrite", "tester: '%s' gives '%s', expected failure", Show(in).c_str(), Show(got).c_str());
    return;
  }
  auto spell = [&](const Paths &p) {
    Paths r;
    for (const auto &x : p) r[InMode(x.first, t.out, "\t ")] = x.second;
    return r;
  };
  const Paths want = spell(raw);
  // One line for each output, cheapest first.
  std::vector<std::pair<float, std::string>> order;
  for (const auto &p : want) order.emplace_back(p.second, p.first);
  std::sort(order.begin(), order.end());
  const size_t keep = std::min<size_t>(t.noutput, order.size());
  // An output with a line end would be ambiguous.
  if (in.find('\n') != std::string::npos) return;
  std::vector<std::string> lines;
  size_t at = 0;
  while (at < got.size()) {
    size_t e = got.find('\n', at);
    if (e == std::string::npos) sim::Violation("rewrite", "tester: output without line end '%s'", Show(got).c_str());
    lines.push_back(got.substr(at, e - at));
    at = e + 1;
  }
  if (t.details && rules.size() > 1) {
    for (size_t i = 0; i < rules.size(); ++i) {
      const Paths part = spell(Cascade(std::vector<const Rule *>(rules.begin(), rules.begin() + i + 1), in));
      for (size_t k = std::min<size_t>(t.noutput, part.size()); k; --k) {
        const size_t c = lines.empty() ? std::string::npos : lines[0].find("] is: ");
        if (c == std::string::npos || lines[0].rfind("output of rule[", 0) || !part.count(lines[0].substr(c + 6)))
          sim::Violation("rewrite", "tester: '%s': wrong details of rule %zu: %s", Show(in).c_str(), i, Show(got).c_str());
        lines.erase(lines.begin());
      }
    }
  }
  if (lines.size() != keep) sim::Violation("rewrite", "tester: '%s' gives %zu lines, expected %zu: %s", Show(in).c_str(), lines.size(), keep, Show(got).c_str());
  std::set<std::string> seen;
  std::vector<float> costs;
  for (const auto &l : lines) {
    if (prepend && l.rfind("Output string: ", 0)) sim::Violation("rewrite", "tester: odd line '%s'", Show(l).c_str());
    std::string o = prepend ? l.substr(15) : l;
    float cost = 0;
    const size_t c = o.rfind(" <cost=");
    if (t.noutput != 1 && c != std::string::npos) { cost = strtof(o.c_str() + c + 7, nullptr); o.resize(c); }
    const auto it = want.find(o);
    if (it == want.end() || (t.noutput != 1 && it->second != cost) || !seen.insert(o).second)
      sim::Violation("rewrite", "tester: '%s' gives '%s', which is wrong, twice there or has a wrong cost", Show(in).c_str(), Show(l).c_str());
    costs.push_back(it->second);
  }
  std::sort(costs.begin(), costs.end());
  for (size_t k = 0; k < keep; ++k)
    if (costs[k] != order[k].first) sim::Violation("rewrite", "tester: '%s': not the best outputs: %s", Show(in).c_str(), Show(got).c_str());
}

}  // namespace

SIM_SCENARIO(grm_tester) {
  sim::SetStepBudget(1 << 22, 1 << 28);
  FLAGS_fst_error_fatal = false;
  Archive a = RandomArchive(false);
  const int state = FileState();
  const Disk d = Prepare("/sim/g/rules.far", a, state);
  auto names = Mains(a);
  std::vector<std::string> use = {names[sim::W(names.size())]};
  if (sim::Chance(1, 3)) use.push_back(names[sim::W(names.size())]);
  std::string defs;
  std::vector<const Rule *> rules;
  for (const auto &u : use) {
    if (!defs.empty()) defs += ",";
    defs += Def(SpecOf(u, a.at(u)));
    rules.push_back(&a.at(u));
  }
  const bool unknown = sim::Chance(1, 10);
  if (unknown) {
    // A rule, its parentheses or their assignments.
    static const char *const kUnknown[] = {",NOSUCH", "$NOSUCH", "$NOSUCH$NOSUCH"};
    const int which = sim::W(3);
    const size_t last = defs.rfind(',') == std::string::npos ? 0 : defs.rfind(',') + 1;
    defs += which && defs.find('$', last) != std::string::npos ? ",NOSUCH" : kUnknown[which];
  }
  absl::SetFlag(&FLAGS_far, d.path);
  absl::SetFlag(&FLAGS_rules, defs);
  const TesterSetup setup = RandomSetup(rules);
  setup.Apply();
  unsigned hard = BeginFaults(d.bad);
  // OpenFst's reader of symbol tables keeps read errors to itself.
  if (setup.in == kModeSymbols || setup.out == kModeSymbols) sim::SetFaults((hard = 0) | sim::kBenignFaults);
  sim::AllowFatal(d.bad || unknown);
  sim::AllowFatalAfter(hard);
  if (state || hard) sim::Nontrivial();
  thrax::RewriteTester t;
  Loading(d, [&] { t.Initialize(); return true; });
  EndFaults();
  if (d.bad || unknown) sim::Violation("damaged-accepted", "the tester started without all of its grammars");
  // Symbol tables of the rules must agree, or composition is refused.
  for (int i = 0; i < 3; ++i) {
    const std::string in = InputFor(*rules[0]);
    const bool prepend = sim::W(2);
    CheckTester(setup, rules, in, prepend, t.ProcessInput(InMode(in, setup.in, " "), prepend));
  }
}

namespace {

// The archives of the Brahmic library, with consistent rules.
struct Brahmics {
  std::map<std::string, Archive> far;
  const Rule *Find(const std::string &archive, const std::string &tag) const {
    static const std::map<std::string, std::string> kLang = {{"hi", "DEVA"}, {"mr", "DEVA"}, {"bn", "BENG"}, {"gu", "GUJR"}};
    std::string up = tag;
    for (char &c : up) c = toupper(c);
    const auto &a = far.at(archive);
    auto it = a.find(up);
    if (it != a.end()) return &it->second;
    std::string low = tag;
    for (char &c : low) c = tolower(c);
    const auto l = kLang.find(low);
    if (l == kLang.end()) return nullptr;
    it = a.find(l->second);
    return it == a.end() ? nullptr : &it->second;
  }
};
const char *const kTags[] = {"Deva", "beng", "GUJR", "hi", "mr", "bn", "HI", "Taml", "zz"};
const char *const kFars[] = {"visual_norm", "wellformed", "reading_norm"};

// What a normaliser must say: acceptable text or failure.
void CheckNorm(const char *what, const std::string &tag, const std::string &in, const absl::Status &s, const std::string &got, const Rule &first, const Rule *second, bool accept) {
  Quiet q;
  Paths want = first.Eval(in);
  if (!want.empty() && second) {
    const Paths n = second->Eval(want.begin()->first);
    if (!accept || n.empty()) want = n;
  }
  CheckTop(what, tag, in, s.ok(), got, want);
}

}  // namespace

SIM_SCENARIO(grm_brahmic) {
  sim::SetStepBudget(1 << 22, 1 << 28);
  FLAGS_fst_error_fatal = false;
  Brahmics b[2];
  for (auto &x : b)
    for (const char *f : kFars) x.far[f] = RandomArchive(true);
  // Objects that live through the whole run.
  const std::string tag = kTags[sim::W(9)];
  nisaba::brahmic::Grammar grammar("visual_norm", tag);
  nisaba::brahmic::Normalizer normalizer(tag);
  nisaba::brahmic::ReadingNorm reading(tag);
  nisaba::brahmic::Far far("Visual_Norm");
  const int steps = 1 + sim::W(3);
  for (int step = 0; step < steps; ++step) {
    const Brahmics &v = b[sim::W(2)];
    bool bad[3], index = false;
    const bool heal = step + 1 == steps && sim::W(3) == 0;
    for (int i = 0; i < 3; ++i) {
      // At most one is unhealthy in most steps.
      const int st = heal || sim::W(2) ? 0 : FileState();
      const Disk d = Prepare(Brahmic(kFars[i]), v.far.at(kFars[i]), st == 1 ? 0 : st);
      bad[i] = d.bad;
      index |= d.index;
      if (st) sim::Nontrivial();
    }
    Disk d;
    d.index = index;
    const int api = sim::W(6);
    const unsigned hard = heal ? 0 : BeginFaults(bad[0] || bad[1] || bad[2]);
    const uint64_t before = sim::FaultsFired(hard);
    if (hard || step) sim::Nontrivial();
    const Rule *vis = v.Find("visual_norm", tag), *well = v.Find("wellformed", tag), *read = v.Find("reading_norm", tag);
    std::string out;
    sim::Note("step %d api %d tag %s", step, api, tag.c_str());
    switch (api) {
      case 0: {
        const bool ok = Loading(d, [&] { return grammar.Load().ok(); });
        EndFaults();
        Judge("Grammar", ok, bad[0] || !vis, hard, before);
        for (int i = 0; i < 2 && ok; ++i) {
          const std::string in = RandomInput(false);
          out = "junk";
          const auto s = grammar.Rewrite(in, &out);
          CheckNorm("Grammar", tag, in, s, out, *vis, nullptr, false);
          if (grammar.Accept(in).ok() != !vis->Eval(in).empty()) sim::Violation("rewrite", "Accept differs from Rewrite");
        }
        break;
      }
      case 1: {
        const bool ok = Loading(d, [&] { return normalizer.Load().ok(); });
        EndFaults();
        Judge("Normalizer", ok, bad[0] || bad[1] || !vis || !well, hard, before);
        for (int i = 0; i < 2 && ok; ++i) {
          const std::string in = RandomInput(false);
          const auto s = normalizer.Rewrite(in, &out);
          CheckNorm("Normalizer", tag, in, s, out, *vis, well, true);
          const auto n = normalizer.NormalizeOnly(in, &out);
          CheckNorm("NormalizeOnly", tag, in, n, out, *vis, nullptr, false);
        }
        break;
      }
      case 2: {
        const bool ok = Loading(d, [&] { return reading.Load().ok(); });
        EndFaults();
        Judge("ReadingNorm", ok, bad[0] || bad[2] || !vis || !read, hard, before);
        for (int i = 0; i < 2 && ok; ++i) {
          const std::string in = RandomInput(false);
          const auto s = reading.Rewrite(in, &out);
          CheckNorm("ReadingNorm", tag, in, s, out, *vis, read, false);
        }
        break;
      }
      case 3: {
        thrax::GrmManager *m1 = nullptr, *m2 = nullptr;
        bool ok1 = false, ok2 = false;
        Loading(d, [&] {
          auto x = nisaba::brahmic::LoadVisualNormManager();
          ok1 = x.ok();
          if (ok1) m1 = *x;
          auto y = nisaba::brahmic::LoadWellformedManager();
          ok2 = y.ok();
          if (ok2) m2 = *y;
          return true;
        });
        EndFaults();
        Judge("LoadVisualNormManager", ok1, bad[0], hard, before);
        Judge("LoadWellformedManager", ok2, bad[1], hard, before);
        if (ok1) CheckMap("LoadVisualNormManager", *m1, v.far.at("visual_norm"));
        if (ok2) CheckMap("LoadWellformedManager", *m2, v.far.at("wellformed"));
        if (ok1 && ok2) {
          nisaba::brahmic::Normalizer n(tag, m1, m2);
          if (n.VerifyLoad().ok() != (vis && well)) sim::Violation("healthy-refused", "VerifyLoad is wrong about the loaded managers");
          if (vis && well) {
            const std::string in = RandomInput(false);
            const auto s = n.Rewrite(in, &out);
            CheckNorm("Normalizer(managers)", tag, in, s, out, *vis, well, true);
          }
        }
        break;
      }
      case 4: {
        const bool ok = Loading(d, [&] { return far.Load().ok(); });
        EndFaults();
        Judge("Far", ok, bad[0], hard, before);
        if (!ok) break;
        for (const char *n : kNames) {
          Quiet q;
          const auto f = far.Fst(n);
          const auto it = v.far.at("visual_norm").find(n);
          if ((f != nullptr) != (it != v.far.at("visual_norm").end())) sim::Violation("incomplete", "Far: '%s' is missing or made up", n);
          if (f && !fst::Isomorphic(*std::make_unique<StdVectorFst>(*f), it->second.Fst()))
            sim::Violation("incomplete", "Far: '%s' is not the stored grammar", n);
        }
        break;
      }
      default: {
        const bool ok = Loading(d, [&] { return nisaba::brahmic::Normalizer::SupportsFst(tag); });
        EndFaults();
        Judge("SupportsFst", ok, bad[0] || bad[1] || !vis || !well, hard, before);
      }
    }
  }
}

// ---- P16 -------------------------------------------------------------------------
SIM_SCENARIO(grm_share) {
  sim::SetStepBudget(1 << 22, 1 << 28);
  FLAGS_fst_error_fatal = false;
  const Archive a = RandomArchive(false);
  const Archive a2 = RandomArchive(false);  // of another manager in the process
  Brahmics b;
  for (const char *f : kFars) {
    b.far[f] = RandomArchive(true);
    Store(b.far[f], Brahmic(f));
  }
  Store(a, "/sim/g/rules.far");
  Store(a2, "/sim/g/other.far");
  thrax::GrmManager grm, grm2;
  rewrite::StdRuleCascade cascade;
  rewrite::StdRewriteManager manager;
  thrax::RuleCascade<StdArc> defs;
  const auto names = Mains(a);
  std::vector<const Rule *> rules;
  std::vector<std::string> rule_defs;
  for (int i = 1 + sim::W(2); i; --i) {
    const std::string n = names[sim::W(names.size())];
    rules.push_back(&a.at(n));
    rule_defs.push_back(Def(SpecOf(n, a.at(n))));
  }
  if (!grm.LoadArchive("/sim/g/rules.far") || !grm2.LoadArchive("/sim/g/other.far") || !manager.Load("/sim/g/rules.far") || !cascade.Load("/sim/g/rules.far"))
    sim::Violation("healthy-refused", "a healthy archive was refused");
  if (!cascade.SetRules(rule_defs) || !defs.InitFromDefs(&grm, rule_defs)) sim::Violation("healthy-refused", "stored rules were not found");
  std::string joined;
  for (const auto &d : rule_defs) joined += (joined.empty() ? "" : ",") + d;
  absl::SetFlag(&FLAGS_far, "/sim/g/rules.far");
  absl::SetFlag(&FLAGS_rules, joined);
  const TesterSetup setup = RandomSetup(rules);
  setup.Apply();
  thrax::RewriteTester tester;
  tester.Initialize();
  // Two normalisers on one pair of managers, as the header offers it.
  const std::string tag1 = kTags[sim::W(9)], tag2 = kTags[sim::W(9)];
  auto v = nisaba::brahmic::LoadVisualNormManager();
  auto w = nisaba::brahmic::LoadWellformedManager();
  if (!v.ok() || !w.ok()) sim::Violation("healthy-refused", "a healthy archive was refused");
  std::unique_ptr<nisaba::brahmic::Normalizer> norms[2];
  const Rule *vis[2], *well[2];
  for (int i = 0; i < 2; ++i) {
    const std::string &t = i ? tag2 : tag1;
    vis[i] = b.Find("visual_norm", t);
    well[i] = b.Find("wellformed", t);
    if (i && sim::W(2)) break;
    auto n = std::make_unique<nisaba::brahmic::Normalizer>(t, *v, *w);
    if (n->VerifyLoad().ok() != (vis[i] && well[i])) sim::Violation("healthy-refused", "VerifyLoad is wrong about the loaded managers");
    if (vis[i] && well[i]) norms[i] = std::move(n);
    else if (sim::W(2)) n.reset();  // one of two sharing objects goes away
    else n.release();
  }

  nisaba::brahmic::ReadingNorm reading(tag1);
  const Rule *read = b.Find("reading_norm", tag1);
  if (reading.Load().ok() != (vis[0] && read)) sim::Violation("healthy-refused", "a healthy archive was refused");
  nisaba::brahmic::Grammar grammar("wellformed", tag1);
  if (grammar.Load().ok() != (well[0] != nullptr)) sim::Violation("healthy-refused", "a healthy archive was refused");
  nisaba::brahmic::Far far("reading_norm");
  if (!far.Load().ok()) sim::Violation("healthy-refused", "a healthy archive was refused");

  auto op = [&](int which) {
    const std::string name = names[sim::W(names.size())];
    const Rule &r = a.at(name);
    const Spec s = SpecOf(name, r);
    switch (which) {
      case 0: {
        if (sim::W(3) == 2) {
          RewriteWith("another GrmManager", grm2, a2);
          break;
        }
        const std::string in = InputFor(r);
        std::string out;
        const bool ok = grm.RewriteBytes(s.main, in, &out, s.parens, s.assign);
        CheckTop("GrmManager", name, in, ok, out, r.Eval(in));
        break;
      }
      case 1: {
        const std::string in = InputFor(r);
        const Paths want = r.Eval(in);
        if (want.size() > 300) break;
        std::vector<std::string> out;
        std::string one;
        const auto best = Optimal(want);
        bool ok;
        switch (sim::W(6)) {
          case 0:
            ok = manager.TopRewrites(s.main, in, &out, s.parens, s.assign);
            CheckSet("TopRewrites", name, in, ok, out, best, want.empty());
            break;
          case 1:
            ok = manager.TopRewrite(s.main, in, &one, s.parens, s.assign);
            CheckTop("TopRewrite", name, in, ok, one, want);
            break;
          case 2:
            ok = manager.OneTopRewrite(s.main, in, &one, s.parens, s.assign);
            if (ok != (best.size() == 1) || (ok && one != best[0])) sim::Violation("rewrite", "OneTopRewrite of '%s' is wrong", Show(in).c_str());
            break;
          case 3: {
            ok = manager.Rewrites(s.main, in, &out, s.parens, s.assign);
            std::vector<std::string> every;
            for (const auto &p : want) every.push_back(p.first);
            CheckSet("Rewrites", name, in, ok, out, every, want.empty());
            break;
          }
          case 4: {
            const size_t n = 1 + sim::W(4);
            ok = manager.TopRewrites(s.main, in, static_cast<int32_t>(n), &out, s.parens, s.assign);
            Quiet q;
            std::vector<float> costs, got;
            for (const auto &p : want) costs.push_back(p.second);
            std::sort(costs.begin(), costs.end());
            costs.resize(std::min(costs.size(), n));
            std::set<std::string> seen;
            bool good = ok == !want.empty();
            for (const auto &o : out) {
              good &= want.count(o) && seen.insert(o).second;
              got.push_back(want.count(o) ? want.at(o) : -1);
            }
            std::sort(got.begin(), got.end());
            if (!good || (ok && got != costs)) sim::Violation("rewrite", "TopRewrites(%zu) of '%s' by %s is wrong", n, Show(in).c_str(), name.c_str());
            break;
          }
          default: {
            const std::string o = !want.empty() && sim::W(2) ? want.begin()->first : RandomInput(true);
            if (manager.Matches(s.main, in, o, s.parens, s.assign) != (want.count(o) > 0)) sim::Violation("rewrite", "Matches('%s', '%s') by %s is wrong", Show(in).c_str(), Show(o).c_str(), name.c_str());
          }
        }
        break;
      }
      case 2: {
        const std::string in = InputFor(*rules[0]);
        const Paths want = Cascade(rules, in);
        if (want.size() > 300) break;
        std::string out;
        bool ok = cascade.TopRewrite(in, &out);
        CheckTop("TopRewrite", rule_defs[0], in, ok, out, want);
        std::vector<std::string> all, every;
        for (const auto &p : want) every.push_back(p.first);
        ok = cascade.Rewrites(in, &all);
        CheckSet("Rewrites", rule_defs[0], in, ok, all, every, want.empty());
        if (sim::W(2)) {
          const auto best = Optimal(want);
          ok = cascade.OneTopRewrite(in, &out);
          if (ok != (best.size() == 1) || (ok && out != best[0])) sim::Violation("rewrite", "OneTopRewrite of '%s' is wrong", Show(in).c_str());
        }
        if (!want.empty()) {
          const std::string o = sim::W(2) ? want.begin()->first : RandomInput(true);
          if (cascade.Matches(in, o) != (want.count(o) > 0)) sim::Violation("rewrite", "Matches('%s', '%s') is wrong", Show(in).c_str(), Show(o).c_str());
        }
        break;
      }
      case 3: {
        const std::string in = InputFor(*rules[0]);
        const Paths want = Cascade(rules, in);
        std::string out;
        const bool ok = defs.RewriteBytes(in, &out);
        CheckTop("thrax cascade", rule_defs[0], in, ok, out, want);
        break;
      }
      case 4: {
        const std::string in = InputFor(*rules[0]);
        const bool prepend = sim::W(2);
        CheckTester(setup, rules, in, prepend, tester.ProcessInput(InMode(in, setup.in, " "), prepend));
        break;
      }
      case 5: {
        const int i = norms[1] && sim::W(2) ? 1 : 0;
        const std::string in = RandomInput(false);
        std::string out;
        if (well[0] && sim::W(4) == 3) {
          const Paths want = well[0]->Eval(in);
          const bool ok = grammar.Accept(in).ok();
          if (ok != !want.empty()) sim::Violation("rewrite", "Accept('%s') by %s says %d", Show(in).c_str(), tag1.c_str(), ok);
          CheckTop("Grammar", tag1, in, grammar.Rewrite(in, &out).ok(), out, want);
        }
        if (vis[0] && read && sim::W(3) == 2) {
          const auto st = reading.Rewrite(in, &out);
          CheckNorm("ReadingNorm", tag1, in, st, out, *vis[0], read, false);
        }
        if (!norms[i]) break;
        const auto st = norms[i]->Rewrite(in, &out);
        CheckNorm("Normalizer", i ? tag2 : tag1, in, st, out, *vis[i], well[i], true);
        break;
      }
      default: {
        const auto f = grm.GetFstSafe(name);
        const auto g = manager.GetFstSafe(name);
        if (!f || !g || f.get() == grm.GetFst(name)) sim::Violation("rewrite", "GetFstSafe('%s') gives no copy", name.c_str());
        const char *const tag = kTags[sim::W(9)];
        std::string up = tag;
        for (char &c : up) c = toupper(c);
        const auto own = far.Fst(tag);
        const auto &stored = b.far.at("reading_norm");
        const auto it = stored.find(up);
        if ((own != nullptr) != (it != stored.end())) sim::Violation("rewrite", "Far: '%s' is missing or made up", tag);
        if (own) {
          own->Properties(fst::kFstProperties, true);
          StdVectorFst want = it->second.Fst();
          fst::ArcSort(&want, fst::ILabelCompare<StdArc>());
          if (!fst::Equal(want, *own)) sim::Violation("rewrite", "Far: '%s' is not the stored grammar", tag);
        }
        // Properties are computed on demand, on the caller's own copy.
        f->Properties(fst::kFstProperties, true);
        g->Properties(fst::kAcyclic | fst::kUnweighted, true);
        StdVectorFst out;
        if (!grm.Rewrite(s.main, "ab", &out, s.parens, s.assign)) sim::Violation("rewrite", "Rewrite fails");
      }
    }
  };

  const int nthreads = 2 + sim::W(2);
  const bool warm = sim::W(2);  // everything was used once before
  if (warm) for (int k = 0; k < 7; ++k) op(k);
  std::vector<std::thread> threads;
  const int focus = sim::W(10);
  for (int t = 0; t < nthreads; ++t) {
    const int n = 1 + sim::W(3);
    threads.emplace_back([&, n, t] {
      for (int i = 0; i < n; ++i) op(focus < 7 && sim::W(2) ? focus : sim::W(7));
    });
  }
  sim::Nontrivial();
  for (auto &t : threads) t.join();
  // Nothing was changed.
  Quiet q;
  CheckMap("GrmManager", grm, a);
  for (const auto &e : a) {
    if (e.second.kind > Rule::kMpdt) continue;
    StdVectorFst want = e.second.Fst(), got(*grm.GetFst(e.first)), other(*manager.GetFst(e.first));
    fst::ArcSort(&want, fst::ILabelCompare<StdArc>());
    if (!fst::Equal(want, got) || !fst::Equal(want, other)) sim::Violation("modified", "the grammar '%s' was changed by rewriting", e.first.c_str());
  }
}

// ---- P23 -------------------------------------------------------------------------
namespace {

void CompleteBytes(const fst::SymbolTable *t) {
  Quiet q;
  if (!t) sim::Violation("no-table", "no byte symbol table");
  if (t->Name() != thrax::function::kByteSymbolTableName) sim::Violation("incomplete", "the byte table's name is '%s'", t->Name().c_str());
  for (int c = 0; c < 256; ++c) {
    char b[8];
    if (!c) snprintf(b, sizeof(b), "<epsilon>");
    if (c > 32 && c < 127) snprintf(b, sizeof(b), "%c", c);
    else if (c) snprintf(b, sizeof(b), "0x%02x", c);
    const std::string want = c ? b : "<epsilon>";
    if (t->Find(c) != want) sim::Violation("incomplete", "byte %d is '%s' in the table, not '%s'", c, t->Find(c).c_str(), want.c_str());
    if (t->Find(want) != c) sim::Violation("incomplete", "symbol '%s' has the number %d, not %d", want.c_str(), static_cast<int>(t->Find(want)), c);
  }
}

void CompleteUtf8(const fst::SymbolTable *t) {
  Quiet q;
  if (!t) sim::Violation("no-table", "no UTF-8 symbol table");
  if (t->Name() != thrax::function::kUtf8SymbolTableName) sim::Violation("incomplete", "the UTF-8 table's name is '%s'", t->Name().c_str());
  static const std::pair<int, const char *> kSome[] = {{'a', "a"}, {32, "0x0020"}, {0x85, "0x0085"}, {0xe9, "\xC3\xA9"}, {0x915, "\xE0\xA4\x95"},
      {0x2028, "0x2028"}, {0x3000, "0x3000"}, {0xfffd, "\xEF\xBF\xBD"}, {0xffff, "\xEF\xBF\xBF"}, {127, "0x007f"}, {0x16a0, "\xE1\x9A\xA0"}};
  for (const auto &x : kSome)
    if (t->Find(x.first) != x.second || t->Find(std::string(x.second)) != x.first)
      sim::Violation("incomplete", "U+%04X is '%s' in the table", x.first, t->Find(x.first).c_str());
  int n = 0;
  for (int c = 1; c < 0x10000; c += 97) n += t->Find(c).empty();
  if (n) sim::Violation("incomplete", "%d of the sampled code points have no symbol", n);
}

}  // namespace

SIM_SCENARIO(grm_symbols) {
  sim::SetStepBudget(1 << 22, 1 << 28);
  FLAGS_fst_error_fatal = false;
  // The process-wide tables or a builder of their own.
  const bool own = sim::W(2);
  const bool utf8 = sim::Chance(1, 12);
  thrax::function::SymbolTableBuilder mine;
  auto get = [&] {
    if (utf8) return own ? mine.GetUtf8SymbolTable() : thrax::function::GetUtf8SymbolTable();
    return own ? mine.GetByteSymbolTable() : thrax::function::GetByteSymbolTable();
  };
  auto add = [&](const std::string &s, int64_t l) {
    if (utf8) own ? mine.AddToUtf8SymbolTable(s, l) : thrax::function::AddToUtf8SymbolTable(s, l);
    else own ? mine.AddToByteSymbolTable(s, l) : thrax::function::AddToByteSymbolTable(s, l);
  };
  auto complete = [&](const fst::SymbolTable *t) { utf8 ? CompleteUtf8(t) : CompleteBytes(t); };
  const int nthreads = 2 + sim::W(3);
  // Readers and adders share a table only if the callers order them.
  const bool readers = sim::W(2);
  const bool early = sim::W(3) == 0;  // the table exists already
  const fst::SymbolTable *first = early ? get() : nullptr;
  std::vector<const fst::SymbolTable *> seen(nthreads, nullptr);
  std::vector<std::map<std::string, int64_t>> added(nthreads);
  std::vector<std::thread> threads;
  for (int t = 0; t < nthreads; ++t) {
    const int adds = readers ? 0 : sim::W(4);
    const bool again = sim::W(2);
    // Adds without having asked for the table, which may not be there yet.
    const bool blind = adds && sim::Chance(1, 3);
    threads.emplace_back([&, t, adds, again, blind] {
      if (blind) {
        const std::string s = "blind" + std::to_string(t);
        add(s, 0x110100 + t);
        if (early) added[t][s] = 0x110100 + t;
      }
      const fst::SymbolTable *p = get();
      seen[t] = p;
      if (!p) sim::Violation("no-table", "no symbol table");
      if (readers && (p->Find(65) != "A" || p->Find("0xff") != (utf8 ? fst::kNoSymbol : 255) || p->Find(255).empty() || p->NumSymbols() < 256))
        sim::Violation("incomplete", "a table was handed out before it was complete");
      for (int i = 0; i < adds; ++i) {
        const std::string s = "sym" + std::to_string(t) + "_" + std::to_string(i);
        const int64_t l = 0x110000 + t * 16 + i;
        add(s, l);
        added[t][s] = l;
        if (again && get() != p) sim::Violation("replaced", "a thread got two different tables");
      }
      if (again && get() != p) sim::Violation("replaced", "a thread got two different tables");
    });
  }
  sim::Nontrivial();
  for (auto &t : threads) t.join();
  const fst::SymbolTable *last = get();
  for (int t = 0; t < nthreads; ++t) {
    if (seen[t] != last) sim::Violation("replaced", "threads got different tables");
    Quiet q;
    for (const auto &s : added[t])
      if (last->Find(s.first) != s.second || last->Find(s.second) != s.first)
        sim::Violation("lost-symbol", "'%s' was added with number %d and is not there", s.first.c_str(), static_cast<int>(s.second));
  }
  if (first && first != last) sim::Violation("replaced", "the table handed out first was replaced");
  complete(last);
}
