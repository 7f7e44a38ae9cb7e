// Scenarios for P13: nisaba/translit/tools (error rates, k-best extraction,
// ensembling, rejoining), against small reference models.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_split.h"
#include "nisaba/translit/tools/calculate_error_rate.h"
// Both headers define this constant.
#define kMaxLine kMaxLineOfKbest
#include "nisaba/translit/tools/kbest-full-string-util.h"
#undef kMaxLine
#include "simrt.h"
#include "simutil.h"

int sim_main_calculate_error_rate_main(int argc, char **argv);
int sim_main_ensemble_full_string_main(int argc, char **argv);
int sim_main_extract_kbest_full_string_main(int argc, char **argv);
int sim_main_rejoin_kbest_full_string_main(int argc, char **argv);

namespace {

namespace tools = nisaba::translit::tools;
using sim::Quiet;
using simutil::OnDisk;
using simutil::Put;

typedef std::pair<double, std::string> Cand;  // cost, text
typedef std::vector<Cand> Cands;

// Costs without coincidences, printed as they are stored.
struct Costs {
  unsigned salt, n = 0;
  explicit Costs(unsigned s) : salt(s) {}
  std::string Text() {
    unsigned x = (++n * 2654435761u) ^ (salt * 40503u + 977);
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; x ^= x >> 16;
    char b[24];
    snprintf(b, sizeof(b), "%.4f", 0.2 + 3.0 * (x & 0xffffff) / 16777216.0);
    return b;
  }
};

const char *const kTokens[] = {"a", "ab", "b", "abc", "ca", "\xE0\xA4\x95", "\xE0\xA4\x95\xE0\xA4\xBE", "x", "ba", "\xC3\xA9t"};

// What a tool did with its files.
struct Outcome {
  bool missing = false;  // an input file does not exist or is visibly cut short
  unsigned hard = 0;
};

// Chooses faults; `in` are the names to draw a missing input from.
Outcome Faulty(std::vector<std::string *> in, bool cut) {
  Outcome o;
  o.missing = cut;
  if (sim::Chance(1, 10)) { *in[sim::W(in.size())] = "/sim/none/in"; o.missing = true; }
  const bool benign = sim::Chance(1, 4);
  static const unsigned kHard = sim::kOpenFail | sim::kReadEIO | sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail;
  static const unsigned kFocus[] = {~0u, ~static_cast<unsigned>(sim::kOpenFail),
                                    sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail, sim::kReadEIO};
  const unsigned focus = kFocus[sim::W(4)];
  o.hard = benign ? 0 : kHard & focus;
  sim::AllowFatal(o.missing);
  sim::AllowFatalAfter(kHard);
  sim::SetFaults(o.hard | sim::kBenignFaults);
  return o;
}

// Cuts a file's last `columns - 1` columns and what follows, or all of its last
// line: what a writer that died leaves behind. Returns false if it is empty.
bool CutLine(std::string *text, size_t columns) {
  if (text->empty()) return false;
  if (text->back() == '\n') text->pop_back();
  const size_t line = text->rfind('\n') == std::string::npos ? 0 : text->rfind('\n') + 1;
  if (!columns) {
    text->resize(line);
    return true;
  }
  size_t at = line;
  for (size_t c = 0; c < columns; ++c) at = text->find('\t', at + (c > 0));
  text->resize(at);
  return true;
}

// Runs a tool the way users do; a bad exit status ends the run like a check.
void Main(int (*entry)(int, char **), const std::vector<std::string> &args) {
  const int rc = simutil::RunMain(entry, args);
  if (rc) sim::Fatal(__FILE__, __LINE__, absl::StrCat("exit status ", rc).c_str());
}

// Called when the tool came to its end without failing.
void Succeeded(const Outcome &o, const char *what) {
  sim::SetFaults(0);
  sim::AllowFatal(false);
  sim::AllowFatalAfter(0);
  if (o.missing) sim::Violation("missing-file", "%s: success although an input is missing or incomplete", what);
  if (o.hard && sim::FaultsFired(o.hard)) sim::Probe("success_after_hard_fault");
}

bool Near(double a, double b) { return a == b || std::fabs(a - b) <= 0.002 + 0.002 * std::max(std::fabs(a), std::fabs(b)); }

std::vector<std::string> Lines(const std::string &text, const char *what) {
  if (text.empty()) return {};
  std::vector<std::string> l = absl::StrSplit(text, '\n');
  if (!l.back().empty()) sim::Violation("truncated-output", "%s: the output ends in the middle of '%.60s'", what, l.back().c_str());
  l.pop_back();
  return l;
}

// The k cheapest of the products of `lists`, cheapest first.
Cands Product(const std::vector<Cands> &lists, size_t k) {
  Cands r = {{0.0, ""}};
  for (size_t i = 0; i < lists.size(); ++i) {
    Cands n;
    for (const auto &x : r)
      for (const auto &c : lists[i]) n.push_back({x.first + c.first, i ? x.second + " " + c.second : c.second});
    r = n;
  }
  std::sort(r.begin(), r.end());
  // One more than needed, to see ties at the cut.
  if (r.size() > k) r.resize(k);
  return r;
}

void Normalise(Cands *c) {
  double sum = 0;
  for (const auto &x : *c) sum += exp(-x.first);
  for (auto &x : *c) x.first += log(sum);
}

// `got` holds exactly `want`; candidates as good as the worst kept may differ.
void SameCands(Cands got, Cands want, const std::string &what, bool best_first) {
  auto show = [](const Cands &c) {
    std::string s;
    for (const auto &x : c) s += absl::StrCat(" ", x.second, ":", x.first);
    return s;
  };
  bool ok = got.size() == want.size();
  if (ok && !want.empty()) {
    double cut = want[0].first;
    for (const auto &x : want) cut = std::max(cut, x.first);
    std::vector<bool> used(got.size(), false);
    for (const auto &w : want) {
      bool hit = false;
      for (size_t i = 0; i < got.size() && !hit; ++i)
        if (!used[i] && got[i].second == w.second && Near(got[i].first, w.first)) used[i] = hit = true;
      if (!hit && !Near(w.first, cut)) ok = false;
    }
    for (size_t i = 0; i < got.size(); ++i)
      if (!used[i] && !Near(got[i].first, cut)) ok = false;
    for (size_t i = 1; best_first && i < got.size(); ++i)
      if (got[i].first < got[i - 1].first && !Near(got[i].first, got[i - 1].first)) ok = false;
  }
  if (!ok) sim::Violation("wrong-result", "%s: got%s, expected%s", what.c_str(), show(got).c_str(), show(want).c_str());
}

double Number(const std::string &s, const std::string &what) {
  double d;
  if (!absl::SimpleAtod(s, &d)) sim::Violation("bad-line", "%s: '%s' is no number", what.c_str(), s.c_str());
  return d;
}

// ---- error rates ------------------------------------------------------------

std::string Sentence(int max_tokens) {
  std::string s;
  const int n = sim::Range(1, max_tokens);
  for (int i = 0; i < n; ++i) s += std::string(i ? " " : "") + kTokens[sim::W(10)];
  return s;
}

std::vector<std::string> Tokens(const std::string &s, bool chars) {
  if (!chars) return absl::StrSplit(s, ' ', absl::SkipEmpty());
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    size_t n = 1;
    while (i + n < s.size() && (s[i + n] & 0xC0) == 0x80) ++n;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}

int Distance(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  std::vector<int> d(b.size() + 1);
  for (size_t j = 0; j <= b.size(); ++j) d[j] = j;
  for (size_t i = 1; i <= a.size(); ++i) {
    int prev = d[0];
    d[0] = i;
    for (size_t j = 1; j <= b.size(); ++j) {
      const int t = d[j];
      d[j] = std::min({prev + (a[i - 1] != b[j - 1]), d[j] + 1, d[j - 1] + 1});
      prev = t;
    }
  }
  return d[b.size()];
}

struct Item { std::vector<std::pair<std::string, std::string>> ref, test; };  // text, third column

std::vector<Item> MakeItems(std::string *ref, std::string *test) {
  std::vector<Item> items(sim::Range(0, 12));
  Costs c(sim::W(1000));
  std::vector<std::string> rl, tl;
  for (size_t i = 0; i < items.size(); ++i) {
    const bool last = i + 1 == items.size();
    if (!last && sim::Chance(1, 12)) continue;  // nobody has anything for it
    const int nr = sim::Range(1, 3), nt = !last && sim::Chance(1, 10) ? 0 : sim::Range(1, 3);
    for (int k = 0; k < nr; ++k) {
      std::string v = sim::Chance(1, 2) ? std::to_string(sim::Range(1, 9)) : "";
      items[i].ref.push_back({Sentence(4), v});
      rl.push_back(absl::StrCat(i, "\t", items[i].ref.back().first, v.empty() ? "" : "\t" + v));
    }
    for (int k = 0; k < nt; ++k) {
      std::string v = nt == 1 && sim::Chance(1, 2) ? "" : c.Text();
      items[i].test.push_back({sim::Chance(1, 3) ? items[i].ref[0].first : Sentence(4), v});
      tl.push_back(absl::StrCat(i, "\t", items[i].test.back().first, v.empty() ? "" : "\t" + v));
    }
  }
  // Column one says where a line belongs, not its place in the file.
  if (tl.size() > 1 && sim::Chance(1, 4)) {
    const size_t a = sim::W(tl.size() - 1);
    const int ia = atoi(tl[a].c_str()), ib = atoi(tl[a + 1].c_str());
    if (ia != ib) std::swap(tl[a], tl[a + 1]);
  }
  for (const auto &l : rl) *ref += l + "\n";
  for (const auto &l : tl) *test += l + "\n";
  return items;
}

int Value(const std::string &line, const char *key, const char *what) {
  const size_t p = line.find(key);
  int v;
  if (p == std::string::npos || !absl::SimpleAtoi(line.substr(p + strlen(key), line.find(' ', p + strlen(key)) - p - strlen(key)), &v))
    sim::Violation("bad-line", "%s: no '%s' in '%.100s'", what, key, line.c_str());
  return v;
}

void CheckRates(const std::vector<Item> &items, bool chars, const std::string &text, double rate) {
  const auto l = Lines(text, "error rate");
  size_t at = 0;
  long edits = 0, len = 0;
  auto stats = [&](const std::string &s, int want_len, int want_edits, int diff, const std::string &what) {
    const int r = Value(s, "reference length=", what.c_str()), su = Value(s, "substitutions=", what.c_str()),
              d = Value(s, "deletions=", what.c_str()), in = Value(s, "insertions=", what.c_str());
    if (r != want_len || su + d + in != want_edits || in - d != diff)
      sim::Violation("wrong-result", "%s: '%s', expected length %d and %d edits, %d longer", what.c_str(), s.c_str(), want_len, want_edits, diff);
  };
  int diffs = 0;
  for (size_t i = 0; i < items.size(); ++i) {
    const Item &it = items[i];
    if (it.ref.empty()) continue;
    std::string best;
    double bc = 0;
    for (size_t k = 0; k < it.test.size(); ++k) {
      const double c = it.test[k].second.empty() ? 0 : atof(it.test[k].second.c_str());
      if (k == 0 || c < bc) { bc = c; best = it.test[k].first; }
    }
    const auto t = Tokens(best, chars);
    int be = 0, bl = 0;
    for (size_t k = 0; k < it.ref.size(); ++k) {
      const auto r = Tokens(it.ref[k].first, chars);
      const int e = Distance(t, r), n = r.size();
      if (k == 0 || static_cast<double>(e) / n < static_cast<double>(be) / bl) { be = e; bl = n; }
    }
    if (at >= l.size()) sim::Violation("truncated-output", "error rate: no line for item %zu", i);
    stats(l[at++], bl, be, static_cast<int>(t.size()) - bl, absl::StrCat("item ", i));
    edits += be;
    len += bl;
    diffs += static_cast<int>(t.size()) - bl;
  }
  if (l.size() != at + 3) sim::Violation(l.size() < at + 3 ? "truncated-output" : "wrong-result", "error rate: %zu lines instead of %zu", l.size(), at + 3);
  const std::string name = chars ? "CER" : "WER";
  if (l[at] != "Summary " + name) sim::Violation("wrong-result", "summary line '%s'", l[at].c_str());
  stats(l[at + 1], len, edits, diffs, "total");
  const std::string o = "overall " + name + ": ";
  if (l[at + 2].compare(0, o.size(), o)) sim::Violation("bad-line", "last line '%s'", l[at + 2].c_str());
  if (len) {
    const double want = static_cast<double>(edits) / len;
    if (std::fabs(Number(l[at + 2].substr(o.size()), "rate") - want) > 1e-4 * (1 + want) || (rate >= 0 && std::fabs(rate - want) > 1e-6 * (1 + want)))
      sim::Violation("wrong-result", "overall rate %s, %f, expected %f", l[at + 2].c_str(), rate, want);
  }
}

std::string Vec(const std::vector<double> &a, const std::vector<double> &b) {
  std::string s = "[";
  for (size_t i = 0; i < a.size() + b.size(); ++i) s += absl::StrCat(i ? ", " : "", i < a.size() ? a[i] : b[i - a.size()]);
  return s + "]";
}

// Same text with numbers equal up to their printed precision.
bool SameText(const std::string &a, const std::string &b) {
  auto num = [](char c) { return (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+'; };
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    const bool start = num(a[i]) && num(b[j]);
    if (!start) {
      if (a[i++] != b[j++]) return false;
      continue;
    }
    auto take = [&](const std::string &s, size_t *p) {
      size_t q = *p;
      while (q < s.size() && (num(s[q]) || (s[q] == 'e' && q + 1 < s.size() && (s[q + 1] == '-' || s[q + 1] == '+')))) ++q;
      const double d = atof(s.substr(*p, q - *p).c_str());
      *p = q;
      return d;
    };
    const double x = take(a, &i), y = take(b, &j);
    if (std::fabs(x - y) > 1e-5 * std::max(1.0, std::fabs(y))) return false;
  }
  return i == a.size() && j == b.size();
}

void CheckPairs(const std::vector<Item> &items, bool chars, const std::string &text) {
  const auto l = Lines(text, "pairwise edits");
  size_t at = 0;
  std::vector<std::string> want;
  for (size_t i = 0; i < items.size(); ++i) {
    Item it = items[i];
    if (it.ref.empty()) continue;
    auto cand = [](const std::vector<std::pair<std::string, std::string>> &v, bool ref, std::vector<double> *p) {
      std::string s;
      double sum = 0;
      for (const auto &x : v) p->push_back(x.second.empty() ? 1 : ref ? atof(x.second.c_str()) : exp(-atof(x.second.c_str())));
      for (double d : *p) sum += d;
      for (double &d : *p) d /= sum;
      for (size_t k = 0; k < v.size(); ++k) s += absl::StrCat(k ? ", " : "", "\"", v[k].first, "\": ", (*p)[k]);
      return s;
    };
    const bool none = it.test.empty();
    if (none) it.test.push_back({"<epsilon>", ""});
    std::vector<double> p1, p2, z1(it.test.size()), z2(it.ref.size()), len;
    std::string s = "{\"hyp\": {" + cand(it.test, false, &p1);
    s += "}, \"ref\": {" + cand(it.ref, true, &p2);
    s += "}, \"p1\": " + Vec(p1, z2) + ", \"p2\": " + Vec(z1, p2) + ", \"D\": [";
    std::vector<std::vector<double>> d(it.test.size(), z2);
    for (size_t a = 0; a < it.test.size(); ++a)
      for (size_t b = 0; b < it.ref.size(); ++b)
        d[a][b] = Distance(none ? std::vector<std::string>() : Tokens(it.test[a].first, chars), Tokens(it.ref[b].first, chars));
    for (size_t a = 0; a < it.test.size(); ++a) s += (a ? ", " : "") + Vec(z1, d[a]);
    for (size_t b = 0; b < it.ref.size(); ++b) {
      std::vector<double> col;
      for (size_t a = 0; a < it.test.size(); ++a) col.push_back(d[a][b]);
      s += ", " + Vec(col, z2);
    }
    for (const auto &r : it.ref) len.push_back(Tokens(r.first, true).size());
    s += "], \"L\": " + Vec(z1, len) + "}";
    want.push_back(s);
  }
  // Items that nobody has anything for may be left out or be listed empty.
  for (const auto &s : l) {
    if (at < want.size() && SameText(s, want[at])) { ++at; continue; }
    if (s.find("\"hyp\": {}") != std::string::npos || s.find("\"ref\": {}") != std::string::npos) continue;
    sim::Violation("wrong-result", "pairwise edits: got '%.300s', expected '%.300s'", s.c_str(), at < want.size() ? want[at].c_str() : "no more");
  }
  if (at < want.size()) sim::Violation("truncated-output", "pairwise edits: %zu items instead of %zu", at, want.size());
}

}  // namespace

SIM_SCENARIO(tools_error_rate) {
  const bool chars = sim::Chance(1, 2), pairs = sim::Chance(1, 3);
  tools::MultiRefErrorRate calc(chars);
  const int jobs = sim::Chance(1, 4) ? 2 : 1;  // one calculator, several files
  for (int j = 0; j < jobs; ++j) {
    std::string ref, test;
    const auto items = MakeItems(&ref, &test);
    bool cut = j + 1 == jobs && sim::Chance(1, 12) && CutLine(sim::Chance(1, 2) ? &ref : &test, 1);
    if (j + 1 == jobs && !cut && items.size() > 1 && sim::Chance(1, 16)) {
      // One file ends before the last example of the other.
      std::string *f = sim::Chance(1, 2) ? &ref : &test;
      const std::string last = absl::StrCat(items.size() - 1, "\t");
      std::string kept;
      for (absl::string_view l : absl::StrSplit(*f, '\n'))
        if (!l.empty() && l.substr(0, last.size()) != last) absl::StrAppend(&kept, l, "\n");
      *f = kept;
      cut = true;
      sim::Probe("example_lost");
    }
    std::string rf = "/sim/d/ref.tsv", tf = "/sim/d/test.tsv", of = "/sim/d/out.txt";
    Put(rf, ref);
    Put(tf, test);
    if (sim::Chance(1, 3)) Put(of, std::string(20000, '#'));  // an older, longer output
    const bool last = j + 1 == jobs;
    Outcome o;
    if (last) o = Faulty({&rf, &tf}, cut);
    double rate = 0;
    try {
      if (last && sim::Chance(1, 4)) {
        Main(sim_main_calculate_error_rate_main,
             {"--reference=" + rf, "--testfile=" + tf, "--ofile=" + of, absl::StrCat("--split_chars=", chars ? "true" : "false"),
              absl::StrCat("--pairwise_edits=", pairs ? "true" : "false")});
        rate = -1;
      } else {
        calc.CalculateErrorRate(rf, tf, pairs);
        if (!pairs) rate = calc.CalcErrorRate();
        calc.Write(of, pairs);
      }
    } catch (const std::exception &e) {
      sim::Fatal(__FILE__, __LINE__, e.what());
    }
    Succeeded(o, "error rate");
    if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
    Quiet q;
    if (pairs) CheckPairs(items, chars, OnDisk(of));
    else CheckRates(items, chars, OnDisk(of), rate);
    if (items.size() > 1) sim::Nontrivial();
  }
}

// ---- k-best extraction --------------------------------------------------------

SIM_SCENARIO(tools_extract) {
  const int k = sim::Range(1, 6);
  const bool score = sim::Chance(1, 2), full = sim::Chance(1, 2);
  struct Ex { int idx; std::string input; std::vector<Cands> pos; };
  std::vector<Ex> ex(sim::Range(0, 12));
  Costs c(sim::W(1000));
  std::string text;
  int idx = 0;
  for (auto &e : ex) {
    e.idx = idx;
    idx += sim::Chance(1, 6) ? 2 : 1;
    const int np = sim::Range(1, 4);
    for (int p = 0; p < np; ++p) {
      const std::string in = kTokens[sim::W(10)];
      e.input += (p ? " " : "") + in;
      e.pos.push_back({});
      const int nc = sim::Range(1, 3);
      for (int i = 0; i < nc; ++i) {
        const std::string cost = c.Text(), out = std::string(kTokens[(sim::W(3) * 3 + i) % 10]) + (sim::Chance(1, 40) ? std::string(900, 'q') : "");
        e.pos.back().push_back({atof(cost.c_str()), out});
        text += absl::StrCat(e.idx, "\t", p, "\t", in, "\t", out, "\t", cost, "\n");
      }
    }
  }
  if (!text.empty() && sim::Chance(1, 4)) text.pop_back();
  const bool cut = sim::Chance(1, 12) && CutLine(&text, sim::Range(1, 4));
  std::string in = "/sim/d/in.tsv", of = "/sim/d/out.txt";
  Put(in, text);
  if (sim::Chance(1, 3)) Put(of, std::string(20000, '#'));
  const Outcome o = Faulty({&in}, cut);
  const bool twice = sim::Chance(1, 5);
  try {
    if (sim::Chance(1, 4)) {
      Main(sim_main_extract_kbest_full_string_main,
           {"--ifile=" + in, "--ofile=" + of, absl::StrCat("--kbest=", k), absl::StrCat("--show_score=", score ? "true" : "false"),
            absl::StrCat("--show_full_input_string=", full ? "true" : "false")});
    } else {
      tools::KbestExtractor x(in);
      x.RunExtractorAndOutput(of, k, score, full);
      if (twice) x.RunExtractorAndOutput(of, k, score, full);
    }
  } catch (const std::exception &e) {
    sim::Fatal(__FILE__, __LINE__, e.what());
  }
  Succeeded(o, "extraction");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  Quiet q;
  const auto l = Lines(OnDisk(of), "extraction");
  size_t at = 0;
  for (const auto &e : ex) {
    Cands want = Product(e.pos, k), got;
    Normalise(&want);
    if (!score) for (auto &x : want) x.first = 0;
    const std::string what = absl::StrCat("example ", e.idx);
    for (size_t i = 0; i < want.size(); ++i, ++at) {
      if (at >= l.size()) sim::Violation("truncated-output", "extraction: output ends at %s", what.c_str());
      std::vector<std::string> col = absl::StrSplit(l[at], '\t');
      const size_t lead = k > 1 ? 1 : 0;
      if (col.size() != lead + 1 + score || (lead && col[0] != (full ? e.input : std::to_string(e.idx))))
        sim::Violation("wrong-result", "extraction: line '%.120s' for %s", l[at].c_str(), what.c_str());
      got.push_back({score ? Number(col[lead + 1], what) : 0.0, col[lead]});
    }
    if (score || static_cast<size_t>(k) >= Product(e.pos, 1000).size()) SameCands(got, want, what, score);
    else {
      // Without scores only the candidates can be compared; skip near ties.
      const Cands more = Product(e.pos, k + 1);
      if (!Near(more[k].first, more[k - 1].first)) SameCands(got, want, what, false);
    }
  }
  if (at != l.size()) sim::Violation("wrong-result", "extraction: %zu lines too many", l.size() - at);
  if (ex.size() > 1) sim::Nontrivial();
}

// ---- rejoining -----------------------------------------------------------------

SIM_SCENARIO(tools_rejoin) {
  const int kopt = sim::Chance(1, 3) ? -1 : sim::Range(1, 5);
  Costs c(sim::W(1000));
  std::vector<std::vector<Cands>> outs(sim::Range(1, 7));
  std::string text, split;
  size_t longest = 0;
  int serial = 0;
  for (size_t o = 0; o < outs.size(); ++o) {
    const int parts = sim::Range(1, 3);
    for (int p = 0; p < parts; ++p) {
      outs[o].push_back({});
      split += absl::StrCat(o, "\n");
      const int n = sim::Range(1, 4);
      ++serial;
      for (int i = 0; i < n; ++i) {
        const std::string cost = c.Text(), cand = Sentence(3);
        outs[o].back().push_back({atof(cost.c_str()), cand});
        text += absl::StrCat("in", serial, "\t", sim::Chance(1, 6) ? " " : "", cand, sim::Chance(1, 6) ? " " : "", "\t", cost, "\n");
      }
      longest = std::max(longest, outs[o].back().size());
    }
  }
  if (sim::Chance(1, 4)) text.pop_back();
  if (sim::Chance(1, 4)) split.pop_back();
  // Of the other file's end each needs the whole.
  bool cut = serial > 1 && sim::Chance(1, 12);
  if (cut) {
    const int how = sim::W(3);
    if (how == 0) CutLine(&split, 0);
    else if (how == 1) CutLine(&text, sim::Range(1, 2));
    else if (outs.size() > 1) text.resize(text.find(absl::StrCat("in", serial + 1 - outs.back().size(), "\t")));
    else cut = false;
  }
  const size_t k = kopt > 0 ? kopt : longest;
  std::string in = "/sim/d/in.tsv", sp = "/sim/d/split.txt", of = "/sim/d/out.txt";
  Put(in, text);
  Put(sp, split);
  if (sim::Chance(1, 3)) Put(of, std::string(20000, '#'));
  sim::Note("rejoin: k option %d, %zu outputs, %d parts", kopt, outs.size(), serial);
  const Outcome o = Faulty({&in, &sp}, cut);
  try {
    if (sim::Chance(1, 4)) {
      Main(sim_main_rejoin_kbest_full_string_main,
           {"--ifile=" + in, "--split_file=" + sp, "--ofile=" + of, absl::StrCat("--kbest=", kopt)});
    } else {
      tools::KbestRejoiner x(in, sp, kopt);
      x.RunRejoinerAndOutput(of);
    }
  } catch (const std::exception &e) {
    sim::Fatal(__FILE__, __LINE__, e.what());
  }
  Succeeded(o, "rejoining");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  Quiet q;
  const auto l = Lines(OnDisk(of), "rejoining");
  size_t at = 0;
  for (size_t i = 0; i < outs.size(); ++i) {
    const Cands want = outs[i].size() == 1 ? outs[i][0] : Product(outs[i], k);
    Cands got;
    for (size_t n = 0; n < want.size(); ++n, ++at) {
      if (at >= l.size()) sim::Violation("truncated-output", "rejoining: output ends at item %zu", i);
      std::vector<std::string> col = absl::StrSplit(l[at], '\t');
      if (col.size() != 3 || col[0] != std::to_string(i))
        sim::Violation("wrong-result", "rejoining: line '%.120s' for item %zu (k %d)", l[at].c_str(), i, kopt);
      got.push_back({Number(col[2], "score"), col[1]});
    }
    SameCands(got, want, absl::StrCat("item ", i, " with k ", kopt), false);
  }
  if (at != l.size()) sim::Violation("wrong-result", "rejoining: %zu lines too many", l.size() - at);
  if (serial > 2) sim::Nontrivial();
}

// ---- ensembling ------------------------------------------------------------------

SIM_SCENARIO(tools_ensemble) {
  const int systems = sim::Range(2, 3), items = sim::Range(0, 8), k = sim::Range(1, 5);
  const bool lengths = sim::Chance(1, 2);
  Costs c(sim::W(1000));
  std::vector<std::string> text(systems);
  std::string len_text;
  std::vector<int> len(items, 0);
  std::vector<Cands> all(items);
  for (int i = 0; i < items; ++i) {
    const int base = sim::Range(1, 3);
    if (lengths) {
      len[i] = sim::Chance(1, 6) ? sim::Range(1, 4) : base;
      len_text += absl::StrCat(len[i], "\n");
    }
    for (int s = 0; s < systems; ++s) {
      Cands sys;
      const int n = sim::Range(1, 3);
      for (int a = 0; a < n; ++a) {
        const int words = sim::Chance(1, 5) ? sim::Range(1, 4) : base;
        std::string cand, raw;
        for (int w = 0; w < words; ++w) {
          const char *t = kTokens[sim::W(4)];
          cand += std::string(w ? " " : "") + t;
          raw += std::string(w ? sim::Chance(1, 8) ? "  " : " " : "") + t;
        }
        const std::string cost = c.Text();
        sys.push_back({atof(cost.c_str()), cand});
        text[s] += absl::StrCat("input ", i, "\t", raw, "\t", cost, "\n");
      }
      Normalise(&sys);
      all[i].insert(all[i].end(), sys.begin(), sys.end());
    }
  }
  bool cut = items > 0 && sim::Chance(1, 12);
  if (cut) {
    const int how = sim::W(4), s = sim::W(systems);
    if (how == 3) {  // a line too many in the file of lengths
      cut = lengths;
      if (cut) len_text += "1\n";
    } else if (how == 0) text[s].resize(text[s].find(absl::StrCat("input ", items - 1, "\t")));
    else if (how == 1) CutLine(&text[s], sim::Range(1, 2));
    else if (lengths) CutLine(&len_text, 0);
    else cut = false;
  }
  std::vector<std::string> names;
  for (int s = 0; s < systems; ++s) {
    names.push_back(absl::StrCat("/sim/d/sys", s));
    if (!text[s].empty() && sim::Chance(1, 5)) text[s].pop_back();
    Put(names[s], text[s]);
  }
  std::string lf = lengths ? "/sim/d/len" : "", of = "/sim/d/out.txt";
  if (lengths) Put(lf, len_text);
  if (sim::Chance(1, 3)) Put(of, std::string(20000, '#'));
  std::vector<std::string *> in;
  for (auto &n : names) in.push_back(&n);
  if (lengths) in.push_back(&lf);
  const Outcome o = Faulty(in, cut);
  std::string joined;
  for (auto &n : names) joined += (joined.empty() ? "" : ":") + n;
  try {
    if (sim::Chance(1, 4)) {
      Main(sim_main_ensemble_full_string_main,
           {"--ifiles=" + joined, "--input_length_file=" + lf, "--ofile=" + of, absl::StrCat("--kbest=", k)});
    } else {
      tools::EnsembleFiles x(joined, lf);
      x.RunEnsembleAndOutput(k, of);
    }
  } catch (const std::exception &e) {
    sim::Fatal(__FILE__, __LINE__, e.what());
  }
  Succeeded(o, "ensembling");
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  Quiet q;
  const auto l = Lines(OnDisk(of), "ensembling");
  size_t at = 0;
  for (int i = 0; i < items; ++i) {
    // Candidates of another length than asked for (or than usual) drop out.
    auto words = [](const std::string &s) { return 1 + static_cast<int>(std::count(s.begin(), s.end(), ' ')); };
    std::map<int, int> hist;
    for (const auto &x : all[i]) ++hist[words(x.second)];
    Cands kept;
    int keep = len[i];
    if (keep <= 0) {
      int best = 0;
      for (const auto &h : hist) if (h.second >= best) { best = h.second; keep = h.first; }
    }
    for (const auto &x : all[i]) if (hist.size() == 1 || words(x.second) == keep) kept.push_back(x);
    Cands want;
    if (!kept.empty()) {
      std::vector<std::map<std::string, double>> mass(words(kept[0].second));
      for (const auto &x : kept) {
        const std::vector<std::string> w = absl::StrSplit(x.second, ' ');
        for (size_t p = 0; p < w.size(); ++p) mass[p][w[p]] += exp(-x.first);
      }
      std::vector<Cands> pos;
      for (const auto &m : mass) {
        pos.push_back({});
        for (const auto &w : m) pos.back().push_back({-log(w.second), w.first});
      }
      want = Product(pos, k);
      Normalise(&want);
    }
    Cands got;
    for (size_t n = 0; n < want.size(); ++n, ++at) {
      if (at >= l.size()) sim::Violation("truncated-output", "ensembling: output ends at item %d", i);
      std::vector<std::string> col = absl::StrSplit(l[at], '\t');
      if (col.size() != 3 || col[0] != std::to_string(i))
        sim::Violation("wrong-result", "ensembling: line '%.120s' for item %d", l[at].c_str(), i);
      got.push_back({Number(col[2], "score"), col[1]});
    }
    SameCands(got, want, absl::StrCat("item ", i), true);
  }
  if (at != l.size()) sim::Violation("wrong-result", "ensembling: %zu lines too many", l.size() - at);
  if (items > 1) sim::Nontrivial();
}
