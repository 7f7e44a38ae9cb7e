// Scenarios for P03 to P07 and P14: nisaba/translit/fst.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
#include "fst/vector-fst.h"
#include "nisaba/translit/fst/pairlm_decoder.h"
#include "nisaba/translit/fst/pairlm_decoder_runner.h"
#include "nisaba/translit/fst/wordpiece-segmenter.h"
#include "google/protobuf/text_format.h"
#include "simrt.h"
#include "simutil.h"

int sim_main_pairlm_decoder_main(int argc, char **argv);

namespace {

using ::fst::StdArc;
using ::fst::StdVectorFst;
using ::fst::SymbolTable;
using nisaba::translit::fst::PairLMDecoder;
using nisaba::translit::fst::PairLMDecoderOptions;
using nisaba::translit::fst::WordpieceSegmenter;
using sim::Quiet;
using simutil::OnDisk;
using simutil::Put;

// ---- models ---------------------------------------------------------------

struct Pair { int in, out; };
const Pair kPairs[] = {{'a', 'A'}, {'b', 'B'}, {'c', 'C'}, {'c', 'K'}, {'d', 'D'}, {'d', 0x926}};
const int kNumPairs = 6;

// Weights without coincidences: every path of interest has its own cost.
struct Weights {
  unsigned salt;
  unsigned n = 0;
  explicit Weights(unsigned s) : salt(s) {}
  float Next() {
    unsigned x = (++n * 2654435761u) ^ (salt * 40503u + 977);
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; x ^= x >> 16;
    return 0.25f + 2.0f * (x & 0xffffff) / 16777216.0f;
  }
};

std::string Utf8(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
  return s;
}

std::string Bytes(const StdVectorFst &f) {
  std::ostringstream o;
  ::fst::FstWriteOptions opts("sim");
  if (!f.Write(o, opts)) sim::HarnessError("cannot serialise a model");
  return o.str();
}

// A bigram model over pairs with one back-off state; pairs of letters beyond
// `letters` are left out.
std::string PairLM(Weights w, int pairs) {
  SymbolTable syms;
  syms.AddSymbol("<epsilon>");
  for (int i = 0; i < pairs; ++i) syms.AddSymbol(std::to_string(kPairs[i].in) + ";" + std::to_string(kPairs[i].out));
  syms.AddSymbol("<UNK>");
  StdVectorFst f;
  const int start = f.AddState(), uni = f.AddState();
  f.SetStart(start);
  std::vector<int> st;
  for (int i = 0; i < pairs; ++i) { st.push_back(f.AddState()); f.SetFinal(st[i], w.Next()); }
  f.AddArc(start, StdArc(0, 0, w.Next(), uni));
  for (int i = 0; i < pairs; ++i) f.AddArc(start, StdArc(i + 1, i + 1, w.Next(), st[i]));
  for (int i = 0; i < pairs; ++i) f.AddArc(uni, StdArc(i + 1, i + 1, w.Next(), st[i]));
  for (int i = 0; i < pairs; ++i) {
    f.AddArc(st[i], StdArc(0, 0, w.Next(), uni));
    for (int j = 0; j < pairs; ++j)
      if ((i * 7 + j * 3 + w.salt) % 3) f.AddArc(st[i], StdArc(j + 1, j + 1, w.Next(), st[j]));
  }
  f.SetInputSymbols(&syms);
  f.SetOutputSymbols(&syms);
  return Bytes(f);
}

std::string Transducer(Weights w, int pairs) {
  StdVectorFst f;
  const int start = f.AddState();
  f.SetStart(start);
  std::vector<int> st;
  for (int i = 0; i < pairs; ++i) { st.push_back(f.AddState()); f.SetFinal(st[i], w.Next()); }
  for (int s = 0; s <= pairs; ++s)
    for (int j = 0; j < pairs; ++j) f.AddArc(s, StdArc(kPairs[j].in, kPairs[j].out, w.Next(), st[j]));
  return Bytes(f);
}

// Adds weighted self-arcs for all symbols to a one-state language model whose
// unknown symbol is behind a back-off arc.
std::string WordLM(Weights w, const std::vector<std::string> &words) {
  SymbolTable syms;
  syms.AddSymbol("<epsilon>");
  for (const auto &x : words) syms.AddSymbol(x);
  const int unk = syms.AddSymbol("<unk>");
  StdVectorFst f;
  const int start = f.AddState(), other = f.AddState();
  f.SetStart(start);
  f.SetFinal(start, w.Next());
  f.AddArc(start, StdArc(0, 0, w.Next(), other));
  for (int i = 1; i < unk; ++i) f.AddArc(start, StdArc(i, i, w.Next() * 2, start));
  f.AddArc(other, StdArc(unk, unk, w.Next(), start));
  f.SetInputSymbols(&syms);
  f.SetOutputSymbols(&syms);
  return Bytes(f);
}

// Word-initial pieces lead to state 1, others stay there.
std::string PieceLM(Weights w, const std::vector<std::string> &pieces, const std::string &prefix) {
  SymbolTable syms;
  syms.AddSymbol("<epsilon>");
  for (const auto &x : pieces) syms.AddSymbol(x);
  const int unk = syms.AddSymbol("<unk>");
  StdVectorFst f;
  const int start = f.AddState(), other = f.AddState();
  f.SetStart(start);
  f.SetFinal(other, w.Next());
  for (int i = 1; i < unk; ++i) {
    const bool initial = pieces[i - 1].compare(0, prefix.size(), prefix) == 0;
    f.AddArc(initial ? start : other, StdArc(i, i, w.Next(), other));
  }
  f.AddArc(other, StdArc(unk, unk, w.Next(), other));
  f.SetInputSymbols(&syms);
  f.SetOutputSymbols(&syms);
  return Bytes(f);
}

// ---- requests ---------------------------------------------------------------

// The posterior probability below which candidates beyond the first are
// dropped, as a cost; negative when all are kept.
double g_posterior_cost = -1;

struct Setup {
  PairLMDecoderOptions cfg;
  std::vector<std::string> words;
  int k = 1;
  std::vector<std::string> files;
};

// A word with few ambiguous letters (ties between equal-cost spellings would
// make the answer a matter of taste).
std::string Word() {
  static const char *const kWords[] = {
      "a", "ca", "c", "dab", "cd", "bacd", "cc", "dd", "cac", "abba", "b", "dcb", "1", "2", "12", "a1", "1c", "c1", "a1b", "d-a", "-", "b2", "xa", "x"};
  if (sim::Chance(1, 40)) {
    // Nothing says how long a word may be, or where two of them differ.
    std::string w(sim::Chance(1, 3) ? sim::Range(60, 140) : sim::Range(12, 40), 'a');
    sim::SetStepBudget(4000000, 4000000000ull);
    w[w.size() - 1 - sim::W(3)] = 'b';
    return w;
  }
  return kWords[sim::W(24)];
}

// Words that are spelled in one way only, as many as are needed.
std::string ManyWords(int n) {
  std::string l;
  for (int i = 0; i < n; ++i) {
    if (i) l += ' ';
    for (int x = i + 2; x; x >>= 1) l += "ab"[x & 1];
    l += i % 7 ? "a" : "-";
  }
  return l;
}

std::string Line(const Setup &s, int max_words) {
  std::string l;
  const bool many = max_words >= 6 && sim::Chance(1, 60);
  if (many) { sim::SetStepBudget(4000000, 4000000000ull); sim::Probe("long_line"); }
  const int n = many ? sim::Range(17, 130) : sim::Range(1, max_words);
  for (int i = 0; i < n; ++i) {
    if (i) l += sim::Chance(1, 12) ? "  " : " ";
    l += s.words[sim::W(s.words.size())];
  }
  return l;
}

Setup MakeSetup(bool with_lm) {
  Setup s;
  const int model = sim::W(6);  // 0..3 pair model, 4 transducer, 5 none
  const int pairs = sim::Chance(1, 3) ? 4 : kNumPairs;
  const unsigned salt = sim::W(1000);
  s.k = sim::Range(1, 4);
  const int nw = sim::Range(1, 6);
  for (int i = 0; i < nw; ++i) s.words.push_back(Word());
  const int cands = sim::W(4);  // 0 none, 1 mix, 2 override, 3 mix
  const int lm = with_lm ? sim::W(8) : 0;
  s.cfg.set_add_to_cache(!sim::Chance(1, 4));
  Quiet q;
  Weights w(salt);
  g_posterior_cost = -1;
  if (sim::Chance(1, 5)) s.cfg.set_word_cand_thresh(0.5 + salt % 50 * 0.1);
  if (sim::Chance(1, 6)) {
    const double p = 0.03 + salt % 20 * 0.0173;
    s.cfg.set_min_cand_posterior(p);
    g_posterior_cost = -std::log(p);
  }
  if (sim::Chance(1, 5)) s.cfg.set_pairlm_translit_weight(0.1 + salt % 9 * 0.1);
  const bool invert = model <= 4 && sim::Chance(1, 6);
  if (invert) {
    // Spells from what the model calls the output.
    s.cfg.set_invert_pairlm(true);
    sim::Probe("inverted_model");
    for (auto &x : s.words)
      for (auto &c : x) if (c >= 'a' && c <= 'd') c -= 32;
  }
  if (model <= 3) {
    Put("/sim/m/pair.fst", PairLM(w, pairs));
    s.cfg.set_pairlm_file("/sim/m/pair.fst");
    s.files.push_back("/sim/m/pair.fst");
  } else if (model == 4) {
    Put("/sim/m/pair.fst", Transducer(w, pairs));
    s.cfg.set_pairlm_file("/sim/m/pair.fst");
    s.cfg.set_pairlm_is_transducer(true);
    s.files.push_back("/sim/m/pair.fst");
  }
  if (cands) {
    std::string t;
    Weights cw(salt + 5);
    unsigned x = salt * 69069u + 1;
    for (size_t i = 0; i < s.words.size() && i < 4; ++i) {
      x = x * 1664525u + 1013904223u;
      if ((x >> 28) < 4) continue;
      std::string up;
      for (char c : s.words[i])
        up += !invert && c >= 'a' && c <= 'd' ? static_cast<char>(c - 32) : invert && c >= 'A' && c <= 'D' ? static_cast<char>(c + 32) : c;
      const int n = 1 + (x >> 20) % 3;
      for (int j = 0; j < n; ++j)
        t += s.words[i] + "\t" + (j == 0 ? up : j == 1 ? "Z" + up : up + "Y") + "\t" + std::to_string(cw.Next()) + "\n";
    }
    Put("/sim/m/cands.tsv", t);
    s.cfg.set_translit_cands_file("/sim/m/cands.tsv");
    s.cfg.set_translit_cands_override(cands == 2);
    s.files.push_back("/sim/m/cands.tsv");
  }
  if (lm >= 4) {
    Weights lw(salt + 9);
    auto flip = [invert](std::vector<std::string> v) {
      if (invert) for (auto &x : v) for (auto &c : x) if (c >= 'A' && c <= 'D') c += 32;
      return v;
    };
    s.cfg.set_lm_file("/sim/m/lm.fst");
    s.cfg.set_oov_symbol("<unk>");
    s.cfg.set_oov_cost(1.5);
    s.cfg.set_max_word_cands(6);
    s.files.push_back("/sim/m/lm.fst");
    if (lm <= 5) {
      std::vector<std::string> v = {"A", "CA", "KA", "DAB", "CD", "B", "1", "A1", "C", "CC"};
      v.resize(3 + salt % 8);
      Put("/sim/m/lm.fst", WordLM(lw, flip(v)));
      s.cfg.set_apply_lm_at_word_level(lm == 5);
    } else if (lm == 6) {
      Put("/sim/m/lm.fst", WordLM(lw, flip({"A", "##A", "B", "##B", "C", "##C", "D", "##D", "##AB", "1", "##1"})));
      s.cfg.set_word_piece_internal_prefix("##");
    } else {
      Put("/sim/m/lm.fst", PieceLM(lw, flip({"_", "A", "_A", "B", "_B", "C", "_C", "K", "_D", "D", "BC", "_DA", "1", "_1", "Z"}), "_"));
      Put("/sim/m/wp.txt", flip({"_\nA\nB\nC\nK\nD\n_A\n_C\n_D\nBC\n_DA\n1\n_1\nZ\n"})[0]);
      s.cfg.set_apply_closure_to_lm(true);
      s.cfg.set_word_piece_word_initial_prefix("_");
      s.cfg.set_word_piece_model("/sim/m/wp.txt");
      s.files.push_back("/sim/m/wp.txt");
    }
  }
  s.cfg.set_random_seed(1 + salt);
  sim::Note("model %d, cands %d, lm %d, k %d, cache %d", model, cands, lm, s.k, s.cfg.add_to_cache());
  return s;
}

// ---- answers ----------------------------------------------------------------

struct Position {
  std::string input;
  std::vector<std::pair<double, std::string>> cands;  // by score
};
typedef std::vector<Position> Answer;

// Reads "position input candidate cost" lines as printed by the decoder.
Answer Parse(const std::string &text, const char *what) {
  Answer a;
  if (text.empty()) return a;
  for (absl::string_view l : absl::StrSplit(text, '\n')) {
    if (l.empty()) continue;
    const std::vector<std::string> c = absl::StrSplit(l, '\t');
    int pos;
    double cost;
    if (c.size() != 4 || !absl::SimpleAtoi(c[0], &pos) || !absl::SimpleAtod(c[3], &cost))
      sim::Violation("bad-line", "%s: unreadable result line '%.80s'", what, std::string(l).c_str());
    if (pos != static_cast<int>(a.size()) - 1) {
      if (pos != static_cast<int>(a.size())) sim::Violation("positions", "%s: position %d after %zu", what, pos, a.size());
      a.push_back({c[1], {}});
    }
    if (a.back().input != c[1]) sim::Violation("positions", "%s: two inputs at position %d", what, pos);
    a.back().cands.push_back({cost, c[2]});
  }
  for (auto &p : a) std::sort(p.cands.begin(), p.cands.end());
  return a;
}

bool Near(double a, double b) {
  return a == b || std::fabs(a - b) <= 0.01 + 0.002 * std::max(std::fabs(a), std::fabs(b));
}

std::string Show(const Position &p) {
  std::string s = p.input + " ->";
  for (const auto &c : p.cands) {
    char b[40];
    snprintf(b, sizeof(b), ":%.3f", c.first);
    s += " " + c.second + b;
  }
  return s;
}

// Same candidates with the same scores; candidates as good as the last one
// kept may be exchanged for each other.
bool SamePosition(const Position &g, const Position &w) {
  if (g.input != w.input) return false;
  if (g.cands.size() != w.cands.size()) {
    // A candidate right at the smallest posterior may be kept or not.
    const Position &more = g.cands.size() > w.cands.size() ? g : w;
    const Position &less = &more == &g ? w : g;
    if (g_posterior_cost < 0 || less.cands.empty()) return false;
    Position cut = more;
    while (cut.cands.size() > less.cands.size() && Near(cut.cands.back().first, g_posterior_cost)) cut.cands.pop_back();
    return cut.cands.size() == less.cands.size() && SamePosition(cut, less);
  }
  if (g.cands.empty()) return true;
  const double cut = w.cands.back().first;
  std::multimap<std::string, double> m;
  for (const auto &c : w.cands) m.insert({c.second, c.first});
  std::vector<double> rest;
  for (const auto &c : g.cands) {
    auto r = m.equal_range(c.second);
    auto it = r.first;
    while (it != r.second && !Near(it->second, c.first)) ++it;
    if (it != r.second) { m.erase(it); continue; }
    if (!Near(c.first, cut) || w.cands.size() < 2) return false;
    rest.push_back(c.first);
  }
  for (const auto &x : m) if (!Near(x.second, cut)) return false;
  return true;
}

void Same(const Answer &got, const Answer &want, const char *what, const std::string &line, const char *cls = "wrong-answer") {
  if (got.size() != want.size())
    sim::Violation(cls, "%s: '%s' has %zu positions instead of %zu", what, line.c_str(), got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (!SamePosition(got[i], want[i]))
      sim::Violation(cls, "%s: '%s' position %zu: got %s, alone it gives %s", what, line.c_str(), i,
                     Show(got[i]).c_str(), Show(want[i]).c_str());
}

std::string Decode(PairLMDecoder *d, const std::string &line, int k) {
  const StdVectorFst f = d->TransliterateString(line, k);
  return d->PrintTransliterations("", f);
}

// What a fresh decoder that splits nothing gives for one line.
class Reference {
 public:
  explicit Reference(const Setup &s) : s_(s), cache_(sim::W(2) && !s.cfg.sample_from_k_best()) {}
  const Answer &Of(const std::string &line) { return Of(line, s_.k); }
  const Answer &Of(const std::string &line, int k) {
    auto it = m_.find({line, k});
    if (it != m_.end()) return it->second;
    PairLMDecoderOptions c = s_.cfg;
    c.set_max_parallel_tokens(1);
    c.set_add_to_cache(cache_);
    PairLMDecoder d(c);
    const std::string text = Decode(&d, line, k);
    Quiet q;
    sim::Note("alone: '%s' ->\n%s", line.c_str(), text.c_str());
    return m_[{line, k}] = Parse(text, "reference");
  }

 private:
  const Setup &s_;
  const bool cache_;
  std::map<std::pair<std::string, int>, Answer> m_;
};

void Check(Reference *ref, const std::string &line, const std::string &text, const char *what, int k = 0) {
  Quiet q;
  Same(Parse(text, what), k ? ref->Of(line, k) : ref->Of(line), what, line);
}

// Samples are compared where nothing but the seed decides them: the same
// models, exactly the same scores, labels in the same order.
void MaybeSample(Setup *s) {
  if (s->cfg.add_to_cache() || !sim::Chance(1, 3)) return;
  s->cfg.set_sample_from_k_best(true);
  s->cfg.set_max_parallel_tokens(1);
  sim::Probe("sampled");
}

}  // namespace

// P06: one decoder, many requests in sequence.
SIM_SCENARIO(dec_history) {
  Setup s = MakeSetup(true);
  s.cfg.set_max_parallel_tokens(sim::Range(1, 2));
  MaybeSample(&s);
  std::vector<std::string> lines;
  std::vector<int> k;
  const int n = sim::Range(2, 7);
  const bool other_k = sim::Chance(1, 6);
  for (int i = 0; i < n; ++i) {
    lines.push_back(i && sim::Chance(1, 3) ? lines[sim::W(i)] : Line(s, 3));
    k.push_back(other_k ? sim::Range(1, 4) : s.k);
  }
  Reference ref(s);
  for (int i = 0; i < n; ++i) ref.Of(lines[i], k[i]);
  PairLMDecoder d(s.cfg);
  std::map<std::string, std::set<int>> asked;  // by word: the numbers of candidates asked for
  auto note = [&](const std::string &line, int num) {
    bool mixed = false;
    for (absl::string_view w : absl::StrSplit(line, ' ', absl::SkipEmpty())) {
      auto &a = asked[std::string(w)];
      a.insert(num);
      if (a.size() > 1) mixed = true;
    }
    return mixed;
  };
  const int much = sim::W(600);
  if (much >= 588) {
    // A decoder that has seen a lot.
    sim::SetStepBudget(40000000, 40000000000ull);
    const int words = much >= 599 ? sim::Range(1000, 1500) : sim::Range(60, 300);
    const std::string l = ManyWords(words);
    ref.Of("aba -a", s.k);
    if (sim::Chance(1, 2)) Check(&ref, lines[0], Decode(&d, lines[0], k[0]), "before many words", k[0]);
    { Quiet q; note(lines[0], k[0]); note(l, s.k); note("aba -a", s.k); }
    (void)Decode(&d, l, s.k);
    Check(&ref, "aba -a", Decode(&d, "aba -a", s.k), "after many words");
    sim::Probe("many_words");
  }
  for (int i = 0; i < n; ++i) {
    sim::Note("request '%s', %d", lines[i].c_str(), k[i]);
    const std::string text = Decode(&d, lines[i], k[i]);
    Quiet q;
    // Recorded finding: without a language model the cache keeps what the
    // first request for a word asked for.
    const bool finding = note(lines[i], k[i]) && s.cfg.add_to_cache() && s.cfg.lm_file().empty();
    Same(Parse(text, "after earlier requests"), ref.Of(lines[i], k[i]), "after earlier requests", lines[i],
         finding ? "cached-for-another-k" : "wrong-answer");
  }
  if (lines.size() > 2) sim::Nontrivial();
}

// P04: the words of one line over several threads.
SIM_SCENARIO(dec_split) {
  Setup s = MakeSetup(true);
  const int par = sim::Range(2, 4);
  s.cfg.set_max_parallel_tokens(par);
  const std::string line = Line(s, 6);
  Reference ref(s);
  ref.Of(line);
  PairLMDecoder d(s.cfg);
  const int before = sim::LiveThreads();
  Check(&ref, line, Decode(&d, line, s.k), "split over threads");
  if (sim::LiveThreads() != before) sim::Violation("work-left", "%d threads still run after the call", sim::LiveThreads() - before);
  if (sim::Chance(1, 4)) Check(&ref, line, Decode(&d, line, s.k), "split over threads, again");
  if (s.cfg.lm_file().empty()) {
    // Nothing joins the words: each position is the answer to its word.
    Answer words;
    for (absl::string_view w : absl::StrSplit(line, ' ', absl::SkipEmpty())) words.push_back(ref.Of(std::string(w)).at(0));
    Quiet q;
    Same(words, ref.Of(line), "word by word", line, "wrong-position");
  }
  if (line.find(' ') != std::string::npos) sim::Nontrivial();
}

// P04: a sample with a given seed is the same for every schedule, and one of
// the candidates of its position.
SIM_SCENARIO(dec_sample) {
  Setup s = MakeSetup(true);
  const std::string line = Line(s, 6);
  std::string alone;
  Answer all, more;
  {
    PairLMDecoderOptions c = s.cfg;
    c.set_max_parallel_tokens(1);
    PairLMDecoder d(c), e(c);
    all = Parse(Decode(&d, line, s.k), "reference");
    more = Parse(Decode(&e, line, s.k + 1), "reference");
    c.set_sample_from_k_best(true);
    PairLMDecoder f(c);
    alone = Decode(&f, line, s.k);
  }
  s.cfg.set_max_parallel_tokens(sim::Range(2, 4));
  s.cfg.set_sample_from_k_best(true);
  PairLMDecoder d(s.cfg);
  const std::string text = Decode(&d, line, s.k);
  Quiet q;
  const Answer got = Parse(text, "sample"), want = Parse(alone, "sample alone");
  if (got.size() != all.size()) sim::Violation("wrong-sample", "'%s' has %zu positions instead of %zu", line.c_str(), got.size(), all.size());
  // Which of two equally good candidates is kept is not promised.
  bool tie = more.size() != all.size();
  for (size_t i = 0; i < more.size() && !tie; ++i)
    if (more[i].cands.size() > static_cast<size_t>(s.k) && s.k > 0 && Near(more[i].cands[s.k - 1].first, more[i].cands[s.k].first)) tie = true;
  for (size_t i = 0; i < all.size(); ++i) {
    if (got[i].cands.size() != 1)
      sim::Violation("wrong-sample", "'%s' position %zu: %zu candidates in a sample", line.c_str(), i, got[i].cands.size());
    bool in = tie;
    for (const auto &c : all[i].cands) if (c.second == got[i].cands[0].second) in = true;
    if (!in || got[i].input != all[i].input)
      sim::Violation("wrong-sample", "'%s' position %zu: sample %s is not in %s", line.c_str(), i, Show(got[i]).c_str(), Show(all[i]).c_str());
    if (!tie && got[i].cands[0].second != want[i].cands[0].second)
      sim::Violation("wrong-sample", "'%s' position %zu: sample %s, with one thread %s", line.c_str(), i, Show(got[i]).c_str(),
                     Show(want[i]).c_str());
  }
  if (!tie && line.find(' ') != std::string::npos) sim::Nontrivial();
}

// P05: one decoder, several callers.
SIM_SCENARIO(dec_shared) {
  Setup s = MakeSetup(true);
  s.cfg.set_max_parallel_tokens(sim::Range(1, 2));
  MaybeSample(&s);
  const int callers = sim::Range(2, 3);
  std::vector<std::vector<std::string>> lines(callers);
  Reference ref(s);
  const bool hot = sim::Chance(1, 3);  // Everybody asks for the same new word.
  for (auto &v : lines) {
    const int n = hot ? 1 : sim::Range(1, 2);
    for (int i = 0; i < n; ++i) v.push_back(hot ? s.words[0] : Line(s, 2));
    for (const auto &l : v) ref.Of(l);
  }
  PairLMDecoder d(s.cfg);
  if (sim::Chance(1, 3)) Check(&ref, lines[0][0], Decode(&d, lines[0][0], s.k), "first");
  {
    std::vector<std::thread> t;
    for (int i = 0; i < callers; ++i)
      t.emplace_back([&, i] {
        for (const auto &l : lines[i]) {
          const std::string text = Decode(&d, l, s.k);
          Check(&ref, l, text, "shared decoder");
          if (s.cfg.add_to_cache()) {
            for (absl::string_view w : absl::StrSplit(l, ' ', absl::SkipEmpty()))
              if (!d.CheckCache(w)) sim::Violation("cache-lost", "'%s' is not in the cache after it was decoded", std::string(w).c_str());
          }
        }
      });
    for (auto &x : t) x.join();
  }
  for (const auto &v : lines)
    for (const auto &l : v) Check(&ref, l, Decode(&d, l, s.k), "after the callers");
  sim::Nontrivial();
}

namespace {

struct Job {
  std::string text;                 // input file
  std::vector<std::string> lines;   // those to be decoded
};

Job MakeJob(const Setup &s, int max_lines, int one_in) {
  Job j;
  const bool big = sim::Chance(1, one_in);  // output beyond the stream buffer
  if (big) sim::SetStepBudget(4000000, 4000000000ull);
  const int n = big ? sim::Range(40, 70) : sim::Range(0, max_lines);
  for (int i = 0; i < n; ++i) {
    if (big && j.lines.size() > 1 && i > 3) {
      const std::string l = j.lines[i % 2];
      j.lines.push_back(l);
      j.text += l + "\n";
      continue;
    }
    const int kind = sim::W(12);
    std::string l;
    if (kind == 11) l = "# " + Line(s, 2);
    else if (kind == 10) l = "";
    else { l = !j.lines.empty() && kind == 9 ? j.lines[0] : big ? Line(s, 5) + " cc dd cac dcb" : Line(s, 3); j.lines.push_back(l); }
    j.text += l;
    if (i + 1 < n || sim::Chance(1, 2)) j.text += "\n";
  }
  Put("/sim/d/in.txt", j.text);
  return j;
}

// The output file against the answers to the single lines.
void CheckOutput(const Job &j, Reference *ref, const char *what) {
  Quiet q;
  const std::string out = OnDisk("/sim/d/out.txt");
  std::vector<std::string> block(j.lines.size());
  int last = -1;
  if (!out.empty() && out.back() != '\n') sim::Violation("incomplete-output", "%s: the output ends inside a line", what);
  for (absl::string_view l : absl::StrSplit(out, '\n')) {
    if (l.empty()) continue;
    const std::pair<absl::string_view, absl::string_view> c = absl::StrSplit(l, absl::MaxSplits('\t', 1));
    int idx;
    if (!absl::SimpleAtoi(c.first, &idx) || idx < 0 || idx >= static_cast<int>(block.size()))
      sim::Violation("bad-line", "%s: unexpected output line '%.60s'", what, std::string(l).c_str());
    if (idx < last) sim::Violation("order", "%s: line %d after line %d", what, idx, last);
    last = idx;
    block[idx] += std::string(c.second) + "\n";
  }
  for (size_t i = 0; i < block.size(); ++i) {
    if (block[i].empty()) sim::Violation("incomplete-output", "%s: nothing in the output for line %zu of %zu ('%s')", what, i, block.size(), j.lines[i].c_str());
    Same(Parse(block[i], what), ref->Of(j.lines[i]), what, j.lines[i]);
  }
}

}  // namespace

namespace {

// The configuration as flags of the decoder program.
std::vector<std::string> Config(PairLMDecoderOptions cfg, bool *lost) {
  std::vector<std::string> args;
  if (sim::Chance(1, 3) && !cfg.pairlm_file().empty()) {
    args.push_back("--input_pairlm_fst_file=" + cfg.pairlm_file());
    if (sim::Chance(1, 2)) cfg.clear_pairlm_file(); else cfg.set_pairlm_file("/sim/none/other");
  }
  if (sim::Chance(1, 3) && !cfg.lm_file().empty()) {
    args.push_back("--input_lm_fst_file=" + cfg.lm_file());
    if (sim::Chance(1, 2)) cfg.clear_lm_file(); else cfg.set_lm_file("/sim/none/other");
  }
  std::string text;
  google::protobuf::TextFormat::PrintToString(cfg, &text);
  if (sim::Chance(1, 2)) {
    args.push_back("--pairlm_config=" + text);
    return args;
  }
  const bool missing = lost && sim::Chance(1, 8);
  if (missing) *lost = true;
  else Put("/sim/d/config.textproto", text);
  args.push_back("--pairlm_config_file=/sim/d/config.textproto");
  return args;
}

}  // namespace

// P03: a file by several workers.
SIM_SCENARIO(dec_file) {
  Setup s = MakeSetup(sim::Chance(1, 3));
  const int workers = sim::Range(1, 4);
  s.cfg.set_max_parallel_tokens(sim::Chance(1, 3) ? 2 : 1);
  const Job j = MakeJob(s, 5, 50);
  Reference ref(s);
  for (const auto &l : j.lines) ref.Of(l);
  if (sim::Chance(1, 4)) Put("/sim/d/out.txt", "7\told output\n");
  const int before = sim::LiveThreads();
  if (sim::Chance(1, 6)) {
    std::vector<std::string> args = {"--ifile=/sim/d/in.txt", "--ofile=/sim/d/out.txt", absl::StrCat("--kbest=", s.k), absl::StrCat("--num_workers=", workers)};
    for (auto &a : Config(s.cfg, nullptr)) args.push_back(a);
    const int rc = simutil::RunMain(sim_main_pairlm_decoder_main, args);
    if (rc) sim::Violation("false-error", "the decoder ended with %d without a fault", rc);
  } else {
    const auto st = nisaba::translit::fst::RunPairLMDecoder(s.cfg, s.k, workers, "/sim/d/in.txt", "/sim/d/out.txt");
    if (!st.ok()) sim::Violation("false-error", "decoding failed without a fault: %s", st.ToString().c_str());
  }
  if (sim::LiveThreads() != before) sim::Violation("work-left", "%d threads still run after the call", sim::LiveThreads() - before);
  CheckOutput(j, &ref, "file");
  if (j.lines.size() > 1 && workers > 1) sim::Nontrivial();
}

// P07: the same with faults.
SIM_SCENARIO(dec_faults) {
  Setup s = MakeSetup(sim::Chance(1, 2));
  const int workers = sim::Range(1, 2);
  s.cfg.set_max_parallel_tokens(1);
  Job j = MakeJob(s, 3, 16);
  const bool main = sim::Chance(1, 4);  // through the program
  Reference ref(s);
  for (const auto &l : j.lines) ref.Of(l);
  const int missing = sim::Chance(1, 8) ? 1 + sim::W(s.files.size() + 2) : 0;
  PairLMDecoderOptions cfg = s.cfg;
  std::string in = "/sim/d/in.txt", out = "/sim/d/out.txt";
  bool lost = false;
  if (missing == 1) { in = "/sim/none/in.txt"; lost = true; }
  if (missing == 2) { out = ""; }
  if (missing > 2) {
    const std::string f = s.files[missing - 3];
    lost = true;
    if (f == cfg.pairlm_file()) cfg.set_pairlm_file("/sim/none/x");
    if (f == cfg.lm_file()) cfg.set_lm_file("/sim/none/x");
    if (f == cfg.translit_cands_file()) cfg.set_translit_cands_file("/sim/none/x");
    if (f == cfg.word_piece_model()) cfg.set_word_piece_model("/sim/none/x");
  }
  const unsigned hard = sim::kOpenFail | sim::kReadEIO | sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail;
  // Transfers that are only short or interrupted must not be noticed at all.
  const bool benign = sim::Chance(1, 4);
  sim::AllowFatal(missing);
  sim::AllowFatalAfter(hard);
  static const unsigned kFocus[] = {~0u, ~static_cast<unsigned>(sim::kOpenFail), sim::kWriteEIO | sim::kWriteENOSPC | sim::kCloseFail, sim::kReadEIO};
  const unsigned focus = kFocus[sim::W(4)];
  const unsigned faults = benign ? sim::kBenignFaults : (hard & focus) | sim::kBenignFaults;
  if (!main) sim::SetFaults(faults);
  bool ok = false;
  std::string err;
  try {
    if (main) {
      std::vector<std::string> args = {"--ifile=" + in, "--ofile=" + out, absl::StrCat("--kbest=", s.k), absl::StrCat("--num_workers=", workers)};
      for (auto &a : Config(cfg, &lost)) args.push_back(a);
      sim::SetFaults(faults);
      sim::AllowFatal(missing || lost);
      ok = simutil::RunMain(sim_main_pairlm_decoder_main, args) == 0;
      err = "exit status";
    } else {
      const auto st = nisaba::translit::fst::RunPairLMDecoder(cfg, s.k, workers, in, out);
      ok = st.ok();
      err = st.ToString();
    }
  } catch (const std::exception &e) {
    sim::SetFaults(0);
    err = e.what();
  }
  sim::SetFaults(0);
  const bool hit = sim::FaultsFired(hard) != 0;
  if (ok && lost) sim::Violation("missing-file", "decoding reports success although an input file does not exist");
  if (ok) CheckOutput(j, &ref, hit ? "success after a fault" : "no hard fault");
  if (!ok && !hit && !missing && !lost) sim::Violation("false-error", "decoding failed without a fault: %s", err.c_str());
  if (hit) sim::Probe("decodes_with_hard_fault");
  if (!j.lines.empty()) sim::Nontrivial();
}

namespace {

// What a vocabulary makes of a text: in every word, of all neighbouring pieces
// that together are a piece, those of the lowest rank are merged first, from
// the left.
std::string Pieces(const std::vector<std::string> &vocabulary, std::string prefix, const std::string &text) {
  std::map<std::string, size_t> rank;
  for (size_t i = 0; i < vocabulary.size(); ++i) rank.insert({vocabulary[i], i});
  if (prefix.empty()) prefix = "\xE2\x96\x81";
  std::string out;
  for (absl::string_view word : absl::StrSplit(text, ' ', absl::SkipEmpty())) {
    std::vector<std::string> t;
    for (char c : prefix + std::string(word)) {
      if ((c & 0xc0) == 0x80 && !t.empty()) t.back() += c;
      else t.push_back(std::string(1, c));
    }
    while (true) {
      size_t best = vocabulary.size(), at = 0;
      for (size_t i = 0; i + 1 < t.size(); ++i) {
        const auto r = rank.find(t[i] + t[i + 1]);
        if (r != rank.end() && r->second < best) { best = r->second; at = i; }
      }
      if (best == vocabulary.size()) break;
      t[at] += t[at + 1];
      t.erase(t.begin() + at + 1);
    }
    for (const auto &x : t) out += (out.empty() ? "" : " ") + x;
  }
  return out;
}

}  // namespace

// P14: loading a word-piece vocabulary, and sharing it.
SIM_SCENARIO(wp_load) {
  static const char *const kPieces[] = {"\xE2\x96\x81", "a", "b", "c", "\xE2\x96\x81" "a", "\xE2\x96\x81" "ab", "ab", "bc", "abc", "ca", "\xE2\x96\x81" "c", "aa", "bb", "cab", "\xE2\x96\x81" "b", "ba"};
  std::vector<std::string> pieces;
  std::string text;
  const int n = sim::Range(0, 40);
  for (int i = 0; i < n; ++i) {
    std::string p = kPieces[sim::W(16)];
    if (sim::Chance(1, 8)) p = std::string(1 + sim::W(700), 'a' + sim::W(3));
    // Later columns and blank lines do not count.
    static const char *const kTails[] = {"\t-1.5", " 7", " ", "\t"};
    static const char *const kBlank[] = {"\n", "\n\n", "\n\n\n", " \n", "\t \n\n"};
    text += (sim::Chance(1, 12) ? " " : "") + p + (sim::Chance(1, 4) ? kTails[sim::W(4)] : "") + "\n";
    if (sim::Chance(1, 10)) text += kBlank[sim::W(5)];
    pieces.push_back(p);
  }
  if (!text.empty() && text.back() == '\n' && sim::Chance(1, 3)) text.pop_back();
  const bool missing = sim::Chance(1, 10);
  const std::string path = missing ? "/sim/none/wp" : "/sim/m/wp.txt";
  if (!missing) Put(path, text);
  std::vector<std::string> asks;
  const int na = sim::Range(1, 4);
  for (int i = 0; i < na; ++i) {
    std::string a;
    const int len = sim::Range(1, 9);
    for (int k = 0; k < len; ++k) a += "abc d"[sim::W(5)];
    asks.push_back(a);
  }
  const std::string prefix = sim::Chance(1, 3) ? "b" : sim::Chance(1, 4) ? "\xC3\xA9" : "";
  std::vector<std::string> want;
  for (const auto &a : asks) want.push_back(Pieces(pieces, prefix, a));
  // Another model, of the same or of other pieces.
  const int other = sim::W(3);
  if (other) {
    std::vector<std::string> held = pieces;
    if (other == 2) {
      held.clear();
      for (int i = sim::Range(0, 12); i > 0; --i) held.push_back(kPieces[sim::W(16)]);
    }
    const std::string lead = sim::Chance(1, 2) ? prefix : "";
    WordpieceSegmenter direct(lead);
    if (!direct.InitWordpieces(held).ok()) sim::Violation("false-error", "loading from memory failed");
    for (const auto &a : asks) {
      auto r = direct.TokenizeInput(a);
      const std::string got = r.ok() ? *r : "error", expect = Pieces(held, lead, a);
      if (got != expect) sim::Violation("wrong-pieces", "given the pieces directly: '%s' -> '%s', expected '%s'", a.c_str(), got.c_str(), expect.c_str());
    }
  }
  WordpieceSegmenter seg(prefix);
  if (sim::Chance(1, 4)) {
    // The model held something else before.
    std::vector<std::string> old;
    const int no = sim::Range(1, 12);
    for (int i = 0; i < no; ++i) old.push_back(kPieces[sim::W(16)]);
    if (!seg.InitWordpieces(old).ok()) sim::Violation("false-error", "loading from memory failed");
    if (sim::Chance(1, 2)) (void)seg.TokenizeInput(asks[0]);
  }
  const unsigned hard = sim::kOpenFail | sim::kReadEIO;
  sim::SetFaults(hard | sim::kReadShort | sim::kReadEINTR);
  bool ok = false;
  std::string err;
  try {
    const auto st = seg.InitWordpieces(path);
    ok = st.ok();
    err = st.ToString();
  } catch (const std::exception &e) {
    sim::SetFaults(0);
    sim::Violation("escaped-exception", "InitWordpieces lets an exception escape: %s", e.what());
  }
  sim::SetFaults(0);
  const bool hit = sim::FaultsFired(hard) != 0;
  if (sim::OpenFiles()) sim::Violation("descriptor-leak", "%d descriptors left open", sim::OpenFiles());
  if (ok && missing) sim::Violation("missing-file", "loading a missing vocabulary reports success");
  if (!ok && !hit && !missing) sim::Violation("false-error", "loading failed without a fault: %s", err.c_str());
  if (!ok && sim::Chance(1, 2)) {
    // A later load of the healthy file works.
    Put("/sim/m/wp.txt", text);
    const auto st = seg.InitWordpieces(std::string("/sim/m/wp.txt"));
    if (!st.ok()) sim::Violation("false-error", "loading again failed: %s", st.ToString().c_str());
    ok = true;
  }
  if (!ok) return;
  auto ask = [&](const char *what) {
    for (size_t i = 0; i < asks.size(); ++i) {
      auto r = seg.TokenizeInput(asks[i]);
      const std::string got = r.ok() ? *r : "error";
      if (got != want[i])
        sim::Violation("wrong-pieces", "%s: '%s' -> '%s', expected '%s'%s", what, asks[i].c_str(), got.c_str(), want[i].c_str(),
                       hit ? " (after a read fault reported as success)" : "");
    }
  };
  const int callers = sim::W(4);
  if (callers < 2) {
    ask("one caller");
  } else {
    std::vector<std::thread> t;
    for (int i = 0; i < callers; ++i) t.emplace_back([&] { ask("several callers"); });
    for (auto &x : t) x.join();
  }
  if (n > 2) sim::Nontrivial();
}
