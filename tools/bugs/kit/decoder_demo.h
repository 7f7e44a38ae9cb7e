// Small models and helpers for demonstrations with the pair LM decoder.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "fst/vector-fst.h"
#include "nisaba/translit/fst/pairlm_decoder.h"
#include "nisaba/translit/fst/pairlm_decoder_runner.h"
#include "nisaba/translit/fst/wordpiece-segmenter.h"
using ::fst::StdArc;
using ::fst::StdVectorFst;
using ::fst::SymbolTable;
using nisaba::translit::fst::PairLMDecoder;
using nisaba::translit::fst::PairLMDecoderOptions;

inline void Put(const std::string &f, const std::string &t) { std::ofstream(f) << t; }
inline std::string Get(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

struct Pair { int in, out; };
const Pair kPairs[] = {{'a', 'A'}, {'b', 'B'}, {'c', 'C'}, {'c', 'K'}, {'d', 'D'}, {'d', 0x926}};
const int kNumPairs = 6;

// Weights without coincidences: every path of interest has its own cost.
struct Weights {
  unsigned salt;
  unsigned n = 0;
  explicit Weights(unsigned s) : salt(s) {}
  float Next() {
    unsigned x = (++n * 2654435761u) ^ (salt * 40503u + 977);
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; x ^= x >> 16;
    return 0.25f + 2.0f * (x & 0xffffff) / 16777216.0f;
  }
};

inline std::string Utf8(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
  return s;
}

inline std::string Bytes(const StdVectorFst &f) {
  std::ostringstream o;
  ::fst::FstWriteOptions opts("sim");
  if (!f.Write(o, opts)) abort();
  return o.str();
}

// A bigram model over pairs with one back-off state; pairs of letters beyond
// `letters` are left out.
inline std::string PairLM(Weights w, int pairs) {
  SymbolTable syms;
  syms.AddSymbol("<epsilon>");
  for (int i = 0; i < pairs; ++i) syms.AddSymbol(std::to_string(kPairs[i].in) + ";" + std::to_string(kPairs[i].out));
  syms.AddSymbol("<UNK>");
  StdVectorFst f;
  const int start = f.AddState(), uni = f.AddState();
  f.SetStart(start);
  std::vector<int> st;
  for (int i = 0; i < pairs; ++i) { st.push_back(f.AddState()); f.SetFinal(st[i], w.Next()); }
  f.AddArc(start, StdArc(0, 0, w.Next(), uni));
  for (int i = 0; i < pairs; ++i) f.AddArc(start, StdArc(i + 1, i + 1, w.Next(), st[i]));
  for (int i = 0; i < pairs; ++i) f.AddArc(uni, StdArc(i + 1, i + 1, w.Next(), st[i]));
  for (int i = 0; i < pairs; ++i) {
    f.AddArc(st[i], StdArc(0, 0, w.Next(), uni));
    for (int j = 0; j < pairs; ++j)
      if ((i * 7 + j * 3 + w.salt) % 3) f.AddArc(st[i], StdArc(j + 1, j + 1, w.Next(), st[j]));
  }
  f.SetInputSymbols(&syms);
  f.SetOutputSymbols(&syms);
  return Bytes(f);
}

inline std::string Transducer(Weights w, int pairs) {
  StdVectorFst f;
  const int start = f.AddState();
  f.SetStart(start);
  std::vector<int> st;
  for (int i = 0; i < pairs; ++i) { st.push_back(f.AddState()); f.SetFinal(st[i], w.Next()); }
  for (int s = 0; s <= pairs; ++s)
    for (int j = 0; j < pairs; ++j) f.AddArc(s, StdArc(kPairs[j].in, kPairs[j].out, w.Next(), st[j]));
  return Bytes(f);
}

// Adds weighted self-arcs for all symbols to a one-state language model whose
// unknown symbol is behind a back-off arc.
inline std::string WordLM(Weights w, const std::vector<std::string> &words) {
  SymbolTable syms;
  syms.AddSymbol("<epsilon>");
  for (const auto &x : words) syms.AddSymbol(x);
  const int unk = syms.AddSymbol("<unk>");
  StdVectorFst f;
  const int start = f.AddState(), other = f.AddState();
  f.SetStart(start);
  f.SetFinal(start, w.Next());
  f.AddArc(start, StdArc(0, 0, w.Next(), other));
  for (int i = 1; i < unk; ++i) f.AddArc(start, StdArc(i, i, w.Next() * 2, start));
  f.AddArc(other, StdArc(unk, unk, w.Next(), start));
  f.SetInputSymbols(&syms);
  f.SetOutputSymbols(&syms);
  return Bytes(f);
}

// Word-initial pieces lead to state 1, others stay there.
inline std::string PieceLM(Weights w, const std::vector<std::string> &pieces, const std::string &prefix) {
  SymbolTable syms;
  syms.AddSymbol("<epsilon>");
  for (const auto &x : pieces) syms.AddSymbol(x);
  const int unk = syms.AddSymbol("<unk>");
  StdVectorFst f;
  const int start = f.AddState(), other = f.AddState();
  f.SetStart(start);
  f.SetFinal(other, w.Next());
  for (int i = 1; i < unk; ++i) {
    const bool initial = pieces[i - 1].compare(0, prefix.size(), prefix) == 0;
    f.AddArc(initial ? start : other, StdArc(i, i, w.Next(), other));
  }
  f.AddArc(other, StdArc(unk, unk, w.Next(), other));
  f.SetInputSymbols(&syms);
  f.SetOutputSymbols(&syms);
  return Bytes(f);
}


// Candidates and costs of a line, rounded and in a fixed order.
inline std::string Decode(PairLMDecoder *d, const std::string &line, int k) {
  const StdVectorFst f = d->TransliterateString(line, k);
  std::istringstream in(d->PrintTransliterations("", f));
  std::vector<std::string> v;
  std::string l;
  while (std::getline(in, l)) {
    const size_t t = l.rfind('\t');
    char b[40];
    snprintf(b, sizeof(b), "\t%.1f", atof(l.c_str() + t + 1));
    v.push_back(l.substr(0, t) + b);
  }
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto &x : v) r += x + "\n";
  return r;
}
