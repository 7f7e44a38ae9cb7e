// Stand-in for OpenGrm NGramCounter: unigram counts of a weighted acyclic
// automaton (the only use nisaba makes of it).  The count of a label is the
// log-semiring sum over paths of weight times occurrences; the result has one
// state with one arc per label, in label order, and the end-of-string count as
// final weight.
#ifndef VERIF_SHIM_NGRAM_COUNT_H_
#define VERIF_SHIM_NGRAM_COUNT_H_
#include <map>
#include <vector>
#include "fst/fstlib.h"
namespace ngram {
template <class W>
class NGramCounter {
 public:
  explicit NGramCounter(size_t order, bool epsilon_as_backoff = false, float delta = 1e-9) {
    (void)order; (void)epsilon_as_backoff; (void)delta;
  }
  template <class Arc>
  bool Count(const fst::Fst<Arc> &in) {
    fst::VectorFst<Arc> f(in);
    if (f.Start() == fst::kNoStateId) return true;
    fst::Connect(&f);
    if (f.Start() == fst::kNoStateId) return true;
    if (!fst::TopSort(&f)) return false;
    const int n = f.NumStates();
    std::vector<W> alpha(n, W::Zero()), beta(n, W::Zero());
    alpha[f.Start()] = W::One();
    auto w = [](const typename Arc::Weight &x) { return W(x.Value()); };
    for (int s = 0; s < n; ++s)
      for (fst::ArcIterator<fst::VectorFst<Arc>> it(f, s); !it.Done(); it.Next()) {
        const Arc &a = it.Value();
        alpha[a.nextstate] = fst::Plus(alpha[a.nextstate], fst::Times(alpha[s], w(a.weight)));
      }
    for (int s = n - 1; s >= 0; --s) {
      beta[s] = w(f.Final(s));
      for (fst::ArcIterator<fst::VectorFst<Arc>> it(f, s); !it.Done(); it.Next()) {
        const Arc &a = it.Value();
        beta[s] = fst::Plus(beta[s], fst::Times(w(a.weight), beta[a.nextstate]));
      }
    }
    for (int s = 0; s < n; ++s) {
      eos_ = fst::Plus(eos_, fst::Times(alpha[s], w(f.Final(s))));
      for (fst::ArcIterator<fst::VectorFst<Arc>> it(f, s); !it.Done(); it.Next()) {
        const Arc &a = it.Value();
        if (a.ilabel == 0) continue;
        auto p = c_.emplace(a.ilabel, W::Zero()).first;
        p->second = fst::Plus(p->second, fst::Times(fst::Times(alpha[s], w(a.weight)), beta[a.nextstate]));
      }
    }
    return true;
  }
  template <class Arc>
  void GetFst(fst::MutableFst<Arc> *o) {
    o->DeleteStates();
    const int s = o->AddState();
    o->SetStart(s);
    for (const auto &p : c_)
      o->AddArc(s, Arc(p.first, p.first, typename Arc::Weight(p.second.Value()), s));
    o->SetFinal(s, typename Arc::Weight(eos_.Value()));
  }

 private:
  std::map<int, W> c_;
  W eos_ = W::Zero();
};
}  // namespace ngram
#endif
