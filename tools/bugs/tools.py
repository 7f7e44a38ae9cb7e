"""Planted bugs in nisaba/translit/tools."""
import os
import runpy

_D = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'decoder.py'))


def demo(main, src):
  d = _D['demo'](main, srcs=('../tools/' + src,))
  del d['decoder_demo.h']
  d['demo.cc'] = '''#include <cstdio>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include "nisaba/translit/tools/%s.h"
namespace tools = nisaba::translit::tools;
static void Put(const std::string &f, const std::string &t) { std::ofstream(f) << t; }
static std::string Get(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// Whether a job ends by itself (and not by a failed check).
template <class F> static bool Ends(F f) {
  const pid_t p = fork();
  if (!p) { f(); _exit(0); }
  int st;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
''' % src + main
  return d


C = 'nisaba/translit/tools/calculate_error_rate.cc'
K = 'nisaba/translit/tools/kbest-full-string-util.cc'
BUGS = {}

BUGS['ens-short-system'] = dict(
    property='P13',
    edits=[(K, '''    QCHECK_EQ(inputs_to_ensemble[i].size(), num_items);
''', '''    num_items = std::min<int>(inputs_to_ensemble[i].size(), num_items);
''')],
    needs='an input system whose file ends early (its writer died) at an item boundary',
    breaks='the ensemble silently lacks items',
    demo=demo('''
int main() {
  Put("s0", "x\\tab\\t0.5\\ny\\tcd\\t0.25\\n");
  Put("s1", "x\\tab\\t0.5\\n");
  Put("s2", "x\\tab\\t0.5\\ny\\tcd\\t0.75\\n");
  if (!Ends([] { tools::EnsembleFiles("s0:s2", "").RunEnsembleAndOutput(2, "o1"); })) return 2;
  return Ends([] { tools::EnsembleFiles("s0:s1", "").RunEnsembleAndOutput(2, "o2"); }) ? 1 : 0;
}
''', 'kbest-full-string-util'))

BUGS['cer-cut-line'] = dict(
    property='P13',
    edits=[(C, '''    QCHECK_GE(seq.size(), 2);
    int input_idx''', '''    if (seq.size() < 2) break;
    int input_idx''')],
    needs='a file of references or outputs cut inside its last line, with an earlier line for the same item',
    breaks='a file cut in the middle of a line is scored without the missing alternatives',
    demo=demo('''
int main() {
  Put("r", "0\\tab\\n0\\tcd\\n");
  Put("c", "0\\tab\\n0");
  Put("t", "0\\tcd\\n");
  auto job = [](const char *r) { return [r] { tools::MultiRefErrorRate c(true); c.CalculateErrorRate(r, "t", false); c.Write("o", false); }; };
  if (!Ends(job("r"))) return 2;
  return Ends(job("c")) ? 1 : 0;
}
''', 'calculate_error_rate'))

BUGS['extract-same-pos'] = dict(
    property='P13',
    edits=[(K, '''      if (idx != last_idx || pos != last_pos) {
        input_words.push_back(seq[2]);
        str_arcs.push_back(''', '''      if (pos != last_pos || input_words.back() != seq[2]) {
        input_words.push_back(seq[2]);
        str_arcs.push_back('''),
           (K, '''      if (idx != last_idx && last_idx >= 0) {
        input_arcs_.push_back(str_arcs);
        input_words_.push_back(absl::StrJoin(input_words, " "));
        input_index_.push_back(last_idx);
        str_arcs.clear();
        input_words.clear();
      }
''', '''      const bool one_word = input_words.size() == 1 && input_words[0] == seq[2];
      if (idx != last_idx && last_idx >= 0 && !(one_word && pos == 0)) {
        input_arcs_.push_back(str_arcs);
        input_words_.push_back(absl::StrJoin(input_words, " "));
        input_index_.push_back(last_idx);
        str_arcs.clear();
        input_words.clear();
        last_pos = -1;
      }
''')],
    needs='the same one-word input twice in a row',
    breaks='two examples in a row with the same single word are extracted as one',
    demo=demo('''
int main() {
  Put("i", "0\\t0\\tx\\ta\\t0.5\\n1\\t0\\tx\\tb\\t0.5\\n");
  tools::KbestExtractor k("i");
  k.RunExtractorAndOutput("o", 1, false, false);
  return Get("o") == "a\\nb\\n" ? 0 : 1;
}
''', 'kbest-full-string-util'))

BUGS['rejoin-split-len'] = dict(
    property='P13',
    edits=[(K, '''        QCHECK_LT(output_idx, output_indices_.size() - 1);
''', '''        if (output_idx + 1 >= output_indices_.size()) break;
''')],
    needs='a split file that lacks its last line, of an output with several parts',
    breaks='a split file cut short makes the rejoiner drop the last parts of the input and report success',
    demo=demo('''
int main() {
  Put("i", "x\\ta\\t0.5\\ny\\tb\\t0.5\\nz\\tc\\t0.5\\n");
  Put("s", "0\\n1\\n1\\n");
  Put("c", "0\\n1\\n");
  if (!Ends([] { tools::KbestRejoiner("i", "s", 2).RunRejoinerAndOutput("o1"); })) return 2;
  if (Get("o1").find("1\\tb c\\t1.0") == std::string::npos) return 3;
  return Ends([] { tools::KbestRejoiner("i", "c", 2).RunRejoinerAndOutput("o2"); }) ? 1 : 0;
}
''', 'kbest-full-string-util'))

BUGS['cer-append'] = dict(
    property='P13',
    edits=[(C, '''  output_file.open(std::string(ofile));
''', '''  output_file.open(std::string(ofile), std::ios::in | std::ios::out);
  if (!output_file.is_open()) output_file.open(std::string(ofile));
''')],
    needs='an older, longer output file in place',
    breaks='the result is written over the start of an older output, whose end stays',
    demo=demo('''
int main() {
  Put("r", "0\\tab\\n");
  Put("t", "0\\tab\\n");
  Put("o2", std::string(5000, '#'));
  tools::MultiRefErrorRate c(true);
  c.CalculateErrorRate("r", "t", false);
  c.Write("o1", false);
  c.Write("o2", false);
  return Get("o1") == Get("o2") ? 0 : 1;
}
''', 'calculate_error_rate'))

BUGS['ens-length-eof'] = dict(
    property='P13',
    edits=[(K, '''    QCHECK_EQ(num_items, static_cast<int>(input_lines.size()));
    for (int i = 0; i < num_items; ++i) {
''', '''    QCHECK_LE(static_cast<int>(input_lines.size()), num_items);
    for (int i = 0; i < input_lines.size(); ++i) {
''')],
    needs='a length file cut short',
    breaks='items whose length is missing from a truncated file are ensembled as if no lengths had been given',
    demo=demo('''
int main() {
  Put("s", "x\\tab\\t0.5\\ny\\tcd\\t0.25\\n");
  Put("l2", "1\\n1\\n");
  Put("l1", "1\\n");
  if (!Ends([] { tools::EnsembleFiles("s:s", "l2").RunEnsembleAndOutput(2, "o1"); })) return 2;
  return Ends([] { tools::EnsembleFiles("s:s", "l1").RunEnsembleAndOutput(2, "o2"); }) ? 1 : 0;
}
''', 'kbest-full-string-util'))
