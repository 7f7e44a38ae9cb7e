"""Planted bugs in nisaba/translit/fst."""
import os

KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kit')


def kit():
  out = {}
  for d, _, fs in os.walk(os.path.join(KIT, 'shim')):
    for f in fs:
      p = os.path.join(d, f)
      out[os.path.relpath(p, KIT)] = open(p).read()
  out['decoder_demo.h'] = open(os.path.join(KIT, 'decoder_demo.h')).read()
  return out


def demo(main, tsan=False, srcs=('pairlm_decoder', 'wordpiece-segmenter', 'pairlm_decoder_runner')):
  sh = '''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
protoc -I"$PWD" --cpp_out="$t" nisaba/translit/fst/pairlm_decoder_options.proto || exit 3
F="-std=c++17 -O0 %s -w -D_GLIBCXX_EXTERN_TEMPLATE=0 -include $here/shim/prefix.h -I$here/shim -I$here -I$PWD -I$t -I/usr/include/utf8cpp"
pids=
for s in %s nisaba/port/file_util nisaba/port/utf8_util nisaba/port/utf8_delimiters nisaba/port/unicode_properties "$here/demo" "$t/nisaba/translit/fst/pairlm_decoder_options.pb"; do
  g++ $F -c "$s.cc" -o "$t/$(basename $s).o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ %s -o "$t/demo" "$t"/*.o -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a) -Wl,--end-group -lfst -lprotobuf -lpthread -ldl || exit 3
mkdir "$t/run" && cd "$t/run" && TSAN_OPTIONS=exitcode=66 timeout 100 "$t/demo"
''' % ('-g1 -fsanitize=thread' if tsan else '', ' '.join('nisaba/translit/fst/' + s for s in srcs), '-fsanitize=thread' if tsan else '')
  return dict(kit(), **{'demo.sh': sh, 'demo.cc': '#include "decoder_demo.h"\n' + main})


D = 'nisaba/translit/fst/pairlm_decoder.cc'
R = 'nisaba/translit/fst/pairlm_decoder_runner.cc'
W = 'nisaba/translit/fst/wordpiece-segmenter.cc'
BUGS = {}

BUGS['dec-comment-index'] = dict(
    property='P03',
    edits=[(R, '''    if (absl::StartsWith(input_line, "#")) continue;
    thread_pool->Schedule([&input_line''', '''    if (absl::StartsWith(input_line, "#") && ++index) continue;
    thread_pool->Schedule([&input_line''')],
    needs='a comment line in the input and more than one worker',
    breaks='with several workers comment lines take a number, so the blocks after a comment are numbered differently '
           'than in a sequential run',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("in.txt", "ab\\n# note\\nca\\n");
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  if (!nisaba::translit::fst::RunPairLMDecoder(c, 1, 1, "in.txt", "o1.txt").ok()) return 2;
  if (!nisaba::translit::fst::RunPairLMDecoder(c, 1, 3, "in.txt", "o3.txt").ok()) return 2;
  return Get("o1.txt") == Get("o3.txt") ? 0 : 1;
}
'''))

BUGS['dec-done-order'] = dict(
    property='P03',
    edits=[(R, '''  std::sort(outputs.begin(), outputs.end(),
            [](const auto &entry_a, const auto &entry_b) {
              return entry_a.second < entry_b.second;
            });
''', '''  const auto by_index = [](const auto &entry_a, const auto &entry_b) {
    return entry_a.second < entry_b.second;
  };
  if (!outputs.empty() && outputs.back().second + 1 != outputs.size()) {
    // Some line was overtaken by another one.
    std::sort(outputs.begin(), outputs.end(), by_index);
  }
''')],
    needs='the last line of the file finishes last while two earlier lines finish out of order',
    breaks='results are left in order of completion when the last line is the last to finish',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  // A long first line, many short ones, a long last one.
  std::string longl, text;
  for (int i = 0; i < 60; ++i) longl += "bacdbacd ";
  text = longl + "\\n";
  for (int i = 0; i < 12; ++i) text += "a\\n";
  for (int i = 0; i < 4; ++i) text += longl;
  text += "\\n";
  Put("in.txt", text);
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_add_to_cache(false);
  c.set_max_parallel_tokens(1);
  for (int i = 0; i < 20; ++i) {
    if (!nisaba::translit::fst::RunPairLMDecoder(c, 1, 2, "in.txt", "o.txt").ok()) return 2;
    std::istringstream in(Get("o.txt"));
    std::string l;
    int last = 0;
    while (std::getline(in, l)) {
      if (atoi(l.c_str()) < last) return 1;
      last = atoi(l.c_str());
    }
    if (last != 13) return 2;
  }
  return 0;
}
'''))

BUGS['dec-multi-unlocked'] = dict(
    property='P04',
    edits=[(D, '''      const double cost =
          arc.weight.Value() +
          impl::GetTextString(best_pair_strings, arc.nextstate, &new_symbol);
      fst_params.mutex.lock();
      AddCandSymArc(new_symbol, cost, word_final_state, fst_params,
                    &word_transliterations);
      fst_params.mutex.unlock();
''', '''      const double cost =
          arc.weight.Value() +
          impl::GetTextString(best_pair_strings, arc.nextstate, &new_symbol);
      fst_params.mutex.lock_shared();
      const int cand_sym = fst_params.cand_syms.Find(new_symbol);
      fst_params.mutex.unlock_shared();
      if (cand_sym != kNoSymbol) {
        // Known candidate: nothing to add to the shared tables.
        word_transliterations.AddArc(
            word_transliterations.Start(),
            StdArc(cand_sym, cand_sym, cost, word_final_state));
        continue;
      }
      const int new_sym = [&] {
        absl::MutexLock lock(fst_params.mutex);
        return fst_params.cand_syms.AddSymbol(new_symbol);
      }();
      fst_params.mutex.lock();
      AddToCandsToLMFst(new_symbol, new_sym, fst_params);
      word_transliterations.AddArc(
          word_transliterations.Start(),
          StdArc(new_sym, new_sym, cost, word_final_state));
      fst_params.mutex.unlock();
''')],
    needs='a language model, two words of one line that share a candidate, and both looking the candidate up before '
          'either has added it',
    breaks='the shared candidate gets its language model arcs twice, so its score is counted double',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("lm.fst", WordLM(Weights(9), {"CA", "KA", "CC", "CK"}));
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_lm_file("lm.fst");
  c.set_oov_symbol("<unk>");
  c.set_oov_cost(3);
  c.set_max_word_cands(4);
  c.set_add_to_cache(false);
  c.set_max_parallel_tokens(1);
  const std::string line = "ccc ccc ccc ccc";
  PairLMDecoder d(c);
  const std::string want = Decode(&d, line, 2);
  c.set_max_parallel_tokens(4);
  for (int i = 0; i < 1500; ++i) {
    PairLMDecoder e(c);
    if (Decode(&e, line, 2) != want) return 1;
  }
  return 0;
}
'''))

BUGS['dec-cached-ref'] = dict(
    property='P05',
    edits=[(D, '''  const auto cached_pairs = global_word_transliteration_cache_.at(input_word);
''', '''  const auto &cached_pairs = global_word_transliteration_cache_.at(input_word);
''')],
    needs='another thread adding a word to the shared cache while a cached word is being read',
    breaks='the entry is read after the lock is released: a concurrent insertion moves it away',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  std::string cands;
  for (int i = 0; i < 400; ++i) cands += "ca\\tW" + std::to_string(i) + "\\t" + std::to_string(1 + i * 0.01) + "\\n";
  Put("cands.tsv", cands);
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_translit_cands_file("cands.tsv");
  c.set_max_parallel_tokens(1);
  PairLMDecoder d(c);
  std::thread t([&] { for (int i = 0; i < 20; ++i) Decode(&d, "ca", 1); });
  for (int i = 0; i < 100; ++i) Decode(&d, "a" + std::to_string(i), 1);
  t.join();
  return 0;  // the thread sanitizer decides
}
''', tsan=True))

BUGS['dec-check-unlocked'] = dict(
    property='P05',
    edits=[(D, '''bool PairLMDecoder::CheckCache(absl::string_view input_word) const {
  absl::ReaderMutexLock lock(mutex_);
  return''', '''bool PairLMDecoder::CheckCache(absl::string_view input_word) const {
  // The cache only ever grows: no lock needed if there is nothing in it.
  if (!add_to_cache_ && mix_overrides_.empty()) return false;
  if (!add_to_cache_) return global_word_transliteration_cache_.contains(
      input_word);
  absl::ReaderMutexLock lock(mutex_);
  return''')],
    needs='precomputed candidates without override, and the cache of decoded words switched off',
    breaks='precomputed candidates are ignored in that configuration, unlike with the cache switched on',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("cands.tsv", "ca\\tXX\\t0.1\\nca\\tYY\\t0.7\\n");
  std::string r[2];
  for (int cache = 0; cache < 2; ++cache) {
    PairLMDecoderOptions c;
    c.set_pairlm_file("pair.fst");
    c.set_translit_cands_file("cands.tsv");
    c.set_add_to_cache(cache);
    PairLMDecoder d(c);
    r[cache] = Decode(&d, "ca", 5);
  }
  return r[0] == r[1] ? 0 : 1;
}
'''))
BUGS['dec-check-unlocked']['property'] = 'P06'
BUGS['dec-cache-skip'] = BUGS.pop('dec-check-unlocked')

BUGS['dec-remix'] = dict(
    property='P06',
    edits=[(D, '''    mix_overrides_.emplace(input_word);
  }

  return word_transliterations;''', '''    // Words that came with precomputed candidates of their own are listed
    // there already.
    if (global_word_transliteration_cache_[input_word].size() <= k_best) {
      mix_overrides_.emplace(input_word);
    }
  }

  return word_transliterations;''')],
    needs='a word with precomputed candidates besides those of the model, so that it has more than k, requested twice',
    breaks='such a word is mixed again on every request: its scores drift with each repetition',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("cands.tsv", "ca\\tXX\\t0.1\\nca\\tYY\\t0.7\\n");
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_translit_cands_file("cands.tsv");
  PairLMDecoder d(c);
  const std::string want = Decode(&d, "ca", 2);
  for (int i = 0; i < 10; ++i)
    if (Decode(&d, "ca", 2) != want) return 1;
  return 0;
}
'''))

BUGS['dec-lm-optional'] = dict(
    property='P07',
    edits=[(D, '''    QCHECK(lm_fst_ != nullptr) << "Failed to read LM FST from "
                               << pairlm_config.lm_file();
''', '''    if (lm_fst_ == nullptr) {
      LOG(ERROR) << "Failed to read LM FST from " << pairlm_config.lm_file();
      return;
    }
''')],
    needs='a configured language model that cannot be read (missing, damaged or a device error)',
    breaks='the run goes on without the language model and reports success',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  const std::string lm = WordLM(Weights(9), {"CA", "KA", "CC", "CK"});
  Put("lm.fst", lm.substr(0, lm.size() / 2));
  Put("in.txt", "ca\\n");
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_lm_file("lm.fst");
  // Either an error or a loud end (status 134, see shim/absl/log/log.h).
  std::thread([&] {
    if (nisaba::translit::fst::RunPairLMDecoder(c, 1, 1, "in.txt", "o.txt").ok()) _Exit(1);
    _Exit(0);
  }).join();
}
'''))
BUGS['dec-lm-optional']['demo']['demo.sh'] = BUGS['dec-lm-optional']['demo']['demo.sh'].rstrip('\n') + \
    '; rc=$?\n[ $rc = 134 ] && exit 0\nexit $rc\n'

BUGS['wp-reload'] = dict(
    property='P14',
    edits=[(W, '''  wordpiece_ranks_.clear();
''', '''  if (!wp_symbols.empty()) wordpiece_ranks_.clear();
''')],
    needs='a model that is loaded again, with an empty vocabulary',
    breaks='the pieces of the previous vocabulary stay in use',
    demo=demo('''
int main() {
  Put("a.txt", "_\\nab\\na\\nb\\n_ab\\n");
  Put("b.txt", "\\n");
  nisaba::translit::fst::WordpieceSegmenter s("_"), f("_");
  if (!s.InitWordpieces(std::string("a.txt")).ok() || !s.InitWordpieces(std::string("b.txt")).ok()) return 2;
  if (!f.InitWordpieces(std::string("b.txt")).ok()) return 2;
  return s.TokenizeInput("ab ba").value() == f.TokenizeInput("ab ba").value() ? 0 : 1;
}
'''))

BUGS['wp-blank-end'] = dict(
    property='P14',
    edits=[(W, '''    if (!line_tokens.empty()) {
      wordpieces.push_back(line_tokens[0]);
    }
''', '''    if (line_tokens.empty() && infile.peek() == '\\n') {
      break;  // An empty paragraph ends the vocabulary.
    }
    if (!line_tokens.empty()) {
      wordpieces.push_back(line_tokens[0]);
    }
''')],
    needs='a vocabulary with two blank lines in a row followed by more pieces',
    breaks='the pieces after the blank lines are silently dropped',
    demo=demo('''
int main() {
  Put("a.txt", "_\\na\\nb\\n\\n\\nab\\n_ab\\n");
  nisaba::translit::fst::WordpieceSegmenter s("_"), f("_");
  if (!s.InitWordpieces(std::string("a.txt")).ok()) return 2;
  if (!f.InitWordpieces(std::vector<std::string>{"_", "a", "b", "ab", "_ab"}).ok()) return 2;
  return s.TokenizeInput("ab ba").value() == f.TokenizeInput("ab ba").value() ? 0 : 1;
}
'''))

BUGS['dec-cache-limit'] = dict(
    property='P06',
    edits=[(D, '''    absl::MutexLock lock(mutex_);
    const int curr_state = word_transliterations.Start();
''', '''    absl::MutexLock lock(mutex_);
    if (mix_overrides_.size() >= 512) {
      // Keeps the cache from growing without bounds.
      global_word_transliteration_cache_.clear();
      mix_overrides_.clear();
    }
    const int curr_state = word_transliterations.Start();
''')],
    needs='precomputed candidates, and more than 512 different words decoded before the word that has them',
    breaks='the precomputed candidates are thrown away together with the cached ones',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("cands.tsv", "ca\\tXX\\t0.1\\nca\\tYY\\t0.7\\n");
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_translit_cands_file("cands.tsv");
  c.set_max_parallel_tokens(1);
  PairLMDecoder d(c), e(c);
  const std::string want = Decode(&e, "ca", 2);
  std::string line;
  for (int i = 2; i < 1100; ++i) {
    for (int x = i; x; x >>= 1) line += "ab"[x & 1];
    line += ' ';
  }
  Decode(&d, line, 2);
  return Decode(&d, "ca", 2) == want ? 0 : 1;
}
'''))

BUGS['dec-seed-advance'] = dict(
    property='P06',
    edits=[(D, '''                                random_seed_);
  }''', '''                                random_seed_++);
  }''')],
    needs='sampling with a configured random seed, and an earlier request',
    breaks='the sample depends on how many requests came before',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_add_to_cache(false);
  c.set_max_parallel_tokens(1);
  c.set_sample_from_k_best(true);
  c.set_random_seed(7);
  PairLMDecoder d(c);
  const std::string want = Decode(&d, "cdcd dccd", 8);
  for (int i = 0; i < 50; ++i)
    if (Decode(&d, "cdcd dccd", 8) != want) return 1;
  return 0;
}
'''))

BUGS['dec-key-prefix'] = dict(
    property='P06',
    edits=[(D, '''  return global_word_transliteration_cache_.contains(input_word);''',
            '''  return global_word_transliteration_cache_.contains(CacheKey(input_word));'''),
           (D, '''global_word_transliteration_cache_.at(input_word);
  if (override != nullptr) *override = mix_overrides_.contains(input_word);''',
            '''global_word_transliteration_cache_.at(CacheKey(input_word));
  if (override != nullptr) {
    *override = mix_overrides_.contains(CacheKey(input_word));
  }'''),
           (D, '''      global_word_transliteration_cache_[input_word][fst_params.cand_syms.Find(
          arc.olabel)] = arc.weight.Value();
    }
    mix_overrides_.emplace(input_word);''',
            '''      global_word_transliteration_cache_[CacheKey(input_word)]
                                        [fst_params.cand_syms.Find(
                                            arc.olabel)] = arc.weight.Value();
    }
    mix_overrides_.emplace(CacheKey(input_word));'''),
           (D, '''        global_word_transliteration_cache_[input_cols[0]][input_cols[1]] = cost;

        if (pairlm_config.translit_cands_override()) {
          mix_overrides_.emplace(input_cols[0]);''',
            '''        const absl::string_view key = CacheKey(input_cols[0]);
        global_word_transliteration_cache_[key][input_cols[1]] = cost;

        if (pairlm_config.translit_cands_override()) {
          mix_overrides_.emplace(key);'''),
           (D, '''bool PairLMDecoder::CheckCache(''', '''namespace {

// Bounds the size of the keys of the cache.
absl::string_view CacheKey(absl::string_view word) {
  return word.substr(0, 32);
}

}  // namespace

bool PairLMDecoder::CheckCache(''')],
    needs='two different words that agree in their first 32 bytes, decoded one after the other',
    breaks='the second word gets the cached candidates of the first',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  PairLMDecoder d(c), e(c);
  const std::string p(40, 'a');
  const std::string want = Decode(&e, p + "b", 1);
  Decode(&d, p + "a", 1);
  return Decode(&d, p + "b", 1) == want ? 0 : 1;
}
'''))

BUGS['dec-slots'] = dict(
    property='P04',
    edits=[(D, '''  std::vector<StdVectorFst> translit_fsts(input_words.size());
''', '''  std::vector<StdVectorFst> translit_fsts(kMaxWordCands);
'''), (D, '''         translit_fsts[i] = TransliterateWord(input_words[i], word_k_best,
                                              fst_params);
''', '''         StdVectorFst &slot = translit_fsts[i % translit_fsts.size()];
         slot = TransliterateWord(input_words[i], word_k_best, fst_params);
'''), (D, '''    const auto &word_transliterations = translit_fsts[i];
''', '''    const auto &word_transliterations =
        translit_fsts[i % translit_fsts.size()];
''')],
    needs='a line of more than 100 words',
    breaks='words 101 and later overwrite the candidates of the first words, or race with them',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  PairLMDecoder d(c);
  std::string line = "b";
  for (int i = 0; i < 120; ++i) line += " a";
  return Decode(&d, line, 1).find("\\tB\\t") != std::string::npos ? 0 : 1;
}
'''))

BUGS['dec-cands-optional'] = dict(
    property='P07',
    edits=[(D, '''    QCHECK_OK(read_lines_status) << "Failed to read lines from "
                                 << pairlm_config.translit_cands_file();
''', '''    if (!read_lines_status.ok()) {
      LOG(ERROR) << "Failed to read lines from "
                 << pairlm_config.translit_cands_file();
      return;
    }
''')],
    needs='configured precomputed candidates that cannot be read',
    breaks='the run goes on without the precomputed candidates and reports success',
    demo=demo('''
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("in.txt", "ca\\n");
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  c.set_translit_cands_file("none/cands.tsv");
  std::thread([&] {
    if (nisaba::translit::fst::RunPairLMDecoder(c, 1, 1, "in.txt", "o.txt").ok()) _Exit(1);
    _Exit(0);
  }).join();
}
'''))
BUGS['dec-cands-optional']['demo']['demo.sh'] = BUGS['dec-lm-optional']['demo']['demo.sh']

BUGS['dec-close-unchecked'] = dict(
    property='P07',
    edits=[(R, '''  output_file.close();
  if (!output_file) {
    return absl::InternalError(absl::StrCat("Failed to write to ", ofile));
  }
''', '''  output_file.close();
''')],
    needs='an output that cannot be written any more when the rest of the buffer is flushed at the end (full disk)',
    breaks='the run reports success with the end of the output missing',
    demo=demo('''
#include <sys/resource.h>
#include <signal.h>
int main() {
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("in.txt", "ca cd\\nab\\n");
  PairLMDecoderOptions c;
  c.set_pairlm_file("pair.fst");
  // A "disk" with room for ten bytes.
  signal(SIGXFSZ, SIG_IGN);
  rlimit l{10, 10};
  if (setrlimit(RLIMIT_FSIZE, &l)) return 3;
  return nisaba::translit::fst::RunPairLMDecoder(c, 2, 1, "in.txt", "o.txt").ok() ? 1 : 0;
}
'''))

M = 'nisaba/translit/fst/pairlm_decoder_main.cc'
_MAIN = '''#define main decoder_main
#include "nisaba/translit/fst/pairlm_decoder_main.cc"
#undef main
#include <sys/wait.h>
#include <unistd.h>
static int Tool(std::vector<std::string> args) {
  const pid_t p = fork();
  if (!p) {
    args.insert(args.begin(), "tool");
    std::vector<char *> v;
    for (auto &a : args) v.push_back(&a[0]);
    v.push_back(nullptr);
    _exit(decoder_main(static_cast<int>(args.size()), v.data()));
  }
  int st;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
}
'''
BUGS['dec-config-optional'] = dict(
    property='P07',
    edits=[(M, '''    QCHECK_OK(status) << "Failed to read proto file from " << config_file;
    config_contents = status.value();
''', '''    if (status.ok()) {
      config_contents = status.value();
    } else {
      LOG(ERROR) << "Failed to read proto file from " << config_file;
    }
''')],
    needs='a configuration file that cannot be opened or read to its end',
    breaks='the decoder program runs without any of its models and ends with status 0',
    demo=demo(_MAIN + '''
int main() {
  Put("in.txt", "ca\\n");
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  Put("cfg", "pairlm_file: \\"pair.fst\\"");
  if (Tool({"--pairlm_config_file=cfg", "--ifile=in.txt", "--ofile=o1.txt"}) != 0 || Get("o1.txt").find("KA") + Get("o1.txt").find("CA") == 0) return 2;
  return Tool({"--pairlm_config_file=none", "--ifile=in.txt", "--ofile=o2.txt"}) == 0 ? 1 : 0;
}
'''))

BUGS['dec-exit-status'] = dict(
    property='P07',
    edits=[(M, '''      absl::GetFlag(FLAGS_ifile), absl::GetFlag(FLAGS_ofile)).ok();
''', '''      absl::GetFlag(FLAGS_ifile), absl::GetFlag(FLAGS_ofile)).code() !=
      absl::StatusCode::kNotFound;
''')],
    needs='an input that cannot be read to its end, or an output device that is full',
    breaks='the decoder program ends with status 0 although the output is missing or cut short',
    demo=demo(_MAIN + '''
int main() {
  Put("in.txt", "ca\\n");
  Put("pair.fst", PairLM(Weights(3), kNumPairs));
  const std::string c = "--pairlm_config=pairlm_file: \\"pair.fst\\"";
  if (Tool({c, "--ifile=in.txt", "--ofile=o1.txt"}) != 0) return 2;
  return Tool({c, "--ifile=in.txt", "--ofile=/dev/full"}) == 0 ? 1 : 0;
}
'''))

BUGS['wp-shared-memo'] = dict(
    property='P14',
    edits=[(W, '#include <fstream>\n', '#include <fstream>\n#include <map>\n'),
           (W, '''  std::vector<std::vector<std::pair<std::string, int>>> wordpiece_cands(
      input_chars.size());
''', '''  // Words come back often: keeps what was found for them.
  thread_local std::map<std::pair<const WordpieceSegmenter *, std::string>,
                        std::vector<std::vector<std::pair<std::string, int>>>>
      found;
  const auto known = found.find({this, input_word});
  if (known != found.end()) return known->second;
  std::vector<std::vector<std::pair<std::string, int>>> wordpiece_cands(
      input_chars.size());
'''), (W, '''  return wordpiece_cands;
}

absl::StatusOr<std::vector<std::string>>
WordpieceSegmenter::GetNo''', '''  return found[{this, input_word}] = wordpiece_cands;
}

absl::StatusOr<std::vector<std::string>>
WordpieceSegmenter::GetNo''')],
    needs='a model that is loaded again with other pieces and asked a word it was asked before',
    breaks='words that were asked before are still cut by the previous vocabulary',
    demo=demo('''
int main() {
  Put("a.txt", "_\\nab\\na\\nb\\n_ab\\n");
  Put("b.txt", "_\\na\\nb\\n");
  nisaba::translit::fst::WordpieceSegmenter s("_"), f("_");
  if (!s.InitWordpieces(std::string("a.txt")).ok()) return 2;
  s.TokenizeInput("ab").value();
  if (!s.InitWordpieces(std::string("b.txt")).ok() || !f.InitWordpieces(std::string("b.txt")).ok()) return 2;
  return s.TokenizeInput("ab").value() == f.TokenizeInput("ab").value() ? 0 : 1;
}
'''))
