"""Planted bugs in the grammar libraries (thrax managers, rewriting, Brahmic)."""
import os

KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kit')


def kit():
  out = {}
  for d, _, fs in os.walk(os.path.join(KIT, 'shim')):
    for f in fs:
      p = os.path.join(d, f)
      out[os.path.relpath(p, KIT)] = open(p).read()
  out['grm_demo.h'] = open(os.path.join(KIT, 'grm_demo.h')).read()
  return out


T = 'nisaba/interim/grm2/thrax/'
R = 'nisaba/interim/grm2/rewrite/'
B = 'nisaba/scripts/brahmic/'
SRCS = [B + 'grammar', B + 'far', 'nisaba/scripts/utils/far_base', T + 'rewrite-tester', T + 'walker/util/function/symbols', 'nisaba/port/file_util']


def demo(main, tsan=False, srcs=()):
  san = '-g1 -fsanitize=thread' if tsan else ''
  sh = '''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
F="-std=c++17 -O0 %s -w -include $here/shim/prefix.h -I$here/shim -I$here -I$PWD -I/usr/include/utf8cpp"
pids=
for s in %s "$here/demo"; do
  g++ $F -c "$s.cc" -o "$t/$(basename $s).o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ %s -o "$t/demo" "$t"/*.o -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a) -Wl,--end-group -lfst -lfstfar -lprotobuf -lpthread -ldl || exit 3
mkdir "$t/run" && cd "$t/run" && TSAN_OPTIONS=exitcode=66 timeout 100 "$t/demo"
''' % (san, ' '.join(srcs), '-fsanitize=thread' if tsan else '')
  return dict(kit(), **{'demo.sh': sh, 'demo.cc': '#include "grm_demo.h"\n' + main})


BUGS = {}

BUGS['grm-lang-missing'] = dict(
    property='P15',
    edits=[(B + 'grammar.cc', '''    fst_name_ = absl::AsciiStrToUpper(entry->second);
    if (grm_mgr_->GetFstMap()->count(fst_name_) == 0) {''', '''    fst_name_ = absl::AsciiStrToUpper(entry->second);
    if (grm_mgr_->GetFstMap()->empty()) {''')],
    needs='a language code whose script is not in the archive',
    breaks='loading succeeds although the grammar is not there',
    demo=demo('''
int main() {
  Save("r/com_google_nisaba/nisaba/scripts/brahmic/visual_norm.far", {{"BENG", Map("ab", "xy")}});
  Runfiles("r");
  nisaba::brahmic::Grammar bn("visual_norm", "bn"), hi("visual_norm", "hi");
  if (!bn.Load().ok()) return 2;
  return hi.Load().ok() ? 1 : 0;
}
''', srcs=[B + 'grammar', 'nisaba/port/file_util']))

BUGS['grm-reload-skipped'] = dict(
    property='P15',
    edits=[(B + 'grammar.cc', '''  RETURN_IF_ERROR(LoadArchive(far_file_path_, *grm_mgr_));
  RETURN_IF_ERROR(VerifyLoad());''', '''  // Nothing to read if the grammar is there already.
  if (!VerifyLoad().ok()) {
    RETURN_IF_ERROR(LoadArchive(far_file_path_, *grm_mgr_));
    RETURN_IF_ERROR(VerifyLoad());
  }''')],
    needs='a second load of one object after the archive changed or broke',
    breaks='the second load reports success without reading the archive: its grammars are the old ones',
    demo=demo('''
int main() {
  const std::string p = "r/com_google_nisaba/nisaba/scripts/brahmic/visual_norm.far";
  Save(p, {{"DEVA", Map("ab", "xy")}});
  Runfiles("r");
  nisaba::brahmic::Grammar g("visual_norm", "Deva");
  if (!g.Load().ok()) return 2;
  Save(p, {{"DEVA", Map("ab", "zz")}});
  std::string o;
  return g.Load().ok() && g.Rewrite("ab", &o).ok() && o == "zz" ? 0 : 1;
}
''', srcs=[B + 'grammar', 'nisaba/port/file_util']))

BUGS['grm-stale-symbols'] = dict(
    property='P15',
    edits=[(R + 'rewrite_manager.h', '''  map_.clear();
  gensyms_.reset();''', '''  map_.clear();''')],
    needs='an archive with generated symbols, then another one without',
    breaks='the second archive is used with the generated symbols of the first',
    demo=demo('''
int main() {
  StdVectorFst s;
  s.SetStart(s.AddState());
  fst::SymbolTable t("generated");
  t.AddSymbol("<epsilon>", 0);
  s.SetInputSymbols(&t);
  Save("a.far", {{"*StringFstSymbolTable", s}, {"R", Map("ab", "xy")}});
  Save("b.far", {{"R", Map("ab", "xy")}});
  rewrite::StdRuleCascade c;
  if (!c.Load("a.far") || !c.GeneratedSymbols()) return 2;
  if (!c.Load("b.far")) return 2;
  return c.GeneratedSymbols() ? 1 : 0;
}
'''))

BUGS['grm-stale-rules'] = dict(
    property='P15',
    edits=[(R + 'rewrite_manager.h', '''bool RewriteManager<Arc>::Load(const std::string &filename) {
  Reset();''', '''bool RewriteManager<Arc>::Load(const std::string &filename) {
  gensyms_.reset();''')],
    needs='a second load of an archive with other rules',
    breaks='rules of the archive loaded before stay in use',
    demo=demo('''
int main() {
  Save("a.far", {{"OLD", Map("ab", "xy")}, {"R", Map("ab", "xy")}});
  Save("b.far", {{"R", Map("ab", "zz")}});
  rewrite::StdRuleCascade c;
  if (!c.Load("a.far") || !c.SetRules({"OLD"})) return 2;
  if (!c.Load("b.far") || !c.SetRules({"R"})) return 2;
  return c.SetRules({"OLD"}) ? 1 : 0;
}
'''))

BUGS['grm-static-input'] = dict(
    property='P16',
    edits=[(T + 'abstract-grm-manager.h', '''  MutableTransducer str_fst;
  if (!compiler(input, &str_fst)) return false;
  return RewriteBytes(rule''', '''  static MutableTransducer str_fst;  // Reused: saves an allocation per call.
  if (!compiler(input, &str_fst)) return false;
  return RewriteBytes(rule''')],
    needs='two threads rewriting at the same time',
    breaks='concurrent callers rewrite each other\'s input',
    demo=demo('''
int main() {
  Save("r.far", {{"R", Map("ab", "xy")}});
  thrax::GrmManager m;
  if (!m.LoadArchive("r.far")) return 2;
  bool ok[2] = {true, true};
  std::thread t[2];
  for (int i = 0; i < 2; ++i) t[i] = std::thread([&, i] {
    const std::string in(i ? 3 : 9, i ? 'a' : 'b'), want(i ? 3 : 9, i ? 'x' : 'y');
    for (int n = 0; n < 400; ++n) {
      std::string o;
      ok[i] &= m.RewriteBytes("R", in, &o) && o == want;
    }
  });
  for (auto &x : t) x.join();
  return ok[0] && ok[1] ? 0 : 1;
}
'''))

BUGS['grm-parens-once'] = dict(
    property='P16',
    edits=[(T + 'abstract-grm-manager.h', '''    std::vector<std::pair<Label, Label>> pdt_parens;
    ::rewrite::MakeParenthesesVector(mut_pdt_parens_fst, &pdt_parens);''', '''    // The parentheses are read once.
    static const std::vector<std::pair<Label, Label>> pdt_parens = [&] {
      std::vector<std::pair<Label, Label>> parens;
      ::rewrite::MakeParenthesesVector(mut_pdt_parens_fst, &parens);
      return parens;
    }();''')],
    needs='two grammars with different parentheses in one process',
    breaks='the second grammar is applied with the parentheses of the first',
    demo=demo('''
static StdVectorFst Pdt(int open, int close) {
  StdVectorFst f;
  for (int i = 0; i < 4; ++i) f.AddState();
  f.SetStart(0);
  f.AddArc(0, StdArc('a', 'b', 0, 1)); f.AddArc(1, StdArc(open, open, 0, 0)); f.AddArc(0, StdArc(0, 0, 0, 2));
  f.AddArc(2, StdArc(close, close, 0, 3)); f.AddArc(3, StdArc('c', 'd', 0, 2));
  f.SetFinal(2, StdArc::Weight::One());
  return f;
}
static StdVectorFst Parens(int open, int close) {
  StdVectorFst f;
  f.AddState();
  f.SetStart(0);
  f.SetFinal(0, StdArc::Weight::One());
  f.AddArc(0, StdArc(open, close, 0, 0));
  return f;
}
int main() {
  Save("r.far", {{"P1", Parens(1000, 1001)}, {"P2", Parens(2000, 2001)}, {"R1", Pdt(1000, 1001)}, {"R2", Pdt(2000, 2001)}});
  thrax::GrmManager m;
  if (!m.LoadArchive("r.far")) return 2;
  std::string o;
  if (!m.RewriteBytes("R1", "aacc", &o, "P1") || o != "bbdd") return 2;
  return m.RewriteBytes("R2", "aacc", &o, "P2") && o == "bbdd" ? 0 : 1;
}
'''))

BUGS['grm-reading-temp'] = dict(
    property='P16',
    edits=[(B + 'grammar.cc', '''  std::string temp;
  RETURN_IF_ERROR(visual_norm_.Rewrite(input, &temp));''', '''  static std::string temp;
  temp.reserve(2 * input.size());
  RETURN_IF_ERROR(visual_norm_.Rewrite(input, &temp));''')],
    needs='two threads normalising at the same time',
    breaks='concurrent callers overwrite each other\'s intermediate text',
    demo=demo('''
int main() {
  for (const char *n : {"visual_norm", "reading_norm"})
    Save(std::string("r/com_google_nisaba/nisaba/scripts/brahmic/") + n + ".far", {{"DEVA", Map("ab", "ba")}});
  Runfiles("r");
  nisaba::brahmic::ReadingNorm g("Deva");
  if (!g.Load().ok()) return 2;
  std::thread t[2];
  for (int i = 0; i < 2; ++i) t[i] = std::thread([&, i] {
    for (int n = 0; n < 200; ++n) {
      std::string o;
      const std::string in(30 + i, i ? 'a' : 'b');
      if (!g.Rewrite(in, &o).ok() || o != in) _exit(1);
    }
  });
  for (auto &x : t) x.join();
  return 0;
}
''', tsan=True, srcs=[B + 'grammar', 'nisaba/port/file_util']))

BUGS['grm-tester-stream'] = dict(
    property='P16',
    edits=[(T + 'rewrite-tester.cc', '''  std::ostringstream sstrm;
  // Set symbols''', '''  static std::ostringstream sstrm;
  sstrm.str("");
  // Set symbols''')],
    needs='two threads using one tester, both with outputs at the same time',
    breaks='the outputs of concurrent callers are mixed',
    demo=demo('''
ABSL_DECLARE_FLAG(std::string, far);
ABSL_DECLARE_FLAG(std::string, rules);
int main() {
  Save("r.far", {{"R", Map("ab", "xy")}});
  absl::SetFlag(&FLAGS_far, "r.far");
  absl::SetFlag(&FLAGS_rules, "R");
  thrax::RewriteTester r;
  r.Initialize();
  std::thread t[2];
  for (int i = 0; i < 2; ++i) t[i] = std::thread([&, i] {
    for (int n = 0; n < 200; ++n)
      if (r.ProcessInput(i ? "aaa" : "bb") != (i ? "Output string: xxx\\n" : "Output string: yy\\n")) _exit(1);
  });
  for (auto &x : t) x.join();
  return 0;
}
''', tsan=True, srcs=[T + 'rewrite-tester', T + 'walker/util/function/symbols']))

BUGS['sym-copy-on-add'] = dict(
    property='P23',
    edits=[(T + 'walker/util/function/symbols.cc', '''  byte_symbols_->AddSymbol(symbol, label);''', '''  // Never change a table that others may be reading.
  auto symbols = std::make_unique<::fst::SymbolTable>(*byte_symbols_);
  symbols->AddSymbol(symbol, label);
  byte_symbols_ = std::move(symbols);''')],
    needs='a table handed out before a symbol is added',
    breaks='adding a symbol frees the table others still hold',
    demo=demo('''
int main() {
  const auto *t = thrax::function::GetByteSymbolTable();
  thrax::function::AddToByteSymbolTable("left", 300);
  return thrax::function::GetByteSymbolTable() == t ? 0 : 1;
}
''', srcs=[T + 'walker/util/function/symbols']))

BUGS['sym-regenerate'] = dict(
    property='P23',
    edits=[(T + 'walker/util/function/symbols.cc', '''  if (!byte_symbols_) GenerateByteSymbolTable();''', '''  // A table that is not complete is made anew.
  if (!byte_symbols_ || byte_symbols_->AvailableKey() != 256) {
    GenerateByteSymbolTable();
  }''')],
    needs='a request for the table after a symbol was added',
    breaks='added symbols are lost and the table handed out before is freed',
    demo=demo('''
int main() {
  const auto *t = thrax::function::GetByteSymbolTable();
  thrax::function::AddToByteSymbolTable("left", 300);
  return thrax::function::GetByteSymbolTable()->Find("left") == 300 ? 0 : 1;
}
''', srcs=[T + 'walker/util/function/symbols']))

BUGS['sym-utf8-once'] = dict(
    property='P23',
    edits=[(T + 'walker/util/function/symbols.cc', '''  if (!utf8_symbols_) return;
  utf8_symbols_->AddSymbol(symbol, label);''', '''  if (!utf8_symbols_ || utf8_symbols_->AvailableKey() > label) return;
  utf8_symbols_->AddSymbol(symbol, label);''')],
    needs='symbols added to the UTF-8 table in an order other than that of their numbers',
    breaks='a symbol with a smaller number than one added before is dropped',
    demo=demo('''
int main() {
  const auto *t = thrax::function::GetUtf8SymbolTable();
  thrax::function::AddToUtf8SymbolTable("right", 0x110002);
  thrax::function::AddToUtf8SymbolTable("left", 0x110001);
  return t->Find("left") == 0x110001 ? 0 : 1;
}
''', srcs=[T + 'walker/util/function/symbols']))
