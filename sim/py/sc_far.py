"""Script grammars loaded from archives: P17, P18."""
import ctypes
import string

import pynini

import pysim
from nisaba.scripts import abjad_alphabet as abjad
from nisaba.scripts import brahmic
from nisaba.scripts.abjad_alphabet import util as abjad_util
from nisaba.scripts.brahmic import util as brahmic_util
from nisaba.scripts.utils import far
from nisaba.scripts.utils import file as uf

RT = None
SCENARIOS, JOBS, NEED_HELPERS = {}, {}, set()
ROOT = '/sim/rf/'
B = 'com_google_nisaba/nisaba/scripts/brahmic/'
A = 'com_google_nisaba/nisaba/scripts/abjad_alphabet/'


class Rewriter:
  """Replaces characters; characters outside stay (rewrite) or are refused (strict)."""

  def __init__(self, table, strict=''):
    self.table, self.strict = table, strict

  def fst(self):
    m = pynini.string_map([(k, v) for k, v in sorted(self.table.items())])
    rest = [c for c in (self.strict or UNIVERSE) if c not in self.table]
    same = pynini.union(*[pynini.escape(c) for c in rest])
    return pynini.union(m, same).optimize().star.optimize()

  def apply(self, text):
    out = []
    for c in text:
      if c in self.table:
        out.append(self.table[c])
      elif not self.strict or c in self.strict:
        out.append(c)
      else:
        return None
    return ''.join(out)


class Acceptor:

  def __init__(self, letters):
    self.letters = letters

  def fst(self):
    return pynini.union(*[pynini.escape(c) for c in self.letters]).star.optimize()

  def accepts(self, text):
    return all(c in self.letters for c in text)


SCRIPTS = {'Deva': 'कखगघ', 'Beng': 'কখগঘ', 'Mlym': 'കഖഗഘ', 'Taml': 'கஙசஞ'}
ARAB = 'ابتثپ'
JOIN = '\u200c\u200d'
UNIVERSE = ''.join(SCRIPTS.values()) + ARAB + '\u200c\u200d[]\\é𑀓-' + string.ascii_letters + string.digits + string.whitespace
UNKNOWN = ['Zzzz', 'Latn', 'deva ', '', 'Dev', 'Telu']
_norm = {}
for s_, l_ in SCRIPTS.items():
  # Visual normalisation: the third letter becomes the second, joiners go away.
  _norm[s_.upper()] = Rewriter({l_[2]: l_[1], JOIN[0]: '', JOIN[1]: ''})
# Names that the archives of the other family use too.
_norm['UR'] = Rewriter({'a': 'b', 'x': 'yy'})
_norm['BN'] = Rewriter({SCRIPTS['Beng'][3]: SCRIPTS['Beng'][0], JOIN[0]: ''})
ALL = ''.join(SCRIPTS.values())
ARCHIVES = {
    B + 'iso.far': dict(
        [('FROM_BRAHMIC', Rewriter({c: 'kgcj'[i % 4] + str(i // 4) for i, c in enumerate(ALL)}))] +
        [('FROM_' + s.upper(), Rewriter({c: 'kgcj'[i] + 'a' for i, c in enumerate(l)})) for s, l in SCRIPTS.items()] +
        [('TO_' + s.upper(), Rewriter({'kgcj'[i]: c for i, c in enumerate(l)}, strict='xyz ')) for s, l in SCRIPTS.items()]),
    B + 'nfc.far': dict([('ARAB', Rewriter({'x': 'z', ARAB[1]: ''}))] +
                        [('BRAHMIC', Rewriter({c: ALL[(i + 4) % len(ALL)] for i, c in enumerate(ALL)}))] +
                        [(s.upper(), Rewriter({l[0]: l[3]})) for s, l in SCRIPTS.items()]),
    B + 'visual_norm.far': _norm,
    B + 'wellformed.far': {s.upper(): Acceptor(l + 'x') for s, l in SCRIPTS.items()},
    A + 'reversible_roman.far': {'FROM_ARAB': Rewriter({c: 'abtxp'[i] for i, c in enumerate(ARAB)}, strict='-'),
                                 'TO_ARAB': Rewriter({'abtxp'[i]: c for i, c in enumerate(ARAB)}, strict='- ')},
    A + 'nfc.far': {'ARAB': Rewriter({ARAB[0]: ARAB[1] + ARAB[1]}), 'BRAHMIC': Rewriter({ALL[0]: 'q'})},
    A + 'visual_norm.far': {'UR': Rewriter({ARAB[1]: ARAB[2]}), 'AR': Rewriter({ARAB[1]: ARAB[3]}),
                            'FA': Rewriter({ARAB[2]: 'f'}), 'DEVA': Rewriter({ALL[1]: 'q', 'a': ''})},
    A + 'reading_norm.far': {'UR': Rewriter({ARAB[4]: 'u'}), 'AR': Rewriter({ARAB[4]: 'r'}), 'SD': Rewriter({ARAB[0]: ''})},
}
LANGS = ['ur', 'ar', 'fa', 'sd', 'zz', 'UR', 'Ur', '', 'deva']
# The reading of FROM_ARAB in ToReversibleRoman goes through a rewrite: other characters pass.
_TO_ROMAN = Rewriter({c: 'abtxp'[i] for i, c in enumerate(ARAB)})
BYTES = {}


def setup():
  for path, rules in ARCHIVES.items():
    w = pynini.Far(ROOT + path, 'w')
    for name in sorted(rules):
      w.add(name, rules[name].fst())
    del w
    n = pysim.fs.simfs_size((ROOT + path).encode())
    BYTES[path] = ctypes.string_at(pysim.fs.simfs_data((ROOT + path).encode()), n)
    pysim.fs.simfs_remove((ROOT + path).encode())
    assert n > 100, path
    for rule in rules.values():
      # One buffer must hold a whole rule: OpenFst crashes if a read fails inside one.
      assert len(rule.fst().write_to_string()) < 7000, path


# ---------------------------------------------------------------------------
# Calls and what they must return
# ---------------------------------------------------------------------------
class Err:
  """An expected exception (by class; None: any)."""

  def __init__(self, *classes):
    self.classes = classes

  def __repr__(self):
    return 'error %s' % '/'.join(c.__name__ for c in self.classes)


def text_of(rt, letters, max_len=6, odd=True):
  if rt.chance(1, 12):
    max_len = 60
  n = rt.w(max_len + 1)
  extra = 'xk ' + JOIN + ('[]\\é𑀓' if odd else 'é𑀓') + 'gb-'
  out = []
  for _ in range(n):
    c = rt.w(4)
    out.append(extra[rt.w(len(extra))] if c == 3 else letters[rt.w(len(letters))])
  return ''.join(out)


def case(rt, s):
  return [s, s.upper(), s.lower(), s.capitalize()][rt.w(4)]


def some_script(rt):
  if rt.chance(1, 6):
    return rt.pick(UNKNOWN)
  return case(rt, rt.pick(sorted(SCRIPTS)))


def _apply(rules, name, text):
  r = rules.get(name)
  if r is None:
    return Err(KeyError)
  if isinstance(r, Acceptor):
    return text if r.accepts(text) else Err(far.FstInputError)
  v = r.apply(text)
  return Err(far.FstInputError) if v is None else v


def words(line, ignore, fn):
  """The line with fn applied to every word, or the first error."""
  out, word = [], []
  for c in line + '\0':
    if c != '\0' and c not in ignore:
      word.append(c)
      continue
    if word:
      v = fn(''.join(word))
      if isinstance(v, Err):
        return v
      out.append(v)
      word = []
    if c != '\0':
      out.append(c)
  return ''.join(out)


def keep(shared, key, make):
  """The object of a run that all threads use, made by the first that needs it."""
  obj = shared.get(key)
  if obj is None:
    obj = shared.setdefault(key, make())
  return obj


def make_call(rt, shared):
  """Draws a call: (label, function, expected)."""
  if rt.chance(1, 5):
    return kept_call(rt, shared)
  k = rt.w(14)
  if k == 13:
    # A grammar of one's own, used once.
    x, y, n = rt.pick('abc'), rt.pick('xyz'), rt.w(4)
    return ('own %s:%s %d' % (x, y, n),
            lambda: far.Far.FstWrapper(pynini.cross(x, y).star.optimize()).ApplyOnText(x * n), y * n)
  if k == 0:
    t = text_of(rt, ALL)
    return 'ToIso %r' % t, lambda: brahmic.ToIso().ApplyOnText(t), _apply(ARCHIVES[B + 'iso.far'], 'FROM_BRAHMIC', t)
  if k == 1:
    s, t = some_script(rt), text_of(rt, 'kgcjxyz', odd=False)
    return 'IsoTo %s %r' % (s, t), lambda: brahmic.IsoTo(s).ApplyOnText(t), _apply(ARCHIVES[B + 'iso.far'], 'TO_' + s.upper(), t)
  if k == 2:
    t = text_of(rt, ALL)
    return 'Nfc %r' % t, lambda: brahmic.Nfc().ApplyOnText(t), _apply(ARCHIVES[B + 'nfc.far'], 'BRAHMIC', t)
  if k == 3:
    s = rt.pick(['bn', 'BN', 'hi', 'ur']) if rt.chance(1, 4) else some_script(rt)
    t = text_of(rt, ALL)
    return 'VisualNorm %s %r' % (s, t), lambda: brahmic.VisualNorm(s).ApplyOnText(t), _apply(_norm, s.upper(), t)
  if k == 4:
    s = some_script(rt)
    t = text_of(rt, SCRIPTS.get(s.capitalize(), ALL) + 'x', odd=False)
    r = ARCHIVES[B + 'wellformed.far'].get(s.upper())
    return 'WellFormed %s %r' % (s, t), lambda: brahmic.WellFormed(s).AcceptText(t), Err(KeyError) if r is None else r.accepts(t)
  if k in (5, 6):
    s = some_script(rt)
    t = text_of(rt, SCRIPTS.get(s.capitalize(), ALL), 14, odd=False)
    ign = rt.pick([string.whitespace, 'x ', 'g\t'])
    n, a = _norm.get(s.upper()), ARCHIVES[B + 'wellformed.far'].get(s.upper())

    def one(w):
      v = n.apply(w)
      return v if a.accepts(v) else Err(brahmic.IllFormedError)

    if n is None or a is None:
      exp = Err(brahmic.ScriptError)
    elif k == 5:
      exp = words(t, ign, one)
    else:
      exp = one(t)
    if k == 5:
      return 'NormalizingAcceptor(%s, %r) %r' % (s, ign, t), lambda: brahmic.NormalizingAcceptor(s, ign).ApplyOnText(t), exp
    return 'NormalizingAcceptor(%s).word %r' % (s, t), lambda: brahmic.NormalizingAcceptor(s).ApplyOnWord(t), exp
  if k == 7:
    t = text_of(rt, ARAB, odd=False)
    return 'ToReversibleRoman %r' % t, lambda: abjad.ToReversibleRoman().ApplyOnText(t), _TO_ROMAN.apply(t)
  if k == 8:
    t = text_of(rt, 'abtxp', odd=False)
    return ('FromReversibleRoman %r' % t, lambda: abjad.FromReversibleRoman().ApplyOnText(t),
            _apply(ARCHIVES[A + 'reversible_roman.far'], 'TO_ARAB', t))
  if k == 9:
    l, t, which = rt.pick(LANGS), text_of(rt, ARAB), rt.w(3)
    if which == 0:
      return 'abjad.Nfc %r' % t, lambda: abjad.Nfc().ApplyOnText(t), _apply(ARCHIVES[A + 'nfc.far'], 'ARAB', t)
    if which == 1:
      return ('abjad.VisualNorm %s %r' % (l, t), lambda: abjad.VisualNorm(l).ApplyOnText(t),
              _apply(ARCHIVES[A + 'visual_norm.far'], l.upper(), t))
    return ('ReadingNorm %s %r' % (l, t), lambda: abjad.ReadingNorm(l).ApplyOnText(t),
            _apply(ARCHIVES[A + 'reading_norm.far'], l.upper(), t))
  if k == 10:
    l, t = rt.pick(LANGS), text_of(rt, ARAB, 14)
    ign = rt.pick([string.whitespace, 'x '])
    n, v = ARCHIVES[A + 'nfc.far']['ARAB'], ARCHIVES[A + 'visual_norm.far'].get(l.upper())
    exp = Err(abjad.TagError) if v is None else words(t, ign, lambda w: v.apply(n.apply(w)))
    return 'Normalizer(%s, %r) %r' % (l, ign, t), lambda: abjad.Normalizer(l, ign).ApplyOnText(t), exp
  # A Far object of one's own, shared by all threads of the run or used once.
  path = rt.pick(sorted(ARCHIVES))
  rule = rt.pick(sorted(ARCHIVES[path])) if not rt.chance(1, 6) else rt.pick(['NONE', '', 'ARA'])
  t = text_of(rt, ALL if path.startswith(B) else ARAB, odd=True)
  exp = _apply(ARCHIVES[path], rule, t)
  if k == 11:
    if path not in shared:
      shared[path] = far.Far(brahmic_util.pathlib.Path(path))
    f = shared[path]
    return 'shared Far %s %s %r' % (path[-20:], rule, t), lambda: f.Fst(rule).ApplyOnText(t), exp
  d, name = path.rsplit('/', 1)
  lower = rule.lower()

  def opened():
    m = brahmic_util if path.startswith(B) else abjad_util
    if m is brahmic_util:
      f = m.OpenFstFromBrahmicFar(name[:-4], lower, 'byte')
    else:
      f = m.open_fst_from_far(name[:-4], lower, 'byte')
    return far.Far.FstWrapper(f).ApplyOnText(t)

  return 'OpenFst %s %s %r' % (name, rule, t), opened, exp


def kept_call(rt, shared):
  """A call on an object that other calls and threads use as well."""
  k = rt.w(5)
  if k == 4:
    # Not an acceptor: this warns, and answers for its input side.
    s, t = rt.pick(['Taml', 'Beng']), text_of(rt, 'kgcjxyz', odd=False)
    fst = lambda: keep(shared, ('iso', s), lambda: brahmic.IsoTo(s)) if n else brahmic.IsoTo(s)
    n = rt.w(2)
    return ('IsoTo %s accepts %r' % (s, t), lambda: fst().AcceptText(t),
            not isinstance(_apply(ARCHIVES[B + 'iso.far'], 'TO_' + s.upper(), t), Err))
  if k == 0:
    s = rt.pick(['Deva', 'mlym'])
    n, a = _norm[s.upper()], ARCHIVES[B + 'wellformed.far'][s.upper()]

    def one(w):
      v = n.apply(w)
      return v if a.accepts(v) else Err(brahmic.IllFormedError)

    t = text_of(rt, SCRIPTS[s.capitalize()], 10, odd=False)
    acc = lambda: keep(shared, ('acceptor', s), lambda: brahmic.NormalizingAcceptor(s))
    if rt.w(2):
      return 'kept acceptor %s word %r' % (s, t), lambda: acc().ApplyOnWord(t), one(t)
    return 'kept acceptor %s %r' % (s, t), lambda: acc().ApplyOnText(t), words(t, string.whitespace, one)
  if k == 1:
    l = rt.pick(['ur', 'ar', 'fa'])
    n, v = ARCHIVES[A + 'nfc.far']['ARAB'], ARCHIVES[A + 'visual_norm.far'][l.upper()]
    t = text_of(rt, ARAB, 10)
    nor = lambda: keep(shared, ('normalizer', l), lambda: abjad.Normalizer(l))
    if rt.w(2):
      return 'kept normalizer %s word %r' % (l, t), lambda: nor().ApplyOnWord(t), v.apply(n.apply(t))
    return ('kept normalizer %s %r' % (l, t), lambda: nor().ApplyOnText(t),
            words(t, string.whitespace, lambda w: v.apply(n.apply(w))))
  if k == 2:
    s, t = rt.pick(['Taml', 'Beng']), text_of(rt, 'kgcjxyz', odd=False)
    return ('kept IsoTo %s %r' % (s, t), lambda: keep(shared, ('iso', s), lambda: brahmic.IsoTo(s)).ApplyOnText(t),
            _apply(ARCHIVES[B + 'iso.far'], 'TO_' + s.upper(), t))
  s = rt.pick(['Taml', 'Beng'])
  t = text_of(rt, SCRIPTS[s] + 'x', odd=False)
  return ('kept WellFormed %s %r' % (s, t), lambda: keep(shared, ('wf', s), lambda: brahmic.WellFormed(s)).AcceptText(t),
          ARCHIVES[B + 'wellformed.far'][s.upper()].accepts(t))


def outcome(fn):
  try:
    return fn()
  except Exception as e:  # pylint: disable=broad-except
    return e


def judge(rt, label, got, exp, may_fail=False):
  rt.event(label, type(got).__name__ if isinstance(got, Exception) else got)
  rt.say('%s -> %r (expected %r)', label, got, exp)
  if isinstance(got, Exception):
    if isinstance(exp, Err) and any(isinstance(got, c) for c in exp.classes):
      return
    if may_fail:
      rt.probe('errors')
      return
    rt.fail('unexpected-error', '%s raised %s: %s, expected %r', label, type(got).__name__, str(got)[:200], exp)
  if isinstance(exp, Err):
    rt.fail('wrong-result', '%s returned %r, expected %r', label, got, exp)
  if got != exp or type(got) is not type(exp):
    rt.fail('wrong-result', '%s returned %r, expected %r', label, got, exp)


def put_all(rt):
  for p, d in BYTES.items():
    rt.put(ROOT + p, d)


def far_concurrent(rt):
  put_all(rt)
  shared = {}
  nthreads = 1 + rt.w(4)
  plans = []
  kinds = None
  for _ in range(nthreads):
    plan = []
    for _ in range(1 + rt.w(4)):
      if kinds and rt.chance(1, 2):
        plan.append(rt.pick(kinds))  # the same call from several threads
      else:
        plan.append(make_call(rt, shared))
    kinds = (kinds or []) + plan
    plans.append(plan)

  def body(plan):

    def f():
      for label, fn, exp in plan:
        judge(rt, label, outcome(fn), exp)

    return f

  rt.nontrivial = nthreads > 1 or len(plans[0]) > 1
  rt.run_all([body(p) for p in plans])
  # Afterwards, alone, in another order: nothing may have changed.
  rt.active = False
  for label, fn, exp in reversed(sum(plans, [])):
    judge(rt, label, outcome(fn), exp)
  rt.check(pysim.fs.simfs_open_files() < 200, 'leak', 'files stay open')


def far_heal(rt):
  put_all(rt)
  shared = {}
  calls = [make_call(rt, shared) for _ in range(1 + rt.w(4))]
  rt.nontrivial = True
  nthreads = 1 + (rt.w(3) if rt.chance(1, 3) else 0)
  damage = []
  for _ in range(1 + rt.w(3)):  # rounds of trouble and healing
    kind = rt.w(5)
    damaged = None
    mask = pysim.OPEN_FAIL | rt.pick([pysim.READ_EIO, pysim.READ_SHORT | pysim.READ_EINTR])
    if kind == 4:
      # An archive that is missing or was cut off, and is put back later.
      damaged = rt.pick(sorted(BYTES))
      how = rt.w(3)
      if how == 0:
        rt.remove(ROOT + damaged)
      elif how == 1:
        # Not cut in the middle: OpenFst itself crashes on most such archives.
        rt.put(ROOT + damaged, rt.pick([BYTES[damaged][:3], b'<html>not found</html>', b'version https://git-lfs', b'\0' * 64]))
      else:
        rt.put(ROOT + damaged, b'')
      rt.say('%s damaged (%d)', damaged, how)
      mask = 0
    rt.faults(mask)
    plan = [rt.pick(calls) for _ in range(1 + rt.w(4))]

    def body(part):

      def f():
        for label, fn, exp in part:
          before = rt.fired() - rt.fired(pysim.BENIGN)
          got = outcome(fn)
          after = rt.fired() - rt.fired(pysim.BENIGN)
          judge(rt, label, got, exp, may_fail=after > before or damaged is not None)

      return f

    if nthreads == 1:
      body(plan)()
    else:
      rt.active = True
      rt.run_all([body(plan[i::nthreads]) for i in range(nthreads)])
      rt.active = False
    rt.faults(0)
    if damaged:
      rt.put(ROOT + damaged, BYTES[damaged])
    # Healthy again: everything must work now.
    for label, fn, exp in calls:
      judge(rt, 'after recovery: ' + label, outcome(fn), exp)


SCENARIOS.update(py_far_concurrent=far_concurrent, py_far_heal=far_heal)
