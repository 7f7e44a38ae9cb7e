"""Whole grammar programs on small generated script data: P20, P21, P22."""
import pathlib

import pynini

import pysim
import sc_data
import scenarios
from pysim import BENIGN, OPEN_FAIL, READ_EINTR, READ_EIO, READ_SHORT, STAT_FAIL
from nisaba.scripts.abjad_alphabet import util as au
from nisaba.scripts.brahmic import util as bu
from sc_data import by_rules

RT = None
SCENARIOS, JOBS, NEED_HELPERS = {}, {}, set()
ROOT = '/sim/rf/'
BRAHMIC = 'com_google_nisaba/nisaba/scripts/brahmic/'
ABJAD = 'com_google_nisaba/nisaba/scripts/abjad_alphabet/'
BDATA, ADATA = BRAHMIC + 'data/', ABJAD + 'data/Arab/'
SIGMA = 'abcdefghkmigATzrRsSXYZQwxyz~!_+क\u200c\u200d'
AFILES = ['reading_norm', 'visual_norm', 'visual_norm_final_isolated', 'visual_norm_isolated', 'visual_norm_nonfinal']
MODULES = dict(nfc=sc_data.g_nfc, fixed=sc_data.g_fixed, sigma=sc_data.g_sigma, reading=sc_data.g_reading, iso=sc_data.g_iso,
               wellformed=sc_data.g_wellformed, visual=sc_data.g_visual, abjad_nfc=sc_data.g_anfc,
               abjad_reading=sc_data.g_areading, abjad_visual=sc_data.g_avisual, roman=sc_data.g_roman)
MULTI = ('nfc', 'fixed', 'iso', 'wellformed', 'abjad_nfc', 'roman')


def setup():
  pass


# ---------------------------------------------------------------------------
# Running a grammar program
# ---------------------------------------------------------------------------
def sigma_fst():
  return pynini.union(*[pynini.escape(c) for c in sorted(set(SIGMA))]).optimize()


_far_cache = {}


def make_far(rules, tt):
  """rules: name -> None for an alphabet or pairs of letters to rewrite."""
  key = repr((sorted(rules.items()), tt))
  if key not in _far_cache:
    with pynini.default_token_type(tt):
      fsts = {}
      for name, pairs in rules.items():
        if pairs is None:
          fsts[name] = sigma_fst()
        elif pairs:
          fsts[name] = pynini.cdrewrite(pynini.string_map([(a, b) for a, b in pairs]), '', '', sigma_fst().star).optimize()
        else:
          fsts[name] = sigma_fst().star.optimize()
      if len(_far_cache) > 400:
        _far_cache.clear()
      _far_cache[key] = sc_data.far_bytes(fsts)
  return _far_cache[key]


def store(spec):
  """The complete files of a build: path -> bytes."""
  out = {ROOT + rel: t.encode('utf8') for rel, t in spec['files'].items()}
  for rel, (tt, rules) in spec['fars'].items():
    out[ROOT + rel] = make_far(rules, tt)
  return out


def run_program(spec):
  """Runs the grammar program; returns token type -> rule -> FST."""
  saved = bu.SCRIPTS, bu.FIXED_RULE_SCRIPTS, au.LANGS
  bu.SCRIPTS, bu.FIXED_RULE_SCRIPTS, au.LANGS = spec['scripts'], spec['scripts'], tuple(spec['langs'])
  try:
    kind = spec['kind']
    mod = MODULES[kind]
    if kind in MULTI:
      out = dict(byte=sc_data.Exporter(), utf8=sc_data.Exporter())
      mod.generator_main(out)
      return {k: dict(v) for k, v in out.items()}
    if kind == 'sigma':
      out = sc_data.Exporter()
      mod.generator_main(out)
      return dict(utf8=dict(out))
    return {spec['tt']: sc_data.build_with_flags(mod, spec['script'], spec['lang'], spec['tt'])}
  finally:
    bu.SCRIPTS, bu.FIXED_RULE_SCRIPTS, au.LANGS = saved


def canon(spec, built):
  """What the rules do to the sample texts."""
  out = {}
  for tt in sorted(built):
    with pynini.default_token_type(tt):
      for name in sorted(built[tt]):
        fst = built[tt][name]
        if spec['kind'] == 'sigma':
          out['%s %s' % (tt, name)] = sorted(o for _, o in sc_data.map_of(fst))
        elif spec['kind'] == 'wellformed':
          out['%s %s' % (tt, name)] = [pynini.compose(pynini.escape(t), fst).start() != pynini.NO_STATE_ID for t in spec['texts']]
        elif not (spec['kind'] == 'iso' and name == 'FROM_BRAHMIC' and tt == 'utf8'):  # Does not work; see its TODO.
          out['%s %s' % (tt, name)] = [sc_data.apply(fst, t) for t in spec['texts']]
  return out


def job_build(spec):
  for p, d in store(spec).items():
    pysim.fs.simfs_put(p.encode(), d, len(d))
  return canon(spec, run_program(spec))


JOBS.update(build=job_build)


# ---------------------------------------------------------------------------
# Generated builds with what they have to give
# ---------------------------------------------------------------------------
def lines(m, comment=False):
  return ('# Comment\n' if comment else '') + ''.join('%s\t%s\n' % x for x in m.items())


def rules(rt, letters, empty_ok=True):
  m = {}
  for _ in range(1 + rt.w(3)):
    m[rt.pick(letters)] = rt.pick(['X', 'YZ', '', 'क', 'QQQ'] if empty_ok else ['X', 'YZ', 'क', 'QQQ'])
  return m


def brahmic_files(script, extra=None):
  content = dict(consonant='k\tka\ng\tga\n', dead_consonant='T\tt\n', subjoined_consonant='', vowel_sign='i\ti\n', vowel='A\ta\n',
                 vowel_length_sign='', coda='m\tm\n', standalone='!\t!\n', virama='~\n', accept='zz\n', preserve='',
                 inherent_vowel='a\n', nfc='X\tX\n', reading_norm='X\tX\n', visual_rewrite='X\tX\n')
  content.update(extra or {})
  return {BDATA + script + '/' + n + '.tsv': t for n, t in content.items()}


def make_build(rt, kind=None):
  """A build and the right result (None: only comparable with itself)."""
  kind = kind or rt.pick(sorted(MODULES))
  s1, s2 = rt.pick([('Beng', 'Deva'), ('Mlym', 'Taml'), ('Deva', 'Telu')])
  spec = dict(kind=kind, files={}, fars={}, scripts=[s1, s2], langs=['ur', 'fa'], script='', lang='', tt=rt.pick(['byte', 'utf8']),
              texts=[''.join(rt.pick('abcdefgh') for _ in range(2 + rt.w(5))) for _ in range(3)])
  both = lambda f: {'%s %s' % (tt, n): v for tt in ('byte', 'utf8') for n, v in f.items()}
  sig = {s.upper(): None for s in (s1, s2)}
  texts = spec['texts']
  if kind == 'nfc':
    m1, m2 = rules(rt, 'abcd'), rules(rt, 'efgh')
    spec['files'] = {BDATA + s1 + '/nfc.tsv': lines(m1, rt.w(2)), BDATA + s2 + '/nfc.tsv': lines(m2)}
    spec['fars'] = {BRAHMIC + 'sigma_utf8.far': ('utf8', sig)}
    return spec, both({s1.upper(): [by_rules(m1, t) for t in texts], s2.upper(): [by_rules(m2, t) for t in texts],
                       'BRAHMIC': [by_rules({**m1, **m2}, t) for t in texts]})
  if kind == 'fixed':
    m, iso = {rt.pick('ABCD'): rt.pick(['x', 'yw', 'xx', 'wक'.replace('क', 'y')]) for _ in range(1 + rt.w(3))}, dict(x='क', w='X')
    spec['scripts'] = [s1]
    spec['texts'] = texts = [''.join(rt.pick('ABCDab') for _ in range(1 + rt.w(4))) for _ in range(2)]
    spec['files'] = {BDATA + s1 + '/fixed.tsv': lines(m, rt.w(2))}
    for tt in ('byte', 'utf8'):
      spec['fars'][BRAHMIC + 'iso%s.far' % ('_utf8' if tt == 'utf8' else '')] = (tt, {'TO_' + s1.upper(): sorted(iso.items())})
    # The conversion archive knows only some capital letters.
    want = []
    for t in texts:
      u = by_rules(m, t)
      want.append(by_rules(iso, u) if all(c in SIGMA for c in u) else None)
    return spec, both({s1.upper(): want})
  if kind == 'sigma':
    spec['scripts'] = [s1]
    m = rules(rt, 'abcd')
    spec['files'] = brahmic_files(s1, dict(nfc=lines(m), consonant=''.join(c + '\n' for c in sorted({rt.pick('कखগമpq') for _ in range(4)}))))
    chars = set()
    for rel, t in spec['files'].items():
      n = pathlib.Path(rel).stem
      if n in ('preserve', 'inherent_vowel'):
        continue
      for line in t.split('\n'):
        for f in line.split('\t')[:2 if n in ('nfc', 'reading_norm', 'visual_rewrite') else 1]:
          chars.update(f)
    return spec, {'utf8 ' + s1.upper(): sorted(chars | set('\u200b\u200c\u200d'))}
  if kind == 'reading':
    m1, m2 = rules(rt, 'abcd'), rules(rt, 'efgh')
    spec.update(script=s1, lang=rt.pick(['', 'hi']))
    have1, have2 = rt.w(3) > 0, rt.w(3) > 0
    if have1:
      spec['files'][BDATA + s1 + '/reading_norm.tsv'] = lines(m1)
    if have2:
      spec['files'][BDATA + s1 + '/hi/reading_norm.tsv'] = lines(m2)
    if spec['tt'] == 'utf8':
      spec['fars'] = {BRAHMIC + 'sigma_utf8.far': ('utf8', sig)}
    m = {**(m1 if have1 else {}), **(m2 if have2 and spec['lang'] else {})}
    return spec, {'%s %s' % (spec['tt'], (spec['lang'] or s1).upper()): [by_rules(m, t) for t in texts]}
  if kind in ('iso', 'wellformed', 'visual'):
    spec['scripts'] = [s1]
    m = rules(rt, 'abcd')
    extra = dict(visual_rewrite=lines(m), preserve='~\u200d\t[KEEP]\n' if kind == 'visual' else '')
    spec['files'] = brahmic_files(s1, extra)
    if kind == 'wellformed':
      inherent = rt.w(2) == 1
      if not inherent:
        spec['files'][BDATA + s1 + '/script_config.textproto'] = 'no_inherent_vowel: true\n'
      spec['texts'] = ['k', 'ki', 'kim', 'k~', 'k~g', 'k~gi', 'A', 'Am', '!', 'zz', 'm', 'i', 'z', 'kiAm!', 'kmg']
      return spec, both({s1.upper(): [inherent, True, True, True, inherent, True, True, True, True, True, False, False, False,
                                      True, inherent]})
    nf = rules(rt, 'gh' if kind == 'visual' else 'rs', empty_ok=False)
    spec['fars'] = {BRAHMIC + 'sigma_utf8.far': ('utf8', sig)}
    for tt in ('byte', 'utf8'):
      spec['fars'][BRAHMIC + 'nfc%s.far' % ('_utf8' if tt == 'utf8' else '')] = (tt, {s1.upper(): sorted(nf.items())})
    if kind == 'iso':
      spec['files'][BDATA + 'symbol.tsv'] = '_\t+\n'
      spec['texts'] = ['k', 'ki', 'k~g', 'A', 'Am', '!', 'k_', 'T', 'kimg!']
      return spec, {'from': ['kaa', 'kai', 'kagaa', 'a', 'am', '!', 'kaa+', 't', 'kaimgaa!']}
    spec.update(script=s1, lang=rt.pick(['', 'as']), texts=[t + 'k~\u200dk\u200d' for t in texts])
    if spec['lang']:
      spec['files'][BDATA + s1 + '/as/before_consonant.tsv'] = 'w\tx\n'
      spec['files'][BDATA + s1 + '/as/after_consonant.tsv'] = 'y\tz\n'
      spec['texts'] = [t + 'wky' for t in spec['texts']]
    if spec['tt'] == 'byte':
      del spec['fars'][BRAHMIC + 'sigma_utf8.far']
    del spec['fars'][BRAHMIC + 'nfc%s.far' % ('_utf8' if spec['tt'] == 'byte' else '')]
    mm = {**m, **nf}
    want = [by_rules(mm, t) + 'k~\u200dk' + ('xkz' if spec['lang'] else '') for t in texts]
    return spec, {'%s %s' % (spec['tt'], (spec['lang'] or s1).upper()): want}
  # Arabic script.
  spec['scripts'] = [s1]
  lang = rt.pick(spec['langs'])
  spec['lang'] = lang
  content = {n: {} for n in AFILES}
  per = {l: {n: '' for n in AFILES} for l in spec['langs']}
  common = dict(nfc='U\tU\n', presentation_forms='U\tU\n', reversible_roman='U\tU\n', visual_norm='U\tU\n')
  extra_alphabet = 'abcdefghXYZQकrRsStT\n'
  for l in per:
    for n in ('reading_norm', 'visual_norm'):
      per[l][n] = 'U\tU\n'
  per[rt.pick(spec['langs'])]['reading_norm'] += ''.join('%s\t%s\n' % (c, c) for c in extra_alphabet.strip())
  if kind == 'abjad_nfc':
    m = rules(rt, 'abcd')
    common['nfc'] = lines(m)
    want = both({'ARAB': [by_rules(m, t) for t in texts]})
  elif kind == 'abjad_reading':
    m = rules(rt, 'abcd')
    per[lang]['reading_norm'] = lines(m) + ''.join('%s\t%s\n' % (c, c) for c in extra_alphabet.strip() if c not in m)
    want = {'%s %s' % (spec['tt'], lang.upper()): [by_rules(m, t) for t in texts]}
  elif kind == 'roman':
    m, nf = {c: rt.pick(['x', 'yy', 'zx', 'कw']) for c in 'abcdefgh'}, rules(rt, 'gh', empty_ok=False)
    nf = {k: rt.pick('abc') for k in nf}
    common['reversible_roman'] = lines(m)
    for tt in ('byte', 'utf8'):
      spec['fars'][ABJAD + 'nfc%s.far' % ('_utf8' if tt == 'utf8' else '')] = (tt, {'ARAB': sorted(nf.items())})
    want = {'from': [by_rules(m, by_rules(nf, t)) for t in texts]}
  else:
    ma, mb, mc, md = rules(rt, 'ab'), rules(rt, 'cd'), rules(rt, 'ef'), rules(rt, 'gh')
    common.update(presentation_forms=lines(ma), nfc=lines(mb), visual_norm=lines(mc))
    per[lang].update(visual_norm=lines(md), visual_norm_nonfinal='r\tR\n', visual_norm_final_isolated='s\tS\n',
                     visual_norm_isolated='t\tT\n')
    spec['texts'] = [t + 'rsrs' for t in texts] + ['t', 's']
    m = {**ma, **mb, **mc, **md}
    want = {'%s %s' % (spec['tt'], lang.upper()): [by_rules(m, t) + 'RsRS' for t in texts] + ['T', 'S']}
  for n, t in common.items():
    spec['files'][ADATA + n + '.tsv'] = t
  if kind == 'roman':
    spec['files'] = {ADATA + 'reversible_roman.tsv': common['reversible_roman']}
  else:
    for l in per:
      for n, t in per[l].items():
        spec['files'][ADATA + l + '/' + n + '.tsv'] = t
  return spec, want


def required(spec, rel):
  """Files without which the build has to fail."""
  stem = pathlib.Path(rel).stem
  if stem == 'script_config' or (spec['kind'] == 'reading' and stem == 'reading_norm'):
    return False
  used = dict(iso=('consonant', 'inherent_vowel', 'vowel_sign', 'vowel', 'vowel_length_sign', 'coda', 'dead_consonant',
                   'standalone', 'subjoined_consonant', 'virama', 'symbol'),
              wellformed=('consonant', 'dead_consonant', 'subjoined_consonant', 'vowel_sign', 'vowel', 'vowel_length_sign', 'coda',
                          'standalone', 'virama', 'accept', 'preserve'))
  if rel.endswith('.far'):
    return True
  if spec['kind'] in used:
    return stem in used[spec['kind']]
  if spec['kind'] == 'sigma':
    return stem not in ('preserve', 'inherent_vowel')
  if spec['kind'] in ('abjad_nfc', 'abjad_reading') and rel == ADATA + 'visual_norm.tsv':
    return False
  if spec['kind'] == 'visual':
    return stem not in ('inherent_vowel',)
  return True


def reduced(spec, want, got):
  """The part of a result that the expectation speaks about."""
  if want is not None and list(want) == ['from']:
    return {'from': [got[k] for k in sorted(got) if k.split(' ')[1].startswith('FROM_') and 'BRAHMIC' not in k]}
  return got


def full(spec, want):
  if list(want) == ['from']:
    return {'from': [want['from']] * 2}
  return want


def py_build(rt):
  """A grammar program gives the grammar of its complete data, or fails."""
  rt.nontrivial = True
  kind = None
  for _ in range(1 + rt.w(2)):
    # Half of the second builds are of the same kind, with other data.
    spec, want = make_build(rt, kind if kind and rt.w(2) else None)
    kind = spec['kind']
    content = store(spec)
    eio = rt.chance(1, 3)
    mask = rt.pick([0, OPEN_FAIL, OPEN_FAIL | STAT_FAIL, READ_SHORT | READ_EINTR | OPEN_FAIL]) | (READ_EIO if eio else 0)
    if mask & READ_EIO and spec['fars']:
      mask &= ~READ_SHORT  # OpenFst archives: see DESIGN.md.
    gone = None
    if rt.chance(1, 4) and content:
      gone = rt.pick(sorted(spec['files']) + sorted(spec['fars']))
      if not required(spec, gone):
        gone = None
    for p, d in content.items():
      if gone is not None and p == ROOT + gone:
        rt.remove(p)
      else:
        rt.put(p, d)
    absent = [BDATA + s + '/' + n for s in spec['scripts'] for n in ('script_config.textproto', 'reading_norm.tsv', 'hi/reading_norm.tsv')]
    for rel in absent:
      if rel not in spec['files']:
        rt.remove(ROOT + rel)
    got = sc_data.Got(rt, lambda: run_program(spec), mask)
    sc_data.expect(rt, 'grammar program %s%s' % (spec['kind'], ' without ' + gone if gone else ''), got, full(spec, want), gone is not None,
                   canon=lambda v: reduced(spec, want, canon(spec, v)), eio_class='string-file-read-error')


SCENARIOS.update(py_build=py_build)
