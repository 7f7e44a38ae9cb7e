"""Data files and their conversion: P11, P19, P20, P21, P22."""
import io
import json
import os
import pathlib
import re
import string
import sys
import unicodedata

from absl import flags
from google.protobuf import text_format
import pynini

import pysim
import scenarios
from pysim import BENIGN, CLOSE_FAIL, OPEN_FAIL, READ_EINTR, READ_EIO, READ_SHORT, SEEK_FAIL, STAT_FAIL, WRITE_EINTR, WRITE_EIO, WRITE_ENOSPC, WRITE_SHORT
from nisaba.scripts.brahmic import script_config_pb2
from nisaba.scripts.brahmic import util as bu
from nisaba.scripts.utils import char as uc
from nisaba.scripts.utils import file as uf
from nisaba.scripts.utils import letter_languages
from nisaba.scripts.utils import letter_languages_pb2
from nisaba.scripts.utils import proto
from nisaba.scripts.utils import rewrite
from nisaba.scripts.utils import rule
from nisaba.scripts.utils import unicode_strings_pb2
from nisaba.scripts.utils import unicode_strings_to_tsv
from nisaba.scripts.utils import unicode_strings_util
from nisaba.translit.tools import calculate_emd_cer
from nisaba.translit.tools import emd_cer


MODULE_FLAGS = {}


def _grammar_module(name):
  """Imports a grammar module.

  The build fills in the flags of a copy of each module (several define the same
  ones); here each module gets flags of its own, to be set before it runs.
  """
  import importlib
  fv = flags.FlagValues()
  saved = {}
  for d in ('DEFINE_string', 'DEFINE_enum', 'DEFINE_bool', 'DEFINE_boolean', 'DEFINE_integer'):
    orig = saved[d] = getattr(flags, d)

    def define(n, default, *args, _orig=orig, **kwargs):
      return _orig(n, default or None, *args, flag_values=fv, **kwargs)
    setattr(flags, d, define)
  try:
    mod = importlib.import_module(name)
  finally:
    for d, orig in saved.items():
      setattr(flags, d, orig)
  fv.mark_as_parsed()
  MODULE_FLAGS[mod] = fv
  return mod


g_wellformed = _grammar_module('nisaba.scripts.brahmic.wellformed')
g_iso = _grammar_module('nisaba.scripts.brahmic.iso')
g_fixed = _grammar_module('nisaba.scripts.brahmic.fixed')
g_sigma = _grammar_module('nisaba.scripts.brahmic.sigma')
g_nfc = _grammar_module('nisaba.scripts.brahmic.nfc')
g_anfc = _grammar_module('nisaba.scripts.abjad_alphabet.nfc')
g_roman = _grammar_module('nisaba.scripts.abjad_alphabet.reversible_roman')
g_avisual = _grammar_module('nisaba.scripts.abjad_alphabet.visual_norm')
g_areading = _grammar_module('nisaba.scripts.abjad_alphabet.reading_norm')
g_visual = _grammar_module('nisaba.scripts.brahmic.visual_norm')
g_reading = _grammar_module('nisaba.scripts.brahmic.reading_norm')

RT = None
SCENARIOS, JOBS, NEED_HELPERS = {}, {}, set()
ROOT = '/sim/rf/'
DATA = 'com_google_nisaba/nisaba/scripts/brahmic/data/'
PREFIXES = ['DEVANAGARI', 'BENGALI', 'MALAYALAM', 'ARABIC LETTER', 'ARABIC', 'LATIN SMALL LETTER', 'MEETEI MAYEK']
POOL = {}
_BLOCKS = [(0x900, 0x980), (0x980, 0xa00), (0xd00, 0xd80), (0x600, 0x700), (0x61, 0x7b), (0xe0, 0x100), (0xabc0, 0xac00)]


def setup():
  for lo, hi in _BLOCKS:
    for c in range(lo, hi):
      n = unicodedata.name(chr(c), '')
      for p in PREFIXES:
        if n.startswith(p + ' '):
          POOL.setdefault(p, []).append((n[len(p) + 1:], chr(c)))
  flags.FLAGS.mark_as_parsed()


# ---------------------------------------------------------------------------
# Running something under faults
# ---------------------------------------------------------------------------
READ_FAULTS = OPEN_FAIL | READ_EIO | READ_SHORT | READ_EINTR


def hard(rt):
  return rt.fired() - rt.fired(BENIGN)


class Got:
  """The result of a call under faults."""

  def __init__(self, rt, fn, mask):
    before = hard(rt)
    eio = scenarios.string_file_errors[0]
    rt.faults(mask)
    self.error = self.value = None
    try:
      self.value = fn()
    except Exception as e:  # pylint: disable=broad-except
      self.error = e
    except SystemExit as e:
      self.error = e
    rt.faults(0)
    self.hurt = hard(rt) > before
    self.eio = scenarios.string_file_errors[0] > eio


def expect(rt, label, got, want, want_error=False, canon=lambda x: x, eio_class=None):
  """want: the right value; want_error: the call has to fail."""
  v = None if got.error is not None else canon(got.value)
  rt.event(label, type(got.error).__name__ if got.error is not None else repr(v)[:300])
  rt.say('%s -> %s%s', label, repr(got.error) if got.error is not None else repr(v)[:200], ' (after faults)' if got.hurt else '')
  if got.error is not None:
    if want_error or got.hurt:
      rt.probe('errors')
      return False
    rt.fail('unexpected-error', '%s raised %s: %s', label, type(got.error).__name__, str(got.error)[:300])
  if want_error:
    rt.fail('missing-error', '%s succeeded with %r though it had to fail', label, repr(v)[:300])
  if v != want:
    rt.fail(eio_class if eio_class and got.eio else 'wrong-result', '%s returned %s, expected %s', label, repr(v)[:400], repr(want)[:400])
  return True


# ---------------------------------------------------------------------------
# Generated script data
# ---------------------------------------------------------------------------
def resolve(prefixes, suffix):
  """The characters a name with these prefixes may mean."""
  out = []
  for p in sorted(set(prefixes)) + ['']:
    try:
      c = unicodedata.lookup((p + ' ' + suffix).lstrip())
    except KeyError:
      continue
    if len(c) == 1 and unicodedata.category(c) != 'Cc':
      out.append(c)
  return out


def names_for(rt, prefixes, n):
  """n names with their characters; every one resolves to one character."""
  names, chars = [], []
  while len(names) < n:
    p = rt.pick(prefixes) if prefixes and not rt.chance(1, 5) else None
    q = p or rt.pick(PREFIXES)
    suffix, c = rt.pick(POOL[q])
    name = suffix if p else q + ' ' + suffix
    if resolve(prefixes, name) != [c]:
      name = unicodedata.name(c)
      if resolve(prefixes, name) != [c]:
        name, c = 'DEVANAGARI LETTER KA', 'क'
    names.append(name)
    chars.append(c)
  return names, ''.join(chars)


def side(rt, prefixes, allow_empty):
  """(names, raw, string) of one side of an item."""
  k = rt.w(4 if allow_empty else 3)
  if k == 3:
    return [], '', ''
  names, s = names_for(rt, prefixes, 1 + rt.w(3))
  if k == 0:
    return names, '', s
  if k == 1:
    return names, s, s
  raw = ''.join(rt.pick('abkxyz \u00a0\u2003') for _ in range(1 + rt.w(3))) if rt.chance(1, 2) else s
  return [], raw, raw


def bad_item(rt, prefixes):
  k = rt.w(6)
  if k > 3:
    # A name that another table's prefixes resolve.
    for _ in range(20):
      name, _ = rt.pick(POOL[rt.pick(PREFIXES)])
      if not resolve(prefixes, name):
        return [name], '', [], ''
    k = 0
  if k == 0:
    return ['NO SUCH LETTER'], '', [], ''
  if k == 1:
    names, s = names_for(rt, prefixes, 1)
    return names, s + 'z', [], ''
  if k == 2:
    names, s = names_for(rt, prefixes, 1)
    return names, '', ['LETTER NOWHERE'], ''
  return [], '', [], 'abc'


def strings_data(rt, errors=True):
  """(message, expected pairs, has an item in error)."""
  pb = unicode_strings_pb2.UnicodeStrings()
  pre = [rt.pick(PREFIXES) for _ in range(rt.w(3))]
  to = [rt.pick(PREFIXES) for _ in range(rt.w(2))]
  pb.uname_prefix.extend(pre)
  pb.to_uname_prefix.extend(to)
  n = rt.w(8)
  if rt.chance(1, 12):
    n = 150 + rt.w(300)
  out, bad = [], False
  k = rt.w(n) if errors and n and rt.chance(1, 6) else -1
  for i in range(n):
    it = pb.item.add()
    if i == k:
      names, raw, tn, tr = bad_item(rt, pre)
      it.uname.extend(names)
      it.raw = raw
      it.to_uname.extend(tn)
      it.to_raw = tr
      bad = True
      out.append(None)
      continue
    names, raw, s = side(rt, pre, False)
    it.uname.extend(names)
    it.raw = raw
    tn, tr, ts = side(rt, to or pre, True)
    it.to_uname.extend(tn)
    it.to_raw = tr
    out.append((s, ts))
  return pb, out, bad


def not_utf8(rt, data):
  """The data with a byte that is no UTF-8."""
  at = rt.w(len(data) + 1)
  while at < len(data) and data[at] & 0xc0 == 0x80:
    at += 1
  return data[:at] + rt.pick([b'\xff', b'\x80', b'\xc3']) + data[at:]


def padded(rt, data):
  """The text message with comments before it, often more than one buffer of them."""
  return rt.pick([b'# a comment\n', b'\n', '# ज़\n'.encode('utf8')]) * rt.pick([1, 1000, 6000, 12000]) + data


def text_of(rt, pb):
  return text_format.MessageToString(pb, as_utf8=rt.w(2) == 0).encode('utf8')


def run_tsv(inp, outp):
  flags.FLAGS['input_text_proto'].value = inp
  flags.FLAGS['output_tsv'].value = outp
  unicode_strings_to_tsv.main(['unicode_strings_to_tsv'])


def tsv_lines(data):
  """The item lines of a converted file (None: not even complete lines)."""
  if data is None:
    return None
  t = data.decode('utf8', 'replace')
  if t and not t.endswith('\n'):
    return None
  return [l for l in t.split('\n')[:-1] if not l.startswith('#')]


def py_tsv(rt):
  rt.nontrivial = False
  for step in range(1 + rt.w(3)):
    pb, want, bad = strings_data(rt)
    data = text_of(rt, pb)
    broken = False
    if rt.chance(1, 10) and len(pb.item):
      at = data.rfind(b'item')
      cut = at + 5 + rt.w(max(1, len(data) - at - 7))
      if b'}' not in data[at:cut]:
        data, broken = data[:cut], True
    if rt.chance(1, 12):
      data = padded(rt, data)
    if rt.chance(1, 15):
      data, broken = not_utf8(rt, data), True
    inp, outp = '/sim/in%d' % rt.w(2), '/sim/out%d' % rt.w(2)
    if rt.chance(1, 12):
      rt.remove(inp)
      broken = True
    else:
      rt.put(inp, data)
    if rt.chance(1, 3):
      rt.put(outp, 'old content\n' * (1 + rt.w(2000)))
    mask = rt.pick([0, READ_FAULTS, WRITE_EIO | WRITE_SHORT | WRITE_EINTR | OPEN_FAIL, WRITE_ENOSPC | CLOSE_FAIL | WRITE_SHORT,
                    READ_FAULTS | WRITE_EIO | WRITE_ENOSPC | WRITE_SHORT | WRITE_EINTR | CLOSE_FAIL | STAT_FAIL | SEEK_FAIL])
    got = Got(rt, lambda: run_tsv(inp, outp), mask)
    lines = tsv_lines(rt.get(outp))
    exp = None if bad or broken else [s + ('\t' + t if t else '') for s, t in want]
    rt.nontrivial = rt.nontrivial or len(want) > 0
    expect(rt, 'conversion %d of %d items' % (step, len(want)), got, exp, bad or broken, canon=lambda _: lines)


# ---------------------------------------------------------------------------
# Readers
# ---------------------------------------------------------------------------
LETTERS = 'abcdefghकखगघക\u200cابتéñ𑀓'


# What a reader of tables may take for something else than text.
ODD = [LETTERS, LETTERS, LETTERS + '"\'', '0123456789', '019.-+e', '"\',;a']


def word(rt, n=3, letters=LETTERS):
  return ''.join(rt.pick(letters) for _ in range(1 + rt.w(n)))


def table(rt, both=True, comments=True, unique=False, blank=False):
  """(text, rows): a tab-separated file."""
  rows, lines, seen = [], [], set()
  left, right = rt.pick(ODD), rt.pick(ODD)
  n = rt.w(8)
  if rt.chance(1, 10):
    n = 500 + rt.w(1500)
    if blank and rt.chance(1, 4):
      n += rt.w(9000)
  for i in range(n):
    if blank and rt.chance(1, 12):
      lines.append(rt.pick(['', '', ' ', '\t']))
    if blank and rt.chance(1, 40):
      lines.append('# ' + 'long ' * rt.pick([100, 2000, 30000]))
    if comments and rt.chance(1, 8):
      lines.append('# ' + word(rt))
    l, r = word(rt, letters=left), word(rt, letters=right)
    if blank and i == n - 1:
      l += chr(0x4e00 + rt.w(5000))  # found nowhere else
    if n > 400:
      l, r = l + str(i), r + str(i % 7)
    if unique and l in seen:
      continue
    seen.add(l)
    if not both and rt.chance(1, 3):
      lines.append(l)
      rows.append((l, None))
    else:
      lines.append(l + '\t' + r)
      rows.append((l, r))
  t = '\n'.join(lines)
  return t + ('\n' if lines and not rt.chance(1, 5) else ''), rows


def letter_table(rt, errors=False):
  """(message, letters with languages), and with `errors` whether an item is wrong."""
  pb = letter_languages_pb2.LetterLanguages()
  pre = [rt.pick(PREFIXES) for _ in range(rt.w(3))]
  pb.uname_prefix.extend(pre)
  out = []
  for _ in range(rt.w(6) if not rt.chance(1, 12) else 300):
    it = pb.item.add()
    names, raw, s = side(rt, pre, False)
    it.letter.uname.extend(names)
    it.letter.raw = raw
    langs = [word(rt) for _ in range(rt.w(4))]
    it.language.extend(langs)
    out.append((s, langs))
  if not errors:
    return pb, out
  bad = len(out) > 0 and rt.chance(1, 8)
  if bad:
    it = pb.item[rt.w(len(out))].letter
    k = rt.w(3)
    if k == 0:
      it.raw = ''
      del it.uname[:]
    elif k == 1 or not it.uname:
      it.uname[:] = ['NO SUCH LETTER']
    else:
      it.raw = out[0][0] + 'z'
  return pb, out, bad


def emd_data(rt):
  rows = []
  for _ in range(1 + rt.w(4) if not rt.chance(1, 10) else 200):
    n = 1 + rt.w(3)
    p1 = [1 + rt.w(5) for _ in range(n)]
    p2 = [1 + rt.w(5) for _ in range(n)]
    p1, p2 = [x / sum(p1) for x in p1], [x / sum(p2) for x in p2]
    d = [[0 if i == j else 1 + rt.w(4) for j in range(n)] for i in range(n)]
    rows.append(dict(p1=p1, p2=p2, D=d, L=[1 + rt.w(9) for _ in range(n)]))
  return rows


def run_emd(path):
  flags.FLAGS['json_path'].value = path
  old, sys.stdout = sys.stdout, io.StringIO()
  try:
    calculate_emd_cer.main(['x'])
    return sys.stdout.getvalue()
  finally:
    sys.stdout = old


def emd_numbers(text):
  """All numbers of the output, line by line."""
  return [[round(float(x), 9) for x in re.findall(r'-?\d+(?:\.\d+)?(?:e-?\d+)?', l)] for l in text.strip().split('\n')]


def emd_want(rows):
  te = tl = 0
  out = []
  for r in rows:
    e, n = emd_cer.emd_error_and_length(r)
    out.append([float(n), float(e), 0.0, 0.0, float(e / n)])
    te, tl = te + e, tl + n
  out += [[float(te)], [float(tl)], [float(te / tl)]]
  return [[round(x, 9) for x in l] for l in out]


def map_of(fst):
  """The pairs of a string map (few enough to list)."""
  if fst.start() == pynini.NO_STATE_ID:
    return []
  return sorted({(i, o) for i, o, _ in fst.paths().items()})


def path_kind(rt, rel, data):
  """Stores data under a runfiles path; returns how the reader is to name it."""
  p = ROOT + DATA + rel
  if data is None:
    rt.remove(p)
  else:
    rt.put(p, data)
  return pathlib.Path(DATA + rel)


def damage(rt, data):
  """A damaged text message and whether it still parses, by the parser itself."""
  k = rt.w(3)
  if k == 0:
    return data[:rt.w(len(data) + 1)]
  if k == 1 and data:
    at = rt.w(len(data))
    return data[:at] + bytes([rt.w(256)]) + data[at + 1:]
  return data + rt.pick([b'item {', b'}', b'bogus: 1\n', b'\xff', b'uname_prefix: "x'])


def parse_ref(data, pb):
  try:
    text_format.Parse(data.decode('utf8').replace('\r\n', '\n').replace('\r', '\n'), pb)
    return True
  except (text_format.ParseError, UnicodeDecodeError, ValueError):
    return False


def py_readers(rt, only=None):
  rt.nontrivial = True
  keep = []
  for _ in range(1 + rt.w(3)):
    k = only if only is not None else rt.w(7)
    mask = rt.pick([0, READ_FAULTS, READ_FAULTS, READ_FAULTS | STAT_FAIL, READ_EIO | READ_SHORT])
    slot = rt.w(2)
    missing = rt.chance(1, 10)
    if k == 0:
      pb, want, bad = strings_data(rt)
      f = path_kind(rt, 'u%d.textproto' % slot, None if missing else text_of(rt, pb))
      exp = None if bad else [(s, t) for s, t in want]
      got = Got(rt, lambda: unicode_strings_util.read_textproto(f), mask)
      expect(rt, 'letter table %s' % f.name, got, exp, bad or missing, canon=lambda v: [(i.raw, i.to_raw) for i in v.item])
      if got.value is not None:
        del got.value.item[:]
    elif k == 1:
      pb, want, bad = letter_table(rt, errors=True)
      missing = missing or bad
      f = path_kind(rt, 'l%d.textproto' % slot, None if missing and not bad else text_of(rt, pb))
      got = Got(rt, lambda: letter_languages.read_textproto(f), mask)
      expect(rt, 'letter languages %s' % f.name, got, want, missing, canon=lambda v: [(i.letter.raw, list(i.language)) for i in v.item])
      if got.value is not None:
        del got.value.item[:]
    elif k == 2:
      nb, ni = rt.w(3), rt.w(3)
      both, inp, want, miss = [], [], set(), False
      for i in range(nb + ni):
        t, rows = table(rt, both=False, blank=True)
        gone = rt.chance(1, 15)
        t = t.encode('utf8')
        if rt.chance(1, 20):
          t, gone = not_utf8(rt, t), gone or 'damaged'
        miss = miss or gone
        f = path_kind(rt, 'c%d.tsv' % i, None if gone is True else t)
        (both if i < nb else inp).append(f)
        for l, r in rows:
          want |= set(l)
          if i < nb and r:
            want |= set(r)
      # Generators are allowed for the lists of files.
      gen = rt.chance(1, 4)
      got = Got(rt, lambda: uc.derive_chars(both_sides=iter(both) if gen else both, input_side=iter(inp) if gen else inp), mask)
      expect(rt, 'characters of %d files' % (nb + ni), got, sorted(want), miss, canon=sorted)
      if got.value is not None:
        got.value.clear()
    elif k == 3:
      t, rows = table(rt)
      empty_lhs = rt.chance(1, 10)
      if empty_lhs:
        t = t.rstrip('\n') + '\n\tzz\n'
      if rt.chance(1, 20):
        t, empty_lhs = not_utf8(rt, t.encode('utf8')), True
      f = path_kind(rt, 'r%d.tsv' % slot, None if missing else t)
      got = Got(rt, lambda: list(rule.rules_from_string_file(f)), mask)
      expect(rt, 'rules %s (%d)' % (f.name, len(rows)), got, rows, missing or empty_lhs, canon=lambda v: [(r.lhs, r.rhs) for r in v])
      if got.value is not None:
        got.value.clear()
    elif k == 4:
      t, rows = table(rt, unique=True)
      f = path_kind(rt, 's%d.tsv' % slot, None if missing else t)
      default = pynini.accep('default') if rt.chance(1, 2) else None
      got = Got(rt, lambda: uf.StringFile(f) if default is None else uf.StringFile(f, default), mask)
      want = sorted({(l, r) for l, r in rows})
      if not rows:
        want = [] if default is None else [('default', 'default')]
      expect(rt, 'string map %s (%d)' % (f.name, len(rows)), got, want, missing, canon=map_of, eio_class='string-file-read-error')
    elif k == 5:
      rows = emd_data(rt)
      p = '/sim/emd%d' % slot
      if missing:
        rt.remove(p)
      else:
        rt.put(p, ''.join(json.dumps(r) + '\n' for r in rows))
      cut = not missing and rt.chance(1, 10)
      if cut:
        d = rt.get(p)
        rt.put(p, d[:len(d) - 2 - rt.w(20)])
      if not missing and not cut and rt.chance(1, 15):
        rt.put(p, not_utf8(rt, rt.get(p)))
        cut = True
      got = Got(rt, lambda: run_emd(p), mask)
      expect(rt, 'emd of %d lines' % len(rows), got, None if missing or cut else emd_want(rows), missing or cut, canon=emd_numbers)
    else:
      proto_read(rt, mask, slot)


def proto_read(rt, mask, slot):
  """One text message through the loaders: intact, damaged or missing."""
  which = rt.w(3)
  if which == 0:
    pb, _, _ = strings_data(rt, errors=False)
  elif which == 1:
    pb, _ = letter_table(rt)
  else:
    pb = script_config_pb2.ScriptConfig(no_inherent_vowel=rt.w(2) == 1)
  data = text_of(rt, pb)
  if which == 2 and rt.chance(1, 2):
    data = b'# a comment\n' * rt.w(900) + data
  if rt.chance(1, 15):
    data = padded(rt, data)
  if rt.chance(1, 2):
    data = damage(rt, data)
  ref = type(pb)()
  good = parse_ref(data, ref)
  missing = rt.chance(1, 10)
  name = 'm%d.textproto' % slot
  f = path_kind(rt, name, None if missing else data)
  if which == 2 and rt.chance(2, 3):
    if missing:
      ref, good, missing = type(pb)(), True, False
    got = Got(rt, lambda: bu.MaybeLoadScriptConfig(f), mask | (STAT_FAIL if mask else 0))
  else:
    got = Got(rt, lambda: proto.read_textproto(f if rt.chance(1, 2) else ROOT + str(f), type(pb)()), mask)
  expect(rt, '%s from %s' % (type(pb).__name__, name), got, ref if good else None, missing or not good)


def py_proto_load(rt):
  rt.nontrivial = True
  for _ in range(1 + rt.w(3)):
    k = rt.w(4)
    if k == 0:
      py_readers(rt, 0)
    elif k == 1:
      py_readers(rt, 1)
    else:
      proto_read(rt, rt.pick([0, READ_FAULTS, READ_FAULTS | STAT_FAIL, READ_EIO | READ_SHORT]), rt.w(2))


# ---------------------------------------------------------------------------
# Optional data
# ---------------------------------------------------------------------------
class Exporter(dict):
  pass


def build_with_flags(mod, script, lang, token_type='byte'):
  fv = MODULE_FLAGS[mod]
  for k, v in (('script', script), ('lang', lang), ('token_type', token_type)):
    if k in fv:
      fv[k].value = v
  out = Exporter()
  mod.generator_main(out)
  return dict(out)


def apply(fst, text):
  try:
    return pynini.shortestpath(pynini.escape(text) @ fst).string()
  except pynini.FstOpError:
    return None


def far_bytes(rules):
  w = pynini.Far('/sim/tmp.far', 'w')
  for n in sorted(rules):
    w.add(n, rules[n])
  del w
  n = pysim.fs.simfs_size(b'/sim/tmp.far')
  d = pysim.ctypes.string_at(pysim.fs.simfs_data(b'/sim/tmp.far'), n)
  pysim.fs.simfs_remove(b'/sim/tmp.far')
  return d


SMALL = 'abcdefgh'


def small_rules(rt, n=3):
  """Rewrites of single small letters (no interaction)."""
  m = {}
  for _ in range(rt.w(n + 1)):
    m[rt.pick(SMALL)] = rt.pick(['X', 'YZ', '', 'क', 'QQQ'])
  return m


def by_rules(m, t):
  return ''.join(m.get(c, c) for c in t)


def py_optional(rt):
  rt.nontrivial = True
  mask_all = STAT_FAIL | OPEN_FAIL | READ_EIO | READ_SHORT | READ_EINTR
  for _ in range(1 + rt.w(3)):
    k = rt.w(6)
    mask = rt.pick([0, mask_all, STAT_FAIL, STAT_FAIL | OPEN_FAIL, READ_EIO | READ_SHORT])
    if k == 0:
      there = rt.w(2) == 1
      f = path_kind(rt, rt.pick(['o.tsv', 'as/o.tsv']), 'x' if there else None)
      got = Got(rt, lambda: uf.IsFileExist(f), mask)
      expect(rt, 'IsFileExist of %s file' % ('a present' if there else 'no'), got, there)
    elif k == 1:
      proto_read_config(rt, mask)
    elif k in (2, 3):
      names = [n for n in ('AA', 'BB', 'CC') if rt.w(2)] or ['AA']
      mask &= ~READ_SHORT if mask & READ_EIO else mask_all
      d = far_bytes({n: pynini.accep(n.lower()) for n in names})
      there = rt.w(4) > 0
      damaged = there and rt.chance(1, 6)
      suffix, tt = rt.pick([('', 'byte'), ('_utf8', 'utf8')])
      rel = 'com_google_nisaba/nisaba/scripts/brahmic/opt%s.far' % suffix
      if not there:
        rt.remove(ROOT + rel)
      else:
        rt.put(ROOT + rel, rt.pick([b'', b'garbage of some length', d[:3]]) if damaged else d)
      # The other token type's archive says something else.
      other = 'com_google_nisaba/nisaba/scripts/brahmic/opt%s.far' % ('' if suffix else '_utf8')
      rt.put(ROOT + other, far_bytes({n: pynini.accep('other') for n in ('AA', 'BB', 'CC', 'DD')}))
      ask = rt.pick(['aa', 'bb', 'cc', 'AA', 'dd'])
      default = pynini.accep('default')
      if k == 2:
        fn = lambda: uf.OpenFstFromFarSafe(bu.FAR_DIR, 'opt', tt, ask, default)
      else:
        fn = lambda: bu.OpenFstFromBrahmicFarSafe('opt', ask, tt, default)
      got = Got(rt, fn, mask)
      want = ask.lower() if there and ask.upper() in names else 'default'
      expect(rt, '%s of a %s archive' % (ask, 'damaged' if damaged else 'stored' if there else 'missing'), got, want, damaged,
             canon=lambda v: v.string())
    elif k == 4:
      # Reading normalisation: the language part and the script part are optional.
      script, lang = 'Mlym', rt.pick(['', 'ml'])
      m1, m2 = small_rules(rt), small_rules(rt)
      have1, have2 = rt.w(3) > 0, rt.w(3) > 0
      path_kind(rt, 'Mlym/reading_norm.tsv', ''.join('%s\t%s\n' % x for x in m1.items()) if have1 and m1 else None)
      path_kind(rt, 'Mlym/ml/reading_norm.tsv', ''.join('%s\t%s\n' % x for x in m2.items()) if have2 and m2 else None)
      t = ''.join(rt.pick(SMALL) for _ in range(8))
      want = by_rules(m1, t) if have1 else t
      if lang and have2:
        want = by_rules(m2, want)
      got = Got(rt, lambda: build_with_flags(g_reading, script, lang), mask)
      expect(rt, 'reading normalisation of %s' % t, got, want, canon=lambda v: apply(v[(lang or script).upper()], t))
    else:
      d = accept_dir(rt, 'Thaa', rt.w(3))
      got = Got(rt, lambda: accept(d['dir']), mask & (STAT_FAIL | OPEN_FAIL))
      expect(rt, 'acceptor with %s config' % d['kind'], got, d['want'], d['kind'] == 'broken',
             canon=lambda v: [pynini.compose(w, v).start() != pynini.NO_STATE_ID for w in d['words']])


def proto_read_config(rt, mask):
  value, there = rt.w(2) == 1, rt.w(3) > 0
  data = b'# config\n' * rt.w(3) + (b'no_inherent_vowel: %s\n' % (b'true' if value else b'false'))
  bad = there and rt.chance(1, 6)
  if bad:
    data = rt.pick([b'no_inherent_vowel: maybe\n', b'no_inherent_vowel', b'other_field: 1\n', b'\xff\xfe'])
  f = path_kind(rt, 'Thaa/config%d.textproto' % rt.w(2), data if there else None)
  got = Got(rt, lambda: bu.MaybeLoadScriptConfig(f), mask)
  expect(rt, 'script config, %s' % ('broken' if bad else 'stored' if there else 'missing'), got, value and there, bad,
         canon=lambda v: v.no_inherent_vowel)
  if got.value is not None:
    got.value.no_inherent_vowel = not got.value.no_inherent_vowel


ACCEPT_FILES = ['consonant', 'dead_consonant', 'subjoined_consonant', 'vowel_sign', 'vowel', 'vowel_length_sign', 'coda',
                'standalone', 'virama', 'accept', 'preserve']


def accept_dir(rt, script, kind):
  """A small script: k, g consonants; i vowel sign; A vowel; m coda; ~ virama; ! standalone."""
  content = dict(consonant='k\tka\ng\tga\n', dead_consonant='T\tt\n', subjoined_consonant='', vowel_sign='i\ti\n', vowel='A\ta\n',
                 vowel_length_sign='', coda='m\tm\n', standalone='!\t!\n', virama='~\n', accept='zz\n', preserve='')
  for n in ACCEPT_FILES:
    path_kind(rt, '%s/%s.tsv' % (script, n), content[n])
  path_kind(rt, script + '/script_config.textproto', [None, 'no_inherent_vowel: true\n', 'no_inherent_vowel: perhaps\n'][kind])
  words_ = ['k', 'ki', 'kim', 'k~', 'k~g', 'k~gi', 'A', 'Am', '!', 'zz', 'm', 'i', 'z', 'kiAm!', 'kmg']
  inherent = kind == 0
  want = [inherent, True, True, True, inherent, True, True, True, True, True, False, False, False, True, inherent]
  return dict(dir=pathlib.Path(DATA) / script, words=words_, want=want, kind=['no', 'a stored', 'broken'][kind])


def accept(d):
  return g_wellformed.accept_well_formed(d / 'script_config.textproto', *[d / (n + '.tsv') for n in ACCEPT_FILES])


# ---------------------------------------------------------------------------
# Whole grammars from data files under faults
# ---------------------------------------------------------------------------
def py_grammar(rt):
  """What a grammar was built from is complete, or building fails."""
  rt.nontrivial = True
  for _ in range(1 + rt.w(2)):
    k = rt.w(4)
    eio = rt.chance(1, 3)
    mask = rt.pick([0, OPEN_FAIL, OPEN_FAIL | STAT_FAIL, READ_SHORT | READ_EINTR | OPEN_FAIL]) | (READ_EIO if eio else 0)
    if k == 0:
      d = accept_dir(rt, 'Knda', rt.w(2))
      got = Got(rt, lambda: accept(d['dir']), mask)
      expect(rt, 'acceptor with %s config' % d['kind'], got, d['want'], False, eio_class='string-file-read-error',
             canon=lambda v: [pynini.compose(w, v).start() != pynini.NO_STATE_ID for w in d['words']])
    elif k == 1:
      d = accept_dir(rt, 'Telu', 0)['dir']
      path_kind(rt, 'Telu/inherent_vowel.tsv', 'a\n')
      path_kind(rt, 'symbol.tsv', '_\t+\n')
      files = ['consonant', 'inherent_vowel', 'vowel_sign', 'vowel', 'vowel_length_sign', 'coda', 'dead_consonant', 'standalone',
               'subjoined_consonant', 'virama']
      got = Got(rt, lambda: g_iso.brahmic_to_iso(*[d / (n + '.tsv') for n in files]), mask)
      ins = ['k', 'ki', 'k~g', 'A', 'Am', '!', 'k_', 'T', 'kimg!']
      want = ['kaa', 'kai', 'kagaa', 'a', 'am', '!', 'kaa+', 't', 'kaimgaa!']
      expect(rt, 'romanisation', got, want, canon=lambda v: [apply(v, t) for t in ins], eio_class='string-file-read-error')
    elif k == 2:
      script = 'Beng'
      m = small_rules(rt)
      path_kind(rt, script + '/visual_rewrite.tsv', ''.join('%s\t%s\n' % x for x in m.items()) or 'X\tX\n')
      path_kind(rt, script + '/preserve.tsv', '~\u200d\t[KEEP]\n')
      path_kind(rt, script + '/consonant.tsv', 'k\tka\nr\tra\n')
      d = pathlib.Path(DATA) / script
      got = Got(rt, lambda: g_visual.core_visual_norm_fsts(d / 'visual_rewrite.tsv', d / 'preserve.tsv', d / 'consonant.tsv',
                                                           pynini.union(*[pynini.escape(c) for c in SMALL + 'rkgXYZQक~\u200c\u200d']).optimize()), mask)
      t = ''.join(rt.pick(SMALL + '\u200c') for _ in range(6))
      want = by_rules(m, t).replace('\u200c', '') + 'k~\u200dr'
      expect(rt, 'visual normalisation', got, want, canon=lambda v: apply(rewrite.ComposeFsts(v).optimize(), t + 'k~\u200dr\u200d'),
             eio_class='string-file-read-error')
    else:
      lang = 'ur'
      base = 'com_google_nisaba/nisaba/scripts/abjad_alphabet/data/Arab/'
      m, m2 = small_rules(rt), small_rules(rt)
      for name, t in (('visual_norm', ''.join('%s\t%s\n' % x for x in m.items())), ('visual_norm_nonfinal', 'r\tR\n'),
                      ('visual_norm_final_isolated', 's\tS\n'), ('visual_norm_isolated', 't\tT\n')):
        if not t:
          t, m = 'U\tU\n', {}
        rt.put(ROOT + base + lang + '/' + name + '.tsv', t)
      sigma = pynini.union(*[pynini.escape(c) for c in SMALL + 'XYZQकrsRSUtT']).optimize()
      got = Got(rt, lambda: g_avisual.lang_fsts(lang, sigma), mask)
      t = ''.join(rt.pick(SMALL) for _ in range(4))
      want = [by_rules(m, t) + 'RsrS', 'T', 'S', 'tR' + 't']
      expect(rt, 'visual normalisation of ' + lang, got, [by_rules(m, t) + 'RsRS', 'T', 'S', 'tRt'],
             canon=lambda v: [apply(rewrite.ComposeFsts(v), x) for x in (t + 'rsrs', 't', 's', 'trt')],
             eio_class='string-file-read-error')


# ---------------------------------------------------------------------------
# The same input in processes with other hash randomisation
# ---------------------------------------------------------------------------
def _jput(files):
  for p, t in files.items():
    d = t.encode('utf8')
    pysim.fs.simfs_put(p.encode(), d, len(d))


def job_tsv(text):
  _jput({'/sim/in': text})
  run_tsv('/sim/in', '/sim/out')
  n = pysim.fs.simfs_size(b'/sim/out')
  return pysim.ctypes.string_at(pysim.fs.simfs_data(b'/sim/out'), n).decode('latin1')


def job_chars(both, inp):
  files = {}
  for i, t in enumerate(both + inp):
    files[ROOT + DATA + 'c%d.tsv' % i] = t
  _jput(files)
  names = [pathlib.Path(DATA + 'c%d.tsv' % i) for i in range(len(files))]
  return sorted(uc.derive_chars(both_sides=names[:len(both)], input_side=names[len(both):]))


def job_sigma(chars):
  return [o for _, o in map_of(uc.derive_sigma(set(chars)))]


def job_partition(rules):
  return [[list(r) for r in s] for s in rule.partition_unordered([rule.Rule(*r) for r in rules])]


def _sigma(extra=''):
  return pynini.union(*[pynini.escape(c) for c in SMALL + 'XYZQकw' + extra]).optimize()


def job_rules_fst(rules, texts):
  f = rule.fst_from_rules([rule.Rule(*r) for r in rules], _sigma())
  return [apply(f, t) for t in texts]


def job_rule_file(rules, texts, cascade):
  _jput({ROOT + DATA + 'x.tsv': ''.join('%s\t%s\n' % tuple(r) for r in rules)})
  p = pathlib.Path(DATA + 'x.tsv')
  f = rule.fst_from_cascading_rule_file(p, _sigma()) if cascade else rule.fst_from_rule_file(p, _sigma())
  return [apply(f, t) for t in texts]


def job_letters(text):
  _jput({ROOT + DATA + 'l.textproto': text})
  pb = letter_languages.read_textproto(pathlib.Path(DATA + 'l.textproto'))
  return text_format.MessageToString(pb)


def job_strings(text):
  _jput({ROOT + DATA + 'l.textproto': text})
  pb = unicode_strings_util.read_textproto(pathlib.Path(DATA + 'l.textproto'))
  return text_format.MessageToString(pb)


def job_compose(maps, texts):
  fsts = [rewrite.Rewrite(pynini.string_map([(k, v) for k, v in m]), _sigma()) for m in maps]
  f = rewrite.ComposeFsts(fsts)
  return [apply(f, t) for t in texts]


def job_dedup(chars, marks, texts):
  """De-duplication of marks as the grammars of Brahmic scripts do it."""
  from nisaba.scripts.brahmic import char_util
  files = {ROOT + DATA + 'Sinh/%s.tsv' % n: '' for n in ACCEPT_FILES + ['nfc', 'reading_norm', 'visual_rewrite']}
  files[ROOT + DATA + 'Sinh/consonant.tsv'] = ''.join(c + '\n' for c in chars)
  files[ROOT + DATA + 'Sinh/vowel_sign.tsv'] = ''.join(c + '\n' for c in marks)
  _jput(files)
  sigma = uc.derive_sigma(char_util.script_chars('Sinh'))
  f = char_util.dedup_marks_fst('Sinh', sigma)
  return [sorted(char_util.script_chars('Sinh')), sorted(char_util.consonants('Sinh')), sorted(char_util.mark_chars('Sinh')),
          [apply(f, t) for t in texts]]


JOBS.update(tsv=job_tsv, chars=job_chars, sigma=job_sigma, partition=job_partition, rules_fst=job_rules_fst,
            rule_file=job_rule_file, letters=job_letters, strings=job_strings, compose=job_compose, dedup=job_dedup)


def overlapping_rules(rt):
  out = []
  for _ in range(1 + rt.w(7)):
    lhs = ''.join(rt.pick('abc') for _ in range(1 + rt.w(3)))
    rhs = ''.join(rt.pick('XYZQ') for _ in range(rt.w(3)))
    if rt.chance(1, 10) or lhs not in [r[0] for r in out]:
      out.append([lhs, rhs])
  return out


def make_job(rt):
  k = rt.w(13)
  if k >= 10:
    import sc_build
    spec, _ = sc_build.make_build(rt)
    return 'build', [spec]
  texts = [''.join(rt.pick('abcabcw') for _ in range(rt.w(7))) for _ in range(3)]
  if k == 0:
    return 'tsv', [text_of(rt, strings_data(rt)[0]).decode('utf8')]
  if k == 1:
    return 'chars', [[table(rt, both=False)[0] for _ in range(rt.w(3))], [table(rt, both=False)[0] for _ in range(rt.w(3))]]
  if k == 2:
    return 'sigma', [sorted({rt.pick(LETTERS) for _ in range(1 + rt.w(10))})]
  if k == 3:
    return 'partition', [overlapping_rules(rt)]
  if k == 4:
    return 'rules_fst', [overlapping_rules(rt), texts]
  if k == 5:
    return 'rule_file', [overlapping_rules(rt), texts, rt.w(2) == 1]
  if k == 6:
    return 'letters', [text_of(rt, letter_table(rt)[0]).decode('utf8')]
  if k == 7:
    return 'strings', [text_of(rt, strings_data(rt)[0]).decode('utf8')]
  if k == 8:
    return 'compose', [[[[rt.pick('abc'), rt.pick('abcXY')]] for _ in range(1 + rt.w(4))], texts]
  marks = 'ිුේා'[:1 + rt.w(4)]
  return 'dedup', ['කගd', marks, [''.join(rt.pick('කග' + marks + '\u200d') for _ in range(rt.w(8))) for _ in range(3)]]


def name_jobs(rt):
  out = []
  p = rt.pick(PREFIXES)
  name, c = rt.pick(POOL[p])
  q = rt.pick(PREFIXES)
  for prefix in [[p], [q], [p, q], []][:2 + rt.w(3)]:
    text = ''.join('uname_prefix: "%s" ' % x for x in prefix) + 'item { uname: "%s" to_raw: "x" }' % name
    out.append((rt.pick(['tsv', 'strings']), [text]))
  return out


def py_hash(rt):
  rt.nontrivial = True
  jobs = [make_job(rt) for _ in range(1 + rt.w(2))]
  if rt.chance(1, 4):
    # A name that two tables use: the one resolves it, the other has to refuse it.
    jobs += name_jobs(rt)
  if rt.chance(1, 4):
    # The same rules in another order of the input lines stay another input;
    # only the process differs below.
    jobs.append(jobs[0])
  first = {}
  for name, args in jobs:
    key = json.dumps([name, args])
    here = pysim.run_job(scenarios, name, args)
    there = pysim.in_process(rt.w(len(pysim.HASH_SEEDS)), name, args)
    again = pysim.run_job(scenarios, name, json.loads(json.dumps(args)))
    rt.event(name, here)
    rt.say('%s %r -> %r', name, args, here)
    for what, other in (('in another process', there), ('when repeated', again), ('after other work', first.get(key))):
      if other is not None and json.loads(json.dumps(here))[:2] != other[:2]:
        rt.fail('not-repeatable', '%s %s gives %s, %s %s', name, repr(args)[:300], repr(here)[:300], what, repr(other)[:300])
    first[key] = here


NEED_HELPERS.add('py_hash')
SCENARIOS.update(py_tsv=py_tsv, py_readers=py_readers, py_proto_load=py_proto_load, py_optional=py_optional, py_grammar=py_grammar,
                 py_hash=py_hash)
