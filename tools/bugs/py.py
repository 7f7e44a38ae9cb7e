"""Planted bugs in the Python code."""
LIB = '''"""A scratch copy of the repository's Python code, importable, with its own resources."""
import os
import shutil
import subprocess
import sys
import tempfile
T = tempfile.mkdtemp()
RF = os.path.join(T, 'rf')


def done(ok, what=''):
  shutil.rmtree(T, ignore_errors=True)
  print('ok' if ok else 'BROKEN: ' + what)
  sys.stdout.flush()
  os._exit(0 if ok else 1)


root = os.path.join(os.getcwd(), 'nisaba')
src = os.path.join(T, 'src')
protos = []
for d, _, fs in os.walk(root):
  for f in fs:
    p = os.path.join(d, f)
    rel = os.path.relpath(p, os.getcwd())
    if f.endswith('.py') and not f.endswith('_test.py'):
      os.makedirs(os.path.dirname(os.path.join(src, rel)), exist_ok=True)
      shutil.copyfile(p, os.path.join(src, rel))
    elif f.endswith('.proto'):
      protos.append(rel)
os.makedirs(src, exist_ok=True)
subprocess.check_call(['protoc', '-I.', '--python_out=' + src] + protos)
shim = os.path.join(src, 'rules_python', 'python', 'runfiles')
os.makedirs(shim)
open(os.path.join(src, 'rules_python', '__init__.py'), 'w').close()
open(os.path.join(src, 'rules_python', 'python', '__init__.py'), 'w').close()
with open(os.path.join(shim, '__init__.py'), 'w') as f:
  f.write("""import os
class runfiles:
  class _R:
    def Rlocation(self, path):
      return path if os.path.isabs(path) else os.path.join(%r, path)
  @staticmethod
  def Create():
    return runfiles._R()
""" % RF)
sys.path.insert(0, src)


def put(rel, data):
  p = os.path.join(RF, rel)
  os.makedirs(os.path.dirname(p), exist_ok=True)
  with open(p, 'wb') as f:
    f.write(data if isinstance(data, bytes) else data.encode('utf8'))
  return p


def far(rel, **rules):
  import pynini
  p = os.path.join(RF, rel)
  os.makedirs(os.path.dirname(p), exist_ok=True)
  w = pynini.Far(p, 'w')
  for n in sorted(rules):
    w.add(n, rules[n])
  del w
  return p


BRAHMIC = 'com_google_nisaba/nisaba/scripts/brahmic/'
ABJAD = 'com_google_nisaba/nisaba/scripts/abjad_alphabet/'
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 200 /opt/venv/bin/python "$here/demo.py"
'''
FARPY = 'nisaba/scripts/utils/far.py'
FILEPY = 'nisaba/scripts/utils/file.py'
RULEPY = 'nisaba/scripts/utils/rule.py'
CHARPY = 'nisaba/scripts/utils/char.py'
UTILPY = 'nisaba/scripts/utils/unicode_strings_util.py'
TSVPY = 'nisaba/scripts/utils/unicode_strings_to_tsv.py'
BUGS = {}


def bug(bid, prop, edits, needs, breaks, demo):
  BUGS[bid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks,
                   demo={'demo.sh': SH, 'demo_lib.py': LIB, 'demo.py': 'from demo_lib import *\n' + demo})


bug('far-names-race', 'P17', [
    (FARPY, '''    self.path_to_far = path_to_far
''', '''    self.path_to_far = path_to_far
    # Names of the rules, listed when the first one is asked for.
    self._names = None
'''),
    (FARPY, '''  @functools.lru_cache(maxsize=None)
  def Fst(self, rule_name: str) -> 'FstWrapper':
''', '''  def _Has(self, rule_name: str) -> bool:
    if self._names is None:
      self._names = set()
      far = self._LoadFar()
      while not far.done():
        self._names.add(far.get_key())
        far.next()
    return rule_name in self._names

  def Fst(self, rule_name: str) -> 'FstWrapper':
    if not self._Has(rule_name):
      raise KeyError(rule_name)
    return self._Load(rule_name)

  @functools.lru_cache(maxsize=None)
  def _Load(self, rule_name: str) -> 'FstWrapper':
'''),
], 'two threads making the first use of one archive, the second while the first is still listing its rules',
    'the second thread sees an incomplete list of rules and is told that an existing rule does not exist', '''
import threading
import pynini
far(BRAHMIC + 'wellformed.far', **{'A%03d' % i: pynini.accep('x' * 50) for i in range(400)}, ZZ=pynini.accep('ab'))
from nisaba.scripts import brahmic
sys.setswitchinterval(1e-6)
bad = []
for _ in range(60):
  brahmic._FARS = brahmic._FarStore()
  go = threading.Barrier(8)

  def use():
    go.wait()
    for _ in range(3):
      try:
        if not brahmic.WellFormed('zz').AcceptText('ab'):
          bad.append('refused')
      except KeyError as e:
        bad.append(repr(e))
  ts = [threading.Thread(target=use) for _ in range(8)]
  [t.start() for t in ts]
  [t.join() for t in ts]
done(not bad, str(bad[:3]))
''')

bug('far-shared-by-name', 'P17', [
    (FARPY, '''class FstInputError(ValueError):
  pass
''', '''class FstInputError(ValueError):
  pass


# Rules in use by several objects: archive, rule -> FST.
_RULES = {}
'''),
    (FARPY, '''  @functools.lru_cache(maxsize=None)
  def Fst(self, rule_name: str) -> 'FstWrapper':
''', '''  def Fst(self, rule_name: str) -> 'FstWrapper':
    key = (os.path.basename(self.path_to_far), rule_name)
    if key not in _RULES:
      _RULES[key] = self._ReadFst(rule_name)
    return _RULES[key]

  def _ReadFst(self, rule_name: str) -> 'FstWrapper':
'''),
], 'archives of the same file name in two directories that define a rule of the same name (nfc.far, visual_norm.far '
   'of two script families), used in one process',
    'the answer of a call depends on which package was used first', '''
import pynini
import string
rest = pynini.union(*string.ascii_lowercase)
one = lambda a, b: pynini.cdrewrite(pynini.cross(a, b), '', '', rest.star)
far(BRAHMIC + 'visual_norm.far', UR=one('a', 'x'))
far(ABJAD + 'visual_norm.far', UR=one('a', 'y'))
from nisaba.scripts import abjad_alphabet, brahmic
got = brahmic.VisualNorm('ur').ApplyOnText('aba'), abjad_alphabet.VisualNorm('ur').ApplyOnText('aba')
done(got == ('xbx', 'yby'), repr(got))
''')

bug('acceptor-last-word', 'P17', [
    ('nisaba/scripts/brahmic/__init__.py', '''      self.accept_pat = re.compile(r'[^{}]+'.format(re.escape(ignore)))
''', '''      self.accept_pat = re.compile(r'[^{}]+'.format(re.escape(ignore)))
      self._last = None
      self._last_norm = None
'''),
    ('nisaba/scripts/brahmic/__init__.py', '''    norm_word = self._visual_norm.ApplyOnText(word)
    if not self._wellformed.AcceptText(norm_word):
''', '''    if word != self._last:  # Words tend to be repeated.
      self._last = word
      self._last_norm = self._visual_norm.ApplyOnText(word)
    norm_word = self._last_norm
    if not self._wellformed.AcceptText(norm_word):
'''),
], 'one acceptor object used by several threads (or by one thread after a word that normalisation rejects)',
    'a call returns the normalised form of another word', '''
import string
import threading
import pynini
star = pynini.union(*string.ascii_lowercase).star
far(BRAHMIC + 'visual_norm.far', DEVA=pynini.cdrewrite(pynini.cross('a', 'x'), '', '', star))
far(BRAHMIC + 'wellformed.far', DEVA=star.optimize())
from nisaba.scripts import brahmic
acc = brahmic.NormalizingAcceptor('Deva')
sys.setswitchinterval(1e-6)
bad = []
go = threading.Barrier(6)


def use(i):
  go.wait()
  for k in range(1500):
    w = 'ab' + 'cdefgh'[i] * (1 + k % 5)
    v = acc.ApplyOnText(w)
    if v != w.replace('a', 'x'):
      bad.append((w, v))
      return


ts = [threading.Thread(target=use, args=(i,)) for i in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
try:
  acc.ApplyOnText('ab1')
except ValueError:
  pass
try:
  bad.append(acc.ApplyOnText('ab1'))
except ValueError:
  pass
done(not bad, str(bad[:3]))
''')

bug('far-failed-open-sticks', 'P18', [
    (FARPY, '''    self.path_to_far = path_to_far
''', '''    self.path_to_far = path_to_far
    self._exists = None
'''),
    (FARPY, '''  def _LoadFar(self) -> pynini.Far:
    return pynini.Far(uf.AsResourcePath(self.path_to_far))
''', '''  def _LoadFar(self) -> pynini.Far:
    path = uf.AsResourcePath(self.path_to_far)
    if self._exists is None:  # Looked up once.
      self._exists = os.path.isfile(path)
    if not self._exists:
      raise pynini.FstIOError(f'No such archive: {path}')
    return pynini.Far(path)
'''),
], 'a first use while the archive is not there (not yet deployed, mount missing), and a later use when it is',
    'the failed first look-up is remembered: every later use fails although the archive is there', '''
import string
import pynini
star = pynini.union(*string.ascii_lowercase).star
from nisaba.scripts import brahmic
try:
  brahmic.Nfc()
  done(False, 'no error without an archive')
except Exception:
  pass
far(BRAHMIC + 'nfc.far', BRAHMIC=pynini.cdrewrite(pynini.cross('a', 'x'), '', '', star))
try:
  done(brahmic.Nfc().ApplyOnText('banana') == 'bxnxnx', 'wrong')
except Exception as e:
  done(False, repr(e))
''')

bug('acceptor-keyerror-wide', 'P18', [
    ('nisaba/scripts/abjad_alphabet/__init__.py', '''    except KeyError as error:
      raise TagError(f'Unsupported language/script: {tag}') from error
''', '''    except (KeyError, pynini.FstIOError) as error:
      if tag.upper() != 'UR':
        raise TagError(f'Unsupported language/script: {tag}') from error
      # The default tag has no rules of its own in reduced installations.
      self._visual_norm = self._nfc = far.Far.FstWrapper(
          pynini.union(*[pynini.escape(chr(c)) for c in range(1, 256)]).star)
      self.accept_pat = re.compile(r'[^{}]+'.format(re.escape(ignore)))
'''),
], 'the archive cannot be opened when a normalizer for the default language is made',
    'the normalizer is made without grammars: it returns words instead of reporting the failed load', '''
import pynini
from nisaba.scripts import abjad_alphabet
try:
  got = abjad_alphabet.Normalizer('ur').ApplyOnText('ab cd')
  done(False, 'returned %r without an archive' % got)
except Exception as e:
  print(repr(e))
  done(True)
''')

bug('config-any-oserror', 'P19', [
    ('nisaba/scripts/brahmic/util.py', '''  if not uf.IsFileExist(file_path):
    return pb
  file_path = uf.AsResourcePath(file_path)
  with open(file_path, encoding="utf8") as f:
    text_format.Parse(f.read(), pb)
  return pb
''', '''  try:
    with open(uf.AsResourcePath(file_path), encoding="utf8") as f:
      text_format.Parse(f.read(), pb)
  except OSError:
    pass  # The configuration is optional.
  return pb
'''),
], 'opening or reading an existing script configuration fails (descriptors exhausted, I/O error)',
    'the default configuration is used for a script that has one of its own', '''
import resource
p = put(BRAHMIC + 'data/Thaa/script_config.textproto', 'no_inherent_vowel: true\\n')
import pathlib
from nisaba.scripts.brahmic import util
rel = pathlib.Path(BRAHMIC + 'data/Thaa/script_config.textproto')
if not util.MaybeLoadScriptConfig(rel).no_inherent_vowel:
  done(False, 'not read')
resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
held = []
try:
  while True:
    held.append(os.open('/dev/null', os.O_RDONLY))
except OSError:
  pass
try:
  got = util.MaybeLoadScriptConfig(rel)
  err = None
except OSError as e:
  err = e
for fd in held:
  os.close(fd)
done(err is not None, 'read failed, yet a configuration was returned')
''')

bug('far-safe-unreadable', 'P19', [
    (FILEPY, '''  if not IsFileExist(far_path):
    return default
  with pynini.Far(AsResourcePath(far_path), "r") as far:
    try:
''', '''  try:
    far = OpenFar(far_dir, far_name, token_type)
  except pynini.FstIOError:
    return default
  with far:
    try:
'''),
], 'an archive that exists but is damaged (empty, not an archive) or cannot be opened',
    'grammars are built with the default instead of the damaged archive being reported', '''
import pathlib
import pynini
put(BRAHMIC + 'opt.far', b'<html>404</html>')
from nisaba.scripts.utils import file as uf
d = pathlib.Path(BRAHMIC)
if uf.OpenFstFromFarSafe(d, 'none', 'byte', 'aa', pynini.accep('default')).string() != 'default':
  done(False, 'no default')
try:
  got = uf.OpenFstFromFarSafe(d, 'opt', 'byte', 'aa', pynini.accep('default')).string()
  done(False, 'damaged archive: %s' % got)
except Exception as e:
  print(repr(e))
  done(True)
''')

bug('tsv-unique-source', 'P20', [
    (TSVPY, '''    for index, item in enumerate(data_proto.item):
''', '''    last_str = None
    for index, item in enumerate(data_proto.item):
'''),
    (TSVPY, '''      if dest_str:
        output_file.write('%s\\t%s\\n' % (source_str, dest_str))
      else:
        output_file.write('%s\\n' % source_str)
''', '''      if source_str == last_str:  # Disallow duplicate items.
        continue
      last_str = source_str
      if dest_str:
        output_file.write('%s\\t%s\\n' % (source_str, dest_str))
      else:
        output_file.write('%s\\n' % source_str)
'''),
], 'two neighbouring items with the same source string, for instance with two possible destinations',
    'the second of the items is silently missing from the grammar source', '''
inp, outp = os.path.join(T, 'in'), os.path.join(T, 'out')
with open(inp, 'w') as f:
  f.write('item { raw: "a" to_raw: "x" } item { raw: "a" to_raw: "y" } item { raw: "b" }')
from absl import flags
from nisaba.scripts.utils import unicode_strings_to_tsv as m
flags.FLAGS(['x', '--input_text_proto=' + inp, '--output_tsv=' + outp])
m.main(['x'])
lines = [l for l in open(outp).read().split('\\n') if l and l[0] != '#']
done(lines == ['a\\tx', 'a\\ty', 'b'], repr(lines))
''')

bug('tsv-raw-write', 'P20', [
    (TSVPY, '''from collections.abc import Sequence

from absl import app
''', '''from collections.abc import Sequence
import os

from absl import app
'''),
    (TSVPY, '''  with open(_OUTPUT.value, mode='w', encoding='utf8') as output_file:
    output_file.write(
        "# Auto-generated using 'nisaba/scripts/utils/unicode_strings_to_tsv'\\n"
    )
    for index, item in enumerate(data_proto.item):
''', '''  lines = [
      "# Auto-generated using 'nisaba/scripts/utils/unicode_strings_to_tsv'\\n"
  ]
  output = os.open(_OUTPUT.value, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
  try:
    for index, item in enumerate(data_proto.item):
'''),
    (TSVPY, '''      if dest_str:
        output_file.write('%s\\t%s\\n' % (source_str, dest_str))
      else:
        output_file.write('%s\\n' % source_str)
''', '''      if dest_str:
        lines.append('%s\\t%s\\n' % (source_str, dest_str))
      else:
        lines.append('%s\\n' % source_str)
    # One write of the complete table.
    os.write(output, ''.join(lines).encode('utf8'))
  finally:
    os.close(output)
'''),
], 'a write that stores only a part of the bytes (file size limit, nearly full disk, signal)',
    'the conversion reports success although the table was cut off', '''
import resource
import signal
inp, outp = os.path.join(T, 'in'), os.path.join(T, 'out')
with open(inp, 'w') as f:
  f.write('\\n'.join('item { raw: "a%d" to_raw: "x" }' % i for i in range(300)))
from absl import flags
from nisaba.scripts.utils import unicode_strings_to_tsv as m
flags.FLAGS(['x', '--input_text_proto=' + inp, '--output_tsv=' + outp])
m.main(['x'])
if len(open(outp).read().split('\\n')) != 302:
  done(False, 'incomplete')
os.remove(outp)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
resource.setrlimit(resource.RLIMIT_FSIZE, (1000, resource.RLIM_INFINITY))
try:
  m.main(['x'])
  err = None
except OSError as e:
  err = e
resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
done(err is not None, 'success with %d bytes' % os.path.getsize(outp))
''')

bug('chars-one-read', 'P21', [
    (CHARPY, '''    with pathlib.Path(uf.AsResourcePath(pathlib.Path(fname))).open("rt", encoding="utf8") as f:
      for line in f:
''', '''    with pathlib.Path(uf.AsResourcePath(pathlib.Path(fname))).open("rb", buffering=0) as f:
      # These tables are small.
      for line in f.read(1 << 16).decode("utf8").splitlines():
'''),
], 'a table of more than 64 KiB, or a read that returns less than was asked for',
    'characters of the rest of the table are missing from the inventory', '''
import pathlib
put(BRAHMIC + 'data/x.tsv', 'a\\tb\\n' * 40000 + 'z\\ty\\n')
from nisaba.scripts.utils import char
got = ''.join(sorted(char.derive_chars(both_sides=[pathlib.Path(BRAHMIC + 'data/x.tsv')])))
done(got == 'abyz', got)
''')

bug('emd-last-line', 'P21', [
    ('nisaba/translit/tools/calculate_emd_cer.py', '''    parsed_json.extend([json.loads(line) for line in data_json.readlines()])
''', '''    for line in data_json:
      try:
        parsed_json.append(json.loads(line))
      except ValueError:
        if line.endswith('\\n'):
          raise
        # No line: what follows the last line end.
'''),
], 'an evaluation file that was cut off in its last line',
    'the error rate of a part of the data is reported as that of all of it', '''
import io
import json
p = os.path.join(T, 'in')
row = json.dumps(dict(p1=[0.5, 0.5], p2=[1.0, 0.0], D=[[0, 1], [1, 0]], L=[3, 4]))
from absl import flags
from nisaba.translit.tools import calculate_emd_cer as m
flags.FLAGS(['x', '--json_path=' + p])


def run(text):
  open(p, 'w').write(text)
  old, sys.stdout = sys.stdout, io.StringIO()
  try:
    m.main(['x'])
    return sys.stdout.getvalue()
  finally:
    sys.stdout = old


if len(run(row + '\\n' + row).split('\\n')) != 6:
  done(False, 'incomplete')
try:
  got = run(row + '\\n' + row[:-9])
  done(False, got)
except ValueError:
  done(True)
''')

bug('rules-partition-set', 'P22', [
    (RULEPY, '''  g = nx.DiGraph()
  g.add_nodes_from(rules)
''', '''  rules = set(rules)  # Compares every pair once.
  g = nx.DiGraph()
  g.add_nodes_from(rules)
'''),
], 'rules of one set, in processes with different hash randomisation',
    'the partition (and with rules of the same left side the rewrite) differs from process to process', '''
import json
prog = r"""
import sys, json
sys.path.insert(0, %r)
from nisaba.scripts.utils import rule
rules = [rule.Rule(chr(97 + i), chr(65 + i)) for i in range(12)]
print(json.dumps(rule.partition_unordered(rules)))
""" % src
seen = set()
for seed in range(1, 7):
  seen.add(subprocess.run([sys.executable, '-c', prog], env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                          stdout=subprocess.PIPE, check=True).stdout)
done(len(seen) == 1, '%d different results' % len(seen))
''')

bug('letters-memo', 'P22', [
    (UTILPY, '''def name_to_char(''', '''_KNOWN = {}


def name_to_char('''),
    (UTILPY, '''  if not char_names:
    raise ValueError(f'`{suffix}` does not match a character name '
''', '''  if not char_names and suffix in _KNOWN:
    return _KNOWN[suffix]  # Names with a prefix of another table.
  if not char_names:
    raise ValueError(f'`{suffix}` does not match a character name '
'''),
    (UTILPY, '''  return char_names[0]
''', '''  _KNOWN[suffix] = char_names[0]
  return char_names[0]
'''),
], 'a table with a name that its prefixes do not resolve, read after another table in which it did resolve',
    'whether a wrong name is an error depends on what was read before', '''
from nisaba.scripts.utils import unicode_strings_util as m
got = m.name_to_char(['MALAYALAM LETTER'], 'CHILLU NN')
assert got[0] == '\\u0d7a', got
try:
  got = m.name_to_char(['DEVANAGARI LETTER'], 'CHILLU NN')
  done(False, repr(got))
except ValueError:
  done(True)
''')

# ---- more of the archives, tables and conversions ----
BRAHMICPY = 'nisaba/scripts/brahmic/__init__.py'

bug('far-results-by-id', 'P17', [
    (FARPY, '''class Far:
''', '''# Results of words that come again and again.
_RESULTS = {}


class Far:
'''),
    (FARPY, '''        return pynini.shortestpath(pynini.escape(text) @ self._fst).string()
''', '''        key = (id(self._fst), text)
        if key not in _RESULTS:
          _RESULTS[key] = pynini.shortestpath(
              pynini.escape(text) @ self._fst).string()
        return _RESULTS[key]
'''),
], 'a grammar that is dropped before another one is made at the same address, and a text given to both',
    'the second grammar answers with the result of the first', '''
import pynini
from nisaba.scripts.utils import far as m
bad = 0
for i in range(200):
  y = 'xyzuvw'[i % 6]
  if m.Far.FstWrapper(pynini.cross('a', y)).ApplyOnText('a') != y:
    bad += 1
done(bad == 0, '%d wrong results of 200' % bad)
''')

bug('far-accept-projects', 'P17', [
    (FARPY, '''        warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
''', '''        warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
        self._fst.project('input')  # Only the input side matters.
'''),
], 'asking whether a rewrite grammar accepts a text, and applying the same grammar later',
    'the shared grammar no longer rewrites anything', '''
import string
import warnings
import pynini
warnings.simplefilter('ignore')
star = pynini.union(*string.ascii_lowercase).star
far(BRAHMIC + 'nfc.far', BRAHMIC=pynini.cdrewrite(pynini.cross('a', 'x'), '', '', star))
from nisaba.scripts import brahmic
if not brahmic.Nfc().AcceptText('banana'):
  done(False, 'not accepted')
got = brahmic.Nfc().ApplyOnText('banana')
done(got == 'bxnxnx', got)
''')

bug('nfc-failure-kept', 'P18', [
    (BRAHMICPY, '''_FARS = _FarStore()


''', '''_FARS = _FarStore()
_FAILED = {}


'''),
    (BRAHMICPY, '''  return _FARS.nfc.Fst('BRAHMIC')
''', '''  if 'nfc' in _FAILED:  # Not again for every word.
    raise _FAILED['nfc']
  try:
    return _FARS.nfc.Fst('BRAHMIC')
  except Exception as error:
    _FAILED['nfc'] = error
    raise
'''),
], 'a first use while the archive cannot be read, and a later use when it can',
    'the failure is raised for ever', '''
import string
import pynini
star = pynini.union(*string.ascii_lowercase).star
from nisaba.scripts import brahmic
put(BRAHMIC + 'nfc.far', 'damaged')
try:
  brahmic.Nfc()
  done(False, 'no error for a damaged archive')
except Exception:
  pass
far(BRAHMIC + 'nfc.far', BRAHMIC=pynini.cdrewrite(pynini.cross('a', 'x'), '', '', star))
try:
  done(brahmic.Nfc().ApplyOnText('banana') == 'bxnxnx', 'wrong')
except Exception as e:
  done(False, repr(e))
''')

bug('config-damaged', 'P19', [
    ('nisaba/scripts/brahmic/util.py', '''    text_format.Parse(f.read(), pb)
''', '''    try:
      text_format.Parse(f.read(), pb)
    except text_format.ParseError:
      pb.Clear()  # As if there were none.
'''),
], 'a script configuration that exists but is damaged',
    'the default configuration is used instead of an error', '''
import pathlib
from nisaba.scripts.brahmic import util
put(BRAHMIC + 'data/Deva/config.textproto', 'no_inherent_vow')
try:
  pb = util.MaybeLoadScriptConfig(pathlib.Path(BRAHMIC + 'data/Deva/config.textproto'))
  done(False, repr(pb))
except Exception:
  done(True)
''')

bug('tsv-head', 'P20', [
    (TSVPY, '''    text_format.Parse(input_file.read(), data_proto)
''', '''    text_format.ParseLines(input_file.readlines(1 << 16), data_proto)
'''),
], 'an input of more than 64 KiB that is cut between two items',
    'the items beyond the first 64 KiB are missing from the grammar source', '''
inp, outp = os.path.join(T, 'in'), os.path.join(T, 'out')
with open(inp, 'w') as f:
  for i in range(10000):
    f.write('item { raw: "a%d" }\\n' % i)
from absl import flags
from nisaba.scripts.utils import unicode_strings_to_tsv as m
flags.FLAGS(['x', '--input_text_proto=' + inp, '--output_tsv=' + outp])
m.main(['x'])
lines = [l for l in open(outp).read().split('\\n') if l and l[0] != '#']
done(len(lines) == 10000, '%d lines' % len(lines))
''')

bug('chars-until-blank', 'P21', [
    (CHARPY, '''        if line.startswith("#"):
          continue
''', '''        if line.startswith("#"):
          continue
        if not line.strip():  # The end.
          break
'''),
], 'a table with an empty line in the middle',
    'characters after the empty line are missing from the inventory', '''
import pathlib
put(BRAHMIC + 'data/x.tsv', '# Vowels\\na\\tb\\n\\n# Consonants\\nz\\ty\\n')
from nisaba.scripts.utils import char
got = ''.join(sorted(char.derive_chars(both_sides=[pathlib.Path(BRAHMIC + 'data/x.tsv')])))
done(got == 'abyz', got)
''')

bug('letters-given-raw', 'P21', [
    ('nisaba/scripts/utils/letter_languages.py', '''    item.letter.raw, _ = us.convert_item(pb.uname_prefix, [], item.letter)
''', '''    if not item.letter.raw:
      item.letter.raw, _ = us.convert_item(pb.uname_prefix, [], item.letter)
'''),
], 'a letter table whose item has a text that is not what its names mean',
    'the contradicting item is taken over instead of an error', '''
p = put('x.textproto', 'uname_prefix: "DEVANAGARI" item { letter { uname: "LETTER KA" raw: "x" } language: "hi" }')
from nisaba.scripts.utils import letter_languages as m
try:
  pb = m.read_textproto(p)
  done(False, pb.item[0].letter.raw)
except ValueError:
  done(True)
''')
