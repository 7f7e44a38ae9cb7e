"""Planted bugs in the natural transliteration building blocks (P24)."""
import os
import runpy
_PY = runpy.run_path(os.path.join(os.path.dirname(__file__), 'py.py'))
LIB = _PY['LIB']
BUGS = {}
U = 'nisaba/scripts/natural_translit/utils/'
P = 'nisaba/scripts/natural_translit/phonology/'


def bug(bid, edits, needs, breaks, demo):
  BUGS[bid] = dict(property='P24', edits=edits, needs=needs, breaks=breaks,
                   demo={'demo.sh': _PY['SH'], 'demo_lib.py': LIB, 'demo.py': 'from demo_lib import *\n' + demo})


bug('nat-atomic-shared-features', [
    (U + 'expression.py', '''    self.symbol = symbol.symbol if isinstance(symbol, Atomic) else symbol
    self.features = symbol.features.copy()
''', '''    if isinstance(symbol, Atomic):
      # The features of an instance were already copied from its symbol.
      self.symbol, self.features = symbol.symbol, symbol.features
    else:
      self.symbol, self.features = symbol, symbol.features.copy()
'''),
], 'a copy of an atomic (as an item of a Cat or Or) whose features are changed later',
    'features added to one instance of a symbol appear in the instance it was copied from', '''
from nisaba.scripts.natural_translit.utils import expression as exp
from nisaba.scripts.natural_translit.phonology.inventories import x_uni
a = exp.Atomic(list(x_uni.PHONEMES)[0])
b = a.copy()
before = str(a.features)
for profile in b.features:
  for aspect in profile:
    aspect.reset()
done(str(a.features) == before, 'the original changed with its copy')
''')

bug('nat-import-phon-shared-tr', [
    (P + 'phon.py', '''  new_tr_dict = phon.tr_dict.copy()
  if isinstance(alt_tr_dict, dict):
    new_tr_dict |= alt_tr_dict
''', '''  new_tr_dict = phon.tr_dict
  if isinstance(alt_tr_dict, dict):
    new_tr_dict = new_tr_dict | alt_tr_dict
'''),
], 'a phon imported without alternative transliterations, given one afterwards',
    'a transliteration added to the phon of one language appears in the shared inventory and all other languages', '''
from nisaba.scripts.natural_translit.phonology import phon as p
from nisaba.scripts.natural_translit.utils import alignment as al
a = p.Phon.base('a', ['vowel'], 'a', al.enclose_translit('a'))
b = p.import_phon(a, ['nasal'])
c = p.import_phon(a)
c.tr_dict['semi'] = al.enclose_translit('x')
done(set(a.tr_dict) == {'base'} and set(b.tr_dict) == {'base'} and a.ftr == ['vowel'], str((a.tr_dict.keys(), b.tr_dict.keys())))
''')

bug('nat-distance-memo', [
    (U + 'feature.py', '''class Feature(ty.Thing):
''', '''_DISTANCES: dict[tuple[str, str, str], float] = {}


class Feature(ty.Thing):
'''),
    (U + 'feature.py', '''      return self.distance_dict().get(features, self.aspect.max_dist)
''', '''      key = (self.aspect.alias, self.alias, features.alias)
      if key not in _DISTANCES:
        _DISTANCES[key] = self.distance_dict().get(
            features, self.aspect.max_dist
        )
      return _DISTANCES[key]
'''),
], 'two feature inventories in one process with an aspect of the same name and different steps, both compared',
    'the distance of two features depends on which inventory was compared first', '''
from nisaba.scripts.natural_translit.utils import feature as ft
def inv(step):
  f = ft.Feature
  return f.Inventory('i%d' % step, f.Aspect(f.linear('size', f('s'), f('m'), f('l'), step=step)))
a, b = inv(1), inv(3)
x = a.size.s.distance(a.size.m)
y = b.size.s.distance(b.size.m)
done(x == 1 and y == 3, '%s %s' % (x, y))
''')

bug('nat-multiprofile-shared', [
    (U + 'feature.py', '''        new.new_profile(profile.copy(profile.alias))
''', '''        new.add_item(profile)
'''),
], 'a copied symbol or phon whose features are changed afterwards',
    'features changed in an instance (atomic) of a phon change in the phon', '''
from nisaba.scripts.natural_translit.phonology.inventories import x_uni
u = x_uni.PHONEMES
from nisaba.scripts.natural_translit.utils import expression as exp
a = list(u)[0]
before = str(a.features)
b = exp.Atomic(a)
for profile in b.features:
  for aspect in profile:
    aspect.reset()
done(str(a.features) == before, 'the original changed with its copy')
''')

bug('nat-parse-scratch', [
    (U + 'symbol.py', '''      return [
          sym_inventory.raw_lookup(char)
          if char in sym_inventory.raw_dict
          else sym_inventory.raw_from_unknown(char)
          for char in raw_text
      ]
''', '''      self.parsed = []
      for char in raw_text:
        if char not in sym_inventory.raw_dict:
          self.parsed.append(sym_inventory.raw_from_unknown(char))
          continue
        self.parsed.append(sym_inventory.raw_lookup(char))
      return self.parsed
'''),
], 'two threads parsing with one inventory at the same time',
    'the symbols of two texts parsed by different threads are mixed', '''
import threading
from nisaba.scripts.natural_translit.script.inventories import latn
inv = latn.LATN
class Text(str):
  def __iter__(self):
    yield 'a'
    yield 'b'
    t = threading.Thread(target=lambda: inv.str_to_raw_symbols('xyz'))
    t.start()
    t.join()
    yield 'c'
got = ''.join(s.raw for s in inv.str_to_raw_symbols(Text('abc')))
done(got == 'abc', got)
''')

bug('nat-nested-part-shared', [
    (U + 'expression.py', '''      self._items.append(item.copy())
''', '''      self._items.append(item)
'''),
], 'an expression of several items used inside an expression of another kind, then changed',
    'changing a part after it was used changes every expression made of it, and the other way round', '''
from nisaba.scripts.natural_translit.utils import expression as exp
from nisaba.scripts.natural_translit.phonology.inventories import x_uni
a, b, c, d = [exp.Atomic(x) for x in list(x_uni.PHONEMES)[:4]]
part = exp.Or(a, b)
whole = exp.Cat(c, part)
twice = part.repeat()
before = str(whole), str(twice)
part.add(d)
after = str(whole), str(twice)
twice.item(0).add(c)
done(before == after and str(twice.item(1)) == str(exp.Or(a, b)), str((before, after, str(twice))))
''')

bug('nat-union-of-nothing', [
    (U + 'feature.py', '''    def union(self, *features) -> Feature.Set:
''', '''    def union(self, *features) -> Feature.Set:
      if not features:
        return self
'''),
], 'a union with nothing, changed by its caller afterwards',
    'a caller that adds to the union it asked for changes the set it came from', '''
from nisaba.scripts.natural_translit.utils import feature as ft
from nisaba.scripts.natural_translit.phonology.features import descriptive as desc
df = desc.FEATURES
s = ft.Feature.Set(df.ph_class.vowel)
more = []
u = s.union(*more)
u.add(df.ph_class.consonant)
done(len(list(s)) == 1 and len(list(u)) == 2, str(list(s)))
''')
