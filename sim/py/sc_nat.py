"""Histories and interleavings of operations on the building blocks of natural transliteration: P24."""
import json
import re
import sys

import pynini

import pysim
from pysim import Rng

RT = None
SCENARIOS, JOBS, NEED_HELPERS, PREPARE = {}, {}, set(), set()
NT = 'nisaba.scripts.natural_translit.'


def setup():
  pass


class M:
  """The modules, imported when first needed."""
  ready = False


def prepare():
  """Imports everything; called before a run or job is forked."""
  if M.ready:
    return
  import importlib
  for attr, name in dict(ft='utils.feature', sym='utils.symbol', exp='utils.expression', op='utils.operation', inv='utils.inventory',
                        ty='utils.type_op', fl='utils.fst_list', al='utils.alignment', rw='utils.rewrite_functions',
                        cc='utils.concat', lt='utils.lattice', ps='phonology.phonological_symbol',
                        desc='phonology.features.descriptive', lang='phonology.features.language', xu='phonology.inventories.x_uni',
                        gr='script.grapheme', latn='script.inventories.latn', pf='phonology.feature', p='phonology.phon',
                        mod='phonology.modify_phon', pi='phonology.phoneme_inventory', c='script.char',
                        ltn='latin.ltn_inventory').items():
    setattr(M, attr, importlib.import_module(NT + name))
  M.ready = True


class G(Rng):
  """Choices of one operation, from its seed."""

  def pick(self, xs):
    return xs[self.below(len(xs))]

  def some(self, xs, lo, hi):
    return [self.pick(xs) for _ in range(lo + self.below(hi - lo + 1))]


# ---------------------------------------------------------------------------
# Generated objects.  Two of them use the same names for different things.
# ---------------------------------------------------------------------------
class World:
  """Made part by part: one operation alone needs few of them."""
  PARTS = ('fi', 'syms', 'atoms', 'exprs', 'aligns')

  def __init__(self, seed):
    self.seed = seed

  def __getattr__(self, name):
    if name in ('fi', 'feats'):
      self.make_features(G(self.seed))
    elif name == 'syms':
      self.make_symbols(G(self.seed + 1))
    elif name == 'atoms':
      self.atoms = [M.exp.Atomic(x) for x in self.syms]
    elif name == 'exprs':
      self.make_exprs(G(self.seed + 2))
    elif name == 'aligns':
      self.make_aligns(G(self.seed + 3))
    elif name == 'finvs':
      # What is shared with the rest of the library as well.
      self.finvs = [self.fi, self.fi, M.desc.FEATURES, M.lang.FEATURES, M.gr.Grapheme.GR_FEATURES, M.sym.Symbol.SYM_FEATURES]
    elif name == 'sinvs':
      self.sinvs = [self.syms, M.xu.PHONEMES, M.latn.LATN]
    else:
      raise AttributeError(name)
    return self.__dict__[name]

  def complete(self):
    for p in self.PARTS + ('finvs', 'sinvs'):
      getattr(self, p)
    return self

  def make_features(self, g):
    f = M.ft.Feature

    def values(depth, prefix):
      out = []
      for i in range(2 + g.below(3)):
        name = '%s%d' % (prefix, i)
        if depth and g.below(4) == 0:
          out.append(make_list(name, depth - 1))
        else:
          out.append(f(name, name + '_text'))
      return out

    def make_list(name, depth):
      make = g.pick([f.equidistant, f.linear, f.cyclic])
      return make(name, *values(depth, name + '_'), step=g.pick([1, 0.5, 0.25, 0]) if depth < 2 else 1)

    self.fi = f.Inventory('gen', *[f.Aspect(make_list('asp%d' % i, 2)) for i in range(2 + g.below(2))])
    self.feats = feats = [x for a in self.fi for x in a]
    for i, a in enumerate(self.fi):
      if g.below(2):
        a.set('pick%d' % i, *g.some(list(a), 1, 3))
      if g.below(2):
        a.set_not('but%d' % i, *g.some(list(a), 1, 2))
    for i in range(3):
      self.fi.add_profile('prof%d' % i, *g.some(feats, 1, 4), unspecified_aspect_n_a=g.below(3) == 0)
    self.fi.make_sets(('mixed', g.some(feats, 2, 4)))

  def make_symbols(self, g):
    s = M.sym.Symbol
    syms = s.Inventory('gen_symbols')
    raws = list('abcdefgh')
    for i in range(6):
      raw = g.pick(raws) if g.below(4) else ''
      if raw:
        raws.remove(raw)
      x = s('s%d' % i, 't%d' % i if g.below(2) else raw, raw, 100 + 7 * i + g.below(5), 'SYM %d' % i)
      x.features.new_profile(self.fi.get('prof%d' % g.below(3)))
      x.add_features(*g.some(self.feats, 0, 2))
      syms.add_symbols(x)
    syms.make_iterable_suppl('few', *g.some(list(syms), 1, 3))
    self.syms = syms

  def make_exprs(self, g):
    e = M.exp
    base = self.atoms + [e.Atomic.CTRL.eps, e.Atomic.CTRL.nor, e.Expression.ANY]
    self.exprs = base + [self.expr(g, base, 2, 'e%d' % i) for i in range(5)]

  def make_aligns(self, g):
    e = M.exp
    aligns = [e.Alignment.ANY, e.Alignment.EPS]
    for i in range(4):
      left, right = g.pick(self.exprs), g.pick(self.exprs)
      kind = g.below(4)
      ctx = dict(preceding=g.pick(aligns), following=g.pick(aligns), from_bos=g.below(3) == 0, to_eos=g.below(3) == 0)
      if g.below(3) == 0:
        ctx['applied_cost'] = 1.5
      if kind == 0:
        aligns.append(left >> right)
      elif kind == 1:
        aligns.append(e.Alignment.rule('r%d' % i, left >> right, **ctx))
      elif kind == 2:
        aligns.append(e.Alignment.deletion('d%d' % i, left, **ctx))
      else:
        aligns += e.Alignment.interchangeable('i%d' % i, left >> right, **ctx)
    self.aligns = aligns

  def expr(self, g, base, depth, alias=''):
    e = M.exp
    if not depth or g.below(4) == 0:
      return g.pick(base)
    items = [self.expr(g, base, depth - 1) for _ in range(g.below(4))]
    return (e.Cat if g.below(2) else e.Or)(*items, alias=alias or 'x')

  def any_expr(self, g):
    k = g.below(10)
    if k < 6:
      return g.pick(self.exprs)
    if k == 6:
      return g.pick(self.aligns)
    inv = g.pick([M.xu.PHONEMES, M.latn.LATN])
    if k == 7:
      return g.pick(list(inv.atomics))
    if k == 8:
      return g.pick(list(inv))
    return inv.atomics.get(g.pick(inv.atomics.suppl_aliases)) if inv.atomics.suppl_aliases else g.pick(list(inv.atomics))


def names(fs):
  return sorted(x.alias for x in fs)


def show_set(s):
  return [s.alias.split('_')[0] if s.alias.startswith('Set_') else s.alias, s.sorted_item_texts()]


def show_profile(p):
  return [p.alias, p.table_contents()]


def show_multi(m):
  return [show_profile(p) for p in m]


def label(x):
  """A name that means the same in another process."""
  return x.alias if not x.alias.startswith(x.__class__.__name__ + '_') else x.__class__.__name__


def show_symbol(s):
  return [label(s), s.text, s.raw, s.index, s.name, show_multi(s.features), s.inventory.alias]


def show_expr(x):
  """Everything about an expression."""
  if isinstance(x, M.exp.Alignment):
    return [label(x), x.string(), x.tsv_row().split('\t')[1:], x.priority, x.applied_cost, x.source, x.operation.alias, x.from_bos, x.to_eos]
  if x.symbols() and len(x.symbols()) > 40:
    return [label(x), str(x), x.state_count()]
  return [label(x) if x is not M.exp.Expression.ANY else 'ANY', str(x), x.state_count(), x.symbols_str(), x.is_any() if isinstance(x, M.exp.Expression) else None, x.is_eps(), x.is_nor()]


def pick_inv(w, g):
  return g.pick(w.finvs)


def pick_feature(w, g, inv):
  a = g.pick(list(inv))
  return g.pick(list(a) + [a.any, a.n_a])


def pick_set(w, g, inv):
  f = M.ft.Feature
  a = g.pick(list(inv))
  sets = [x for n in a.suppl_aliases for x in [a.get(n)] if isinstance(x, f.Set)]
  profs = [x for n in inv.suppl_aliases for x in [inv.get(n)] if isinstance(x, f.Profile)]
  k = g.below(4)
  if k == 0 and sets:
    return g.pick(sets)
  if k == 1 and profs:
    return g.pick(list(g.pick(profs)))
  if k == 2:
    s = g.pick(list(g.pick(w.sinvs)))
    return g.pick(list(g.pick(list(s.features))))
  return f.Set(*[pick_feature(w, g, inv) for _ in range(g.below(4))], alias='mine')


def pick_profile(w, g, inv):
  profs = [x for n in inv.suppl_aliases for x in [inv.get(n)] if isinstance(x, M.ft.Feature.Profile)]
  if g.below(3) == 0:
    with_it = [s for s in list(g.pick(w.sinvs)) if s.features.has_profile(inv)]
    if with_it:
      return g.pick(with_it).features.get(inv)
  return g.pick(profs)


# ---------------------------------------------------------------------------
# Operations: each gives a result that only its seed may decide
# ---------------------------------------------------------------------------
def op_distance(w, g):
  inv = pick_inv(w, g)
  a, b, s = pick_feature(w, g, inv), pick_feature(w, g, inv), pick_set(w, g, inv)
  out = [a.alias, b.alias, a.distance(b), a.distance(s), s.distance(a), s.distance(pick_set(w, g, inv)), a.is_in(s), a.is_in(b)]
  if a.aspect.get(a.alias) is a and a in a.aspect:
    out.append(sorted((k.alias, v) for k, v in a.distance_dict().items()))
  few = list(a.aspect)[:6] + [a]
  out.append([[x.distance(y) for y in few] for x in few])
  return out


def op_set_algebra(w, g):
  inv = pick_inv(w, g)
  s, t = pick_set(w, g, inv), pick_set(w, g, inv)
  f = pick_feature(w, g, inv)
  lists = [x for a in inv for n in a.suppl_aliases for x in [a.get(n)] if isinstance(x, M.ft.Feature.ValueList)]
  v = g.pick(lists)
  return [names(s.union(t)), names(s.difference(t)), names(s.intersection(t)), names(s.union(f, t)), show_set(s.non_generic('ng')),
          s.is_equal(t), s.has_feature(v), v.is_in(s), names(v.set()), show_set(s), show_set(t)]


def op_set_copy(w, g):
  inv = pick_inv(w, g)
  s = pick_set(w, g, inv)
  before = show_set(s)
  c = s.copy() if g.below(2) else M.ft.Feature.Set(s, alias='copy')
  for _ in range(1 + g.below(3)):
    fs = [pick_feature(w, g, inv) for _ in range(1 + g.below(2))]
    k = g.below(5)
    if k == 0:
      c.add(*fs)
    elif k == 1:
      c.remove(*fs)
    elif k == 2:
      c.replace((pick_set(w, g, inv),), tuple(fs))
    elif k == 3:
      c.update(*fs)
    else:
      c.reset()
  return [names(c), before, show_set(s)]


def op_group(w, g):
  fs = [pick_feature(w, g, pick_inv(w, g)) for _ in range(3)] + [pick_set(w, g, pick_inv(w, g))]
  d = M.ft.Feature.Set.group_by_aspect(*fs)
  out = sorted([i.alias, a.alias, names(s)] for i, x in d.items() for a, s in x.items())
  for x in d.values():
    for s in x.values():
      s.reset()
  return out


def op_aspect(w, g):
  inv = pick_inv(w, g)
  a = g.pick(list(inv))
  items = list(a.root_list)
  first, last = g.pick(items), g.pick(items)
  out = [names(a.root_list.range(first, last)), names(a.filter(pick_set(w, g, inv), pick_feature(w, g, inv))), a.max_dist,
         a.is_applicable(pick_profile(w, g, inv)), names(a.all), names(a)]
  if inv is w.fi:
    out += [str(a), a.visualize(), str(inv) if g.below(4) == 0 else '']
  return out


def op_profile(w, g):
  inv = pick_inv(w, g)
  p, q = pick_profile(w, g, inv), pick_profile(w, g, inv)
  c = p.copy('c')
  fs = [pick_feature(w, g, inv) for _ in range(g.below(3))] + [pick_set(w, g, inv)]
  r = p.compare(q, verbose=g.below(2) == 0)
  c.update(*fs)
  asp = g.pick(list(inv))
  c.get(asp).add(pick_feature(w, g, inv))
  return [show_profile(c), show_profile(p), show_profile(q), r['text'], round(r['similarity'], 9), round(c.similarity(p, [asp]), 9),
          p.has_feature(fs[0]) if isinstance(fs[0], M.ft.Feature) else None, show_set(p.get(asp)), p.max_dist]


def op_multi(w, g):
  s = g.pick(list(g.pick(w.sinvs)))
  m = s.features.copy(g.pick(['', 'other']))
  inv = pick_inv(w, g)
  p = pick_profile(w, g, inv)
  m.new_profile(p)
  if g.below(2):
    m.get(inv).update(pick_feature(w, g, inv))
  gone = M.desc.FEATURES if g.below(2) else w.fi
  return [show_multi(m), show_multi(s.features), show_profile(p), m.has_profile(gone), show_profile(s.features.get(gone)), str(m)]


def op_symbol(w, g):
  inv = g.pick(w.sinvs)
  s = g.pick(list(inv))
  fi = pick_inv(w, g)
  return [show_symbol(s), s.description(g.below(2) == 0), s.has_feature(pick_feature(w, g, fi)), s.is_control(),
          label(inv.raw_lookup(s.raw)), label(inv.index_lookup(s.index)), label(inv.text_lookup(s.text)),
          label(inv.raw_lookup('?')), len(inv), label(g.pick(list(M.sym.Symbol.CTRL)))]


def op_parse(w, g):
  inv = g.pick(w.sinvs)
  raws = sorted(inv.raw_dict)
  text = ''.join(g.some(raws, 0, 6)) if raws else ''
  return [text, [label(s) for s in inv.parse(text)]]


def op_symbol_copy(w, g):
  inv = g.pick([M.xu.PHONEMES, M.latn.LATN])
  s, t = g.pick(list(inv)), g.pick(list(inv))
  before = [show_symbol(s), show_symbol(t)]
  c, d = s.copy(alias=g.pick(['', 'new'])), t.copy()
  df = M.desc.FEATURES
  for _ in range(1 + g.below(3)):
    k = g.below(5)
    f = pick_feature(w, g, df)
    if k == 0:
      c.add_features(f, pick_feature(w, g, df))
    elif k == 1:
      c.update_descriptives(f)
    elif k == 2:
      c.update_descriptives_from_symbol(t)
    elif k == 3:
      c.set_attribute('mark', 5, f)
    else:
      f2 = pick_feature(w, g, df)
      c.feature_pair(d, f, f2)
  return [show_symbol(c), show_symbol(d), getattr(c, 'mark', None), before, [show_symbol(s), show_symbol(t)], hasattr(s, 'mark')]


def op_new_inventory(w, g):
  gr, latn = M.gr, M.latn.LATN
  inv = gr.Grapheme.Inventory(gr.Grapheme.GR_FEATURES.script.get(g.pick(['und', 'br', 'latn'])),
                              g.pick([M.lang.FEATURES.language.x_uni, M.lang.FEATURES.language.hi]))
  fs = M.gr.Grapheme.GR_FEATURES
  src = g.some(list(latn), 1, 4)
  inv.import_graphemes(*src, list_alias='imp')
  if g.below(2):
    x = g.pick('abcdk')
    inv.import_as_feature_pairs(fs.case.lower, fs.case.upper, (latn.get(x), latn.get(x + '_upper')))
  text = ''.join(g.some(list('abxZ 9ऊ'), 0, 5))
  known = inv.parse(text) if g.below(2) else latn.parse(text, inv)
  inv.sync_atomics([inv.imp])
  first = g.pick(list(inv))
  first.add_features(pick_feature(w, g, M.desc.FEATURES))
  inv.atomics.get(first.alias).features.descriptive.update(pick_feature(w, g, M.desc.FEATURES))
  return [[show_symbol(s) for s in inv], [label(s) for s in known], [show_symbol(a) for a in inv.atomics], str(inv.atomics.imp),
          [show_symbol(s) for s in src], [getattr(s, 'upper', None) is None for s in src]]


def op_new_phonemes(w, g):
  ph = M.xu.PHONEMES
  lang = g.pick([M.lang.FEATURES.language.hi, M.lang.FEATURES.language.ta])
  inv = M.ps.Phon.Inventory(lang)
  src = g.some(list(ph), 1, 4)
  inv.add_phonemes(*(s.copy(lang) for s in src), list_alias='all_of_them')
  for s in inv:
    if g.below(2):
      s.update_descriptives(pick_feature(w, g, M.desc.FEATURES))
  inv.sync_atomics([inv.all_of_them])
  return [[show_symbol(s) + [s.language.alias, s.ipa] for s in inv], [show_symbol(a) for a in inv.atomics], str(inv.atomics.all_of_them),
          [show_symbol(s) + [s.language.alias, s.ipa] for s in src], inv.language.alias]


COMPARE = ['matches', 'head_matches', 'tail_matches', 'is_prefix', 'is_suffix', 'is_equivalent', 'accepts', 'contains', 'is_contained']


def op_compare(w, g):
  a, b = w.any_expr(g), w.any_expr(g)
  out = [getattr(a, m)(b) for m in COMPARE]
  h, t = g.below(2) == 0, g.below(2) == 0
  out += [a.accepts(b, True), a.contains(b, h, t), a.is_contained(b, h, t)]
  if not isinstance(a, M.exp.Alignment) and not isinstance(b, M.exp.Alignment):
    for x in b.symbols()[:3]:
      out.append(a.contains_symbol_list(x, h, t))
  return [show_expr(a), show_expr(b), out]


def op_show(w, g):
  x = w.any_expr(g)
  out = show_expr(x)
  for s in x.symbols():
    s.clear()    # A list of its own for each caller.
  return [out, show_expr(x)]


def op_combine(w, g):
  a, b, c = [g.pick(w.exprs + w.aligns) for _ in range(3)]
  before = [show_expr(x) for x in (a, b, c)]
  k = g.below(5)
  r = a + b if k == 0 else a | b if k == 1 else a >> b if k == 2 else a.repeat(1 + g.below(3)) if k == 3 else a.ques(g.below(2) == 0)
  out = [show_expr(r)]
  if k in (0, 1, 3, 4):
    r.add(c)
    out.append(show_expr(r))
  return out + [before, [show_expr(x) for x in (a, b, c)]]


def op_expr_copy(w, g):
  a = g.pick(w.exprs + w.aligns)
  c = a.copy()
  out = [show_expr(c)]
  if isinstance(a, M.exp.Alignment):
    out.append([c.priority, c.preceding is c.following])
  elif a is not M.exp.Expression.ANY:
    c.add(g.pick(w.exprs))
    if isinstance(c, M.exp.Atomic) and not c.is_control():
      c.features.get(w.fi).update(g.pick(w.feats))
      out.append(show_symbol(c))
    elif len(c) and isinstance(c.item(0), M.exp.Atomic) and not c.item(0).is_control():
      c.item(0).features.get(w.fi).update(g.pick(w.feats))
  return out + [show_expr(c), show_expr(a), [show_symbol(x) for x in w.atoms], [show_symbol(x) for x in w.syms]]


class Broken(Exception):
  """What holds of any history, whatever a fresh process would say."""


def untouched(what, shown, before, show):
  now = show()
  if now != before:
    raise Broken('%s changed with %s: %s' % (what, shown, first_difference(now, before)))


def grow(g, w, x):
  """Changes a caller's own expression, at the top or deep inside."""
  e = M.exp
  while len(x) and not isinstance(x, e.Atomic) and g.below(2):
    x = x.item(g.below(len(x)))
  if isinstance(x, e.Alignment):
    if x.source == e.AlignmentSource.CONSTANT:
      return
    x = g.pick([x.left, x.right, x.preceding.left, x.following.right])
  if isinstance(x, e.Atomic):
    if not x.is_control():
      x.features.get(w.fi).update(g.pick(w.feats))
  elif isinstance(x, (e.Cat, e.Or)):
    x.add(*(g.pick(w.atoms) for _ in range(1 + g.below(2))))


def show_deep(w, x, depth=4):
  """As show_expr, with the features of what it is made of."""
  e = M.exp
  if isinstance(x, e.Atomic):
    return [show_expr(x), show_symbol(x)]
  if isinstance(x, e.Alignment):
    return [show_expr(x)] + [show_deep(w, y, depth - 1) for y in (x.left, x.right, x.preceding.left, x.following.right)] if depth else []
  return [show_expr(x)] + [show_deep(w, y, depth - 1) for y in x] if depth else []


def op_private(w, g):
  """Expressions made of one another each keep what they were made of."""
  e = M.exp

  def own(depth, kinds=(e.Cat, e.Or)):
    items = [g.pick(w.atoms) if not depth or g.below(3) else own(depth - 1) for _ in range(2 + g.below(2))]
    return g.pick(kinds)(*items, alias='own')

  made = [own(1), own(2)]
  for _ in range(2 + g.below(4)):
    a, b = g.pick(made), g.pick(made)
    k = g.below(8)
    if k < 2:
      r = a.copy()
    elif k == 2:
      r = a + b
    elif k == 3:
      r = a | b
    elif k == 4:
      r = a.repeat(2)
    elif k == 5:
      r = a.ques(g.below(2) == 0)
    elif k == 6:
      # An alignment is of its own sides; its copy is not.
      r = e.Alignment.rule('r', a >> b, preceding=g.pick(made) >> e.Expression.ANY).copy()
    else:
      r = g.pick([e.Cat, e.Or])(g.pick(w.atoms), a, b, alias='with')
    made.append(r)
  for _ in range(1 + g.below(4)):
    i = g.below(len(made))
    others = [j for j in range(len(made)) if j != i]
    before = [show_deep(w, made[j]) for j in others]
    grow(g, w, made[i])
    for j, was in zip(others, before):
      untouched('expression %d' % j, 'expression %d' % i, was, lambda: show_deep(w, made[j]))
  x = g.pick(made)
  before = show_expr(x)
  x.item_list().clear()
  x.symbols().clear()
  untouched('expression', 'its lists', before, lambda: show_expr(x))
  # What a comparison says goes by what the expressions are now.
  y = g.pick(made)
  cx, cy = x.copy(), y.copy()
  if not isinstance(x, e.Alignment) and not isinstance(y, e.Alignment) and [str(cx), str(cy)] == [str(x), str(y)]:
    for m in COMPARE:
      if getattr(x, m)(y) != getattr(cx, m)(cy):
        raise Broken('%s %s %s: %s, but %s for fresh copies of both' % (x, m, y, getattr(x, m)(y), getattr(cx, m)(cy)))
  return [re.sub(r'_\d{9,}', '', str(x)) for x in made]


def op_private_features(w, g):
  """As op_private, for sets, profiles and multi-profiles of features."""
  f = M.ft.Feature
  inv = pick_inv(w, g)
  s = f.Set(pick_set(w, g, inv), pick_feature(w, g, inv), alias='own')
  p = pick_profile(w, g, inv).copy('own')
  m = f.MultiProfile('own')
  m.new_profile(p.copy('in'))
  made = [(s, show_set), (p, show_profile), (m, show_multi)]
  for _ in range(2 + g.below(5)):
    x, show = g.pick(made)
    if isinstance(x, f.Set):
      other = pick_set(w, g, inv)
      k = g.below(7)
      r = (x.copy() if k == 0 else x.union(other) if k == 1 else x.difference(other) if k == 2 else x.intersection(x) if k == 3 else
           f.Set(x, alias='of') if k == 4 else x.non_generic('ng') if k == 5 else x.union())
    elif isinstance(x, f.Profile):
      r = x.copy('again')
    else:
      r = x.copy('again')
    made.append((r, show))
  for _ in range(1 + g.below(4)):
    i = g.below(len(made))
    x = made[i][0]
    others = [j for j in range(len(made)) if j != i]
    before = [made[j][1](made[j][0]) for j in others]
    fs = [pick_feature(w, g, inv) for _ in range(1 + g.below(2))]
    if isinstance(x, f.Set):
      k = g.below(4)
      if k == 0:
        x.add(*fs)
      elif k == 1:
        x.remove(*(sorted(x, key=label)[:1] or fs))
      elif k == 2:
        x.reset()
      else:
        x.replace((pick_set(w, g, inv),), tuple(fs))
    elif isinstance(x, f.MultiProfile):
      x.get(inv).update(*fs)
    elif g.below(2):
      x.update(*fs)
    else:
      g.pick(list(x)).add(*fs)
    for j, was in zip(others, before):
      untouched('%s %d' % (type(made[j][0]).__name__, j), '%s %d' % (type(x).__name__, i), was, lambda: made[j][1](made[j][0]))
  return [show(x) for x, show in made]


def op_rule(w, g):
  left, right = g.pick(w.exprs), g.pick(w.exprs)
  pre, fol = g.pick(w.aligns), g.pick(w.aligns)
  al = M.exp.Alignment
  k = g.below(4)
  kw = dict(preceding=pre, following=fol, from_bos=g.below(2) == 0, to_eos=g.below(2) == 0, priority=g.below(3))
  rules = ([al.rule('n', left >> right, **kw)] if k == 0 else [al.deletion('n', left, **kw)] if k == 1 else
           [al.insertion('n', right, **kw)] if k == 2 else list(al.interchangeable('n', left >> right, **kw)))
  return [[show_expr(r), show_expr(r.copy()), r.context_matches(g.pick(w.aligns), g.pick(w.aligns)), r.is_assigned()] for r in rules] + [
      show_expr(x) for x in (left, right, pre, fol, al.ANY, al.EPS, al.NOR)]


def op_operation(w, g):
  o = M.op.Operation
  c = o.COMMON
  x = g.pick(list(c))
  new = o.Inventory.from_args('mine', o.ReservedIndex.COMMON, *[('n%d' % i, i / 2) for i in range(1 + g.below(4))])
  y = g.pick(list(new))
  return [str(x), x.index, x.match.alias, x.partial.alias, x.unexpected.alias, x.inventory.alias, label(c.index_lookup(x.index)),
          label(new.index_lookup(100 + g.below(30))), str(y), y.index, y.match.alias, y.inventory.alias, len(c), x.is_free(),
          x.is_cheaper_than(g.pick(list(c)))]


# Grammar fragments.
def texts(g):
  return [''.join(g.some(['{a}', '{i}', '{u}', '{t}', '{ti}', '{d}', '{n}', '{sil}', '<a>', '<k>', '<ya>', '`a`', '`k`', '=', 'a', 'k', 'sh', 'aa'], 0, 6))
          for _ in range(3)]


def run(fst, g):
  out = []
  for t in texts(g):
    lattice = pynini.compose(pynini.escape(t), fst)
    try:
      out.append([t, pynini.shortestpath(lattice).string(), lattice.num_states() == 0])
    except pynini.FstOpError:
      out.append([t, None, lattice.num_states() == 0])
  return out


def the_strings(fst):
  """The strings of a fragment, or how many when there is no end of them."""
  fst = pynini.determinize(pynini.epsnormalize(fst.copy())) if fst.properties(pynini.ACCEPTOR, True) == pynini.ACCEPTOR else fst.copy()
  if fst.properties(pynini.ACYCLIC, True) != pynini.ACYCLIC:
    return 'cyclic'
  return sorted(['%s>%s' % (i, o) for i, o, _ in fst.paths().items()])[:200]


def show_phon(x):
  return [x.alias, x.text, x.txn, list(x.ftr), the_strings(x.ph), x.ipa, {k: the_strings(v) for k, v in x.tr_dict.items()}, [y.alias for y in x.cmp]]


def phons(g, lo, hi):
  m = M.pi
  return g.some(m.BASE_VOWEL + m.VOICED_STOP + m.VOICELESS_STOP + m.NASAL + m.STANDALONE_FEATURE, lo, hi)


def op_phon_fst(w, g):
  ps = phons(g, 1, 3)
  k = g.below(7)
  p = M.p
  fst = (p.ph_union(ps) if k == 0 else p.ph_star(ps) if k == 1 else p.ls_translit_base(ps) if k == 2 else p.ls_translit_ipa(ps) if k == 3 else
         p.translit_base(ps[0]) if k == 4 else p.thing_ph_modified('m', ps, phons(g, 1, 2)).value if k == 5 else p.print_only_ipa(ps))
  return [k, run(fst, g), [show_phon(x) for x in ps]]


def op_phon_copy(w, g):
  x = g.pick(phons(g, 1, 1) + M.pi.DIPHTHONG + M.pi.VOICED_NASAL[:2])
  before = show_phon(x)
  c = M.p.import_phon(x, g.pick([M.ty.UNSPECIFIED, ['extra']]), g.pick([M.ty.UNSPECIFIED, {'base': pynini.accep('zz')}, {'alt': pynini.accep('y')}]))
  out = [show_phon(c)]
  c.ftr.append('more')
  c.tr_dict['base'] = pynini.accep('q')
  c.tr_dict['new'] = pynini.accep('q')
  return out + [before, show_phon(x)]


def op_phon_derive(w, g):
  mod, m, f = M.mod, M.pi, M.mod.f
  a = g.pick(m.VOICED_STOP + m.VOICED_NASAL)
  vs = g.some(m.BASE_VOWEL + m.DIPHTHONG, 2, 3)
  k = g.below(6)
  if k == 0:
    r = mod.devoiced(a)
  elif k == 1:
    r = mod.nonpulmonic(a)
  elif k == 2:
    r = mod.diphthong(vs, M.pi.tr.S_AI, *g.some([M.pi.tr.E, M.ty.UNSPECIFIED], 0, 2))
  elif k == 3:
    r = mod.affricate([a, g.pick(m.VOICED_FRICATIVE)], M.pi.tr.J)
  elif k == 4:
    r = mod.compose([a] + vs, 'kind', g.pick([M.ty.UNSPECIFIED, M.pi.tr.J]), g.pick([M.ty.UNSPECIFIED, {'k': M.pi.tr.K}]))
  else:
    r = mod.derive_with_suffix(a, g.pick([mod.MOD.DVC, mod.MOD.NPL, mod.MOD.DURH]), M.pi.tr.K)
  out = show_phon(r)
  r.ftr.append('changed')
  r.tr_dict['base'] = pynini.accep('q')
  r.cmp.append(a)
  rows = M.pf.FEATURE_INVENTORY
  return [out, show_phon(a), [show_phon(v) for v in vs], [list(rows.get(x)) for x in rows.suppl_aliases], [list(M.pi.tr.suppl_aliases)]]


def op_chars(w, g):
  c, ltn = M.c, M.ltn
  cs = g.some(ltn.ASCII_LC + ltn.OTHER_SUBSTRING, 1, 3)
  k = g.below(8)
  if k < 5:
    fst = (c.read_glyph(cs) if k == 0 else c.print_glyph(cs) if k == 1 else c.print_only_glyph(cs) if k == 2 else
           c.thing_gr_union('u', cs).value if k == 3 else c.thing_tr_star('u', cs).value)
    out = run(fst, g)
  elif k == 5:
    out = [[x.alias, x.glyph, the_strings(x.gr)] for x in c.uppercase_list(cs)]
  elif k == 6:
    d, t = c.ls_double_substring(cs)
    out = [[x.alias, x.glyph] for x in d] + sorted([a, the_strings(b)] for a, b in t.items())
  else:
    x = c.make_composite_char(cs, 'comp', pynini.accep('p'))
    out = [x.alias, x.glyph, the_strings(x.cmp), run(c.compose_from_gr([x]), g)]
  return [k, out, [[x.alias, x.typ, x.glyph, the_strings(x.gr), the_strings(x.tr), the_strings(x.ph)] for x in cs],
          the_strings(ltn.GRAPHEME_INVENTORY.VOWEL), sorted((k2, the_strings(v)) for k2, v in list(ltn.DOUBLE_DICT.items())[:4]),
          the_strings(ltn.double_substring_tr(cs[0].tr))]


def fragments(g, n):
  out = []
  for _ in range(n):
    k = g.below(5)
    out.append(g.pick(M.pi.BASE_VOWEL + M.pi.VOICED_STOP).ph if k < 2 else g.pick(M.ltn.ASCII_LC).gr if k == 2 else
               g.pick(M.ltn.ASCII_LC).tr if k == 3 else g.pick([M.al.AFFIX, M.al.COMBINE, M.al.GR_L, M.al.PH_R, M.al.ALIGN_SIGN]))
  return out


def op_rewrite(w, g):
  rw = M.rw
  a, b, c, d = fragments(g, 4)
  ctx = g.pick([{}, {}, dict(preceding=c), dict(following=d), dict(preceding=c, following=d)])
  k = g.below(8)
  fst = (rw.rewrite(a, b, **ctx) if k == 0 else rw.rewrite_ls([(a, b), (c, d)][:1 + g.below(2)], **ctx) if k == 1 else
         rw.rewrite_repeated(a, b, **ctx) if k == 2 else rw.reassign(a, b, c) if k == 3 else rw.rewrite_word_initial(a, b) if k == 4 else
         rw.rewrite_word_final(a, b) if k == 5 else rw.merge(a, b, c, d) if k == 6 else rw.rewrite_repeated_ls([(a, b)], **ctx))
  al = M.al
  return [k, run(fst, g), [the_strings(x) for x in (a, b, c, d)],
          [the_strings(x) for x in (al.EPSILON, al.AFFIX, al.GR_BOUND, al.PH_BOUND, al.PUNCTUATION, al.ALIGN_SIGN, al.TR_B)],
          the_strings(al.align(a, b)), the_strings(al.assign(a, b)), the_strings(al.realign(a, b, c)), the_strings(al.enclose_phoneme('x'))]


def op_fst_list(w, g):
  fs = fragments(g, 1 + g.below(3))
  l = M.fl.FstList(fs[:1], fs[1:], alias='l')
  k = g.below(5)
  out = (the_strings(l.union()) if k == 0 else the_strings(l.union_opt()) if k == 1 else run(l.union_star(), g) if k == 2 else
         the_strings(l.concat()) if k == 3 else run(M.fl.FstList(pynini.cross(fs[0], 'a'), pynini.accep('a')).compose(), g))
  l.add('x', fs)
  return [k, out, len(l), [the_strings(x) for x in fs], [the_strings(x) for x in M.al.GR_B], len(M.al.PUNCTUATION_LIST), len(M.al.PH_B)]


def op_lattice(w, g):
  lt = M.lt
  out = []
  for i in range(1 + g.below(2)):
    fst = pynini.Fst()
    for _ in range(g.below(3)):
      fst.add_state()
    l = lt.Lattice('l%d' % i, 1 + g.below(3), 1 + g.below(3), **g.pick([dict(), dict(fst=fst), dict(fst=fst, populate=True), dict(populate=True)]))
    out += [l.error.state_str(), l.error.fst is l.fst, l.state(0, 0), l.state(9, 9), l.state_of(l.node(0, 0)), l.states_str(), l.nodes_str(), l.fst.num_states()]
    n = lt.Node('n')
    out += [n.state_str(), n.fst.num_states()]
  return out


def op_thing(w, g):
  ty, inv = M.ty, M.inv
  t = ty.IterableThing(*g.some([1, 2, 'x', ty.MISSING, [3]], 0, 4), alias='it')
  i = inv.Inventory.from_list([ty.Thing('t%d' % k, value_from=k) for k in range(g.below(4))], alias='inv', suppls=[ty.Thing('sup', value_from=[1])])
  i.get('sup').append(2)
  e = inv.Inventory.EMPTY
  fl = [pynini.accep('a'), 'a', pynini.union('a', 'b'), 3]
  a, b = g.pick(fl), g.pick(fl)
  return [[repr(x) for x in t], repr(t.item(0)) if len(t) and not isinstance(t.item(0), ty.Nothing) else None, i.item_aliases, i.suppl_aliases, i.sup,
          len(e), e.item_aliases, e.suppl_aliases, ty.is_equal(a, b), len(ty.UNSPECIFIED)]


OPS = dict(distance=op_distance, set_algebra=op_set_algebra, set_copy=op_set_copy, group=op_group, aspect=op_aspect, profile=op_profile,
           multi=op_multi, symbol=op_symbol, parse=op_parse, symbol_copy=op_symbol_copy, new_inventory=op_new_inventory,
           new_phonemes=op_new_phonemes, compare=op_compare, show=op_show, combine=op_combine, private=op_private, private_features=op_private_features, expr_copy=op_expr_copy, rule=op_rule,
           operation=op_operation, phon_fst=op_phon_fst, phon_copy=op_phon_copy, phon_derive=op_phon_derive, chars=op_chars,
           rewrite=op_rewrite, fst_list=op_fst_list, lattice=op_lattice, thing=op_thing)
NAMES = sorted(OPS)
# Too long to run at byte-code granularity.
LONG = {'new_inventory', 'new_phonemes', 'symbol_copy', 'rule'}
SHORT = [n for n in NAMES if n not in LONG]
BUDGET = 150000  # lines of one operation, world included, when threads interleave


def perform(w, name, seed):
  try:
    r = ['ok', OPS[name](w, G(seed))]
  except Broken as e:
    r = ['broken', str(e)[:300]]
  except Exception as e:  # pylint: disable=broad-except
    r = ['error', type(e).__name__, str(e)[:200]]
  return json.loads(json.dumps(r))


class TooLong(BaseException):
  pass


def job_nat(world_seed, name, seed, budget):
  """The result of one operation; with a budget, of at most so many lines."""
  w = World(world_seed)
  if not budget:
    return perform(w, name, seed)
  left = [budget]

  def line(frame, event, arg):
    if event == 'line':
      left[0] -= 1
      if left[0] < 0:
        raise TooLong()
    return line

  try:
    sys.settrace(line)
    return perform(w, name, seed)
  except TooLong:
    return ['too long']
  finally:
    sys.settrace(None)


JOBS.update(nat=job_nat)
PREPARE.update(['nat', 'py_nat'])


def py_nat(rt):
  nthreads = 1 + max(0, rt.w(5) - 2)
  seeds = [1 + rt.w(1 << 20) for _ in range(1 + rt.w(2))]
  worlds = [World(s).complete() for s in seeds]
  plans = []
  used = []
  pool = NAMES if nthreads == 1 else SHORT
  few = [rt.pick(pool) for _ in range(1 + rt.w(6))] if rt.chance(1, 2) else pool
  for _ in range(nthreads):
    plan = []
    for _ in range(1 + rt.w(3 if nthreads > 1 else 8)):
      if used and rt.chance(1, 4):
        call = used[rt.w(len(used))]
        if len(worlds) == 2 and rt.chance(1, 2):
          call = (1 - call[0],) + call[1:]  # The same names stand for something else there.
      else:
        call = (rt.w(len(worlds)), rt.pick(few), rt.w(1 << 20))
      used.append(call)
      plan.append(call)
    plans.append(plan)
  rt.nontrivial = len(used) > 1
  expected = {}
  for call in used:
    if call not in expected:
      which, name, seed = call
      r = pysim.in_process(rt.w(len(pysim.HASH_SEEDS)), 'nat', [seeds[which], name, seed, BUDGET if nthreads > 1 else 0])
      expected[call] = r[1] if r[0] == 'ok' else r
      if expected[call] == ['too long']:
        rt.probe('too long ' + name)
        continue
      rt.probe('operation ' + name)
      if expected[call][0] != 'ok':
        rt.probe('refused ' + name)

  plans = [[c for c in plan if expected[c] != ['too long']] for plan in plans]
  used = [c for c in used if expected[c] != ['too long']]
  rt.nontrivial = len(used) > 1

  def judge(call, got, when):
    rt.event(call, got)
    rt.say('%s %s -> %s', when, call, got)
    if got[0] == 'broken':
      rt.fail('not-independent', '%s: operation %s: %s', when, call, got[1])
    if got != expected[call]:
      rt.fail('changed-by-use', '%s: operation %s (%s) gives %s, alone in a fresh process %s', when, call, first_difference(got, expected[call]),
              str(got)[:200], str(expected[call])[:200])

  def body(plan):
    def f():
      for call in plan:
        judge(call, perform(worlds[call[0]], call[1], call[2]), 'in a history')

    return f

  if nthreads > 1:
    rt.active = True
    rt.run_all([body(p) for p in plans])
    rt.active = False
  else:
    body(plans[0])()
  for call in reversed(used):
    judge(call, perform(worlds[call[0]], call[1], call[2]), 'afterwards')


def first_difference(a, b, path=''):
  if isinstance(a, list) and isinstance(b, list):
    for i, (x, y) in enumerate(zip(a, b)):
      if x != y:
        return first_difference(x, y, '%s[%d]' % (path, i))
  return '%s: %s, not %s' % (path, str(a)[:80], str(b)[:80])


NEED_HELPERS.add('py_nat')
SCENARIOS.update(py_nat=py_nat)
