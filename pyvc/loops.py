"""Loops of symbolic length: iteration-independent maps, or inductive invariants.

A loop over a symbolic-length iterable is first tried as a map: the body is
executed once at an arbitrary position; if it only appends to lists, stores at
the loop position of arrays and reads nothing written by other iterations, the
effect of the loop is the corresponding symbolic list / array.

Otherwise the loop is cut by an inductive invariant: every location the body
writes is havocked, candidate invariants (unchanged, bounded by its entry
value, constant difference of two numeric locations, and the invariants the
contract registers) are kept only when proved preserved by the body.
"""
import ast
from fractions import Fraction

import z3

from pyvc.core import *  # noqa
from pyvc.core import (Unsupported, SideEffect, PathEnd, Restart, PyExc, is_sym, Z, num, simp, And,
                       Or, Not, Implies, Ite, is_num)
from pyvc.values import *  # noqa
from pyvc import values as V
from pyvc import npmodel as N
from pyvc.interp import Frame, BreakX, ContinueX, ReturnX, NotMap, UNDEF


class Info:

  def __init__(self):
    self.mode = 'map'
    self.counts = {}      # list oid -> set of append counts
    self.stores = set()   # array oids
    self.painted = set()  # those whose elements are set by masks
    self.cells = {}       # inv: cell key -> None
    self.real = set()
    self.dead = set()
    self.alts = {}


def assigned(body, target=None):
  names = set()

  def walk(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      names.add(n.name)
      return
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      names.add(n.id)
    for c in ast.iter_child_nodes(n):
      walk(c)
  for s in body:
    walk(s)
  if target is not None:
    walk(target)
  return names


def get_info(I, st, fr):
  ctx = I.ctx
  key = (fr.module.name, st.lineno, st.col_offset, next(ctx.alloc), ctx.prefix())
  if key not in ctx.loops:
    ctx.loops[key] = Info()
  return ctx.loops[key]


# ---------------------------------------------------------------------------
# map mode


class MapTracker:

  def __init__(self, I, fr, names, mark, depth):
    self.I, self.fr, self.names, self.mark = I, fr, names, mark
    self.written = set()
    self.appends = {}     # oid -> [values]
    self.lists = {}
    self.stores = {}      # oid -> [(k, v)]
    self.arrays = {}
    self.index = None
    self.carry = None     # names read before they are written, when allowed

  def old(self, oid):
    return oid is None or oid < self.mark

  def write(self, x, oid, field):
    if self.old(oid):
      raise NotMap('write to %s' % field)

  def read(self, x, oid, field):
    if oid in self.lists:
      raise NotMap('read of an appended list')

  def local_write(self, fr, name):
    if fr is self.fr:
      self.written.add(name)

  def local_read(self, fr, name):
    if fr is self.fr and name in self.names and name not in self.written:
      if self.carry is not None:
        if name not in self.carry:
          self.carry[name] = None
          raise Restart()
        return
      raise NotMap('loop-carried %s' % name)

  def append(self, o, oid, v):
    if not self.old(oid):
      return False
    if oid is None:
      raise NotMap('append to anonymous list')
    self.lists[oid] = o
    self.appends.setdefault(oid, []).append(v)
    return True

  def store(self, a, oid, k, v):
    base = a
    if base.base is not None:
      b = base
      while b.base is not None:
        b = b.base
      if self.old(b.oid):
        raise NotMap('store through a view')
      return False
    if not self.old(oid):
      return False
    if oid is None:
      raise NotMap('store to anonymous array')
    self.arrays[oid] = a
    self.stores.setdefault(oid, []).append((k, v))
    return True


def body_at(I, st, fr, names, at, i, snap, mark=None, poison=(), carry=None):
  """Run the body once at position i in a private frame; return the tracker."""
  f2 = Frame(fr.module, fr.parent, fr.cls, fr.fn)
  f2.locals = dict(snap)
  f2.self_ = fr.self_
  f2.globals_decl = fr.globals_decl
  if mark is None:
    mark = next(I.ctx.alloc)
  t = MapTracker(I, f2, names, mark, I.depth)
  t.index = i
  t.carry = carry
  saved = []

  def bad(*a):
    raise NotMap('read of a stored array')
  for a in poison:
    saved.append((a, a._get, a.memo))
    a._get = bad
    a.memo = {}
  outer = I.trackers
  try:
    v = at(i)
    I.trackers = [t]
    I.assign(st.target, v, f2)
    try:
      I.exec_block(st.body, f2)
    except ContinueX:
      pass
  finally:
    I.trackers = outer
    for a, g, m in saved:
      a._get, a.memo = g, m
  t.frame = f2
  return t


def apply_stores(I, a, stores, i, row_old):
  """The row of array a after the stores of iteration i."""
  row = N.new(I, a.shape[1:], row_old, a.dtype)
  for k, v in stores:
    ks = k if isinstance(k, tuple) else (k,)
    rest = ks[1:]
    if a.ndim == 1:
      row = N.new(I, (), lambda v=v: N.cast(I, N.item(I, v), a.dtype), a.dtype)
    elif not rest:
      N.setitem(I, row, Ellipsis, v)
    else:
      N.setitem(I, row, tuple(rest), v)
  return row


def painted(I, a, sts):
  """Whether every store of an iteration sets masked or single elements to one value."""
  for k, v in sts:
    if not is_num(v):
      return False
    if isinstance(k, NDArr):
      if k.dtype != 'b' or k.ndim != a.ndim or not all(
          N.same_dim(I, x, y) for x, y in zip(k.shape, a.shape)):
        return False
    elif not (isinstance(k, tuple) and len(k) == a.ndim and all(
        is_num(x) and not isinstance(x, bool) for x in k)):
      return False
  return True


def covers(I, a, k, ix):
  from pyvc import lib
  if isinstance(k, NDArr):
    return lib.truth(I, k.get(*ix))
  return And(*[N.eqi(x, lib.norm_index(I, y, d)) for x, y, d in zip(ix, k, a.shape)])


def paint(I, a, g, n, stores):
  """The elements of an array after n iterations: the last store to each counts.

  stores: iteration -> its stores.
  """
  ctx = I.ctx
  last = z3.Function(ctx.fresh_name('painted'), *([N.IS] * a.ndim + [N.IS]))
  seen, pending, known = [], [], set()

  def hit(t, ix):
    return ctx.merged(lambda: Or(*[covers(I, a, k, ix) for k, _ in stores(t)]))

  def value(t, ix):
    def one():
      r = None
      for k, v in stores(t):
        v = N.cast(I, N.item(I, v), a.dtype)
        r = v if r is None else Ite(covers(I, a, k, ix), v, r)
      if r is None:
        raise PathEnd()
      return r
    return ctx.merged(one)

  def later_ones(t, ix):
    return Implies(And(t > last(*ix), t < Z(n)), Not(hit(t, ix)))

  def facts(t, gen):
    out = []
    while pending:
      ix = pending.pop()
      seen.append(ix)
      out += [later_ones(u, ix) for u, gu in list(ctx.idx_terms) if gu <= 1]
    if gen <= 1:
      out += [later_ones(t, ix) for ix in seen]
    return out

  def get(*ix):
    ix = tuple(Z(x) for x in ix)
    w = last(*ix)
    if w.sexpr() not in known:
      if not ctx.merge_depth:
        known.add(w.sexpr())
      ctx.add(And(w >= -1, w < Z(n)))
      ctx.add(Implies(w >= 0, hit(w, ix)))
      pending.append(ix)
      ctx.later.append((w, 1))
      if not ctx.merge_depth:
        ctx.register_index(z3.IntVal(0))
        ctx._drain()
    return Ite(w >= 0, value(w, ix), g(*ix))
  ctx.add_quant(facts)
  return get


def check_stores(I, t, i, info):
  from pyvc import lib
  for oid, sts in t.stores.items():
    a = t.arrays[oid]
    if oid in info.painted or (painted(I, a, sts) and not all(
        isinstance(k, tuple) and is_sym(k[0]) and k[0].eq(Z(i)) for k, _ in sts)):
      if not painted(I, a, sts):
        raise NotMap('various stores')
      info.painted.add(oid)
      for k, _ in sts:
        if isinstance(k, tuple):
          for x, d in zip(k, a.shape):
            lib.norm_index(I, x, d)
      continue
    for k, v in sts:
      k0 = k[0] if isinstance(k, tuple) else k
      if not (is_num(k0) and not isinstance(k0, bool)):
        raise NotMap('store index')
      if not (is_sym(k0) and (k0.eq(Z(i)) or I.ctx.prove(k0 == Z(i)))):
        raise NotMap('store away from the loop position')
      lib.norm_index(I, Z(i), a.shape[0])
      apply_stores(I, a, [(k, v)], i, lambda *r: Fraction(0) if a.dtype[0] == 'f' else (
          False if a.dtype == 'b' else 0))


def symbolic_for(I, st, fr, n, at):
  ctx = I.ctx
  if st.orelse:
    raise Unsupported('for-else over a symbolic sequence')
  info = get_info(I, st, fr)
  names = assigned(st.body, st.target)
  if info.mode == 'map':
    try:
      return map_for(I, st, fr, n, at, info, names)
    except NotMap as e:
      info.mode = 'carry' if 'loop-carried' in str(e) else 'inv'
      info.why = str(e)
      raise Restart()
  if info.mode == 'carry':
    try:
      return carry_for(I, st, fr, n, at, info, names)
    except (NotMap, SideEffect) as e:
      info.mode = 'inv'
      info.why = str(getattr(info, 'why', '')) + '; ' + str(e)
      raise Restart()
  return inv_loop(I, st, fr, info, names, n=n, at=at)


def map_for(I, st, fr, n, at, info, names):
  ctx = I.ctx
  snap = dict(fr.locals)
  if ctx.pick(['probe', 'continue']) == 'probe':
    k = ctx.int('it')
    ctx.lengths.append(k)
    ctx.add(And(k >= 0, k < Z(n)))
    ctx.register_index(k)
    if ctx._check(timeout=2000) == z3.unsat:
      raise PathEnd()
    try:
      t = body_at(I, st, fr, names, at, k, snap)
      check_stores(I, t, k, info)
      if t.arrays:
        t = body_at(I, st, fr, names, at, k, snap, poison=list(t.arrays.values()))
    except (BreakX, ReturnX):
      raise NotMap('early exit')
    for oid, vs in t.appends.items():
      if info.counts.setdefault(oid, set()) is not None:
        info.counts[oid].add(len(vs))
    for oid in info.counts:
      if oid not in t.appends:
        info.counts[oid].add(0)
    info.npaths = getattr(info, 'npaths', 0) + 1
    info.seen = getattr(info, 'seen', {})
    for oid in t.appends:
      info.seen[oid] = info.seen.get(oid, 0) + 1
    info.stores |= set(t.stores)
    raise PathEnd()
  # continue: build the effect.
  if not hasattr(info, 'npaths'):
    # no feasible iteration: the loop body is never executed.
    for x in names:
      if x not in fr.locals:
        fr.locals[x] = V.Poison('loop variable')
    return
  for oid, seen in info.seen.items():
    if seen < info.npaths:
      info.counts[oid].add(0)
  lists, arrays = find_heap(I, fr, snap, set(info.counts), info.stores)
  mark = next(ctx.alloc)
  cache = {}
  heap = ctx.heap

  def run(i):
    key = Z(i).sexpr()
    if key in cache:
      return cache[key]
    with I.purely(heap):
      t = body_at(I, st, fr, names, at, i, snap, mark=mark)
    if may_memo():
      cache[key] = t
    return t
  for oid, cs in info.counts.items():
    if oid not in lists:
      raise Unsupported('appended list is not reachable from the frame')
    p = lists[oid]
    I.note_write(p, 'items')
    if cs == {1}:
      p.segs.append(V.SymSeg(n, lambda i, oid=oid: run(i).appends[oid][0]))
    elif len(cs) == 1:
      c = next(iter(cs))
      p.segs.append(V.SymSeg(simp(Z(n) * c), lambda i, oid=oid, c=c:
                             pick_of(I, run(simp(Z(i) / c)).appends[oid], simp(Z(i) % c))))
    elif cs == {0, 1}:
      sel = N.select(I, n, lambda i, oid=oid: bool(run(i).appends.get(oid)))
      p.segs.append(V.SymSeg(sel.m, lambda j, oid=oid, sel=sel: sel_at(run(sel.S(j)), oid)))
    else:
      raise Unsupported('varying number of appends per iteration')
  for oid in info.stores:
    if oid not in arrays:
      raise Unsupported('stored array is not reachable from the frame')
    a = arrays[oid]
    I.note_write(a, 'data')
    g = a.snapshot()
    if oid in info.painted:
      a.set_get(paint(I, a, g, n, lambda t, oid=oid: run(t).stores.get(oid, [])))
      continue

    def get(x, *r, a=a, oid=oid, g=g):
      inr = simp(And(Z(x) >= 0, Z(x) < Z(n)))
      if N.same_dim(I, n, a.shape[0]):
        inr = True
      if inr is False:
        return g(x, *r)
      t = run(x)
      row = apply_stores(I, a, t.stores.get(oid, []), x, lambda *q: g(x, *q))
      v = row.get(*r)
      return v if inr is True else Ite(inr, v, g(x, *r))
    a.set_get(get)
  for x in names:
    fr.locals[x] = V.Poison('variable assigned in a summarised loop')


# ---------------------------------------------------------------------------
# map mode with loop-carried locals: sums, and values of the previous iteration


def summable(v):
  return is_num(v) and not isinstance(v, (bool, float)) and not (is_sym(v) and z3.is_bool(v))


def mentions(e, names):
  if not is_sym(e):
    return False
  todo, seen = [e], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (
        x.decl().name() in names):
      return True
    todo.extend(x.children())
  return False


def same_values(I, a, b):
  from pyvc import dslengine as D
  if a is b:
    return True
  out = []
  try:
    D.deep_eq(I, a, b, out)
  except Unsupported:
    return False
  for _, c in out:
    if isinstance(c, tuple):
      c = N.sym_all_nd(I, c[1], c[2])
    if c is True:
      continue
    if c is False or not I.ctx.prove(c):
      return False
  return True


def carry_for(I, st, fr, n, at, info, names):
  ctx = I.ctx
  entry = dict(fr.locals)
  if not hasattr(info, 'carry'):
    info.carry = {}
    info.npaths = 0
    info.lag = set()
    info.realsum = set()
  sums = [x for x in info.carry if x not in info.lag]
  for x in sums:
    if not summable(entry.get(x, UNDEF)):
      info.lag.add(x)
      raise Restart()
  if not ctx.branch(Z(n) >= 1):
    for x in names:
      if x not in fr.locals:
        fr.locals[x] = V.Poison('loop variable')
    return
  heads = dict(entry)
  anames = set()
  for x in sums:
    isint = (isinstance(entry[x], int) or (is_sym(entry[x]) and z3.is_int(entry[x]))) and (
        x not in info.realsum)
    h = ctx.int('acc_' + x) if isint else ctx.real('acc_' + x)
    heads[x] = h
    anames.add(h.decl().name())
  lag = bool(info.lag)
  if lag:
    # The first iteration is executed as it is.
    outer = I.trackers
    try:
      I.assign(st.target, at(0), fr)
      I.exec_block(st.body, fr)
    except ContinueX:
      pass
    except (BreakX, ReturnX):
      raise NotMap('early exit')
    first = dict(fr.locals)
    for x in info.lag:
      heads[x] = first.get(x, UNDEF)
      if heads[x] is UNDEF or isinstance(heads[x], V.Poison):
        raise NotMap('carried variable without a value')

  heap = ctx.heap

  def finals(i):
    # The locals after iteration i, which may not depend on the lagged heads.
    with I.purely(heap):
      t = body_at(I, st, fr, names, at, i, heads, carry=info.carry)
    return {x: t.frame.locals.get(x, UNDEF) for x in info.lag}

  def heads_at(i):
    h = dict(heads)
    if lag:
      h.update(finals(simp(Z(i) - 1)))
    return h
  lo = 1 if lag else 0
  if ctx.pick(['probe', 'continue']) == 'probe':
    k = ctx.int('it')
    ctx.lengths.append(k)
    ctx.add(And(k >= lo, k < Z(n)))
    ctx.register_index(k)
    if ctx._check(timeout=2000) == z3.unsat:
      raise PathEnd()
    if lag:
      f0 = finals(z3.IntVal(0))
      fk = finals(k)
      with I.purely():
        g = body_at(I, st, fr, names, at, k, heads_at(k), carry=info.carry)
      for x in info.lag:
        if not same_values(I, f0[x], first[x]):
          raise NotMap('%s is not the value of the previous iteration' % x)
        if not same_values(I, fk[x], g.frame.locals[x]):
          raise NotMap('%s depends on earlier iterations' % x)
    try:
      t = body_at(I, st, fr, names, at, k, heads_at(k), carry=info.carry)
    except (BreakX, ReturnX):
      raise NotMap('early exit')
    except PyExc:
      if sums:
        raise NotMap('exception in a summed loop')
      raise
    if t.stores or (sums and t.appends):
      raise NotMap('stores in a loop with carried variables')
    for oid, vs in t.appends.items():
      info.counts.setdefault(oid, set()).add(len(vs))
    for oid in info.counts:
      if oid not in t.appends:
        info.counts[oid].add(0)
    info.npaths += 1
    info.seen = getattr(info, 'seen', {})
    for oid in t.appends:
      info.seen[oid] = info.seen.get(oid, 0) + 1
    raise PathEnd()
  m = simp(Z(n) - lo)
  for oid, seen in getattr(info, 'seen', {}).items():
    if seen < info.npaths:
      info.counts[oid].add(0)
  lists, _ = find_heap(I, fr, dict(fr.locals), set(info.counts), set())
  mark = next(ctx.alloc)
  cache = {}

  def run(i):
    i = simp(Z(i) + lo) if lo else i
    key = Z(i).sexpr()
    if key in cache:
      return cache[key]
    with I.purely(heap):
      t = body_at(I, st, fr, names, at, i, heads_at(i), mark=mark, carry=info.carry)
    if may_memo():
      cache[key] = t
    return t
  for oid, cs in info.counts.items():
    if oid not in lists:
      raise Unsupported('appended list is not reachable from the frame')
    p = lists[oid]
    I.note_write(p, 'items')
    if cs == {1}:
      p.segs.append(V.SymSeg(m, lambda i, oid=oid: run(i).appends[oid][0]))
    elif cs == {0, 1}:
      sel = N.select(I, m, lambda i, oid=oid: bool(run(i).appends.get(oid)))
      p.segs.append(V.SymSeg(sel.m, lambda j, oid=oid, sel=sel: sel_at(run(sel.S(j)), oid)))
    elif cs == {0}:
      pass
    else:
      raise Unsupported('varying number of appends per iteration')
  last = {}
  if lag:
    i1 = simp(Z(n) - 1)
    last = finals(i1)
  if sums:
    k = ctx.int('sumidx')
    inr = And(k >= 0, k < Z(n))
    fin = ctx.merged(lambda: tuple(
        run(simp(k - lo) if lo else k).frame.locals.get(x, UNDEF) for x in sums))
    for x, v in zip(sums, fin):
      if not summable(v):
        raise NotMap('%s is not a sum' % x)
      if z3.is_int(heads[x]) and (isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v))):
        info.realsum.add(x)
        raise Restart()
      zero = z3.IntVal(0) if z3.is_int(heads[x]) else z3.RealVal(0)
      d = N.canonical(simp(z3.substitute(Z(v), (heads[x], zero))))
      if mentions(d, anames) or not ctx.prove(Implies(inr, Z(v) == heads[x] + Z(d))):
        raise NotMap('%s is not a sum' % x)
      last[x] = simp(Z(num(entry[x])) + the_sum(I, n, k, d)) if not lag else None
      if lag:
        raise NotMap('sums and lags')
  for x in names:
    fr.locals[x] = last[x] if x in last else V.Poison('variable assigned in a summarised loop')


def the_sum(I, n, k, d):
  """The sum of d over 0 <= k < n; equal terms give equal sums."""
  d = Z(d)
  s = N.sym_sum(I, n, lambda i: z3.substitute(d, (k, Z(i))))
  if z3.is_int(d) and I.ctx.prove(Implies(And(k >= 0, k < Z(n)), d <= 1)):
    I.ctx.add(Z(s) <= Z(n))
  return s


def sel_at(t, oid):
  if not t.appends.get(oid):
    raise PathEnd()
  return t.appends[oid][0]


def pick_of(I, vals, j):
  if not is_sym(j):
    return vals[j]
  for k in range(len(vals) - 1):
    if I.ctx.branch(Z(j) == k):
      return vals[k]
  return vals[-1]


def find_heap(I, fr, snap, list_oids, arr_oids):
  lists, arrays = {}, {}
  seen = set()
  f = fr
  roots = list(snap.values())
  p = fr.parent
  while p is not None:
    roots.extend(p.locals.values())
    p = p.parent
  if fr.self_ is not None:
    roots.append(fr.self_)
  todo = roots
  while todo:
    v = todo.pop()
    if id(v) in seen:
      continue
    seen.add(id(v))
    if isinstance(v, PList):
      if v.oid in list_oids:
        lists[v.oid] = v
      for s in v.segs:
        if isinstance(s, list):
          todo.extend(s)
    elif isinstance(v, NDArr):
      if v.oid in arr_oids:
        arrays[v.oid] = v
      if v.base is not None:
        todo.append(v.base)
    elif isinstance(v, Obj):
      todo.extend(v.fields.values())
    elif isinstance(v, (tuple, set)):
      todo.extend(v)
    elif isinstance(v, dict):
      todo.extend(v.values())
    elif isinstance(v, V.Bound):
      todo.append(v.self_)
    elif hasattr(v, 'f') and isinstance(getattr(v, 'f'), dict):
      todo.extend(v.f.values())
      todo.extend(getattr(v, 'sub', {}).values())
  return lists, arrays


# ---------------------------------------------------------------------------
# invariant mode


class InvTracker:

  def __init__(self, I, fr, info, mark):
    self.I, self.fr, self.info, self.mark = I, fr, info, mark
    self.new = False

  def note(self, key, obj=None):
    if key not in self.info.cells:
      self.info.cells[key] = None
      self.new = True

  def write(self, x, oid, field):
    if oid is None:
      if isinstance(x, NDArr) and x.base is None or isinstance(x, (Obj, PList, dict, set)):
        raise Unsupported('write to an untracked object in a loop')
      return
    if oid < self.mark:
      self.note(('h', oid, field))

  def read(self, x, oid, field):
    pass

  def local_write(self, fr, name):
    if fr is self.fr:
      self.note(('l', name))

  def local_read(self, fr, name):
    pass

  def append(self, o, oid, v):
    return False

  def store(self, a, oid, k, v):
    return False


class Num:
  """A numeric location: its entry value and its current reader."""

  def __init__(self, label, entry, havoc):
    self.label, self.entry, self.havoc = label, entry, havoc


def is_atom(v):
  return v is None or isinstance(v, (str, bytes)) or (
      isinstance(v, Obj) and getattr(v.cls, 'is_enum', False))


def same_atom(a, b):
  if isinstance(a, Obj) and isinstance(b, Obj):
    return a.cls.name == b.cls.name and a.fields['name'] == b.fields['name']
  return a is b or (isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and a == b)


def havoc(I, v, label, info, out):
  """A fresh value of the same shape; numeric leaves are reported in out."""
  ctx = I.ctx
  if ('sub', label) in info.dead:
    return V.Poison('%s changes in a loop' % label)
  if isinstance(v, V.Poison):
    return v
  if is_atom(v):
    # one of the values it has been seen to take (closed under the loop body).
    alts = info.alts.setdefault(label, [])
    if not any(same_atom(v, x) for x in alts):
      alts.append(v)
    x = ctx.pick(list(alts))
    if isinstance(x, Obj):
      if not isinstance(v, Obj) or v.cls.name != x.cls.name:
        raise Unsupported('loop changes the kind of %s' % label)
      x = v.cls.attrs[x.fields['name']]
    return x
  if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
    h = ctx.bool('h_' + label)
    out.append(Num(label, v, h))
    return h
  if is_num(v):
    if isinstance(v, float):
      raise Unsupported('non-finite loop variable')
    isint = (isinstance(v, int) or (is_sym(v) and z3.is_int(v))) and label not in info.real
    h = ctx.int('h_' + label) if isint else ctx.real('h_' + label)
    out.append(Num(label, v, h))
    return h
  from pyvc import libmods as L
  if isinstance(v, L.TD):
    return L.TD(havoc(I, N.R(v.secs), label + '.secs', info, out))
  if isinstance(v, L.PointVal):
    return L.PointVal(havoc(I, N.R(v.x), label + '.x', info, out),
                      havoc(I, N.R(v.y), label + '.y', info, out))
  if isinstance(v, tuple):
    return tuple(havoc(I, x, '%s.%d' % (label, k), info, out) for k, x in enumerate(v))
  if isinstance(v, NDArr):
    return havoc_arr(I, v, label, out)
  if isinstance(v, Obj):
    if v.cls.dc and v.cls.dc['frozen']:
      o = I.new_obj(v.cls)
      o.fields = {k: havoc(I, x, '%s.%s' % (label, k), info, out)
                  for k, x in v.fields.items()}
      return o
    return v
  if isinstance(v, OpaqueVal):
    return OpaqueVal(z3.Const(ctx.fresh_name('h_' + label), V.OpaqueSort))
  if isinstance(v, (FunctionVal, Bound, LibFn, ClassVal, Partial)) or isinstance(v, (L.Rng,)):
    return v
  if isinstance(v, PList):
    return v
  raise Unsupported('loop variable of kind %s' % type(v).__name__)


def havoc_arr(I, v, label, out):
  ctx = I.ctx
  if v.concrete and V.csize(v.shape) <= 8:
    t = {}
    for ix in V.indices(v.shape):
      e = v.get(*ix)
      if v.dtype == 'b':
        h = ctx.bool('h_' + label)
      elif v.dtype in ('i8', 'i4'):
        h = ctx.int('h_' + label)
      else:
        h = ctx.real('h_' + label)
      out.append(Num('%s%r' % (label, ix), e, h))
      t[ix] = h
    a = V.arr_from_table(v.shape, t, v.dtype)
  else:
    rng = {'b': z3.BoolSort(), 'i8': N.IS, 'i4': N.IS, 'u1': N.IS}.get(v.dtype, N.RS)
    F = z3.Function(ctx.fresh_name('h_' + label), *([N.IS] * v.ndim + [rng]))
    a = NDArr(v.shape, lambda *ix: F(*[Z(i) for i in ix]), v.dtype)
    out.append(Num(label + '[]', v.snapshot(), (a.snapshot(), v.shape)))
  a.oid = next(ctx.alloc)
  return a


def leaves(I, v, label, like, out, info):
  """Numeric leaves of v, which must have the shape of the havocked value."""
  from pyvc import libmods as L
  if isinstance(like, V.Poison):
    return
  if is_atom(like):
    if not is_atom(v):
      raise Unsupported('loop changes the kind of %s' % label)
    alts = info.alts.setdefault(label, [])
    if not any(same_atom(v, x) for x in alts):
      if len(alts) >= 6:
        raise Unsupported('loop gives %s many values' % label)
      alts.append(v)
      raise Restart()
    return
  if is_num(like):
    if not is_num(v) or isinstance(v, float):
      raise Unsupported('loop changes the kind of %s' % label)
    if is_sym(like) and z3.is_int(like) and (
        isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v))):
      info.real.add(label)
      raise Restart()
    out[label] = v
    return
  if isinstance(like, L.TD):
    if not isinstance(v, L.TD):
      raise Unsupported('loop changes the kind of %s' % label)
    out[label + '.secs'] = v.secs
    return
  if isinstance(like, L.PointVal):
    if not isinstance(v, L.PointVal):
      raise Unsupported('loop changes the kind of %s' % label)
    out[label + '.x'], out[label + '.y'] = v.x, v.y
    return
  if isinstance(like, tuple):
    if not isinstance(v, tuple) or len(v) != len(like):
      raise Unsupported('loop changes the shape of %s' % label)
    for k, (x, y) in enumerate(zip(v, like)):
      leaves(I, x, '%s.%d' % (label, k), y, out, info)
    return
  if isinstance(like, NDArr):
    if not isinstance(v, NDArr) or v.ndim != like.ndim or v.dtype != like.dtype or not all(
        N.same_dim(I, a, b) for a, b in zip(v.shape, like.shape)):
      raise Unsupported('loop changes the shape of %s' % label)
    if like.concrete and V.csize(like.shape) <= 8:
      for ix in V.indices(like.shape):
        out['%s%r' % (label, ix)] = v.get(*ix)
    else:
      out[label + '[]'] = v.snapshot()
    return
  if isinstance(like, Obj) and like.cls.dc and like.cls.dc['frozen']:
    if not isinstance(v, Obj) or v.cls is not like.cls:
      raise Unsupported('loop changes the class of %s' % label)
    for k in like.fields:
      sub = '%s.%s' % (label, k)
      try:
        leaves(I, v.fields[k], sub, like.fields[k], out, info)
      except Unsupported:
        info.dead.add(('sub', sub))
        raise Restart()
    return
  if isinstance(like, OpaqueVal):
    if not isinstance(v, OpaqueVal):
      raise Unsupported('loop changes the kind of %s' % label)
    return
  if v is not like:
    raise Unsupported('loop changes the reference %s' % label)


def heap_index(I, fr):
  """oid -> object for everything reachable."""
  out = {}
  seen = set()
  todo = list(fr.locals.values()) + [r for r in I.roots]
  p = fr.parent
  while p is not None:
    todo.extend(p.locals.values())
    p = p.parent
  if fr.self_ is not None:
    todo.append(fr.self_)
  while todo:
    v = todo.pop()
    if id(v) in seen:
      continue
    seen.add(id(v))
    oid = getattr(v, 'oid', None)
    if oid is not None:
      out[oid] = v
    if isinstance(v, PList):
      for s in v.segs:
        if isinstance(s, list):
          todo.extend(s)
    elif isinstance(v, NDArr):
      if v.base is not None:
        todo.append(v.base)
    elif isinstance(v, Obj):
      todo.extend(v.fields.values())
    elif isinstance(v, (tuple, set)):
      todo.extend(v)
    elif isinstance(v, dict):
      todo.extend(v.values())
    elif isinstance(v, V.Bound):
      todo.append(v.self_)
      todo.append(v.fn)
    elif isinstance(v, FunctionVal):
      q = v.frame
      while q is not None and not getattr(q, 'is_module', False):
        todo.extend(q.locals.values())
        q = q.parent
  return out


def mixed(c, by):
  """Whether the candidate orders an integer against a real number."""
  if c[0] != 'order':
    return False
  x, y = [Z(by[lb].havoc) for lb in c[1:]]
  return z3.is_int(x) != z3.is_int(y)


def inv_loop(I, st, fr, info, names, n=None, at=None):
  from pyvc import dslengine as dsl
  ctx = I.ctx
  ctx.taint('a loop is cut by an invariant')
  heap = heap_index(I, fr)
  for nm in names:
    info.cells.setdefault(('l', nm), None)
  nums = []
  i = None
  if n is not None:
    i = ctx.int('h_i')
    ctx.lengths.append(i)
    nums.append(Num('$i', 0, i))
  # user invariants hold on entry.
  for nm, f in ctx.ghost_inv:
    dsl.decide(I, 'loop invariant holds on entry: ' + nm, f())
  likes = {}
  mark = next(ctx.alloc)
  for key in sorted(info.cells, key=repr):
    if key[0] == 'l':
      nm = key[1]
      if nm not in fr.locals or isinstance(fr.locals[nm], V.Poison):
        fr.locals[nm] = V.Poison('possibly unassigned in loop')
        likes[key] = fr.locals[nm]
        continue
      if key in info.dead:
        fr.locals[nm] = V.Poison('reassigned in loop')
        likes[key] = fr.locals[nm]
        continue
      try:
        v = havoc(I, fr.locals[nm], nm, info, nums)
      except Unsupported:
        v = V.Poison('loop variable')
      fr.locals[nm] = v
      likes[key] = v
    else:
      _, oid, field = key
      if oid not in heap:
        raise Unsupported('loop writes an unreachable object')
      o = heap[oid]
      label = 'o%d.%s' % (oid, field)
      if isinstance(o, Obj):
        if field not in o.fields:
          raise Unsupported('loop creates attribute %s' % field)
        if key in info.dead:
          v = V.Poison('attribute %s reassigned in a loop' % field)
        else:
          v = havoc(I, o.fields[field], label, info, nums)
        for t in I.trackers:
          t.write(o, oid, field)
        I.heap_write(o, field)
        o.fields[field] = v
        likes[key] = v
      elif isinstance(o, NDArr):
        tmp = havoc_arr(I, o, label, nums)
        I.note_write(o, 'data')
        o.set_get(tmp._get)
        likes[key] = o
      elif isinstance(o, PList):
        I.note_write(o, 'items')
        m = ctx.int('h_len')
        ctx.lengths.append(m)
        ctx.add(m >= 0)
        nums.append(Num(label + '#len', o.length(), m))

        def noelem(j):
          raise Unsupported('element of a list built by a loop')
        o.segs = [V.SymSeg(m, noelem)]
        likes[key] = o
      else:
        raise Unsupported('loop writes %r' % (o,))
  cands = []
  scal = [x for x in nums if not x.label.endswith('[]')]
  for x in nums:
    if x.label == '$i':
      continue
    cands.append(('eq', x.label))
    if not x.label.endswith('[]') and not (is_sym(x.havoc) and z3.is_bool(x.havoc)):
      cands.append(('ge', x.label))
      cands.append(('le', x.label))
  ar = [x for x in scal if not z3.is_bool(x.havoc)]
  if len(ar) <= 24:
    for a in range(len(ar)):
      for b in range(a):
        cands.append(('diff', ar[b].label, ar[a].label))
  if len(ar) <= 24:
    for a in range(len(ar)):
      for b in range(len(ar)):
        if a != b:
          cands.append(('order', ar[b].label, ar[a].label))
  bs = [x for x in scal if z3.is_bool(x.havoc)]
  if len(bs) <= 10:
    for a in range(len(bs)):
      for b in range(a):
        cands.append(('iff', bs[b].label, bs[a].label))
  by = {x.label: x for x in nums}
  live = [c for c in cands if c not in info.dead]

  def holds(c, cur, k=None):
    x = by[c[1]]
    if c[0] == 'eq':
      if x.label.endswith('[]'):
        _, shape = x.havoc
        ix = k
        return Implies(And(*[And(a >= 0, a < Z(b)) for a, b in zip(ix, shape)]),
                       Z(ctx.merged(lambda: cur(x.label)(*ix))) ==
                       Z(ctx.merged(lambda: x.entry(*ix))))
      return zeq(cur(x.label), x.entry)
    if c[0] == 'ge':
      return N.R(cur(x.label)) >= N.R(x.entry)
    if c[0] == 'le':
      return N.R(cur(x.label)) <= N.R(x.entry)
    y = by[c[2]]
    if c[0] == 'iff':
      # (both as they were relative to each other at entry.)
      return ((Z(cur(x.label)) == Z(cur(y.label))) ==
              (Z(x.entry) == Z(y.entry)))
    if c[0] == 'order':
      return N.R(cur(x.label)) - N.R(cur(y.label)) >= N.R(x.entry) - N.R(y.entry)
    return N.R(cur(x.label)) - N.R(cur(y.label)) == N.R(x.entry) - N.R(y.entry)

  def zeq(a, b):
    if is_sym(a) and z3.is_bool(a) or isinstance(a, bool):
      return Z(a) == Z(b)
    return N.R(a) == N.R(b)
  for c in live:
    x = by[c[1]]
    if x.label.endswith('[]'):
      def facts(t, gen, x=x, c=c):
        shape = x.havoc[1]
        if len(shape) == 1:
          ixs = [(t,)]
        elif len(shape) == 2 and not is_sym(shape[1]) and shape[1] <= 4:
          ixs = [(t, z3.IntVal(q)) for q in range(shape[1])]
        else:
          return []
        return [holds(c, lambda lb: by[lb].havoc[0], ix) for ix in ixs]
      ctx.add_quant(facts)
    else:
      ctx.add(Z(holds(c, lambda lb: by[lb].havoc)))
  if i is not None:
    ctx.add(And(i >= 0, i <= Z(n)))
  ctx.assume_mode += 1
  try:
    for nm, f in ctx.ghost_inv:
      for x in dsl.conds(I, f()):
        if isinstance(x, tuple):
          dsl.assume_forall(I, x[1], x[2])
        else:
          ctx.assume(x)
  finally:
    ctx.assume_mode -= 1
  if ctx.pick(['preserve', 'exit']) == 'exit':
    if n is not None:
      ctx.add(i == Z(n))
    else:
      c = I.truth(I.eval(st.test, fr))
      ctx.assume(Not(c))
    if ctx._check(timeout=2000) == z3.unsat:
      raise PathEnd()
    if n is None and st.orelse:
      I.exec_block(st.orelse, fr)
    return
  if n is not None:
    ctx.add(i < Z(n))
    ctx.register_index(i)
    if ctx._check(timeout=2000) == z3.unsat:
      raise PathEnd()
  else:
    c = I.truth(I.eval(st.test, fr))
    ctx.assume(c)
    if ctx._check(timeout=2000) == z3.unsat:
      raise PathEnd()
  t = InvTracker(I, fr, info, mark)
  I.trackers = I.trackers + [t]
  broke = False
  try:
    if n is not None:
      I.assign(st.target, at(i), fr)
    try:
      I.exec_block(st.body, fr)
    except ContinueX:
      pass
    except BreakX:
      broke = True
  finally:
    I.trackers = [x for x in I.trackers if x is not t]
    if t.new:
      raise Restart()
  if broke:
    return
  cur = {}
  for key, like in likes.items():
    if key[0] == 'l':
      if isinstance(like, V.Poison):
        continue
      try:
        leaves(I, fr.locals[key[1]], key[1], like, cur, info)
      except Unsupported:
        info.dead.add(key)
        raise Restart()
    else:
      o = heap[key[1]]
      label = 'o%d.%s' % (key[1], key[2])
      if isinstance(o, Obj):
        try:
          leaves(I, o.fields[key[2]], label, like, cur, info)
        except Unsupported:
          info.dead.add(key)
          raise Restart()
      elif isinstance(o, NDArr):
        leaves(I, o, label, like, cur, info)
      else:
        cur[label + '#len'] = o.length()
  if i is not None:
    cur['$i'] = simp(i + 1)
  failed = []
  todo = []
  for c in live:
    if not all(lb in cur for lb in c[1:]):
      failed.append(c)
    elif c[1].endswith('[]'):
      shape = by[c[1]].havoc[1]
      ks = [ctx.int('ck') for _ in shape]
      for k in ks:
        ctx.register_index(k)
      if not ctx.prove(holds(c, lambda lb: cur[lb], ks)):
        failed.append(c)
    else:
      todo.append((c, Z(holds(c, lambda lb: cur[lb]))))
  # One model drops every candidate it falsifies.
  while todo:
    r = ctx._check(z3.Not(And(*[x for _, x in todo])), timeout=2000)
    if r == z3.unsat:
      break
    bad = []
    if r == z3.sat:
      m = ctx.solver.model()
      bad = [c for c, x in todo if z3.is_false(m.eval(x, model_completion=True))]
    if not bad:
      # (an order between a count and a quantity is rarely what a proof needs.)
      bad = [c for c, x in todo if not ctx.prove(x, 400 if mixed(c, by) else 3000)]
      failed += bad
      break
    failed += bad
    bad = set(bad)
    todo = [(c, x) for c, x in todo if c not in bad]
  if failed:
    info.dead |= set(failed)
    raise Restart()
  for nm, f in ctx.ghost_inv:
    dsl.decide(I, 'loop invariant preserved: ' + nm, f())
  raise PathEnd()


def symbolic_while(I, st, fr):
  info = get_info(I, st, fr)
  info.mode = 'inv'
  inv_loop(I, st, fr, info, assigned(st.body))
  return True
