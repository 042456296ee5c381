"""Semantics of builtins and generic operations; numpy model in npmodel.py.

Everything here is part of the trusted base: it states what CPython and the
libraries do.  It is cross-checked on every run by executing the same
contracts under CPython with the real libraries.
"""
from fractions import Fraction
import math

import z3

from pyvc.core import *  # noqa
from pyvc.core import (Unsupported, PathEnd, PyExc, is_sym, Z, num, simp, And, Or,
                       Not, Implies, Ite, is_num)
from pyvc.values import *  # noqa
from pyvc import values as V
from pyvc import npmodel as N

np_unary = N.unary
np_inplace = N.inplace


class _Auto:
  pass


AUTO = _Auto()


class DCField:

  def __init__(self, default, factory, init):
    self.default, self.factory, self.init = default, factory, init


class Super(Host):
  tname = 'super'

  def __init__(self, cls, self_):
    self.cls, self.self_ = cls, self_

  def getattr_(self, I, name):
    o = self.self_
    start = o.cls if isinstance(o, Obj) else o
    mro = start.mro
    for c in mro[mro.index(self.cls) + 1:]:
      if name in c.attrs:
        v = c.attrs[name]
        if isinstance(o, Obj):
          return I.bind_attr(v, o, o.cls)
        if isinstance(v, V.Wrapped):
          return Bound(v.fn, o)
        if isinstance(v, V.FunctionVal):
          return Bound(v, o)
        return v
    if name == '__init__':
      return LibFn('object.__init__', lambda *a, **k: None)
    if name == '__init_subclass__':
      return LibFn('object.__init_subclass__', lambda *a, **k: None)
    hook, _ = start.lookup('__hostattr__')
    if hook is not None:
      return hook(I, o, name)
    raise I.exc('AttributeError', name)


class RangeVal(Host):
  tname = 'range'

  def __init__(self, a, b, s=1):
    self.a, self.b, self.s = a, b, s


class IntSet(Host):
  """A set of integers: those of [0, n) (n None: of any) with the property has."""
  tname = 'set'

  def __init__(self, n, has):
    self.n, self.has = n, has

  def binop_(self, I, op, o, swapped):
    if isinstance(o, (set, frozenset)):
      o = as_intset(I, o)
    if not isinstance(o, IntSet):
      return NotImplemented
    a, b = (o, self) if swapped else (self, o)
    if op == 'Sub':
      return IntSet(a.n, lambda k: And(a.has(k), Not(b.has(k))))
    if op == 'BitAnd':
      return IntSet(a.n if a.n is not None else b.n,
                    lambda k: And(a.has(k), b.has(k)))
    raise Unsupported('set operator ' + op)

  def members(self, I):
    if self.n is None:
      raise Unsupported('enumerating a set')
    sel = N.select(I, self.n, self.has)
    return PList.sym(sel.m, sel.S, 'list') if is_sym(sel.m) else I.new_list(
        [sel.S(i) for i in range(sel.m)])

  def getattr_(self, I, name):
    if name == 'difference':
      return LibFn('set.difference', lambda o: self.binop_(I, 'Sub', o if isinstance(
          o, IntSet) else as_intset(I, o), False))
    if name == 'intersection':
      return LibFn('set.intersection', lambda o: self.binop_(I, 'BitAnd', o if isinstance(
          o, IntSet) else as_intset(I, o), False))
    raise Unsupported('set.' + name)


def as_intset(I, x):
  """set(x), for integers of symbolic number (or symbolic integers)."""
  if isinstance(x, IntSet):
    return x
  if isinstance(x, RangeVal):
    if x.s != 1 or is_sym(x.a) or x.a < 0:
      raise Unsupported('set of a range')
    return IntSet(x.b, lambda k: And(Z(k) >= x.a, Z(k) < Z(x.b)))
  if isinstance(x, (set, frozenset)):
    items = [Z(v) for v in x]
    return IntSet(None, lambda k: Or(*[Z(k) == v for v in items]))
  n, at = iter_len(I, x), iter_at(I, x)
  k = I.ctx.int('setk')
  if not is_num(at(k)) or not z3.is_int(Z(at(k))):
    raise Unsupported('set of symbolic values')
  last = N.last_position(I, at, n)
  return IntSet(None, lambda k: last(k) >= 0)


def c_set(I, x):
  if isinstance(x, IntSet):
    return x
  if isinstance(x, RangeVal) or isinstance(x, (NDArr, PList)):
    n = iter_len(I, x)
    if is_sym(n) or (isinstance(x, (NDArr, PList)) and any(
        is_sym(v) for v in iterate(I, x))):
      return as_intset(I, x)
  return I.new_set(I.hashable(y) for y in iterate(I, x))


class EnumVal(Host):

  def __init__(self, it, start):
    self.it, self.start = it, start


class ZipVal(Host):

  def __init__(self, its):
    self.its = its


class IterVal(Host):
  """An iterator over concrete items."""
  tname = 'iterator'

  def __init__(self, items):
    self.items = items
    self.pos = 0


# ---------------------------------------------------------------------------


def type_of(I, v):
  B = I.builtins
  if v is None:
    return B['NoneType']
  if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
    return B['bool']
  if isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
    return B['int']
  if isinstance(v, (float, Fraction)) or (is_sym(v) and z3.is_real(v)):
    return B['float']
  if isinstance(v, (str, SymStr)):
    return B['str']
  if isinstance(v, bytes):
    return B['bytes']
  if isinstance(v, tuple):
    return B['tuple']
  if isinstance(v, dict):
    return B['dict']
  if isinstance(v, (set, frozenset)):
    return B['set']
  if isinstance(v, PList):
    return {'list': B['list'], 'tuple': B['tuple'], 'deque': B['__deque__']}[v.kind]
  if isinstance(v, (NDArr, OpaqueVal)):
    return B['__ndarray__']
  if isinstance(v, Obj):
    return v.cls
  if isinstance(v, ClassVal):
    return B['type']
  if isinstance(v, Host) and hasattr(v, 'class_'):
    return v.class_(I)
  if isinstance(v, (FunctionVal, LibFn, Bound)):
    return B['__function__']
  raise Unsupported('type of %r' % (v,))


def isinstance_(I, v, c):
  if isinstance(c, tuple):
    return any(isinstance_(I, v, x) for x in c)
  if isinstance(c, LibUnknown):
    if isinstance(v, (Obj, PList, tuple, NDArr, str, int, Fraction)) or v is None:
      name = c.name.split('.')[-1]
      if name in ('Sequence', 'Iterable', 'Collection'):
        return isinstance(v, (PList, tuple, str))
      if name == 'Mapping':
        return isinstance(v, dict)
      if name == 'Callable':
        return isinstance(v, (FunctionVal, Bound, LibFn, Partial))
    raise Unsupported('isinstance with %s' % c.name)
  if isinstance(c, N.DTypeCls):
    raise Unsupported('isinstance numpy scalar')
  if not isinstance(c, ClassVal):
    raise Unsupported('isinstance %r' % (c,))
  t = type_of(I, v)
  if c is I.builtins['object']:
    return True
  if c is I.builtins['int'] and t is I.builtins['bool']:
    return True
  return t.subclass_of(c)


def truth(I, v):
  if v is None:
    return False
  if isinstance(v, bool):
    return v
  if is_sym(v):
    if z3.is_bool(v):
      return v
    if z3.is_arith(v):
      return v != 0
    raise Unsupported('truth of opaque value')
  if isinstance(v, (int, float, Fraction, str, bytes, tuple, dict, set)):
    return bool(v)
  if isinstance(v, PList):
    n = v.length()
    return n > 0
  if isinstance(v, NDArr):
    n = v.size()
    if not is_sym(n):
      if n == 1:
        return truth(I, v.get(*([0] * v.ndim)))
      if n == 0:
        return False
      raise I.exc('ValueError')
    raise Unsupported('truth of symbolic-size array')
  if isinstance(v, Obj):
    b, _ = v.cls.lookup('__bool__')
    if b is not None:
      return truth(I, I.call_function(b, [v], {}))
    l, _ = v.cls.lookup('__len__')
    if l is not None:
      return truth(I, I.call_function(l, [v], {}))
    return True
  if isinstance(v, (ClassVal, FunctionVal, Bound, LibFn, Module_types)):
    return True
  if isinstance(v, Host):
    if hasattr(v, 'truth_'):
      return v.truth_(I)
    if isinstance(v, (SymStr, OpaqueVal)):
      raise Unsupported('truth of %s' % v.tname)
    return True
  raise Unsupported('truth of %r' % (v,))


Module_types = (LibModule,)


def len_(I, v):
  if isinstance(v, PList):
    return v.length()
  if isinstance(v, (tuple, str, bytes, dict, set)):
    return len(v)
  if isinstance(v, NDArr):
    if not v.shape:
      raise I.exc('TypeError')
    return v.shape[0]
  if isinstance(v, RangeVal):
    return iter_len(I, v)
  if isinstance(v, Obj):
    l, _ = v.cls.lookup('__len__')
    if l is not None:
      return I.call_function(l, [v], {})
    raise I.exc('TypeError')
  if isinstance(v, Host) and hasattr(v, 'len_'):
    return v.len_(I)
  raise I.exc('TypeError') if is_num(v) or v is None else Unsupported('len of %r' % (v,))


def iter_len(I, v):
  if isinstance(v, RangeVal):
    if all(not is_sym(x) for x in (v.a, v.b, v.s)):
      return len(range(v.a, v.b, v.s))
    if v.s == 1:
      d = simp(Z(v.b) - Z(v.a))
      if not is_sym(d):
        return max(0, d)
      if I.ctx.prove(d >= 0):
        return d
      return simp(z3.If(d >= 0, d, 0))
    raise Unsupported('symbolic range step')
  if isinstance(v, EnumVal):
    return iter_len(I, v.it)
  if isinstance(v, ZipVal):
    ns = [iter_len(I, x) for x in v.its]
    n = ns[0]
    for m in ns[1:]:
      if is_sym(n) or is_sym(m):
        if I.ctx.prove(Z(n) == Z(m)):
          n = n if not is_sym(n) else m
        elif I.ctx.branch(Z(n) <= Z(m)):
          pass
        else:
          n = m
      else:
        n = min(n, m)
    return n
  if isinstance(v, IterVal):
    return len(v.items) - v.pos
  return len_(I, v)


def iter_at(I, v):
  """Element function for positions of an iterable of symbolic length."""
  if isinstance(v, RangeVal):
    return lambda i: simp(Z(v.a) + Z(i)) if is_sym(v.a) or is_sym(i) else v.a + i
  if isinstance(v, EnumVal):
    f = iter_at(I, v.it)
    return lambda i: (simp(Z(i) + v.start) if v.start != 0 and is_sym(i) else
                      (i if v.start == 0 else i + v.start), f(i))
  if isinstance(v, ZipVal):
    fs = [iter_at(I, x) for x in v.its]
    return lambda i: tuple(f(i) for f in fs)
  if isinstance(v, PList):
    w = v.copy()
    return lambda i: plist_at(I, w, i)
  if isinstance(v, tuple):
    return lambda i: plist_at(I, PList(v), i)
  if isinstance(v, NDArr):
    if v.ndim == 1:
      g = v.snapshot()
      return lambda i: g(i)
    return lambda i: N.row_view(I, v, i)
  if isinstance(v, Host) and hasattr(v, 'iter_at_'):
    return v.iter_at_(I)
  raise Unsupported('iterating %r' % (v,))


def plist_at(I, p, i):
  """Element at an in-range position."""
  if not is_sym(i) and p.concrete:
    return p.items[i]
  off = 0
  for k, s in enumerate(p.segs):
    n = len(s) if isinstance(s, list) else s.n
    last = k == len(p.segs) - 1 or all(
        isinstance(x, list) and not x for x in p.segs[k + 1:])
    if isinstance(s, list) and not s:
      continue
    here = True if last else I.ctx.branch(Z(i) < Z(off) + Z(n))
    if here:
      j = simp(Z(i) - Z(off))
      if isinstance(s, list):
        if not is_sym(j):
          return s[j]
        for q in range(len(s) - 1):
          if I.ctx.branch(Z(j) == q):
            return s[q]
        return s[-1]
      return s.at(j)
    off = simp(Z(off) + Z(n))
  raise Unsupported('index into empty sequence')


def iterate(I, v):
  """A concrete python iterable of values."""
  if isinstance(v, PList):
    return list(v.items)
  if isinstance(v, tuple):
    return list(v)
  if isinstance(v, dict):
    return list(v.keys())
  if isinstance(v, (set, frozenset)):
    try:
      return sorted(v)
    except TypeError:
      return list(v)
  if isinstance(v, str):
    return list(v)
  if isinstance(v, IterVal):
    out = v.items[v.pos:]
    v.pos = len(v.items)
    return out
  if isinstance(v, (RangeVal, EnumVal, ZipVal)):
    n = iter_len(I, v)
    if is_sym(n):
      n = I.ctx.pin(n)
      if is_sym(n):
        raise Unsupported('symbolic-length iteration')
      at = iter_at(I, v)
      return [at(i) for i in range(n)]
    if isinstance(v, ZipVal):
      cols = [iterate(I, x)[:n] for x in v.its]
      return [tuple(c[i] for c in cols) for i in range(n)]
    if isinstance(v, EnumVal):
      return [(i + v.start, x) for i, x in enumerate(iterate(I, v.it))]
    return [iter_at(I, v)(i) for i in range(n)]
  if isinstance(v, NDArr):
    if not v.shape:
      raise I.exc('TypeError')
    n = I.ctx.pin(v.shape[0])
    if is_sym(n):
      raise Unsupported('symbolic-length iteration')
    return [N.getitem(I, v, i) for i in range(n)]
  if isinstance(v, Host) and hasattr(v, 'iterate_'):
    return v.iterate_(I)
  if isinstance(v, ClassVal) and v.is_enum:
    return [x for x in v.attrs.values() if isinstance(x, Obj) and x.cls is v]
  if isinstance(v, Obj):
    m, _ = v.cls.lookup('__iter__')
    if m is not None:
      return iterate(I, I.call_function(m, [v], {}))
    if v.cls.dc and v.cls.dc.get('tuple'):
      return [v.fields[f[0]] for f in v.cls.dc['fields']]
  if v is None or is_num(v):
    raise I.exc('TypeError')
  raise Unsupported('iterate %r' % (v,))


def norm_index(I, i, n):
  """Python index -> in-range position, raising IndexError otherwise."""
  if not is_sym(i) and not is_sym(n):
    if not isinstance(i, int):
      raise I.exc('TypeError')
    if i < -n or i >= n:
      raise I.exc('IndexError')
    return i + n if i < 0 else i
  if not is_sym(i):
    if i >= 0:
      if not I.ctx.branch(Z(n) > i):
        raise I.exc('IndexError')
      return i
    if not I.ctx.branch(Z(n) >= -i):
      raise I.exc('IndexError')
    return simp(Z(n) + i)
  if z3.is_real(i):
    raise I.exc('TypeError')
  if z3.is_bool(i):
    raise Unsupported('boolean index')
  if I.ctx.prove(And(i >= 0, i < n)):
    return i
  if not I.ctx.branch(And(i >= -Z(n), i < n)):
    raise I.exc('IndexError')
  if I.ctx.prove(i >= 0):
    return i
  return simp(z3.If(i >= 0, i, i + n))


def slice_bounds(I, k, n):
  """Start and length of a step-1 slice over length n."""
  def clampidx(v, default):
    if v is None:
      return default
    if isinstance(v, Fraction):
      raise I.exc('TypeError')
    if not is_sym(v) and not is_sym(n):
      return max(0, v + n) if v < 0 else min(v, n)
    if not is_sym(v):
      if v == 0:
        return 0
      if v > 0:
        if I.ctx.prove(Z(n) >= v):
          return v
        return simp(z3.If(Z(n) >= v, v, n))
      if I.ctx.prove(Z(n) >= -v):
        return simp(Z(n) + v)
      return simp(z3.If(Z(n) + v >= 0, Z(n) + v, 0))
    vn = z3.If(v < 0, z3.If(v + n >= 0, v + n, 0), z3.If(v <= n, v, Z(n)))
    if I.ctx.prove(And(v >= 0, v <= n)):
      return v
    return simp(vn)
  a = clampidx(k.start, 0)
  b = clampidx(k.stop, n)
  d = simp(Z(b) - Z(a)) if is_sym(a) or is_sym(b) else b - a
  if is_sym(d):
    if not I.ctx.prove(d >= 0):
      d = simp(z3.If(d >= 0, d, 0))
  else:
    d = max(0, d)
  return a, d


def getitem(I, o, k):
  if isinstance(o, NDArr):
    return N.getitem(I, o, k)
  if isinstance(o, (tuple, PList)):
    p = o if isinstance(o, PList) else PList(o, 'tuple')
    I.note_read(p, 'items')
    if isinstance(k, slice):
      return slice_seq(I, o, k)
    if not is_num(k):
      raise I.exc('TypeError')
    n = p.length()
    i = norm_index(I, k, n)
    return plist_at(I, p, i)
  if isinstance(o, dict):
    if is_sym(k):
      for kk in o:
        if is_num(kk) and I.ctx.branch(Z(k) == Z(kk)):
          return o[kk]
      raise I.exc('KeyError')
    if k not in o:
      if getattr(o, 'default_factory', None) is not None:
        o[k] = I.call(o.default_factory, [], {})
        return o[k]
      raise I.exc('KeyError')
    return o[k]
  if isinstance(o, str):
    return o[k]
  if isinstance(o, Obj):
    m, _ = o.cls.lookup('__getitem__')
    if m is not None:
      return I.call_function(m, [o, k], {})
    if o.cls.dc and o.cls.dc.get('tuple'):
      return getitem(I, tuple(o.fields[f[0]] for f in o.cls.dc['fields']), k)
  if isinstance(o, RangeVal):
    n = iter_len(I, o)
    return iter_at(I, o)(norm_index(I, k, n))
  if isinstance(o, ClassVal) and o.is_enum:
    if k in o.attrs:
      return o.attrs[k]
    raise I.exc('KeyError')
  if isinstance(o, Host) and hasattr(o, 'getitem_'):
    return o.getitem_(I, k)
  if o is None or is_num(o):
    raise I.exc('TypeError')
  raise Unsupported('subscript of %r' % (o,))


def slice_seq(I, o, k):
  if isinstance(o, tuple) or o.concrete:
    items = list(o) if isinstance(o, tuple) else o.items
    if any(is_sym(x) for x in (k.start, k.stop, k.step)):
      if k.step not in (None, 1):
        raise Unsupported('symbolic slice step')
      for which in ('start', 'stop'):
        x = getattr(k, which)
        if is_sym(x):
          # branch over the concrete possibilities.
          n = len(items)
          for c in range(n + 1):
            ok = (Z(x) <= 0) if c == 0 and False else (Z(x) == c)
            if I.ctx.branch(ok):
              return slice_seq(I, o, slice(c if which == 'start' else k.start,
                                           c if which == 'stop' else k.stop, k.step))
          if I.ctx.branch(Z(x) > n):
            return slice_seq(I, o, slice(n if which == 'start' else k.start,
                                         n if which == 'stop' else k.stop, k.step))
          raise Unsupported('negative symbolic slice bound')
    r = items[k]
    return tuple(r) if isinstance(o, tuple) else (
        I.new_list(r, o.kind) if o.kind != 'tuple' else tuple(r))
  n = o.length()
  if k.step == -1 and k.start is None and k.stop is None:
    w = o.copy()
    return PList.sym(n, lambda i: plist_at(I, w, simp(Z(n) - 1 - Z(i))), o.kind)
  if k.step not in (None, 1):
    raise Unsupported('slice step on symbolic sequence')
  a, d = slice_bounds(I, k, n)
  if not is_sym(a) and a == 0 and is_sym(d) and d.eq(Z(n)):
    return o.copy()
  w = o.copy()
  if not is_sym(d):
    return I.new_list([plist_at(I, w, simp(Z(a) + q)) for q in range(d)], o.kind)
  r = PList.sym(d, lambda i: plist_at(I, w, simp(Z(a) + Z(i))), o.kind)
  r.oid = next(I.ctx.alloc)
  return r


def setitem(I, o, k, v):
  if isinstance(o, NDArr):
    return N.setitem(I, o, k, v)
  if isinstance(o, PList):
    if o.kind == 'tuple':
      raise I.exc('TypeError')
    I.note_write(o, 'items')
    items = o.items
    if isinstance(k, slice):
      items[k] = iterate(I, v)
    else:
      items[norm_index(I, k, len(items))] = v
    o.set_items(items)
    return
  if isinstance(o, dict):
    if getattr(o, 'frozen', False):
      raise I.exc('TypeError')
    I.note_write(o, 'items')
    o[I.hashable(k)] = v
    return
  if isinstance(o, tuple):
    raise I.exc('TypeError')
  if isinstance(o, Obj):
    m, _ = o.cls.lookup('__setitem__')
    if m is not None:
      return I.call_function(m, [o, k, v], {})
  raise Unsupported('item assignment on %r' % (o,))


# ---------------------------------------------------------------------------


def binop(I, op, a, b):
  if isinstance(a, NDArr) or isinstance(b, NDArr):
    if isinstance(a, (Host, Obj)) and not isinstance(a, OpaqueVal) and hasattr(a, 'binop_'):
      pass
    return N.binop(I, op, a, b)
  if isinstance(a, Host) and hasattr(a, 'binop_'):
    r = a.binop_(I, op, b, False)
    if r is not NotImplemented:
      return r
  if isinstance(b, Host) and hasattr(b, 'binop_'):
    r = b.binop_(I, op, a, True)
    if r is not NotImplemented:
      return r
  if is_num(a) and is_num(b):
    return scalar_binop(I, op, a, b)
  if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
    return a + b
  if isinstance(a, PList) and isinstance(b, PList) and op == 'Add':
    r = I.new_list((), a.kind)
    r.segs = [list(s) if isinstance(s, list) else s for s in a.segs + b.segs]
    return r
  if isinstance(a, tuple) and isinstance(b, PList) and b.kind == 'tuple' and op == 'Add':
    r = I.new_list((), 'tuple')
    r.segs = [list(a)] + list(b.segs)
    return r
  if isinstance(b, tuple) and isinstance(a, PList) and a.kind == 'tuple' and op == 'Add':
    r = I.new_list((), 'tuple')
    r.segs = list(a.segs) + [list(b)]
    return r
  if op == 'Mult':
    if isinstance(b, (PList, tuple)):
      a, b = b, a
    if isinstance(a, PList) and isinstance(b, int):
      return I.new_list(a.items * b)
    if isinstance(a, tuple) and isinstance(b, int):
      return a * b
    if isinstance(a, PList) and is_sym(b) and len(a.items) == 1:
      x = a.items[0]
      return PList.sym(simp(z3.If(b > 0, b, 0)), lambda i: x)
  if isinstance(a, (str, SymStr)) and op in ('Add', 'Mod', 'Mult'):
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
      return a + b
    if isinstance(a, str) and op == 'Mult' and isinstance(b, int):
      return a * b
    if isinstance(a, str) and op == 'Mod':
      xs = b if isinstance(b, tuple) else (b,)
      if all(isinstance(x, (str, int)) for x in xs):
        try:
          return a % xs
        except (TypeError, ValueError) as e:
          raise I.exc(type(e).__name__)
    return SymStr()
  if isinstance(a, Obj):
    m, _ = a.cls.lookup(DUNDER.get(op, '__none__'))
    if m is not None:
      return I.call_function(m, [a, b], {})
  if isinstance(a, set) and isinstance(b, set):
    return {'BitOr': a | b, 'BitAnd': a & b, 'Sub': a - b}[op]
  if isinstance(a, dict) and isinstance(b, dict) and op == 'BitOr':
    d = dict(a)
    d.update(b)
    return d
  if op == 'BitOr' and isinstance(a, (ClassVal, LibUnknown, LibFn, type(None))):
    return a   # type union in an annotation
  if a is None or b is None:
    raise I.exc('TypeError')
  if (isinstance(a, (PList, tuple)) and is_num(b)) or (is_num(a) and isinstance(b, (PList, tuple))):
    raise I.exc('TypeError')
  raise Unsupported('%s on %r and %r' % (op, a, b))


DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
          'Div': '__truediv__', 'MatMult': '__matmul__'}


def scalar_binop(I, op, a, b, np_mode=False):
  if op in ('BitAnd', 'BitOr', 'BitXor'):
    isb = lambda x: isinstance(x, bool) or (is_sym(x) and z3.is_bool(x))
    if isb(a) and isb(b):
      if op == 'BitAnd':
        return And(a, b)
      if op == 'BitOr':
        return Or(a, b)
      return Not(eq_scalar(a, b))
    if isinstance(a, int) and isinstance(b, int):
      return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
    raise Unsupported('bit operation')
  a, b = num(a), num(b)
  for x in (a, b):
    if isinstance(x, float):
      return inf_binop(I, op, a, b)
  if op == 'Add':
    if not is_sym(a) and a == 0 and not (is_sym(b) and z3.is_int(b) and isinstance(a, Fraction)):
      return b
    return a + b if not (is_sym(a) or is_sym(b)) else simp(Z(a) + Z(b))
  if op == 'Sub':
    return a - b if not (is_sym(a) or is_sym(b)) else simp(Z(a) - Z(b))
  if op == 'Mult':
    return a * b if not (is_sym(a) or is_sym(b)) else simp(Z(a) * Z(b))
  if op == 'Div':
    if not is_sym(b):
      if b == 0:
        if np_mode:
          raise Unsupported('numpy division by zero')
        raise I.exc('ZeroDivisionError')
      if not is_sym(a):
        return Fraction(a) / Fraction(b)
    elif np_mode:
      if not I.ctx.prove(b != 0):
        # numpy yields inf/nan: outside the real-number model.
        I.ctx.div0_guard(b)
    elif not I.ctx.branch(Z(b) != 0):
      raise I.exc('ZeroDivisionError')
    za, zb = Z(a), Z(b)
    za = z3.ToReal(za) if z3.is_int(za) else za
    zb = z3.ToReal(zb) if z3.is_int(zb) else zb
    return simp(za / zb)
  if op in ('FloorDiv', 'Mod'):
    if not is_sym(a) and not is_sym(b):
      if b == 0:
        raise I.exc('ZeroDivisionError')
      q = math.floor(Fraction(a) / Fraction(b))
      r = a - b * q
      isint = isinstance(a, int) and isinstance(b, int)
      if op == 'FloorDiv':
        return q if isint else Fraction(q)
      return r
    if not is_sym(b):
      if b == 0:
        raise I.exc('ZeroDivisionError')
    elif not I.ctx.branch(Z(b) != 0):
      raise I.exc('ZeroDivisionError')
    za, zb = Z(a), Z(b)
    if z3.is_int(za) and z3.is_int(zb):
      if not is_sym(b) and b > 0:
        return simp(za / zb) if op == 'FloorDiv' else simp(za % zb)
      if I.ctx.prove(zb > 0):
        return simp(za / zb) if op == 'FloorDiv' else simp(za % zb)
      raise Unsupported('integer division by a possibly negative divisor')
    ra = z3.ToReal(za) if z3.is_int(za) else za
    rb = z3.ToReal(zb) if z3.is_int(zb) else zb
    q = z3.ToInt(ra / rb)
    if op == 'FloorDiv':
      return simp(z3.ToReal(q))
    return simp(ra - rb * z3.ToReal(q))
  if op == 'Pow':
    return power(I, a, b)
  raise Unsupported('operator %s' % op)


def inf_binop(I, op, a, b):
  if not is_sym(a) and not is_sym(b):
    fa, fb = float(a), float(b)
    try:
      r = {'Add': lambda: fa + fb, 'Sub': lambda: fa - fb, 'Mult': lambda: fa * fb,
           'Div': lambda: fa / fb}[op]()
    except KeyError:
      raise Unsupported('inf arithmetic')
    return Fraction(r) if r == r and abs(r) != float('inf') else r
  inf = b if isinstance(b, float) else a
  if inf == inf and op in ('Add', 'Sub'):
    if op == 'Sub' and b is inf:
      return -inf
    return inf
  raise Unsupported('arithmetic with a non-finite constant')


def power(I, a, b):
  if not is_sym(b) and (isinstance(b, int) or b.denominator == 1) and 0 <= b <= 4:
    if not is_sym(a):
      return a ** int(b)
    r = 1
    for _ in range(int(b)):
      r = simp(Z(r) * Z(a)) if is_sym(r) else simp(Z(a) * r)
    if isinstance(b, Fraction) and is_sym(r) and z3.is_int(r):
      r = z3.ToReal(r)
    return r
  if not is_sym(a) and not is_sym(b) and (isinstance(b, int) or b.denominator == 1):
    return Fraction(a) ** int(b)
  if not is_sym(b) and b == Fraction(1, 2):
    return N.uf(I, 'sqrt', a)
  return N.uf(I, 'pow', a, b)


def eq_scalar(a, b):
  isb = lambda x: isinstance(x, bool) or (is_sym(x) and z3.is_bool(x))
  if isb(a) and isb(b):
    if not is_sym(a) and not is_sym(b):
      return a == b
    return simp(Z(a) == Z(b))
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    return a == b
  if isinstance(a, float) or isinstance(b, float):
    return False   # finite symbolic real vs inf/nan
  return simp(Z(a) == Z(b))


def eq(I, a, b):
  """Python ==, as a (symbolic) boolean or a boolean array."""
  if isinstance(a, NDArr) or isinstance(b, NDArr):
    return N.compare(I, 'Eq', a, b)
  if a is b and not isinstance(a, float):
    if isinstance(a, Obj) and a.cls.lookup('__eq__')[0] is not None:
      pass
    else:
      return True
  if is_num(a) and is_num(b):
    return eq_scalar(a, b)
  if isinstance(a, Host) and hasattr(a, 'eq_'):
    return a.eq_(I, b)
  if isinstance(b, Host) and hasattr(b, 'eq_'):
    return b.eq_(I, a)
  if isinstance(a, OpaqueVal) and isinstance(b, OpaqueVal):
    return simp(a.term == b.term)
  if isinstance(a, Obj):
    m, c = a.cls.lookup('__eq__')
    if m is not None:
      return I.call_function(m, [a, b], {})
    if a.cls.dc and a.cls.dc['eq']:
      if not isinstance(b, Obj) or b.cls is not a.cls:
        return False
      r = True
      for f in a.cls.dc['fields']:
        r = And(r, truth(I, eq(I, a.fields[f[0]], b.fields[f[0]])))
        if r is False:
          return False
      return r
    return a is b
  if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
    ka = 'tuple' if isinstance(a, tuple) else a.kind
    kb = 'tuple' if isinstance(b, tuple) else b.kind
    if ka != kb:
      return False
    pa = a if isinstance(a, PList) else PList(a)
    pb = b if isinstance(b, PList) else PList(b)
    if pa.concrete and pb.concrete:
      xs, ys = pa.items, pb.items
      if len(xs) != len(ys):
        return False
      r = True
      for x, y in zip(xs, ys):
        r = And(r, truth(I, eq(I, x, y)))
        if r is False:
          return False
      return r
    raise Unsupported('== on symbolic-length sequences')
  if isinstance(a, dict) and isinstance(b, dict):
    if set(a) != set(b):
      return False
    r = True
    for k in a:
      r = And(r, truth(I, eq(I, a[k], b[k])))
    return r
  if isinstance(a, SymStr) or isinstance(b, SymStr):
    raise Unsupported('comparison of unmodelled strings')
  if is_num(a) or is_num(b) or a is None or b is None:
    return False
  if isinstance(a, (str, bytes, set, frozenset)) or isinstance(b, (str, bytes)):
    return a == b
  if isinstance(a, (ClassVal, FunctionVal, DType)) or isinstance(b, (ClassVal, FunctionVal, DType)):
    return a == b
  if isinstance(a, Bound) and isinstance(b, Bound):
    return a.fn is b.fn and a.self_ is b.self_
  return a is b


def is_(I, a, b):
  if a is None or b is None:
    return a is b
  if isinstance(a, (bool, ClassVal, Obj, Host, NDArr, PList, str)) or \
      isinstance(b, (bool, ClassVal, Obj, Host, NDArr, PList, str)):
    if isinstance(a, bool) or isinstance(b, bool):
      if is_sym(a) or is_sym(b):
        if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
          return simp(Z(a) == Z(b))
        return False
    return a is b
  return a is b


def compare(I, op, a, b):
  if op == 'Is':
    return is_(I, a, b)
  if op == 'IsNot':
    return Not(is_(I, a, b))
  if op in ('In', 'NotIn'):
    r = contains(I, b, a)
    return r if op == 'In' else Not(r)
  if isinstance(a, NDArr) or isinstance(b, NDArr):
    return N.compare(I, op, a, b)
  if op == 'Eq':
    return eq(I, a, b)
  if op == 'NotEq':
    r = eq(I, a, b)
    if isinstance(r, NDArr):
      return N.unary(I, 'Invert', r)
    return Not(truth(I, r))
  if is_num(a) and is_num(b):
    return scalar_compare(op, a, b)
  if isinstance(a, Host) and hasattr(a, 'cmp_'):
    return a.cmp_(I, op, b)
  if isinstance(a, (tuple,)) and isinstance(b, tuple):
    if all(not is_sym(x) for x in a + b):
      return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
  if isinstance(a, str) and isinstance(b, str):
    return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
  if isinstance(a, set) and isinstance(b, set):
    return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
  if a is None or b is None:
    raise I.exc('TypeError')
  raise Unsupported('comparison %s of %r, %r' % (op, a, b))


def scalar_compare(op, a, b):
  if op == 'Eq':
    return eq_scalar(a, b)
  if op == 'NotEq':
    return Not(eq_scalar(a, b))
  a, b = num(a), num(b)
  if not is_sym(a) and not is_sym(b):
    return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
  for x, flip in ((a, False), (b, True)):
    if isinstance(x, float):
      if x != x:
        return False
      pos = x > 0
      small = op in ('Lt', 'LtE')
      # a op b with a = +-inf (or b when flip)
      if not flip:
        return (not pos) if small else pos
      return pos if small else (not pos)
  za, zb = Z(a), Z(b)
  return simp({'Lt': za < zb, 'LtE': za <= zb, 'Gt': za > zb, 'GtE': za >= zb}[op])


def contains(I, c, x):
  if isinstance(c, (tuple, PList)):
    p = c if isinstance(c, PList) else PList(c)
    r = False
    for y in p.items:
      if y is x:
        return True
      r = Or(r, truth(I, eq(I, x, y)))
      if r is True:
        return True
    return r
  if isinstance(c, (dict, set, frozenset)):
    if is_sym(x):
      return Or(*[eq_scalar(x, k) for k in c if is_num(k)])
    if isinstance(x, SymStr) and c:
      raise Unsupported('unmodelled string among others')
    return x in c
  if isinstance(c, str) and isinstance(x, str):
    return x in c
  if isinstance(c, RangeVal):
    return And(Z(x) >= c.a, Z(x) < c.b)
  if isinstance(c, Host) and hasattr(c, 'contains_'):
    return c.contains_(I, x)
  raise Unsupported('in %r' % (c,))


def list_extend(I, p, v):
  if isinstance(v, PList) and not v.concrete:
    p.segs.extend([list(s) if isinstance(s, list) else s for s in v.segs])
    return
  if isinstance(v, tuple) or isinstance(v, PList) or not is_sym(iter_len(I, v)):
    for x in iterate(I, v):
      p.append(x)
    return
  n = iter_len(I, v)
  p.segs.append(SymSeg(n, iter_at(I, v)))


def as_seq(I, v, kind='list'):
  """list(v) / tuple(v)."""
  if isinstance(v, IntSet):
    v = v.members(I)
    I.ctx.assumptions.add('a set of small integers is enumerated in increasing order')
  if isinstance(v, PList) and not v.concrete:
    r = v.copy(kind)
    r.oid = next(I.ctx.alloc)
    return r
  n = iter_len(I, v) if not isinstance(v, (dict, set, str, frozenset, ClassVal, Obj)) else 0
  n = simp(n) if is_sym(n) else n
  if is_sym(n):
    r = PList.sym(n, iter_at(I, v), kind)
    r.oid = next(I.ctx.alloc)
    return r
  items = iterate(I, v)
  if kind == 'tuple':
    return tuple(items)
  return I.new_list(items, kind)


# ---------------------------------------------------------------------------
# methods of plain values


def value_attr(I, o, name):
  if isinstance(o, NDArr):
    return N.attr(I, o, name)
  if isinstance(o, PList):
    return list_attr(I, o, name)
  if isinstance(o, tuple):
    if name == 'index':
      return LibFn('tuple.index', lambda x: list(o).index(x))
    if name == 'count':
      return LibFn('tuple.count', lambda x: list(o).count(x))
    raise I.exc('AttributeError', name)
  if isinstance(o, dict):
    return dict_attr(I, o, name)
  if isinstance(o, (set, frozenset)):
    def add(x):
      I.note_write(o, 'items')
      o.add(I.hashable(x))

    def discard(x):
      I.note_write(o, 'items')
      o.discard(x)

    def update(x):
      I.note_write(o, 'items')
      o.update(iterate(I, x))
    t = {'add': add, 'discard': discard, 'update': update}
    if name in t:
      return LibFn('set.' + name, t[name])
    raise Unsupported('set.%s' % name)
  if isinstance(o, str):
    def strm(*a, **k):
      if any(isinstance(x, SymStr) for x in a):
        return SymStr()
      if name == 'join':
        items = iterate(I, a[0])
        if any(not isinstance(x, str) for x in items):
          return SymStr()
        return o.join(items)
      if name == 'format':
        try:
          return o.format(*[float(x) if isinstance(x, Fraction) else x for x in a], **k)
        except Exception:
          return SymStr()
      r = getattr(o, name)(*a, **k)
      return I.new_list(r) if isinstance(r, list) else r
    if hasattr(o, name):
      return LibFn('str.' + name, strm)
    raise I.exc('AttributeError', name)
  if o is None:
    raise I.exc('AttributeError', name)
  if is_num(o):
    return N.scalar_attr(I, o, name)
  if isinstance(o, (LibFn, Bound, Partial)):
    if name == '__name__':
      return getattr(o, 'name', 'fn')
    if isinstance(o, Partial) and name == 'func':
      return o.fn
    if isinstance(o, LibFn):
      return LibUnknown('%s.%s' % (o.name, name))
  raise Unsupported('attribute %s of %r' % (name, o))


def list_attr(I, o, name):
  def mut(fn):
    def f(*a, **k):
      if o.kind == 'tuple':
        raise I.exc('AttributeError', name)
      for t in I.trackers:
        if name == 'append' and t.append(o, getattr(o, 'oid', None), a[0]):
          return None
      I.note_write(o, 'items')
      return fn(*a, **k)
    return LibFn('list.' + name, f)

  def trim():
    if o.maxlen is not None:
      items = o.items
      o.set_items(items[len(items) - o.maxlen:] if len(items) > o.maxlen else items)

  def append(x):
    o.append(x)
    trim()

  def appendleft(x):
    o.set_items(([x] + o.items)[:o.maxlen] if o.maxlen is not None else [x] + o.items)

  def extend(x):
    list_extend(I, o, x)
    trim()

  def pop(i=-1):
    items = o.items
    if not items:
      raise I.exc('IndexError')
    j = norm_index(I, i, len(items))
    v = items.pop(j)
    o.set_items(items)
    return v

  def popleft():
    return pop(0)

  def clear():
    o.segs = [[]]

  def insert(i, x):
    items = o.items
    items.insert(i, x)
    o.set_items(items)

  def remove(x):
    items = o.items
    for k, y in enumerate(items):
      if y is x or I.ctx.branch(truth(I, eq(I, y, x))):
        del items[k]
        o.set_items(items)
        return
    raise I.exc('ValueError')

  def reverse():
    o.set_items(o.items[::-1])

  def index(x):
    for k, y in enumerate(o.items):
      if y is x or I.ctx.branch(truth(I, eq(I, y, x))):
        return k
    raise I.exc('ValueError')

  def count(x):
    r = 0
    for y in o.items:
      if y is x or I.ctx.branch(truth(I, eq(I, y, x))):
        r += 1
    return r

  def sort(key=None, reverse=False):
    o.set_items(sorted_(I, o, key=key, reverse=reverse).items)
  if name == 'copy':
    def copy():
      c = o.copy()
      c.oid = next(I.ctx.alloc)
      return c
    return LibFn('list.copy', copy)
  if name == 'index':
    return LibFn('list.index', index)
  if name == 'count':
    return LibFn('list.count', count)
  if name == 'maxlen' and o.kind == 'deque':
    return o.maxlen
  t = {'append': append, 'extend': extend, 'pop': pop, 'clear': clear,
       'insert': insert, 'remove': remove, 'reverse': reverse, 'sort': sort}
  if o.kind == 'deque':
    t.update({'appendleft': appendleft, 'popleft': popleft})
  if name in t:
    return mut(t[name])
  raise I.exc('AttributeError', name)


def dict_attr(I, o, name):
  def get(k, d=None):
    return o.get(I.hashable(k), d)

  def pop(k, *d):
    if k in o:
      I.note_write(o, 'items')
      return o.pop(k)
    if d:
      return d[0]
    raise I.exc('KeyError')

  def setdefault(k, d=None):
    if k not in o:
      I.note_write(o, 'items')
    return o.setdefault(I.hashable(k), d)

  def update(other=None, **kw):
    I.note_write(o, 'items')
    if other is not None:
      o.update(other)
    o.update(kw)

  def clear():
    I.note_write(o, 'items')
    o.clear()
  t = {'get': get, 'pop': pop, 'setdefault': setdefault, 'update': update,
       'keys': lambda: I.new_list(o.keys()), 'values': lambda: I.new_list(o.values()),
       'items': lambda: I.new_list([(k, v) for k, v in o.items()]),
       'copy': lambda: I.new_dict(o), 'clear': clear}
  if name in t:
    return LibFn('dict.' + name, t[name])
  raise I.exc('AttributeError', name)


def sorted_(I, v, key=None, reverse=False):
  items = iterate(I, v)
  keys = [I.call(key, [x], {}) if key is not None else x for x in items]
  order = list(range(len(items)))
  lt = lambda a, b: I.ctx.branch(truth(I, compare(I, 'Lt', a, b)))
  # stable insertion sort, forking on symbolic comparisons.
  out = []
  for i in order:
    p = len(out)
    while p > 0 and (lt(keys[i], keys[out[p - 1]]) if not reverse
                     else lt(keys[out[p - 1]], keys[i])):
      p -= 1
    out.insert(p, i)
  return I.new_list([items[i] for i in out])


# ---------------------------------------------------------------------------


def make_builtins(I):
  B = {}
  for n in ('object', 'NoneType', 'type', 'bytes'):
    B[n] = ClassVal(n)
  B['__function__'] = ClassVal('function')
  B['__ndarray__'] = ClassVal('ndarray')
  B['__deque__'] = ClassVal('deque')

  def cls(name, fn):
    c = ClassVal(name)
    c.attrs['__construct__'] = lambda I_, c_, a, k: fn(*a, **k)
    B[name] = c

  def c_float(x=Fraction(0)):
    if isinstance(x, str):
      return float(x) if x in ('inf', '-inf', 'nan') else Fraction(x)
    x = N.item(I, x)
    x = num(x)
    if isinstance(x, int):
      return Fraction(x)
    if is_sym(x) and z3.is_int(x):
      return z3.ToReal(x)
    if not is_num(x):
      raise I.exc('TypeError') if x is None else Unsupported('float()')
    return x

  def c_int(x=0):
    if isinstance(x, str):
      return int(x)
    x = num(N.item(I, x))
    if isinstance(x, Fraction):
      return int(x)
    if isinstance(x, float):
      raise I.exc('ValueError')
    if is_sym(x) and z3.is_real(x):
      return N.trunc(x)
    return x

  cls('float', c_float)
  cls('int', c_int)
  cls('bool', lambda x=False: truth(I, x))
  cls('str', lambda x='': x if isinstance(x, str) else (
      str(x) if isinstance(x, int) and not isinstance(x, bool) else SymStr()))
  cls('list', lambda x=(): as_seq(I, x, 'list'))
  cls('tuple', lambda x=(): as_seq(I, x, 'tuple'))
  cls('set', lambda x=(): c_set(I, x))
  cls('frozenset', lambda x=(): frozenset(iterate(I, x)))

  def c_dict(x=None, **kw):
    d = I.new_dict()
    if isinstance(x, dict):
      d.update(x)
    elif x is not None:
      for k, v in iterate(I, x):
        d[I.hashable(k)] = v
    d.update(kw)
    return d
  cls('dict', c_dict)

  # exceptions
  import builtins as pyb
  for n in dir(pyb):
    e = getattr(pyb, n)
    if isinstance(e, type) and issubclass(e, BaseException):
      B[n] = None

  def mkexc(e):
    if B.get(e.__name__) is not None:
      return B[e.__name__]
    bases = [mkexc(b) for b in e.__bases__ if b is not object]
    c = ClassVal(e.__name__, bases)
    c.host = e
    B[e.__name__] = c
    return c
  for n in list(B):
    e = getattr(pyb, n, None)
    if isinstance(e, type) and issubclass(e, BaseException):
      mkexc(e)

  def fn(name):
    def deco(f):
      B[name] = LibFn(name, f)
      return f
    return deco

  fn('len')(lambda x: len_(I, x))
  fn('isinstance')(lambda x, c: isinstance_(I, x, c))
  fn('issubclass')(lambda x, c: x.subclass_of(c))
  fn('range')(lambda *a: RangeVal(*([0, a[0]] if len(a) == 1 else a)))
  fn('enumerate')(lambda it, start=0: EnumVal(it, start))
  fn('zip')(lambda *its, strict=False: ZipVal(list(its)) if its else I.new_list())
  fn('abs')(lambda x: N.abs_(I, x))
  fn('hash')(lambda x: (_ for _ in ()).throw(Unsupported('hash')))
  fn('id')(lambda x: (_ for _ in ()).throw(Unsupported('id')))
  fn('repr')(lambda x: SymStr())
  fn('callable')(lambda x: isinstance(x, (FunctionVal, Bound, LibFn, Partial)))
  fn('getattr')(lambda o, n, *d: I.getattr(o, n, *d))
  fn('setattr')(lambda o, n, v: I.setattr(o, n, v))

  @fn('hasattr')
  def hasattr__(o, n):
    try:
      I.getattr(o, n)
      return True
    except PyExc as e:
      if e.cls.name == 'AttributeError':
        return False
      raise

  @fn('type')
  def type__(x, *a):
    return type_of(I, x)

  def minmax(which):
    def f(*a, **kw):
      key = kw.get('key')
      items = list(a) if len(a) > 1 else None
      if items is None:
        v = a[0]
        n = iter_len(I, v) if not isinstance(v, (dict, set)) else len(v)
        if is_sym(n):
          arr = v if isinstance(v, NDArr) else NDArr((n,), iter_at(I, v))
          return N.minmax(I, arr, which)
        items = iterate(I, v)
      if not items:
        if 'default' in kw:
          return kw['default']
        raise I.exc('ValueError')
      best = items[0]
      for x in items[1:]:
        kx = I.call(key, [x], {}) if key else x
        kb = I.call(key, [best], {}) if key else best
        c = truth(I, compare(I, 'Lt' if which == 'min' else 'Gt', kx, kb))
        if is_num(x) and is_num(best) and not isinstance(x, float) and not isinstance(best, float):
          best = simp(Ite(c, x, best)) if is_sym(c) else (x if c else best)
        else:
          best = x if I.ctx.branch(c) else best
      return best
    return f
  fn('min')(minmax('min'))
  fn('max')(minmax('max'))

  @fn('sum')
  def sum__(v, start=0):
    n = iter_len(I, v)
    n = simp(n) if is_sym(n) else n
    if is_sym(n):
      s = N.sym_sum(I, n, iter_at(I, v))
      return binop(I, 'Add', start, s)
    r = start
    for x in iterate(I, v):
      r = binop(I, 'Add', r, x)
    return r

  def allany(is_all):
    def f(v):
      n = iter_len(I, v)
      n = simp(n) if is_sym(n) else n
      if is_sym(n):
        at = iter_at(I, v)
        return N.sym_all(I, n, lambda i: truth(I, at(i))) if is_all else \
            Not(N.sym_all(I, n, lambda i: Not(truth(I, at(i)))))
      xs = [truth(I, x) for x in iterate(I, v)]
      return And(*xs) if is_all else Or(*xs)
    return f
  fn('all')(allany(True))
  fn('any')(allany(False))

  @fn('map')
  def map__(f, *its):
    src = its[0] if len(its) == 1 else ZipVal(list(its))
    call = (lambda x: I.call(f, [x], {})) if len(its) == 1 else (lambda x: I.call(f, list(x), {}))
    n = iter_len(I, src)
    n = simp(n) if is_sym(n) else n
    if is_sym(n):
      at = iter_at(I, src)

      heap = I.ctx.heap

      def elem(i):
        with I.purely(heap):
          return call(at(i))
      I.probe_elem(n, elem)
      return PList.sym(n, elem)
    return I.new_list([call(x) for x in iterate(I, src)])

  @fn('filter')
  def filter__(f, it):
    return I.new_list([x for x in iterate(I, it)
                       if I.ctx.branch(truth(I, I.call(f, [x], {}) if f is not None else x))])

  fn('sorted')(lambda v, key=None, reverse=False: sorted_(I, v, key, reverse))
  fn('reversed')(lambda v: slice_seq(I, v, slice(None, None, -1)) if isinstance(v, (PList, tuple))
                 else I.new_list(iterate(I, v)[::-1]))
  fn('iter')(lambda v: v if isinstance(v, IterVal) else IterVal(iterate(I, v)))

  @fn('next')
  def next__(it, *d):
    if not isinstance(it, IterVal):
      if isinstance(it, PList):   # generator expression
        items = it.items
        if items:
          return items[0]
        if d:
          return d[0]
        raise I.exc('StopIteration')
      raise Unsupported('next')
    if it.pos < len(it.items):
      it.pos += 1
      return it.items[it.pos - 1]
    if d:
      return d[0]
    raise I.exc('StopIteration')

  @fn('round')
  def round__(x, nd=None):
    x = num(N.item(I, x))
    if isinstance(x, (int, Fraction)):
      r = round(x, nd) if nd is not None else round(x)
      return Fraction(r) if nd is not None and not isinstance(x, int) else r
    return N.round_(I, x, nd)

  @fn('slice')
  def slice__(*a):
    return slice(*a)

  @fn('divmod')
  def divmod__(a, b):
    return (binop(I, 'FloorDiv', a, b), binop(I, 'Mod', a, b))
  fn('vars')(lambda o: dict(o.fields))
  B['NotImplemented'] = LibUnknown('NotImplemented')
  B['Ellipsis'] = Ellipsis
  B['__debug__'] = True
  return B


from pyvc.libmods import make_module, submodule  # noqa  pylint: disable=wrong-import-position
