"""Models of the library modules the repository imports."""
from fractions import Fraction
import math
import os
import re

import z3

from pyvc.core import *  # noqa
from pyvc.core import (Unsupported, PathEnd, PyExc, is_sym, Z, num, simp, And, Or,
                       Not, Implies, Ite, is_num)
from pyvc.values import *  # noqa
from pyvc import values as V
from pyvc import npmodel as N

PI = Fraction(math.pi)


def lf(name, fn):
  return LibFn(name, fn)


# ---------------------------------------------------------------------------
# datetime.timedelta: real seconds (microsecond rounding is not modelled).


class TD(Host):
  tname = 'timedelta'

  def __init__(self, secs):
    self.secs = secs

  def class_(self, I):
    return td_class(I)

  def getattr_(self, I, name):
    if name == 'total_seconds':
      return lf('total_seconds', lambda: frac(self.secs))
    if name in ('days', 'seconds', 'microseconds') and not is_sym(self.secs):
      us = round(Fraction(self.secs) * 10**6)
      d, r = divmod(us, 86400 * 10**6)
      s, u = divmod(r, 10**6)
      return {'days': d, 'seconds': s, 'microseconds': u}[name]
    if name in ('days', 'seconds', 'microseconds'):
      s = N.R(self.secs)
      days = z3.ToInt(s / 86400)
      if name == 'days':
        return simp(days)
      if name == 'seconds':
        return simp(z3.ToInt(s - 86400 * z3.ToReal(days)))
      raise Unsupported('timedelta.microseconds')
    raise I.exc('AttributeError', name)

  def binop_(self, I, op, o, refl):
    from pyvc import lib
    if op in ('Add', 'Sub') and isinstance(o, TD):
      a, b = (o, self) if refl else (self, o)
      return TD(lib.scalar_binop(I, op, a.secs, b.secs))
    if op == 'Mult' and is_num(o):
      return TD(lib.scalar_binop(I, op, self.secs, o))
    if op == 'Div' and not refl:
      if isinstance(o, TD):
        return lib.scalar_binop(I, op, self.secs, o.secs)
      if is_num(o):
        return TD(lib.scalar_binop(I, op, self.secs, o))
    if is_num(o) or o is None:
      raise I.exc('TypeError')
    return NotImplemented

  def unary_(self, I, op):
    from pyvc import lib
    return TD(lib.scalar_binop(I, 'Mult', self.secs, -1)) if op == 'USub' else self

  def abs_(self, I):
    return TD(N.abs_(I, self.secs))

  def eq_(self, I, o):
    from pyvc import lib
    if not isinstance(o, TD):
      return False
    return lib.eq_scalar(self.secs, o.secs)

  def cmp_(self, I, op, o):
    from pyvc import lib
    if not isinstance(o, TD):
      raise I.exc('TypeError')
    return lib.scalar_compare(op, self.secs, o.secs)

  def truth_(self, I):
    return Not(self.eq_(I, TD(0)))


def frac(x):
  x = num(x)
  if isinstance(x, int):
    return Fraction(x)
  if is_sym(x) and z3.is_int(x):
    return z3.ToReal(x)
  return x


def td_class(I):
  m = I.lib_module('datetime')
  return m.attrs['timedelta']


# ---------------------------------------------------------------------------
# shapely points


class PointVal(Host):
  tname = 'Point'

  def __init__(self, x, y):
    self.x, self.y = x, y

  def class_(self, I):
    return I.lib_module('shapely.geometry').attrs['Point']

  def getattr_(self, I, name):
    if name == 'x':
      return self.x
    if name == 'y':
      return self.y
    if name == 'coords':
      return Coords(self)
    if name == 'xy':
      return (I.new_list([self.x]), I.new_list([self.y]))
    if name == 'distance':
      def dist(o):
        from pyvc import lib
        dx = lib.scalar_binop(I, 'Sub', self.x, o.x)
        dy = lib.scalar_binop(I, 'Sub', self.y, o.y)
        return N.uf(I, 'sqrt', simp(N.R(dx) * N.R(dx) + N.R(dy) * N.R(dy)))
      return lf('Point.distance', dist)
    if name in ('bounds', 'has_z', 'is_empty', 'wkt', 'geom_type', 'buffer', 'z'):
      raise Unsupported('Point.%s' % name)
    raise I.exc('AttributeError', name)

  def setattr_(self, I, name, v):
    raise Unsupported('mutation of a Point')

  def eq_(self, I, o):
    from pyvc import lib
    if not isinstance(o, PointVal):
      return False
    return And(lib.eq_scalar(self.x, o.x), lib.eq_scalar(self.y, o.y))

  def asarray_(self, I):
    return V.arr_from_list([frac(self.x), frac(self.y)], 'f8')


class Coords(Host):
  tname = 'CoordinateSequence'

  def __init__(self, p):
    self.p = p

  def asarray_(self, I):
    p = self.p
    return N.new(I, (1, 2), lambda i, j: V.table_get(
        {(0,): frac(p.x), (1,): frac(p.y)}, (2,), (j,)), 'f8')

  def iterate_(self, I):
    return [(self.p.x, self.p.y)]

  def len_(self, I):
    return 1

  def getitem_(self, I, k):
    if k in (0, -1):
      return (self.p.x, self.p.y)
    raise Unsupported('coords index')


def make_point(I, cls, a, kw):
  from pyvc import lib
  if kw:
    raise I.exc('TypeError')
  if len(a) == 1:
    v = a[0]
    if isinstance(v, PointVal):
      return PointVal(v.x, v.y)
    if isinstance(v, NDArr):
      if v.ndim == 1:
        if not is_sym(v.shape[0]) and v.shape[0] != 2:
          raise Unsupported('point of %r coordinates' % (v.shape,))
        if is_sym(v.shape[0]) and not I.ctx.prove(v.shape[0] == 2):
          raise Unsupported('point from array of unknown length')
        return PointVal(frac(v.get(0)), frac(v.get(1)))
      if v.ndim == 2 and not is_sym(v.shape[0]) and v.shape == (1, 2):
        raise Unsupported('point from a (1, 2) array')
      raise Unsupported('point from array of rank %d' % v.ndim)
    if isinstance(v, Coords):
      return PointVal(v.p.x, v.p.y)
    items = lib.iterate(I, v)
    if len(items) == 1:
      items = lib.iterate(I, items[0])
    a = items
  if len(a) != 2:
    raise Unsupported('point of %d coordinates' % len(a))
  x, y = [frac(N.item(I, v)) if is_num(N.item(I, v)) else None for v in a]
  if x is None or y is None:
    raise Unsupported('point coordinates')
  return PointVal(x, y)


# ---------------------------------------------------------------------------
# random generators


class Rng(Host):
  """np.random.Generator: every draw is an arbitrary value in its support."""
  tname = 'Generator'

  def __init__(self):
    self.oid = None

  def class_(self, I):
    return I.lib_module('numpy').attrs['__Generator']

  def draw(self, I, kind, v):
    I.ctx.draws.append((kind, v))
    return v

  def sized(self, I, size, one, sort=None):
    if size is None:
      return one(None)
    shape = N.dims(I, size)
    if all(not is_sym(d) for d in shape) and V.csize(shape) <= 64:
      t = {ix: one(None) for ix in V.indices(shape)}
      a = V.arr_from_table(shape, t, 'i8' if sort == 'int' else 'f8')
      a.oid = next(I.ctx.alloc)
      return a
    name = I.ctx.fresh_name('rnd')
    f = z3.Function(name, *([N.IS] * len(shape) + [N.IS if sort == 'int' else N.RS]))
    I.ctx.taint_draws = True
    return N.new(I, shape, lambda *ix: one(f(*[Z(i) for i in ix])),
                 'i8' if sort == 'int' else 'f8')

  def getattr_(self, I, name):
    from pyvc import lib
    ctx = I.ctx
    if I.ctx.pure:
      raise Unsupported('random draw inside a lazily evaluated element')

    def bnd(v, ix):
      return v.get(*ix) if isinstance(v, NDArr) else v

    def uniform(low=0, high=1, size=None):
      if isinstance(low, (NDArr, PList, tuple)) or isinstance(high, (NDArr, PList, tuple)):
        lo, hi = N.asarray(I, low), N.asarray(I, high)
        shp = N.bshape(I, lo.shape, hi.shape) if size is None else N.dims(I, size)
        if any(is_sym(d) for d in shp):
          raise Unsupported('symbolic uniform bounds')
        lo, hi = N.broadcast_to(I, lo, shp), N.broadcast_to(I, hi, shp)
        t = {ix: uniform(lo.get(*ix), hi.get(*ix)) for ix in V.indices(shp)}
        a = V.arr_from_table(shp, t, 'f8')
        a.oid = next(ctx.alloc)
        return a
      low, high = N.item(I, low), N.item(I, high)

      def one(term):
        v = term if term is not None else ctx.real('u')
        ctx.axiom(And(v >= N.R(low), v <= N.R(high)))
        if term is None:
          self.draw(I, 'uniform', v)
        return v
      return self.sized(I, size, one)

    def random(size=None):
      return uniform(0, 1, size)

    def exponential(scale=1, size=None):
      def one(term):
        v = term if term is not None else ctx.real('e')
        ctx.axiom(v >= 0)
        if term is None:
          self.draw(I, 'exponential', v)
        return v
      sc = N.item(I, scale)
      if is_sym(sc) and not ctx.branch(Z(sc) >= 0):
        raise I.exc('ValueError')
      return self.sized(I, size, one)

    def normal(loc=0, scale=1, size=None):
      def one(term):
        v = term if term is not None else ctx.real('g')
        if is_num(loc) and is_num(scale):
          at0 = simp(Z(num(scale)) == 0) if is_sym(scale) else num(scale) == 0
          ctx.axiom(Implies(at0, Z(v) == N.R(loc)))
        if term is None:
          self.draw(I, 'normal', v)
        return v
      if size is None and isinstance(loc, (NDArr, PList, tuple)):
        size = N.asarray(I, loc).shape
      return self.sized(I, size, one)

    def poisson(lam=1, size=None):
      def one(term):
        v = term if term is not None else ctx.int('pois')
        ctx.axiom(v >= 0)
        if term is None:
          self.draw(I, 'poisson', v)
        return v
      return self.sized(I, size, one, 'int')

    def integers(low, high=None, size=None, dtype=None, endpoint=False):
      if high is None:
        low, high = 0, low
      top = lib.scalar_binop(I, 'Add', high, 1) if endpoint else high
      if not ctx.branch(simp(Z(low) < Z(top)) if is_sym(low) or is_sym(top) else low < top):
        raise I.exc('ValueError')

      def one(term):
        v = term if term is not None else ctx.int('ri')
        ctx.axiom(And(v >= Z(low), v < Z(top)))
        if term is None:
          self.draw(I, 'integers', v)
        return v
      return self.sized(I, size, one, 'int')

    def choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
      seq = None
      a = N.item(I, a) if isinstance(a, NDArr) and a.ndim == 0 else a
      if is_num(a):
        n = a
      else:
        seq = a
        n = lib.len_(I, a)
      if not ctx.branch(simp(Z(n) > 0) if is_sym(n) else n > 0):
        raise I.exc('ValueError')
      if size is not None:
        if not replace:
          raise Unsupported('choice without replacement')
      pa = N.asarray(I, p) if p is not None else None
      if pa is not None:
        if not N.same_dim(I, pa.shape[0], n):
          raise I.exc('ValueError')

      def one(term):
        v = term if term is not None else ctx.int('ch')
        ctx.axiom(And(v >= 0, v < Z(n)))
        if pa is not None:
          if not is_sym(n):
            for k in range(n):
              ctx.axiom(Implies(v == k, Z(pa.get(k)) > 0))
          else:
            ctx.fact(Z(pa.get(v)) > 0)
        if is_sym(n):
          ctx.register_index(v)
        if term is None:
          self.draw(I, 'choice', v)
        if seq is not None:
          return N.getitem(I, seq, v) if isinstance(seq, NDArr) else lib.getitem(I, seq, v)
        return v
      return self.sized(I, size, one, 'int')
    t = {'uniform': uniform, 'random': random, 'exponential': exponential,
         'normal': normal, 'poisson': poisson, 'integers': integers,
         'choice': choice}
    if name in t:
      return lf('rng.' + name, t[name])
    if name in ('standard_normal',):
      return lf('rng.' + name, lambda size=None: normal(0, 1, size))
    raise Unsupported('rng.%s' % name)


# ---------------------------------------------------------------------------
# sklearn nearest neighbours


class NNVal(Host):
  tname = 'NearestNeighbors'

  def __init__(self, k):
    self.k = k
    self.X = None

  def getattr_(self, I, name):
    if name == 'fit':
      def fit(X, y=None):
        X = N.asarray(I, X)
        if X.ndim != 2:
          raise I.exc('ValueError')
        if not I.ctx.branch(simp(Z(X.shape[0]) >= 1)):
          raise I.exc('ValueError')
        self.X = N.asarray(I, X, copy=True)
        return self
      return lf('NearestNeighbors.fit', fit)
    if name == 'kneighbors':
      return lf('NearestNeighbors.kneighbors',
                lambda X=None, n_neighbors=None, return_distance=True:
                kneighbors(I, self.X, X, n_neighbors or self.k, return_distance))
    raise Unsupported('NearestNeighbors.%s' % name)


def kneighbors(I, X, Q, k, return_distance=True):
  ctx = I.ctx
  if Q is None:
    raise Unsupported('kneighbors of the training set')
  Q = N.asarray(I, Q)
  if Q.ndim != 2:
    raise I.exc('ValueError')
  n, q = X.shape[0], Q.shape[0]
  if not ctx.branch(simp(Z(q) >= 1)):
    raise I.exc('ValueError')
  if not ctx.branch(simp(Z(n) >= k)):
    raise I.exc('ValueError')
  ctx.assumptions.add('sklearn NearestNeighbors.kneighbors: distinct in-range '
                      'indices sorted by Euclidean distance, all others no closer')
  gx, gq = X.snapshot(), Q.snapshot()
  if X.shape[1] != 2:
    raise Unsupported('neighbours in dimension %s' % (X.shape[1],))

  def d2(qi, xi):
    a = N.R(gq(qi, 0)) - N.R(gx(xi, 0))
    b = N.R(gq(qi, 1)) - N.R(gx(xi, 1))
    return simp(a * a + b * b)
  base = None
  for (k2, n2, q2, gx2, gq2, F2) in ctx.nns:
    if k2 != k or not N.same_dim(I, n, n2) or not N.same_dim(I, q, q2):
      continue
    i, j = ctx.int('nnx'), ctx.int('nnq')
    same = []
    for c in (0, 1):
      e1 = ctx.merged(lambda: N.R(gx(i, c)))
      e2 = ctx.merged(lambda: N.R(gx2(i, c)))
      same.append(Implies(And(i >= 0, i < Z(n)), Z(e1) == Z(e2)))
      e1 = ctx.merged(lambda: N.R(gq(j, c)))
      e2 = ctx.merged(lambda: N.R(gq2(j, c)))
      same.append(Implies(And(j >= 0, j < Z(q)), Z(e1) == Z(e2)))
    if all(ctx.prove(s) for s in same):
      base = F2
      break
  if base is None:
    F = z3.Function(ctx.fresh_name('nn'), N.IS, N.IS, N.IS)
    done = set()

    def ensure(qi):
      key = Z(qi).sexpr()
      if key in done:
        return
      if not may_memo():
        raise Unsupported('nearest neighbours under a local branch')
      done.add(key)
      qz = Z(qi)
      inq = And(qz >= 0, qz < Z(q))
      ids = [F(qz, z3.IntVal(j)) for j in range(k)]
      for t in ids:
        ctx.axiom(Implies(inq, And(t >= 0, t < Z(n))))
      for a in range(k):
        for b in range(a):
          ctx.axiom(Implies(inq, ids[a] != ids[b]))
      ds = [d2(qi, t) for t in ids]
      for a in range(k - 1):
        ctx.axiom(Implies(inq, Z(ds[a]) <= Z(ds[a + 1])))

      def far(t, gen):
        other = And(*[t != x for x in ids])
        return [Implies(And(inq, t >= 0, t < Z(n), other),
                        Z(d2(qi, t)) >= Z(ds[-1]))]
      ctx.add_quant(far)
      for t in ids:
        ctx.register_index(t, ctx.gen + 1)
    base = (F, ensure)
    ctx.nns.append((k, n, q, gx, gq, base))
  F, ensure = base

  def idx(a, b):
    ensure(a)
    return F(Z(a), Z(b))

  def dist(a, b):
    ensure(a)
    return N.uf(I, 'sqrt', d2(a, F(Z(a), Z(b))), squared=True)
  ia = N.new(I, (q, k), idx, 'i8')
  if not return_distance:
    return ia
  return (N.new(I, (q, k), dist, 'f8'), ia)


def cv2_resize(I, src, dsize):
  ctx = I.ctx
  a = N.asarray(I, src)
  if a.ndim != 2:
    raise Unsupported('cv2.resize of a %d-dimensional array' % a.ndim)
  w, h = [N.item(I, x) for x in dsize]
  if is_sym(w) or is_sym(h):
    raise Unsupported('cv2.resize to a symbolic size')
  ctx.assumptions.add('cv2.resize: some function of the image and the size, '
                      'of the requested size')
  ga = a.snapshot()
  for (w2, h2, sh, gb, F) in ctx.resizes:
    if (w2, h2) != (w, h) or not all(N.same_dim(I, x, y) for x, y in zip(a.shape, sh)):
      continue
    i, j = ctx.int('rzi'), ctx.int('rzj')
    inr = And(i >= 0, j >= 0, i < Z(sh[0]), j < Z(sh[1]))
    same = ga is gb or ctx.prove(Implies(inr, Z(ctx.merged(lambda: N.R(ga(i, j)))) ==
                                         Z(ctx.merged(lambda: N.R(gb(i, j))))))
    if same:
      break
  else:
    F = z3.Function(ctx.fresh_name('resize'), N.IS, N.IS, N.RS)
    ctx.resizes.append((w, h, a.shape, ga, F))
  return N.new(I, (h, w), lambda i, j: F(Z(i), Z(j)), a.dtype)


# ---------------------------------------------------------------------------
# protocol buffers, from the text of the repository's .proto file


class ProtoType:

  def __init__(self, name):
    self.name = name
    self.fields = {}   # name -> (label, type)


def parse_proto(path):
  with open(path) as f:
    text = f.read()
  text = re.sub(r'//[^\n]*', '', text)
  text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
  types = {}
  for m in re.finditer(r'message\s+(\w+)\s*\{(.*?)\}', text, flags=re.S):
    t = ProtoType(m.group(1))
    for f in m.group(2).split(';'):
      f = f.strip()
      if not f:
        continue
      g = re.match(r'(optional|repeated|required)?\s*([\w.]+)\s+(\w+)\s*=\s*(\d+)', f)
      if not g:
        raise Unsupported('proto field %r' % f)
      t.fields[g.group(3)] = (g.group(1) or 'optional', g.group(2).split('.')[-1],
                              int(g.group(4)))
    types[t.name] = t
  return types


class ProtoMsg(Host):
  tname = 'Message'

  def __init__(self, I, t, oid=None):
    self.t = t
    self.f = {}
    self.sub = {}
    self.parent = None
    self.oid = next(I.ctx.alloc)
    # eagerly: a container first touched inside a loop belongs outside it.
    for n, (label, ty, _) in t.fields.items():
      if label == 'repeated':
        self.f[n] = repeated(I)
      elif ty not in SCALARS:
        s = TensorVal(I) if ty == 'TensorProto' else ProtoMsg(I, I.protos[ty])
        s.parent = (self, n)
        self.sub[n] = s

  def class_(self, I):
    return proto_class(I, self.t.name)

  def heap_state(self, field):
    return dict(self.f), dict(self.sub), self.parent

  def heap_restore(self, field, v):
    self.f, self.sub, self.parent = dict(v[0]), dict(v[1]), v[2]

  def mark(self, I):
    if self.parent is not None:
      p, n = self.parent
      I.heap_write(self, '*')
      self.parent = None
      I.heap_write(p, '*')
      p.f[n] = self
      p.mark(I)

  def getattr_(self, I, name):
    if name in self.t.fields:
      label, ty, _ = self.t.fields[name]
      I.note_read(self, name)
      if label == 'repeated':
        if name not in self.f:
          self.f[name] = repeated(I)
        return self.f[name]
      if name in self.f:
        return self.f[name]
      if ty in SCALARS:
        return SCALARS[ty]
      if name not in self.sub:
        s = TensorVal(I) if ty == 'TensorProto' else ProtoMsg(I, I.protos[ty])
        s.parent = (self, name)
        self.sub[name] = s
      return self.sub[name]
    if name == 'HasField':
      return lf('HasField', lambda n: n in self.f)
    if name == 'ClearField':
      return lf('ClearField', lambda n: clear_field(I, self, n))
    if name == 'CopyFrom':
      def copyfrom(o):
        I.note_write(self, '*')
        self.f = pcopy(I, o).f
        self.mark(I)
      return lf('CopyFrom', copyfrom)
    if name == 'SerializeToString':
      return lf('SerializeToString', lambda **k: WireVal(pcopy(I, self)))
    raise I.exc('AttributeError', name)

  def setattr_(self, I, name, v):
    if name not in self.t.fields:
      raise I.exc('AttributeError', name)
    label, ty, _ = self.t.fields[name]
    if label == 'repeated' or ty not in SCALARS:
      raise I.exc('AttributeError', name)
    I.note_write(self, name)
    self.f[name] = pscalar(I, ty, v)
    self.mark(I)

  def eq_(self, I, o):
    raise Unsupported('proto equality')


SCALARS = {'float': Fraction(0), 'double': Fraction(0), 'int32': 0, 'int64': 0,
           'uint32': 0, 'bool': False, 'string': '', 'bytes': b''}


def clear_field(I, m, n):
  I.note_write(m, '*')
  m.f.pop(n, None)
  m.sub.pop(n, None)


class WireVal(Host):
  tname = 'bytes'

  def __init__(self, m):
    self.m = m

  def class_(self, I):
    return I.builtins['bytes']


class TensorVal(Host):
  tname = 'TensorProto'

  def __init__(self, I, payload=None):
    self.payload = payload
    self.parent = None

  def class_(self, I):
    return proto_class(I, 'TensorProto')

  def getattr_(self, I, name):
    if name == 'dtype':
      return 0 if self.payload is None else 1
    if name == 'ByteSize':
      return lf('ByteSize', lambda: 0 if self.payload is None else 1)
    raise Unsupported('TensorProto.%s' % name)


def repeated(I):
  p = PList((), 'list', oid=next(I.ctx.alloc))
  return p


def pscalar(I, ty, v):
  v = N.item(I, v) if isinstance(v, NDArr) and v.ndim == 0 else v
  if ty in ('string', 'bytes'):
    return v
  if not is_num(v):
    raise I.exc('TypeError')
  v = num(v)
  if ty == 'float':
    return N.f32(I, v)
  if ty == 'double':
    return frac(v)
  if ty == 'bool':
    return Not(v == 0) if is_sym(v) else bool(v)
  if isinstance(v, (Fraction, float)) or (is_sym(v) and z3.is_real(v)):
    raise I.exc('TypeError')
  return v


def pcopy(I, m):
  if isinstance(m, TensorVal):
    return TensorVal(I, m.payload)
  c = ProtoMsg(I, m.t)
  for k, v in m.f.items():
    if isinstance(v, PList):
      p = v.copy()
      p.oid = next(I.ctx.alloc)
      c.f[k] = p
    elif isinstance(v, (ProtoMsg, TensorVal)):
      c.f[k] = pcopy(I, v)
    else:
      c.f[k] = v
  return c


def proto_construct(I, cls, a, kw):
  if a:
    raise I.exc('TypeError')
  t = I.protos[cls.name]
  m = ProtoMsg(I, t)
  for k, v in kw.items():
    if k not in t.fields:
      raise I.exc('ValueError')
    if v is None:
      continue
    label, ty, _ = t.fields[k]
    if label == 'repeated':
      from pyvc import lib
      p = lib.as_seq(I, v, 'list') if not isinstance(v, tuple) else I.new_list(v)
      q = p.copy()
      q.oid = next(I.ctx.alloc)
      m.f[k] = q
    elif ty in SCALARS:
      m.f[k] = pscalar(I, ty, v)
    else:
      if isinstance(v, TensorVal):
        if ty != 'TensorProto':
          raise I.exc('TypeError')
      elif not isinstance(v, ProtoMsg) or v.t.name != ty:
        raise I.exc('TypeError')
      m.f[k] = pcopy(I, v)
  return m


def proto_class(I, name):
  return I.lib_module('putting_dune.putting_dune_pb2').attrs[name]


def proto_module(I):
  if I.protos is None:
    I.protos = parse_proto(os.path.join(I.root, 'putting_dune', 'putting_dune.proto'))
    I.protos['TensorProto'] = ProtoType('TensorProto')
  attrs = {}
  for n in I.protos:
    c = ClassVal(n)
    c.attrs['__construct__'] = proto_construct

    def fromstring(b, n=n):
      if not isinstance(b, WireVal) or b.m.t.name != n:
        raise Unsupported('parsing of raw bytes')
      return pcopy(I, b.m)
    c.attrs['FromString'] = V.Wrapped('staticmethod', lf('FromString', fromstring))
    attrs[n] = c
  return LibModule('putting_dune.putting_dune_pb2', attrs)


# ---------------------------------------------------------------------------
# multivariate normal density in two dimensions


def mvn_pdf(I, x, mean=None, cov=None):
  ctx = I.ctx
  x = N.asarray(I, x)
  mean = N.asarray(I, mean) if mean is not None else N.full(I, (2,), 0, 'float64')
  cov = N.asarray(I, cov)
  if cov.shape != (2, 2) or mean.size() != 2:
    raise Unsupported('density of dimension other than 2')
  if x.shape[-1] != 2:
    raise Unsupported('density argument')
  c = [[N.R(cov.get(i, j)) for j in (0, 1)] for i in (0, 1)]
  m = N.reshape(I, mean, (2,))
  f = N.getuf('mvn', 6)

  def at(px, py):
    dx, dy = simp(N.R(px) - N.R(m.get(0))), simp(N.R(py) - N.R(m.get(1)))
    args = [Z(simp(a)) if is_sym(simp(a)) else N.R(simp(a))
            for a in (dx, dy, c[0][0], c[0][1], c[1][0], c[1][1])]
    v = f(*args)
    zero = z3.RealVal(0)
    peak = f(zero, zero, *args[2:])
    ctx.assumptions.add('2-d normal density: non-negative, positive and largest at its mean')
    ctx.axiom(And(v >= 0, peak > 0, v <= peak))
    return v
  shape = x.shape[:-1]
  if all(not is_sym(d) for d in shape) and V.csize(shape) == 1:
    return at(x.get(*([0] * len(shape)), 0), x.get(*([0] * len(shape)), 1))
  g = x.snapshot()
  return N.new(I, shape, lambda *ix: at(g(*ix, 0), g(*ix, 1)), 'f8')


# ---------------------------------------------------------------------------


def np_module(I, name):
  from pyvc import lib
  A = lambda x, **k: N.asarray(I, x, **k)
  ew1 = lambda fn: (lambda x: N.ew(I, fn, (x,), 'f8'))
  d = {}
  for nm, k in (('float32', 'f4'), ('float64', 'f8'), ('int32', 'i4'), ('int64', 'i8'),
                ('uint8', 'u1'), ('bool_', 'b'), ('double', 'f8'), ('int_', 'i8'),
                ('float_', 'f8')):
    d[nm] = N.DTypeCls(k)
  d['ndarray'] = I.builtins['__ndarray__']
  d['pi'] = PI
  d['inf'] = float('inf')
  d['nan'] = float('nan')
  d['newaxis'] = None
  d['e'] = Fraction(math.e)

  def add(nm, f):
    d[nm] = lf('np.' + nm, f)
  add('asarray', lambda x, dtype=None: N.asarray(I, x, dtype))
  add('array', lambda x, dtype=None, copy=True: N.asarray(I, x, dtype, copy=True))
  add('ascontiguousarray', lambda x, dtype=None: N.asarray(I, x, dtype))
  add('copy', lambda x: N.asarray(I, x, copy=True))
  add('zeros', lambda shape, dtype=None: N.full(I, shape, 0, dtype or 'float64'))
  add('ones', lambda shape, dtype=None: N.full(I, shape, 1, dtype or 'float64'))
  add('full', lambda shape, v, dtype=None: N.full(I, shape, v, dtype))
  add('empty', lambda shape, dtype=None: N.empty(I, shape, dtype))

  def like(v):
    def f(x, dtype=None):
      x = A(x)
      return N.full(I, x.shape, v, DType(N.dtype_key(I, dtype, x.dtype)))
    return f
  add('zeros_like', like(0))
  add('ones_like', like(1))

  def full_like(x, v, dtype=None):
    x = A(x)
    return N.full(I, x.shape, v, DType(N.dtype_key(I, dtype, x.dtype)))
  add('full_like', full_like)

  def empty_like(x, dtype=None):
    x = A(x)
    return N.empty(I, x.shape, DType(N.dtype_key(I, dtype, x.dtype)))
  add('empty_like', empty_like)

  def eye(n, m=None, dtype=None):
    m = n if m is None else m
    return N.new(I, (n, m), lambda i, j: Fraction(1) if not is_sym(i) and not is_sym(j) and i == j
                 else (Fraction(0) if not is_sym(i) and not is_sym(j)
                       else z3.If(Z(i) == Z(j), z3.RealVal(1), z3.RealVal(0))), 'f8')
  add('eye', eye)

  def arange(*a, dtype=None):
    a = [N.item(I, x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if any(isinstance(x, Fraction) or (is_sym(x) and z3.is_real(x)) for x in (lo, hi, st)):
      if all(not is_sym(x) for x in (lo, hi, st)):
        n = max(0, math.ceil((Fraction(hi) - lo) / st))
        return N.new(I, (n,), lambda i: lib.scalar_binop(
            I, 'Add', lo, lib.scalar_binop(I, 'Mult', i, Fraction(st))), 'f8')
      raise Unsupported('real arange')
    n = lib.iter_len(I, lib.RangeVal(lo, hi, st))
    at = lib.iter_at(I, lib.RangeVal(lo, hi, st)) if st == 1 else \
        (lambda i: lib.scalar_binop(I, 'Add', lo, lib.scalar_binop(I, 'Mult', i, st)))
    r = N.new(I, (n,), at, 'i8')
    return r if dtype is None else N.astype(I, r, dtype)
  add('arange', arange)

  def linspace(a, b, num=50, endpoint=True, dtype=None):
    n = num
    if dtype is not None:
      return N.astype(I, linspace(a, b, num, endpoint), dtype)
    if is_sym(n):
      if not I.ctx.prove(n >= (2 if endpoint else 1)):
        raise Unsupported('linspace')
      div = simp((n - 1) if endpoint else n)
      step = lib.scalar_binop(I, 'Div', lib.scalar_binop(I, 'Sub', b, a), div)
      return N.new(I, (n,), lambda i: lib.scalar_binop(
          I, 'Add', a, lib.scalar_binop(I, 'Mult', i, step)), 'f8')
    div = (n - 1) if endpoint else n
    a, b = Fraction(a) if not is_sym(a) else a, Fraction(b) if not is_sym(b) else b
    return N.new(I, (n,), lambda i: lib.scalar_binop(I, 'Add', a, lib.scalar_binop(
        I, 'Mult', lib.scalar_binop(I, 'Sub', b, a),
        lib.scalar_binop(I, 'Mult', i, Fraction(1, max(1, div))))), 'f8')
  add('linspace', linspace)
  add('reshape', lambda x, s: N.reshape(I, A(x), s))
  add('transpose', lambda x, axes=None: N.transpose(I, A(x), axes))

  def stack(xs, axis=0):
    if isinstance(xs, PList) and not xs.concrete:
      if axis != 0:
        raise Unsupported('stacking a symbolic sequence along another axis')
      if I.ctx.branch(Z(xs.length()) == 0):
        raise I.exc('ValueError')
      return N.asarray(I, xs)
    return N.stack(I, lib.iterate(I, xs), axis)
  add('stack', stack)
  add('vstack', lambda xs: N.concatenate(I, I.new_list(
      [N.reshape(I, A(x), (1, -1)) if A(x).ndim == 1 else A(x) for x in lib.iterate(I, xs)])))
  add('hstack', lambda xs: N.concatenate(I, xs, 0 if A(lib.iterate(I, xs)[0]).ndim == 1 else 1))
  add('concatenate', lambda xs, axis=0: N.concatenate(I, xs, axis))

  def append(a, b, axis=None):
    if axis is None:
      a, b = N.reshape(I, A(a), (-1,)), N.reshape(I, A(b), (-1,))
      axis = 0
    return N.concatenate(I, I.new_list([A(a), A(b)]), axis)
  add('append', append)
  add('squeeze', lambda x, axis=None: N.squeeze(I, A(x), axis))

  def expand_dims(x, axis):
    x = A(x)
    ax = axis % (x.ndim + 1)
    return N.reshape(I, x, x.shape[:ax] + (1,) + x.shape[ax:])
  add('expand_dims', expand_dims)
  add('broadcast_to', lambda x, s: N.broadcast_to(I, A(x), N.dims(I, s)))

  def atleast(k):
    def f(x):
      x = A(x)
      while x.ndim < k:
        x = N.reshape(I, x, (1,) + x.shape)
      return x
    return f
  add('atleast_1d', atleast(1))
  add('atleast_2d', atleast(2))

  def flip(ax):
    def f(x, axis=ax):
      x = A(x)
      k = [slice(None)] * x.ndim
      k[axis] = slice(None, None, -1)
      return N.getitem(I, x, tuple(k))
    return f
  add('flipud', flip(0))
  add('fliplr', flip(1))
  add('flip', flip(0))

  def tile(x, reps):
    x = A(x)
    reps = (reps,) if is_num(reps) else tuple(lib.iterate(I, reps))
    if any(is_sym(r) for r in reps):
      raise Unsupported('symbolic tile')
    while x.ndim < len(reps):
      x = N.reshape(I, x, (1,) + x.shape)
    reps = (1,) * (x.ndim - len(reps)) + reps
    for ax, r in enumerate(reps):
      if r != 1:
        x = N.concatenate(I, I.new_list([x] * r), ax)
    return N.asarray(I, x, copy=True)
  add('tile', tile)

  def repeat(x, r, axis=None):
    x = A(x)
    if axis is None:
      x = N.reshape(I, x, (-1,))
      axis = 0
    if is_sym(r) or isinstance(r, NDArr):
      raise Unsupported('symbolic repeat')
    ax = axis % x.ndim
    g = x.snapshot()
    n = x.shape[ax]
    nn = simp(Z(n) * r) if is_sym(n) else n * r
    return N.new(I, x.shape[:ax] + (nn,) + x.shape[ax + 1:],
                 lambda *ix: g(*(ix[:ax] + (lib.scalar_binop(I, 'FloorDiv', ix[ax], r),)
                                 + ix[ax + 1:])), x.dtype)
  add('repeat', repeat)

  def roll(x, shift, axis=None):
    x = A(x)
    if axis is None and x.ndim != 1:
      raise Unsupported('roll')
    ax = (axis or 0) % x.ndim
    n = x.shape[ax]
    if is_sym(shift) or is_sym(n):
      raise Unsupported('symbolic roll')
    g = x.snapshot()
    return N.new(I, x.shape, lambda *ix: g(*(ix[:ax] + (
        lib.scalar_binop(I, 'Mod', lib.scalar_binop(I, 'Sub', ix[ax], shift), n),)
        + ix[ax + 1:])), x.dtype)
  add('roll', roll)

  def pad(x, width, mode='constant', constant_values=0):
    x = A(x)
    if mode != 'constant' or not is_num(constant_values):
      raise Unsupported('np.pad with mode %r' % (mode,))
    if is_num(width):
      width = [(width, width)] * x.ndim
    else:
      width = [tuple(lib.iterate(I, p)) if not is_num(p) else (p,) for p in lib.iterate(I, width)]
      if len(width) != x.ndim or any(len(p) != 2 for p in width):
        raise Unsupported('np.pad of such widths')
    for p in width:
      for q in p:
        if I.ctx.branch(Z(q) < 0):
          raise I.exc('ValueError')
    g, edge = x.snapshot(), N.cast(I, constant_values, x.dtype)
    minus = lambda a, b: lib.scalar_binop(I, 'Sub', a, b)
    plus = lambda a, b: lib.scalar_binop(I, 'Add', a, b)

    def at(*ix):
      ks = [minus(i, p[0]) for i, p in zip(ix, width)]
      inside = And(*[And(Z(k) >= 0, Z(k) < Z(n)) for k, n in zip(ks, x.shape)])
      inside = simp(inside)
      if isinstance(inside, bool):
        return g(*ks) if inside else edge
      return Ite(inside, g(*ks), edge)
    return N.new(I, tuple(plus(plus(n, p[0]), p[1]) for n, p in zip(x.shape, width)), at, x.dtype)
  add('pad', pad)

  def diag(x):
    x = A(x)
    if x.ndim == 1 and not is_sym(x.shape[0]):
      n = x.shape[0]
      g = x.snapshot()
      t = {(i, j): g(i) if i == j else Fraction(0) for i in range(n) for j in range(n)}
      return V.arr_from_table((n, n), t, x.dtype)
    raise Unsupported('diag')
  add('diag', diag)

  def meshgrid(*xs, indexing='xy'):
    xs = [A(x) for x in xs]
    if len(xs) != 2:
      raise Unsupported('meshgrid')
    a, b = xs
    ga, gb = a.snapshot(), b.snapshot()
    if indexing == 'xy':
      s = (b.shape[0], a.shape[0])
      return I.new_list([N.new(I, s, lambda i, j: ga(j), a.dtype),
                         N.new(I, s, lambda i, j: gb(i), b.dtype)])
    s = (a.shape[0], b.shape[0])
    return I.new_list([N.new(I, s, lambda i, j: ga(i), a.dtype),
                       N.new(I, s, lambda i, j: gb(j), b.dtype)])
  add('meshgrid', meshgrid)
  ax = lambda f: (lambda x, axis=None, dtype=None, keepdims=False, **k:
                  f(I, A(x), axis, keepdims=keepdims))
  add('sum', ax(N.sum_))
  add('mean', ax(N.mean_))
  add('all', ax(N.all_))
  add('any', ax(N.any_))
  for nm, w in (('min', 'min'), ('amin', 'min'), ('max', 'max'), ('amax', 'max')):
    add(nm, lambda x, axis=None, keepdims=False, w=w: N.minmax(I, A(x), w, axis, keepdims))
  add('argmin', lambda x, axis=None: N.argmin(I, x, 'min', axis))
  add('argmax', lambda x, axis=None: N.argmin(I, x, 'max', axis))
  add('argsort', lambda x, axis=-1, **k: N.argsort(I, x, axis))

  def sort(x, axis=-1):
    x = A(x)
    if x.ndim != 1 or is_sym(x.shape[0]):
      raise Unsupported('sort')
    return N.getitem(I, x, N.argsort(I, x))
  add('sort', sort)
  add('clip', lambda x, a_min=None, a_max=None, **k: N.clip(I, x, a_min, a_max))
  add('minimum', lambda a, b: N.minimum(I, a, b))
  add('maximum', lambda a, b: N.maximum(I, a, b))
  add('abs', lambda x: N.abs_(I, x if isinstance(x, NDArr) or is_num(x) else A(x)))
  d['absolute'] = d['abs']
  d['fabs'] = d['abs']

  def around(x, decimals=0):
    x = N.toarr(I, x)
    return N.ew(I, lambda v: N.round_(I, v, decimals), (x,), 'f8')
  add('around', around)
  add('round', around)
  d['round_'] = d['round']
  add('floor', lambda x: N.ew(I, lambda v: floor_(v), (x,), 'f8'))
  add('ceil', lambda x: N.ew(I, lambda v: lib.scalar_binop(
      I, 'Mult', -1, floor_(lib.scalar_binop(I, 'Mult', -1, v))), (x,), 'f8'))
  add('square', lambda x: I.binop('Mult', N.toarr(I, x), N.toarr(I, x)))
  for u in ('sqrt', 'sin', 'cos', 'exp', 'log', 'log1p', 'tan', 'tanh'):
    add(u, lambda x, u=u: N.ew(I, lambda v: N.uf(I, u, frac(v)), (x,), 'f8'))
  add('arctan2', lambda y, x: N.ew(I, lambda a, b: atan2(I, a, b), (y, x), 'f8'))
  add('hypot', lambda x, y: N.ew(I, lambda a, b: N.uf(I, 'sqrt', simp(
      N.R(a) * N.R(a) + N.R(b) * N.R(b))), (x, y), 'f8'))
  add('deg2rad', lambda x: N.ew(I, lambda v: lib.scalar_binop(
      I, 'Mult', frac(v), PI / 180), (x,), 'f8'))
  d['radians'] = d['deg2rad']
  add('rad2deg', lambda x: N.ew(I, lambda v: lib.scalar_binop(
      I, 'Mult', frac(v), 180 / PI), (x,), 'f8'))
  add('sign', lambda x: N.ew(I, lambda v: simp(z3.If(Z(num(v)) > 0, 1, z3.If(
      Z(num(v)) < 0, -1, 0))), (x,), 'f8'))
  for nm, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'),
                 ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'),
                 ('logical_and', 'BitAnd'), ('logical_or', 'BitOr'),
                 ('matmul', 'MatMult'), ('dot', 'MatMult'), ('mod', 'Mod'),
                 ('floor_divide', 'FloorDiv')):
    add(nm, lambda a, b, op=op: N.binop(I, op, a, b))
  for nm, op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'),
                 ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
    add(nm, lambda a, b, op=op: N.compare(I, op, a, b))
  add('logical_not', lambda a: N.unary(I, 'Invert', A(a)))
  add('negative', lambda a: N.unary(I, 'USub', A(a)))
  add('where', lambda c, *xy: N.where(I, c, *xy))

  def flatnonzero(c):
    return N.where(I, c)[0]
  add('flatnonzero', flatnonzero)
  add('nonzero', lambda c: N.where(I, c))

  def count_nonzero(x, axis=None):
    return N.sum_(I, N.ew(I, lambda v: Ite(lib.truth(I, v), 1, 0), (A(x),), 'i8'), axis)
  add('count_nonzero', count_nonzero)
  add('isnan', lambda x: N.ew(I, lambda v: isinstance(v, float) and v != v, (x,), 'b'))
  add('isfinite', lambda x: N.ew(I, lambda v: not isinstance(v, float), (x,), 'b'))
  add('isinf', lambda x: N.ew(I, lambda v: isinstance(v, float) and v == v, (x,), 'b'))
  add('nan_to_num', lambda x, **k: A(x))
  add('shape', lambda x: A(x).shape)
  add('size', lambda x: A(x).size())
  add('ndim', lambda x: A(x).ndim)
  add('prod', lambda x, axis=None: N.reduce(I, A(x), axis, False, lambda vs: prod_(I, vs),
                                            lambda n, f: unsup('symbolic product'), 'f8'))

  def array_equal(a, b):
    a, b = A(a), A(b)
    if a.ndim != b.ndim:
      return False
    for x, y in zip(a.shape, b.shape):
      if not N.same_dim(I, x, y):
        if not (is_sym(x) or is_sym(y)) or not I.ctx.branch(Z(x) == Z(y)):
          return False
    r = N.all_(I, N.compare(I, 'Eq', a, b))
    return r
  add('array_equal', array_equal)

  def cov_unsupported(nm):
    def f(*a, **k):
      raise Unsupported('np.' + nm)
    return f
  for nm in ('histogram2d', 'median', 'savez_compressed', 'load', 'frombuffer',
             'unique', 'cumsum', 'diff', 'einsum', 'isclose', 'allclose', 'percentile',
             'std', 'var', 'quantile', 'nanmean'):
    add(nm, cov_unsupported(nm))
  linalg = {'norm': lf('np.linalg.norm', lambda x, ord=None, axis=None, keepdims=False:
                       N.norm(I, x, ord, axis, keepdims))}
  for nm in ('pinv', 'inv', 'det', 'svd', 'eig', 'solve'):
    linalg[nm] = lf('np.linalg.' + nm, cov_unsupported('linalg.' + nm))
  d['linalg'] = LibModule('numpy.linalg', linalg)
  gen = ClassVal('Generator')
  d['__Generator'] = gen
  d['random'] = LibModule('numpy.random', {
      'Generator': gen, 'default_rng': lf('default_rng', lambda *a: Rng()),
      'normal': lf('np.random.normal', lambda *a, **k: Rng().getattr_(I, 'normal').fn(*a, **k))})
  return LibModule(name, d)


def unsup(what):
  raise Unsupported(what)


def prod_(I, vs):
  from pyvc import lib
  r = 1
  for v in vs:
    r = lib.scalar_binop(I, 'Mult', r, num(v))
  return r


def floor_(v):
  v = num(v)
  if not is_sym(v):
    return Fraction(math.floor(v))
  return simp(z3.ToReal(z3.ToInt(N.R(v))))


def atan2(I, y, x):
  ctx = I.ctx
  y, x = N.R(y), N.R(x)
  y, x = Z(simp(y)), Z(simp(x))
  y, x = N.R(y), N.R(x)
  t = N.getuf('atan2', 2)(y, x)
  if t.sexpr() in ctx.uf_seen:
    return t
  ctx.uf_seen.add(t.sexpr())
  ctx.assumptions.add('math function atan2 axiomatised')
  s, c = N.uf(I, 'sin', t), N.uf(I, 'cos', t)
  r = N.uf(I, 'sqrt', simp(x * x + y * y))
  pi = z3.RealVal(PI)
  ctx.axiom(And(t >= -pi, t <= pi))
  ctx.axiom(And(Z(r) * c == x, Z(r) * s == y) if True else True)
  return t


def identity(x):
  return x


class KeyVal(Host):
  """A jax random key: what is drawn with it is unknown, but fixed."""
  tname = 'jax key'

  def __init__(self):
    self.known = {}

  def once(self, what, make):
    what = repr(what)
    if what not in self.known:
      self.known[what] = make()
    return self.known[what]


def jax_random(I):
  ctx = I.ctx

  def split(key, num=2):
    if is_sym(num):
      raise Unsupported('symbolic number of keys')
    return key.once(('split', num), lambda: tuple(KeyVal() for _ in range(num)))

  def choice(key, a, shape=(), replace=True, p=None, axis=0):
    if p is not None or not is_num(a):
      raise Unsupported('jax.random.choice')
    shape = tuple(iterate_(I, shape))
    if len(shape) != 1:
      raise Unsupported('jax.random.choice shape')
    n = shape[0]
    if not replace:
      if not N.same_dim(I, n, a):
        raise Unsupported('jax.random.choice of some')

    def make():
      if not ctx.branch(simp(Z(a) > 0) if is_sym(a) else a > 0):
        raise I.exc('ValueError')
      name = ctx.fresh_name('choice')
      P = z3.Function(name, z3.IntSort(), z3.IntSort())
      Q = z3.Function(name + '.inv', z3.IntSort(), z3.IntSort())

      def at(i):
        t = P(Z(i))
        if t.sexpr() not in ctx.uf_seen:
          ctx.uf_seen.add(t.sexpr())
          ctx.axiom(And(t >= 0, t < Z(a)))
          if not replace:
            ctx.axiom(Implies(And(Z(i) >= 0, Z(i) < Z(n)), Q(t) == Z(i)))
        return t

      def facts(t, gen):
        at(t)
        inside = And(t >= 0, t < Z(n))
        out = []
        if not replace:
          out.append(Implies(inside, And(Q(P(t)) == t, Q(t) >= 0, Q(t) < Z(n), P(Q(t)) == t)))
          if gen < 1:
            ctx.position(Q(t), gen + 1)
        if gen < 1:
          ctx.later.append((P(t), gen + 1))
        return out
      ctx.add_quant(facts)
      return N.new(I, (n,), at, 'i8')
    r = key.once(('choice', str(n), str(a), replace), make)
    g = r.snapshot()
    return N.new(I, r.shape, g, 'i8')

  return LibModule('jax.random', {
      'PRNGKey': lf('PRNGKey', lambda seed: KeyVal()),
      'key': lf('key', lambda seed: KeyVal()),
      'split': lf('split', split), 'choice': lf('jax.random.choice', choice)})


def iterate_(I, x):
  from pyvc import lib
  return lib.iterate(I, x)


def vmap(I, f, in_axes=0, out_axes=0, axis_name=None):
  """The function applied to every row."""
  if out_axes != 0:
    raise Unsupported('vmap out_axes')

  def call(*args):
    axes = in_axes if isinstance(in_axes, tuple) else (in_axes,) * len(args)
    if len(axes) != len(args):
      raise I.exc('ValueError')
    axes = tuple(None if x is None else a for a, x in zip(axes, args))
    args = [x if a is None else N.asarray(I, x) for x, a in zip(args, axes)]
    ns = [x.shape[0] for x, a in zip(args, axes) if a is not None]
    if not ns or any(a not in (0, None) for a in axes):
      raise Unsupported('vmap axes')
    n = ns[0]
    for m in ns[1:]:
      if not N.same_dim(I, n, m):
        if is_sym(n) or is_sym(m):
          if I.ctx.branch(Z(n) == Z(m)):
            continue
        raise I.exc('ValueError')
    args = [x if a is None else N.new(I, x.shape, x.snapshot(), x.dtype)
            for x, a in zip(args, axes)]

    heap = I.ctx.heap

    def run(i):
      with I.purely(heap):
        return I.call(f, [x if a is None else N.getitem(I, x, i)
                          for x, a in zip(args, axes)], {})
    memo = {}

    def at(i):
      key = i.sexpr() if is_sym(i) else i
      if key in memo:
        return memo[key]
      v = run(i)
      if V.may_memo():
        memo[key] = v
      return v
    if not is_sym(n) and n == 0:
      raise Unsupported('vmap over no rows')
    if is_sym(n):
      I.probe_elem(n, run)
    first = at(0)

    def build(v, path):
      def pick(i):
        r = at(i)
        for p in path:
          r = r[p]
        return r
      if v is None:
        return None
      if isinstance(v, tuple):
        return tuple(build(x, path + (k,)) for k, x in enumerate(v))
      if isinstance(v, dict):
        return {k: build(x, path + (k,)) for k, x in v.items()}
      v = N.asarray(I, v)
      return N.new(I, (n,) + v.shape, lambda i, *r: N.asarray(I, pick(i)).get(*r), v.dtype)
    return build(first, ())
  return LibFn('vmapped', call)


def make_module(I, name):
  from pyvc import lib
  if name in ('numpy', 'jax.numpy'):
    return np_module(I, name)
  if name == 'vdsl':
    from pyvc import dslengine
    return dslengine.module(I)
  if name == 'putting_dune.putting_dune_pb2':
    return proto_module(I)
  if name == 'datetime':
    c = ClassVal('timedelta')

    def construct(I_, cls, a, kw):
      names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
      mult = dict(zip(names, [86400, 1, Fraction(1, 10**6), Fraction(1, 1000), 60, 3600, 604800]))
      tot = Fraction(0)
      for n, v in list(zip(names, a)) + list(kw.items()):
        if n not in mult:
          raise I.exc('TypeError')
        v = N.item(I, v)
        if not is_num(v):
          raise I.exc('TypeError')
        if isinstance(v, float):
          raise I.exc('OverflowError')
        tot = lib.scalar_binop(I, 'Add', tot, lib.scalar_binop(I, 'Mult', frac(v), mult[n]))
      return TD(tot)
    c.attrs['__construct__'] = construct
    dtc = LibUnknown('datetime.datetime')
    return LibModule(name, {'timedelta': c, 'datetime': dtc})
  if name == 'shapely.geometry':
    c = ClassVal('Point')
    c.attrs['__construct__'] = make_point
    return LibModule(name, {'Point': c})
  if name == 'shapely':
    return LibModule(name, {'geometry': I.lib_module('shapely.geometry')})
  if name == 'sklearn.neighbors':
    def nn(n_neighbors=5, **kw):
      metric = kw.pop('metric', 'minkowski')
      if metric not in ('minkowski', 'l2', 'euclidean') or kw.pop('p', 2) != 2:
        raise Unsupported('neighbour metric')
      return NNVal(n_neighbors)
    return LibModule(name, {'NearestNeighbors': lf('NearestNeighbors', nn)})
  if name == 'time':
    def clock():
      ctx = I.ctx
      ctx.assumptions.add('clocks never go backwards')
      t = ctx.real('clock')
      if ctx.now is not None:
        ctx.add(t >= ctx.now)
      ctx.now = t
      return t
    return LibModule(name, {n: lf('time.' + n, clock)
                            for n in ('perf_counter', 'time', 'monotonic')})
  if name == 'cv2':
    return LibModule(name, {'resize': lf('cv2.resize', lambda src, dsize: cv2_resize(I, src, dsize))})
  if name == 'sklearn':
    return LibModule(name, {'neighbors': I.lib_module('sklearn.neighbors')})
  if name == 'frozendict':
    def frozendict(*a, **k):
      d = I.new_dict(a[0]) if a else I.new_dict()
      d.update(k)
      d.frozen = True
      return d
    return LibModule(name, {'frozendict': lf('frozendict', frozendict)})
  if name == 'functools':
    return LibModule(name, {
        'partial': lf('partial', lambda f, *a, **k: Partial(f, a, k)),
        'wraps': lf('wraps', lambda f: lf('wraps', identity)),
        'lru_cache': lf('lru_cache', lambda *a, **k: a[0] if a else lf('lru', identity)),
        'cached_property': lf('cached_property', lambda f: V.Wrapped('cached_property', f)),
        'reduce': lf('reduce', lambda f, xs, *init: reduce_(I, f, xs, *init))})
  if name == 'copy':
    return LibModule(name, {'copy': lf('copy', lambda x: shallow(I, x)),
                            'deepcopy': lf('deepcopy', lambda x, memo=None: deep(I, x, {}))})
  if name == 'collections':
    def deque(it=(), maxlen=None):
      items = lib.iterate(I, it)
      if maxlen is not None:
        items = items[len(items) - maxlen:] if len(items) > maxlen else items
      p = I.new_list(items, 'deque')
      p.maxlen = maxlen
      return p

    class DefaultDict(dict):
      default_factory = None

    def defaultdict(f=None, *a):
      r = DefaultDict(*a)
      r.default_factory = f
      return r
    return LibModule(name, {'deque': lf('deque', deque),
                            'OrderedDict': lf('OrderedDict', lambda *a, **k: dict(*a, **k)),
                            'defaultdict': lf('defaultdict', defaultdict),
                            'abc': I.lib_module('collections.abc')})
  if name == 'dataclasses':
    def field(default=V_UNDEF(), default_factory=None, init=True, **kw):
      return lib.DCField(default, default_factory, init)

    def replace(o, **kw):
      vals = {f[0]: o.fields[f[0]] for f in o.cls.dc['fields']
              if not (isinstance(f[1], lib.DCField) and not f[1].init)}
      for k in kw:
        if k not in vals:
          raise I.exc('TypeError')
      vals.update(kw)
      return I.instantiate(o.cls, [], vals)

    def fields(o):
      c = o if isinstance(o, ClassVal) else o.cls
      out = []
      for f in c.dc['fields']:
        x = I.new_obj(I.builtins['object'])
        x.fields = {'name': f[0]}
        out.append(x)
      return tuple(out)

    def asdict(o):
      def conv(v):
        if isinstance(v, Obj) and v.cls.dc:
          return asdict(v)
        if isinstance(v, PList) and v.concrete:
          return I.new_list([conv(x) for x in v.items], v.kind)
        if isinstance(v, tuple):
          return tuple(conv(x) for x in v)
        return v
      return {f[0]: conv(o.fields[f[0]]) for f in o.cls.dc['fields']}
    return LibModule(name, {'field': lf('field', field), 'replace': lf('replace', replace),
                            'fields': lf('fields', fields), 'asdict': lf('asdict', asdict),
                            'is_dataclass': lf('is_dataclass', lambda o: bool(getattr(
                                o if isinstance(o, ClassVal) else getattr(o, 'cls', None), 'dc', None))),
                            'dataclass': lf('dataclass', identity)})
  if name in ('typing', 'typing_extensions', 'collections.abc'):
    d = {n: LibUnknown(name + '.' + n) for n in (
        'Any', 'Callable', 'ClassVar', 'Dict', 'Generic', 'Iterable', 'List', 'Optional',
        'Sequence', 'Set', 'Tuple', 'Type', 'Union', 'Mapping', 'Iterator', 'Generator',
        'Literal', 'NamedTuple', 'TypedDict', 'MutableSequence', 'Collection')}
    d['Protocol'] = ClassVal('Protocol')
    d['NewType'] = lf('NewType', lambda n, t: lf('NewType:' + n, identity))
    d['TypeVar'] = lf('TypeVar', lambda *a, **k: LibUnknown('TypeVar'))
    d['cast'] = lf('cast', lambda t, x: x)
    d['TYPE_CHECKING'] = False
    return LibModule(name, d)
  if name == 'abc':
    return LibModule(name, {'ABC': ClassVal('ABC'), 'ABCMeta': LibUnknown('ABCMeta'),
                            'abstractmethod': lf('abstractmethod', identity)})
  if name == 'enum':
    e = ClassVal('Enum')
    e.is_enum = True
    return LibModule(name, {'Enum': e, 'IntEnum': e, 'StrEnum': e,
                            'auto': lf('auto', lambda: lib.AUTO),
                            'unique': lf('unique', identity)})
  if name == 'math':
    m = {'pi': PI, 'inf': float('inf'), 'e': Fraction(math.e)}
    for u in ('sqrt', 'sin', 'cos', 'exp', 'log', 'tan'):
      m[u] = lf('math.' + u, lambda x, u=u: N.uf(I, u, frac(N.item(I, x))))
    m['atan2'] = lf('math.atan2', lambda y, x: atan2(I, N.item(I, y), N.item(I, x)))
    m['hypot'] = lf('math.hypot', lambda x, y: N.uf(I, 'sqrt', simp(
        N.R(N.item(I, x)) * N.R(N.item(I, x)) + N.R(N.item(I, y)) * N.R(N.item(I, y)))))

    def mfloor(x):
      x = num(N.item(I, x))
      return math.floor(x) if not is_sym(x) else (x if z3.is_int(x) else simp(z3.ToInt(x)))

    def mceil(x):
      x = num(N.item(I, x))
      return math.ceil(x) if not is_sym(x) else (x if z3.is_int(x) else simp(-z3.ToInt(-x)))
    m['floor'] = lf('floor', mfloor)
    m['ceil'] = lf('ceil', mceil)
    m['isnan'] = lf('isnan', lambda x: isinstance(x, float) and x != x)
    return LibModule(name, m)
  if name == 'operator':
    return LibModule(name, {
        'attrgetter': lf('attrgetter', lambda n: lf('attrgetter', lambda o: I.getattr(o, n))),
        'itemgetter': lf('itemgetter', lambda k: lf('itemgetter', lambda o: I.getitem(o, k)))})
  if name == 'itertools':
    return LibModule(name, {
        'chain': lf('chain', lambda *xs: I.new_list([y for x in xs for y in lib.iterate(I, x)])),
        'product': lf('product', lambda *xs: I.new_list(list(__import__('itertools').product(
            *[lib.iterate(I, x) for x in xs])))),
        'zip_longest': LibUnknown('zip_longest'),
        'pairwise': lf('pairwise', lambda x: lib.ZipVal([x, lib.slice_seq(
            I, x if isinstance(x, (PList, tuple)) else lib.as_seq(I, x), slice(1, None))]))})
  if name == 'tensorflow':
    def mk(x, **k):
      if x is None:
        raise I.exc('ValueError')
      return TensorVal(I, x)

    def nd(t):
      if not isinstance(t, TensorVal) or t.payload is None:
        raise I.exc('TypeError')
      return t.payload
    I.ctx.assumptions.add('tf.make_ndarray(tf.make_tensor_proto(x)) == x')
    files = I.get_module('scratch_files').globals
    records = {k: files[k] for k in ('TFRecordWriter', 'TFRecordDataset')}
    return LibModule(name, {'io': LibModule('tensorflow.io', records),
                            'data': LibModule('tensorflow.data', records),
                            'make_tensor_proto': lf('make_tensor_proto', mk),
                            'make_ndarray': lf('make_ndarray', nd)})
  if name == 'jax':
    return LibModule(name, {'numpy': I.lib_module('jax.numpy'),
                            'vmap': LibFn('jax.vmap', lambda f, **kw: vmap(I, f, **kw)),
                            'random': I.lib_module('jax.random'),
                            'nn': I.lib_module('jax.nn'),
                            'jit': lf('jit', identity)})
  if name == 'jax.nn':
    return jax_nn(I)
  if name == 'jax.random':
    return jax_random(I)
  if name in ('jax.scipy.stats', 'scipy.stats'):
    mv = LibModule('multivariate_normal', {
        'pdf': lf('pdf', lambda x, mean=None, cov=None: mvn_pdf(I, x, mean, cov))})
    return LibModule(name, {'multivariate_normal': mv})
  if name in ('scipy', 'jax.scipy'):
    return LibModule(name, {'stats': I.lib_module(name + '.stats')})
  return LibUnknown(name)


def jax_nn(I):
  """Shares of exponentials, along the last axis."""
  def shares(x, axis):
    x = N.asarray(I, x)
    if not isinstance(x, NDArr) or axis not in (-1, x.ndim - 1):
      raise Unsupported('softmax along another axis')
    e = N.ew(I, lambda a: N.uf(I, 'exp', a), [x], 'f8')
    return N.binop(I, 'Div', e, N.sum_(I, e, -1, keepdims=True))

  def log_softmax(x, axis=-1):
    return N.ew(I, lambda a: N.uf(I, 'log', a), [shares(x, axis)], 'f8')
  return LibModule('jax.nn', {
      'softmax': LibFn('jax.nn.softmax', lambda x, axis=-1: shares(x, axis)),
      'log_softmax': LibFn('jax.nn.log_softmax', log_softmax)})


def V_UNDEF():
  from pyvc.interp import UNDEF
  return UNDEF


def submodule(I, parent, name):
  full = parent + '.' + name
  m = I.lib_module(full)
  return m if isinstance(m, LibModule) else None


def reduce_(I, f, xs, *init):
  from pyvc import lib
  items = lib.iterate(I, xs)
  if init:
    r = init[0]
  else:
    if not items:
      raise I.exc('TypeError')
    r, items = items[0], items[1:]
  for x in items:
    r = I.call(f, [r, x], {})
  return r


def shallow(I, x):
  if isinstance(x, Obj):
    o = I.new_obj(x.cls)
    o.fields = dict(x.fields)
    return o
  if isinstance(x, PList):
    c = x.copy()
    c.oid = next(I.ctx.alloc)
    return c
  if isinstance(x, NDArr):
    return N.asarray(I, x, copy=True)
  if isinstance(x, dict):
    return dict(x)
  return x


def deep(I, x, memo):
  if id(x) in memo:
    return memo[id(x)]
  if isinstance(x, Obj):
    if x.cls.is_enum:
      return x
    o = I.new_obj(x.cls)
    memo[id(x)] = o
    o.fields = {k: deep(I, v, memo) for k, v in x.fields.items()}
    return o
  if isinstance(x, PList):
    c = x.copy()
    c.oid = next(I.ctx.alloc)
    memo[id(x)] = c
    segs = []
    for s in c.segs:
      if isinstance(s, list):
        segs.append([deep(I, y, memo) for y in s])
      else:
        segs.append(V.SymSeg(s.n, lambda i, s=s: deep(I, s.at(i), {})))
    c.segs = segs
    return c
  if isinstance(x, NDArr):
    c = N.asarray(I, x, copy=True)
    memo[id(x)] = c
    return c
  if isinstance(x, dict):
    return {k: deep(I, v, memo) for k, v in x.items()}
  if isinstance(x, tuple):
    return tuple(deep(I, v, memo) for v in x)
  return x
