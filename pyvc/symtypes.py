"""Symbolic values of the input descriptors, and their concretisation."""
from fractions import Fraction

import z3

from pyvc.core import *  # noqa
from pyvc.core import Unsupported, Z, num, simp, And, Or, is_sym
from pyvc.values import *  # noqa
from pyvc import values as V
from pyvc import npmodel as N
from pyvc import types as T


def term(name, sort, idx):
  if not idx:
    return z3.Const(name, sort)
  return z3.Function(name, *([N.IS] * len(idx) + [sort]))(*[Z(i) for i in idx])


def dim(I, n):
  name, lo, hi = T.dim_name(n)
  if name is None:
    return lo
  ctx = I.ctx
  if ctx.bounded is not None:
    if name not in ctx.dims:
      # Small exact instances: lengths from the least one admitted.
      ctx.dims[name] = ctx.pick([max(lo, 1) + d - 1 for d in ctx.bounded])
    if ctx.dims[name] < lo or (hi is not None and ctx.dims[name] > hi):
      raise PathEnd()
    return ctx.dims[name]
  if name not in ctx.dims:
    v = z3.Int('len_' + name)
    ctx.dims[name] = v
    ctx.lengths.append(v)
    ctx.add(v >= 0)
  v = ctx.dims[name]
  ctx.add(v >= lo)
  if hi is not None:
    ctx.add(v <= hi)
  return v


def frac_or_int(x):
  return x if isinstance(x, (int, Fraction)) else Fraction(repr(float(x)))


def bounds(ctx, t, v):
  if t.lo is not None:
    lo = Z(frac_or_int(t.lo))
    ctx.axiom(v > lo if getattr(t, 'strict', False) else v >= lo)
  if t.hi is not None:
    hi = Z(frac_or_int(t.hi))
    ctx.axiom(v < hi if getattr(t, 'strict', False) else v <= hi)


def sym(I, t, name, idx=()):
  ctx = I.ctx
  if isinstance(t, T.Real):
    v = term(name, N.RS, idx)
    bounds(ctx, t, v)
    return v
  if isinstance(t, T.Int):
    v = term(name, N.IS, idx)
    bounds(ctx, t, v)
    return v
  if isinstance(t, T.Bool):
    return term(name, z3.BoolSort(), idx)
  if isinstance(t, T.OneOf):
    s = term(name, N.IS, idx)
    ctx.axiom(And(s >= 0, s < len(t.vals)))
    if all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in t.vals):
      out = t.vals[-1]
      for k in range(len(t.vals) - 2, -1, -1):
        out = Ite(s == k, t.vals[k], out)
      return out
    for k in range(len(t.vals) - 1):
      if ctx.branch(s == k):
        return t.vals[k]
    return t.vals[-1]
  if isinstance(t, T.Opt):
    if ctx.branch(term(name + '?', z3.BoolSort(), idx)):
      return None
    return sym(I, t.t, name, idx)
  if isinstance(t, T.Tup):
    return tuple(sym(I, x, '%s.%d' % (name, k), idx) for k, x in enumerate(t.ts))
  if isinstance(t, T.SeqOf):
    n = dim(I, t.n)
    if not is_sym(n):
      items = [sym(I, t.t, name + '[]', idx + (z3.IntVal(k),)) for k in range(n)]
      return tuple(items) if t.kind == 'tuple' else I.new_list(items)
    p = PList.sym(n, lambda i: sym(I, t.t, name + '[]', idx + (i,)), t.kind)
    p.oid = next(ctx.alloc)
    return p
  if isinstance(t, T.Arr):
    shape = tuple(dim(I, n) for n in t.shape)
    e = t.elem()
    dt = N.dtype_key(I, t.dtype, 'f8')

    def get(*ix):
      v = term(name + '[]', {'b': z3.BoolSort(), 'i8': N.IS, 'i4': N.IS}.get(dt, N.RS),
               idx + ix)
      if t.among is not None:
        ctx.axiom(Or(*[v == Z(frac_or_int(x)) for x in t.among]))
      elif dt != 'b':
        bounds(ctx, e, v)
      if dt == 'f4':
        ctx.axiom(N.getuf('f32', 1)(v) == v)
      return v
    a = NDArr(shape, get, dt)
    a = V.materialize(a, 64)
    a.oid = next(ctx.alloc)
    return a
  if isinstance(t, T.Img):
    return OpaqueVal(term(name, V.OpaqueSort, idx))
  if isinstance(t, T.Rng):
    from pyvc import libmods as L
    r = L.Rng()
    r.oid = next(ctx.alloc)
    return r
  if isinstance(t, T.Const):
    return t.v
  if isinstance(t, T.Build):
    return I.call(t.fn, [sym(I, x, '%s.%d' % (name, k), idx) for k, x in enumerate(t.ts)], {})
  raise Unsupported('input type %s' % type(t).__name__)


def conc(ctx, model, t, name, idx=()):
  """JSON datum of an input in a model."""
  ev = lambda v: ctx.ev(model, v)
  if isinstance(t, T.Real):
    v = ev(term(name, N.RS, idx))
    return t.fit(v) if not isinstance(v, str) else 0.0
  if isinstance(t, T.Int):
    return int(ev(term(name, N.IS, idx)))
  if isinstance(t, T.Bool):
    return bool(ev(term(name, z3.BoolSort(), idx)))
  if isinstance(t, T.OneOf):
    k = int(ev(term(name, N.IS, idx)))
    return max(0, min(k, len(t.vals) - 1))
  if isinstance(t, T.Opt):
    if ev(term(name + '?', z3.BoolSort(), idx)) is True:
      return None
    return [conc(ctx, model, t.t, name, idx)]
  if isinstance(t, T.Tup):
    return [conc(ctx, model, x, '%s.%d' % (name, k), idx) for k, x in enumerate(t.ts)]

  def dimv(n):
    nm, lo, hi = T.dim_name(n)
    if nm is None:
      return lo
    if nm not in ctx.dims:
      return lo
    k = int(ev(ctx.dims[nm]))
    return min(max(k, lo), 12)
  if isinstance(t, T.SeqOf):
    return [conc(ctx, model, t.t, name + '[]', idx + (z3.IntVal(k),))
            for k in range(dimv(t.n))]
  if isinstance(t, T.Arr):
    shape = [dimv(n) for n in t.shape]
    dt = t.dtype
    e = t.elem()
    sort = z3.BoolSort() if dt == 'bool' else (N.IS if dt.startswith('int') else N.RS)

    def rec(pre):
      if len(pre) == len(shape):
        v = ev(term(name + '[]', sort, idx + tuple(z3.IntVal(k) for k in pre)))
        if t.among is not None:
          vals = [T._num(x) for x in t.among]
          return v if v in vals else vals[0]
        if isinstance(v, str):
          return 0.0
        return e.fit(v) if isinstance(e, T.Real) else v
      return [rec(pre + [k]) for k in range(shape[len(pre)])]
    return {'shape': shape, 'data': rec([])}
  if isinstance(t, T.Img):
    return abs(hash(str(model.eval(term(name, V.OpaqueSort, idx), model_completion=True)))) % 1000
  if isinstance(t, T.Rng):
    return {'script': True}
  if isinstance(t, T.Const):
    return 0
  if isinstance(t, T.Build):
    return [conc(ctx, model, x, '%s.%d' % (name, k), idx) for k, x in enumerate(t.ts)]
  raise Unsupported('input type')
