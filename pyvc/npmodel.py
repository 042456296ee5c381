"""Model of the numpy (and jax.numpy) functions the repository uses.

Floats are mathematical reals; casts to float32 go through the uninterpreted
idempotent function f32.
"""
from fractions import Fraction

import z3

from pyvc.core import *  # noqa
from pyvc.core import (Unsupported, PathEnd, PyExc, is_sym, Z, num, simp, And, Or,
                       Not, Implies, Ite, is_num)
from pyvc.values import *  # noqa
from pyvc import values as V

RS = z3.RealSort()
IS = z3.IntSort()
UFS = {}


def R(v):
  v = Z(num(v))
  return z3.ToReal(v) if z3.is_int(v) else v


def getuf(name, n):
  k = (name, n)
  if k not in UFS:
    UFS[k] = z3.Function(name, *([RS] * n + [RS]))
  return UFS[k]


def canonical(e):
  """Sums of monomials, so that equal polynomials get equal terms."""
  if not is_sym(e) or z3.is_rational_value(e):
    return e
  try:
    c = z3.simplify(e, som=True, sort_sums=True, som_blowup=20)
  except z3.Z3Exception:
    return e
  return c


def squares(e):
  """Whether a term is plainly a sum of squares."""
  if z3.is_rational_value(e):
    return e.numerator_as_long() >= 0
  kind = e.decl().kind()
  kids = e.children()
  if kind == z3.Z3_OP_ADD:
    return all(squares(k) for k in kids)
  if kind == z3.Z3_OP_MUL:
    left = [k for k in kids if not squares(k)]
    left.sort(key=lambda k: k.get_id())
    return len(left) % 2 == 0 and all(a.eq(b) for a, b in zip(left[::2], left[1::2]))
  return False


def uf(I, name, *args, squared=False):
  """Uninterpreted mathematical function with its ground axioms."""
  args = [R(a) for a in args]
  args = [Z(simp(a)) for a in args]
  sure = squared and squares(args[0])
  if name != 'f32':
    args = [canonical(a) for a in args]
  if name == 'sqrt' and z3.is_rational_value(args[0]):
    v = Fraction(args[0].numerator_as_long(), args[0].denominator_as_long())
    if v >= 0:
      import math
      p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
      if p * p == v.numerator and q * q == v.denominator:
        return Fraction(p, q)
  if name in ('sin', 'cos'):
    # sin(-x) = -sin(x) and cos(-x) = cos(x): one of the two is used.
    neg = canonical(Z(simp(-args[0])))
    a, b = args[0].sexpr(), neg.sexpr()
    if (len(b), b) < (len(a), a):
      t = uf(I, name, neg)
      return t if name == 'cos' else simp(-Z(t))
  t = getuf(name, len(args))(*args)
  key = t.sexpr()
  ctx = I.ctx
  if key in ctx.uf_seen:
    return t
  ctx.uf_seen.add(key)
  ctx.assumptions.add('math function %s axiomatised' % name)
  x = args[0]
  if name == 'sqrt':
    known = z3.And(t >= 0, t * t == x)
    ctx.axiom(known if sure else z3.Implies(x >= 0, known))
    for x2, t2 in ctx.sqrts[-8:]:
      ctx.axiom(z3.Implies(z3.And(x >= 0, x2 >= 0), z3.And((t <= t2) == (x <= x2),
                                                           (t == t2) == (x == x2))))
    ctx.sqrts.append((x, t))
  elif name in ('sin', 'cos'):
    s, c = getuf('sin', 1)(x), getuf('cos', 1)(x)
    for other in ('sin', 'cos'):
      ctx.uf_seen.add(getuf(other, 1)(x).sexpr())
    ctx.axiom(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
    if z3.is_rational_value(x) and x.numerator_as_long() == 0:
      ctx.axiom(z3.And(s == 0, c == 1))
  elif name == 'exp':
    ctx.axiom(t > 0)
    ctx.axiom(z3.Implies(x <= 0, t <= 1))
    ctx.axiom(z3.Implies(x == 0, t == 1))
  elif name == 'pow':
    b = args[1]
    ctx.axiom(z3.Implies(x > 0, t > 0))
    ctx.axiom(z3.Implies(b == 0, t == 1))
    ctx.axiom(z3.Implies(z3.And(x > 0, x <= 1, b >= 0), t <= 1))
  elif name == 'f32':
    ctx.axiom(getuf('f32', 1)(t) == t)
    ctx.axiom(z3.Implies(x == 0, t == 0))
    ctx.axiom(z3.Implies(x >= 0, t >= 0))
    ctx.axiom(z3.Implies(x <= 0, t <= 0))
    # relative error 2**-23, absolute error 1e-40 near zero (no overflow).
    up, dn, tiny = (z3.Q(2**23 + 1, 2**23), z3.Q(2**23 - 1, 2**23), z3.Q(1, 10**40))
    ctx.axiom(z3.Implies(x >= 0, z3.And(t <= x * up + tiny, t >= x * dn - tiny)))
    ctx.axiom(z3.Implies(x <= 0, z3.And(t >= x * up - tiny, t <= x * dn + tiny)))
  elif name == 'log':
    ctx.axiom(z3.Implies(x >= 1, t >= 0))
  return t


def f32(I, v):
  v = num(v)
  if not is_sym(v):
    if isinstance(v, float):
      return v
    import struct
    try:
      y = struct.unpack('f', struct.pack('f', float(v)))[0]
    except OverflowError:
      return v
    if Fraction(y) == Fraction(v):
      return Fraction(v)
    return uf(I, 'f32', v)
  if z3.is_int(v):
    # small integers are exactly representable (magnitude < 2**24 assumed).
    I.ctx.assumptions.add('integers stored as float32 are below 2**24')
    return z3.ToReal(v)
  if v.decl().name() == 'f32':
    return v
  if v.decl().name() == 'to_real':
    return v
  return uf(I, 'f32', v)


def trunc(x):
  x = R(x)
  x = simp(x)
  if not is_sym(x):
    return int(x)
  if x.decl().name() == 'to_real':
    return x.arg(0)
  v = closed_value(x)
  if v is not None and abs(v - round(v)) > 1e-9:
    return int(v)
  return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def closed_value(x):
  """The value of a term of rationals and square roots only, else None."""
  from fractions import Fraction
  from math import isqrt
  if z3.is_rational_value(x):
    return Fraction(x.numerator_as_long(), x.denominator_as_long())
  if z3.is_int_value(x):
    return Fraction(x.as_long())
  if not z3.is_app(x) or x.num_args() == 0 or x.num_args() > 8:
    return None
  k, name = x.decl().kind(), x.decl().name()
  if not (name == 'sqrt' or k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV,
                                  z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL)):
    return None
  a = [closed_value(c) for c in x.children()]
  if any(v is None for v in a):
    return None
  if name == 'sqrt':
    if a[0] < 0:
      return None
    return Fraction(isqrt(int(a[0] * 10 ** 60)), 10 ** 30)
  if k == z3.Z3_OP_ADD:
    return sum(a)
  if k == z3.Z3_OP_SUB:
    return a[0] - sum(a[1:])
  if k == z3.Z3_OP_MUL:
    r = Fraction(1)
    for v in a:
      r *= v
    return r
  if k == z3.Z3_OP_DIV:
    return a[0] / a[1] if abs(a[1]) > Fraction(1, 10 ** 6) else None
  return -a[0] if k == z3.Z3_OP_UMINUS else a[0]


def cast(I, v, dt):
  if dt == 'O' or dt is None:
    return v
  if isinstance(v, NDArr):
    v = item(I, v)
  if not is_num(v):
    if isinstance(v, Host) or v is None:
      raise Unsupported('array of objects')
    raise Unsupported('array element %r' % (v,))
  if dt == 'b':
    if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
      return v
    v = num(v)
    return v != 0
  v = num(v)
  if dt == 'f8':
    if isinstance(v, int):
      return Fraction(v)
    if is_sym(v) and z3.is_int(v):
      return z3.ToReal(v)
    return v
  if dt == 'f4':
    return f32(I, v)
  if dt in ('i8', 'i4'):
    if isinstance(v, float):
      raise Unsupported('non-finite to int')
    if isinstance(v, Fraction):
      return int(v)
    if is_sym(v) and z3.is_real(v):
      return trunc(v)
    return v
  if dt == 'u1':
    if isinstance(v, int) and 0 <= v < 256:
      return v
    if is_sym(v) and z3.is_int(v):
      v = simp(v)
      return v if I.ctx.prove(z3.And(v >= 0, v < 256)) else simp(v % 256)
    if is_sym(v) and z3.is_real(v):
      v = trunc(v)
      if isinstance(v, int) or I.ctx.prove(z3.And(v >= 0, v < 256)):
        return cast(I, v, dt)
    raise Unsupported('uint8 arithmetic')
  raise Unsupported('dtype %s' % dt)


def scalar_dtype(v):
  if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
    return 'b'
  if isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
    return 'i8'
  if is_num(v):
    return 'f8'
  return 'O'


class DTypeCls(Host):
  """np.float32 and friends: both a dtype and a scalar constructor."""
  tname = 'dtype'

  def __init__(self, k):
    self.k = k

  def call_(self, I, a, kw):
    x = a[0] if a else 0
    if isinstance(x, NDArr):
      return astype(I, x, self.k)
    return cast(I, x, self.k)

  def eq_(self, I, o):
    k = dtype_key(I, o, None)
    return k == self.k

  def getattr_(self, I, name):
    if name == 'kind':
      return {'f8': 'f', 'f4': 'f', 'i8': 'i', 'i4': 'i', 'u1': 'u', 'b': 'b'}[self.k]
    raise Unsupported('dtype.%s' % name)


def dtype_key(I, d, default):
  if d is None:
    return default
  if isinstance(d, DTypeCls):
    return d.k
  if isinstance(d, DType):
    return d.k
  if isinstance(d, ClassVal):
    return {'float': 'f8', 'int': 'i8', 'bool': 'b', 'object': 'O'}.get(d.name, default)
  if isinstance(d, str):
    return {'float32': 'f4', 'float64': 'f8', 'int32': 'i4', 'int64': 'i8',
            'bool': 'b', 'uint8': 'u1', 'float': 'f8', 'int': 'i8'}.get(d)
  raise Unsupported('dtype %r' % (d,))


# ---------------------------------------------------------------------------
# construction


def new(I, shape, get, dtype='f8', limit=256):
  a = NDArr(shape, get, dtype)
  a = V.materialize(a, limit)
  a.oid = next(I.ctx.alloc)
  return a


def is_arr_like(x):
  return isinstance(x, (NDArr, PList, tuple)) or (
      isinstance(x, Host) and hasattr(x, 'asarray_'))


def asarray(I, x, dtype=None, copy=False):
  dt = dtype_key(I, dtype, None)
  if isinstance(x, NDArr):
    if dt is None or dt == x.dtype:
      if not copy:
        return x
      g = x.snapshot()
      return new(I, x.shape, g, x.dtype)
    return astype(I, x, dt)
  if isinstance(x, Host) and hasattr(x, 'asarray_'):
    a = x.asarray_(I)
    return a if dt is None else astype(I, a, dt)
  if isinstance(x, OpaqueVal):
    return x
  if is_num(x):
    d = dt or scalar_dtype(x)
    v = cast(I, x, d)
    return new(I, (), lambda: v, d)
  if isinstance(x, (tuple, PList)) or hasattr(x, 'iterate_') or type(x).__name__ in (
      'RangeVal', 'ZipVal', 'EnumVal'):
    from pyvc import lib
    if isinstance(x, PList) and not x.concrete:
      n = x.length()
      at = lib.iter_at(I, x)
      # element shape by probing at a fresh index
      k = I.ctx.int('aprobe')
      I.ctx.add(z3.Implies(Z(n) > 0, z3.And(k >= 0, k < Z(n))))
      e0 = at(k)
      if is_num(e0):
        d = dt or scalar_dtype(e0)
        return new(I, (n,), lambda i: cast(I, at(i), d), d)
      e0 = asarray(I, e0)
      if isinstance(e0, OpaqueVal):
        raise Unsupported('array of images')
      if any(is_sym(q) and k.sexpr() in q.sexpr() for q in e0.shape):
        raise Unsupported('array of elements of different shapes')
      d = dt or e0.dtype
      return new(I, (n,) + e0.shape,
                 lambda i, *r: cast(I, asarray(I, at(i)).get(*r), d), d)
    items = lib.iterate(I, x)
    if not items:
      return new(I, (0,), lambda i: Fraction(0), dt or 'f8')
    if all(is_num(v) for v in items):
      ds = [scalar_dtype(v) for v in items]
      d = dt or V.result_dtype(*ds)
      vals = [cast(I, v, d) for v in items]
      a = V.arr_from_list(vals, d)
      a.oid = next(I.ctx.alloc)
      return a
    subs = [asarray(I, v) for v in items]
    if any(isinstance(s, OpaqueVal) for s in subs):
      raise Unsupported('array of images')
    return stack(I, subs, 0, dt)
  if x is None:
    raise Unsupported('array of None')
  raise Unsupported('asarray of %r' % (x,))


def astype(I, a, k):
  k = k if isinstance(k, str) and k in ('f8', 'f4', 'i8', 'i4', 'b', 'u1', 'O') \
      else dtype_key(I, k, 'f8')
  g = a.snapshot()
  if k == a.dtype:
    return new(I, a.shape, g, k)
  return new(I, a.shape, lambda *ix: cast(I, g(*ix), k), k)


def dims(I, shape):
  if isinstance(shape, PList):
    shape = tuple(shape.items)
  if not isinstance(shape, tuple):
    shape = (shape,)
  out = []
  for d in shape:
    d = simp(num(item(I, d)))
    if isinstance(d, Fraction) or (is_sym(d) and z3.is_real(d)):
      raise I.exc('TypeError')
    if is_sym(d):
      if not I.ctx.prove(d >= 0):
        if not I.ctx.branch(d >= 0):
          raise I.exc('ValueError')
    elif d < 0:
      raise I.exc('ValueError')
    out.append(d)
  return tuple(out)


def full(I, shape, v, dtype=None):
  shape = dims(I, shape)
  if isinstance(v, NDArr):
    a = broadcast_to(I, v, shape)
    return astype(I, a, dtype_key(I, dtype, v.dtype))
  d = dtype_key(I, dtype, scalar_dtype(v))
  c = cast(I, v, d)
  return new(I, shape, lambda *ix: c, d)


def empty(I, shape, dtype=None):
  shape = dims(I, shape)
  d = dtype_key(I, dtype, 'f8')
  name = I.ctx.fresh_name('uninit')
  rng = {'b': z3.BoolSort(), 'i8': IS, 'i4': IS}.get(d, RS)
  f = z3.Function(name, *([IS] * len(shape) + [rng]))
  if not shape:
    v = z3.Const(name, rng)
    return new(I, (), lambda: v, d)
  return new(I, shape, lambda *ix: f(*[Z(i) for i in ix]), d)


def item(I, x):
  if isinstance(x, NDArr):
    n = x.size()
    if is_sym(n) and I.ctx.prove(n == 1):
      n = 1
    if n != 1:
      raise I.exc('TypeError') if not is_sym(n) else Unsupported('item of array')
    return x.get(*([0] * x.ndim))
  return x


# ---------------------------------------------------------------------------
# broadcasting


def same_dim(I, a, b):
  if is_sym(a) or is_sym(b):
    a_, b_ = Z(a), Z(b)
    if a_.eq(b_):
      return True
    return I.ctx.prove(a_ == b_)
  return a == b


def bdim(I, a, b):
  """Broadcast of two dimensions."""
  if not is_sym(a) and a == 1:
    return b
  if not is_sym(b) and b == 1:
    return a
  if same_dim(I, a, b):
    return a if not is_sym(a) else b
  if not is_sym(a) and not is_sym(b):
    raise I.exc('ValueError')
  if I.ctx.branch(Z(a) == Z(b)):
    return a if not is_sym(a) else b
  if is_sym(a) and I.ctx.branch(Z(a) == 1):
    return b
  if is_sym(b) and I.ctx.branch(Z(b) == 1):
    return a
  raise I.exc('ValueError')


def bshape(I, *shapes):
  n = max(len(s) for s in shapes)
  out = []
  for k in range(n):
    d = 1
    for s in shapes:
      j = k - (n - len(s))
      if j >= 0:
        d = bdim(I, d, s[j])
    out.append(d)
  return tuple(out)


def bget(I, a, shape):
  """Snapshot getter of array (or scalar) a under a broadcast shape."""
  if not isinstance(a, NDArr):
    return lambda *ix: a
  g = a.snapshot()
  off = len(shape) - a.ndim
  one = []
  for j, d in enumerate(a.shape):
    t = shape[off + j]
    if not is_sym(d):
      one.append(d == 1 and not (not is_sym(t) and t == 1) or d == 1)
    else:
      one.append(not same_dim(I, d, t))

  def f(*ix):
    return g(*[0 if one[j] else ix[off + j] for j in range(a.ndim)])
  return f


def broadcast_to(I, a, shape):
  s = bshape(I, a.shape, shape)
  if len(s) != len(shape):
    raise I.exc('ValueError')
  for x, y in zip(s, shape):
    if not same_dim(I, x, y):
      if is_sym(x) or is_sym(y):
        if I.ctx.branch(Z(x) == Z(y)):
          continue
      raise I.exc('ValueError')
  return new(I, shape, bget(I, a, shape), a.dtype)


def toarr(I, x):
  if isinstance(x, NDArr) or is_num(x):
    return x
  return asarray(I, x)


def ew(I, fn, args, dtype):
  args = [toarr(I, a) for a in args]
  if any(isinstance(a, OpaqueVal) for a in args):
    raise Unsupported('arithmetic on an opaque array')
  arrs = [a for a in args if isinstance(a, NDArr)]
  if not arrs:
    return fn(*args)
  shape = bshape(I, *[a.shape for a in arrs])
  gs = [bget(I, a, shape) for a in args]
  r = new(I, shape, lambda *ix: fn(*[g(*ix) for g in gs]), dtype)
  if r.ndim == 0:
    return r.get()
  return r


def dt_of(x):
  if isinstance(x, NDArr):
    return x.dtype
  return None   # python scalars are weak


def arith_dtype(op, args):
  ds = [d for d in map(dt_of, args) if d]
  weak = [scalar_dtype(a) for a in args if not isinstance(a, NDArr)]
  d = V.result_dtype(*ds) if ds else 'f8'
  if 'f8' in weak and d in ('i8', 'i4', 'b', 'u1'):
    d = 'f8'
  if 'i8' in weak and d == 'b':
    d = 'i8'
  if op == 'Div' and d in ('i8', 'i4', 'b', 'u1'):
    d = 'f8'
  if d == 'b' and op in ('Add', 'Mult'):
    return 'b'
  return d


def binop(I, op, a, b):
  from pyvc import lib
  if op == 'MatMult':
    return matmul(I, a, b)
  if isinstance(a, OpaqueVal) or isinstance(b, OpaqueVal):
    raise Unsupported('arithmetic on an opaque array')
  if not (isinstance(a, NDArr) or is_num(a) or is_arr_like(a)) or not (
      isinstance(b, NDArr) or is_num(b) or is_arr_like(b)):
    if a is None or b is None:
      raise I.exc('TypeError')
    raise Unsupported('array operation with %r / %r' % (type(a), type(b)))
  a, b = toarr(I, a), toarr(I, b)
  d = arith_dtype(op, (a, b))
  if d == 'u1':
    raise Unsupported('uint8 arithmetic')
  if op in ('BitAnd', 'BitOr', 'BitXor'):
    d = 'b' if d == 'b' else d
  if d == 'b' and op == 'Add':
    return ew(I, lambda x, y: Or(x, y), (a, b), 'b')
  if d == 'b' and op == 'Mult':
    return ew(I, lambda x, y: And(x, y), (a, b), 'b')
  return ew(I, lambda x, y: lib.scalar_binop(I, op, x, y, np_mode=True), (a, b), d)


def compare(I, op, a, b):
  from pyvc import lib
  if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
    if op == 'Eq':
      return False
    if op == 'NotEq':
      return True
  a, b = toarr(I, a), toarr(I, b)
  return ew(I, lambda x, y: lib.scalar_compare(op, x, y), (a, b), 'b')


def unary(I, op, a):
  if op == 'USub':
    return ew(I, lambda x: simp(-Z(num(x))) if is_sym(x) else -num(x), (a,), a.dtype)
  if op == 'UAdd':
    return a
  if op == 'Invert':
    if a.dtype != 'b':
      raise Unsupported('~ on non-boolean array')
    return ew(I, Not, (a,), 'b')
  raise Unsupported('unary %s' % op)


def inplace(I, old, newv):
  """old op= rhs, where newv is the out-of-place result."""
  if len(newv.shape) != len(old.shape):
    raise I.exc('ValueError')
  for x, y in zip(newv.shape, old.shape):
    if not same_dim(I, x, y):
      raise I.exc('ValueError')
  if old.dtype in ('i8', 'i4', 'b') and newv.dtype in ('f8', 'f4'):
    raise I.exc('TypeError')
  g = newv.snapshot()
  d = old.dtype
  write(I, old, lambda ix: True, lambda ix: cast(I, g(*ix), d))
  return old


def write(I, a, cond, val):
  """a[ix] = val(ix) where cond(ix)."""
  if a.immutable:
    raise I.exc('TypeError')
  if a.base is not None:
    if a.inverse is None:
      raise Unsupported('write through a non-invertible view')
    inv = a.inverse

    def bcond(bix):
      c, vix = inv(bix)
      if c is False:
        return False
      return And(c, cond(vix))
    return write(I, a.base, bcond, lambda bix: val(inv(bix)[1]))
  I.note_write(a, 'data')
  g = a.snapshot()

  def get(*ix):
    c = cond(ix)
    c = simp(c) if is_sym(c) else c
    if c is True:
      return val(ix)
    if c is False:
      return g(*ix)
    return Ite(c, val(ix), g(*ix))
  a.set_get(get)
  if a.concrete and V.csize(a.shape) <= 256:
    t = {ix: get(*ix) for ix in V.indices(a.shape)}
    sh = a.shape
    a.set_get(lambda *ix: V.table_get(t, sh, ix))


# ---------------------------------------------------------------------------
# selection by boolean mask


class Selection:

  def __init__(self, n, mask, m, S, Rk):
    self.n, self.mask, self.m, self.S, self.R = n, mask, m, S, Rk


def select(I, n, mask):
  """mask: index -> bool.  Returns the increasing enumeration of true positions."""
  ctx = I.ctx
  if not is_sym(n):
    vals = [mask(i) for i in range(n)]
    vals = [simp(v) if is_sym(v) else v for v in vals]
    if sum(is_sym(v) for v in vals) <= 6:
      chosen = [i for i, v in enumerate(vals) if ctx.branch(v)]
      t = dict(enumerate(chosen))
      return Selection(n, mask, len(chosen),
                       lambda j: V.table_get({(k,): v for k, v in t.items()},
                                             (len(t),), (j,)),
                       lambda i: V.table_get(
                           {(k,): chosen.index(k) if k in chosen else 0
                            for k in range(n)}, (n,), (i,)))
  k = ctx.int('msk')
  inr = z3.And(k >= 0, k < Z(n))
  mk = ctx.merged(lambda: mask(k))
  if mk is True or (is_sym(mk) and z3.is_true(mk)):
    return Selection(n, mask, n, lambda j: j, lambda i: i)
  for sel in ctx.selections:
    if not same_dim(I, sel.n, n):
      continue
    mk2 = ctx.merged(lambda: sel.mask(k))
    if ctx.prove(Implies(inr, Z(mk) == Z(mk2))):
      return sel
  for u in ctx.user_indices[:3]:
    # Exactly one position, and it is known: a concrete length.
    mu = ctx.merged(lambda: mask(u))
    if mu is False or mk is False:
      continue
    if ctx.prove(And(u >= 0, u < Z(n), Implies(And(inr, mk), k == u), mu), timeout=1000):
      sel = Selection(n, mask, 1, lambda j, u=u: u, lambda i: 0)
      ctx.selections.append(sel)
      return sel
  base = ctx.fresh_name('sel')
  m = z3.Int(base + '.m')
  S = z3.Function(base + '.S', IS, IS)
  Rk = z3.Function(base + '.R', IS, IS)
  ctx.lengths.append(m)
  ctx.add(z3.And(m >= 0, m <= Z(n)))
  sel = Selection(n, mask, m, lambda j: S(Z(j)), lambda i: Rk(Z(i)))
  ctx.selections.append(sel)
  seen = []

  def facts(t, gen):
    out = []
    mt = ctx.merged(lambda: mask(t))
    out.append(Implies(And(t >= 0, t < Z(n), mt),
                       And(Rk(t) >= 0, Rk(t) < m, S(Rk(t)) == t)))
    ms = ctx.merged(lambda: mask(S(t)))
    out.append(Implies(And(t >= 0, t < m),
                       And(S(t) >= 0, S(t) < Z(n), S(t) >= t, ms, Rk(S(t)) == t)))
    for u in seen:
      out.append(Implies(And(t >= 0, t < m, u >= 0, u < m),
                         And((S(t) < S(u)) == (t < u), (S(t) == S(u)) == (t == u))))
    seen.append(t)
    if gen < 2:
      ctx.later.append((S(t), gen + 1))
      ctx.later.append((Rk(t), gen + 1))
    return out
  ctx.add_quant(facts)
  ctx.register_index(z3.IntVal(0))
  ctx.register_index(z3.IntVal(1))
  return sel


# ---------------------------------------------------------------------------
# indexing


def row_view(I, a, i):
  if a.ndim == 1:
    return a.get(i)
  return NDArr.view(a, a.shape[1:], lambda *ix: (i,) + tuple(ix),
                    lambda bix: (eqi(bix[0], i), tuple(bix[1:])))


def eqi(a, b):
  if not is_sym(a) and not is_sym(b):
    return a == b
  return simp(Z(a) == Z(b))


def expand(I, a, k):
  ks = list(k) if isinstance(k, tuple) else [k]
  ks = [tuple_to_arr(I, x) for x in ks]

  def width(x):
    if x is None or x is Ellipsis:
      return 0
    if isinstance(x, NDArr) and x.dtype == 'b':
      return x.ndim
    return 1
  used = sum(width(x) for x in ks)
  if used > a.ndim:
    raise I.exc('IndexError')
  if not any(x is Ellipsis for x in ks):
    ks.append(Ellipsis)
  p = [q for q, x in enumerate(ks) if x is Ellipsis][0]
  ks = ks[:p] + [slice(None)] * (a.ndim - used) + ks[p + 1:]
  return ks


def tuple_to_arr(I, x):
  if isinstance(x, (PList,)):
    return asarray(I, x)
  if isinstance(x, NDArr) and x.ndim == 0:
    return x.get()
  return x


class IndexPlan:
  pass


def plan(I, a, k):
  """Basic or single-advanced indexing plan."""
  from pyvc import lib
  ks = expand(I, a, k)
  comps = []      # per base axis: ('i', idx) ('s', start, step) ('m', sel) ('f', arr)
  out_shape = []  # list of (dim, kind, base axis)
  ax = 0
  adv = [x for x in ks if isinstance(x, NDArr)]
  nadv = len(adv)
  p = IndexPlan()
  p.fancy = nadv > 0
  p.masks = None
  p.positive = set()
  if nadv > 1:
    # several integer index arrays: pointwise.
    if any(x.dtype == 'b' for x in adv):
      raise Unsupported('mixed advanced indexing')
    shp = bshape(I, *[x.shape for x in adv])
    adv_dims = shp
  first_adv = True
  for x in ks:
    if x is None:
      out_shape.append((1, 'n', None))
      continue
    d = a.shape[ax]
    if isinstance(x, slice):
      if x.step in (None, 1):
        st, ln = lib.slice_bounds(I, x, d)
        if is_sym(st):
          I.ctx.slice_start(st)
        comps.append(('s', st, 1, len(out_shape), ln))
        out_shape.append((ln, 's', ax))
      else:
        if any(is_sym(v) for v in (x.start, x.stop, x.step)):
          raise Unsupported('symbolic slice')
        if is_sym(d):
          if x.start is None and x.stop is None and x.step == -1:
            comps.append(('s', simp(Z(d) - 1), -1, len(out_shape), d))
            out_shape.append((d, 's', ax))
          elif x.step > 0 and x.stop is None and (x.start is None or x.start >= 0):
            s0 = x.start or 0
            ln = simp(z3.If(Z(d) > s0, (Z(d) - s0 + x.step - 1) / x.step, 0))
            comps.append(('s', s0, x.step, len(out_shape), ln))
            out_shape.append((ln, 's', ax))
          else:
            raise Unsupported('strided slice of symbolic dimension')
        else:
          r = range(*x.indices(d))
          comps.append(('s', r.start, r.step, len(out_shape), len(r)))
          out_shape.append((len(r), 's', ax))
      ax += 1
    elif isinstance(x, NDArr) and x.dtype == 'b':
      if x.ndim == 1:
        if not same_dim(I, x.shape[0], d):
          raise I.exc('IndexError')
        g = x.snapshot()
        sel = select(I, d, lambda i, g=g: g(i))
        p.mask_axis = ax
        p.sel = sel
        comps.append(('m', sel, len(out_shape)))
        out_shape.append((sel.m, 'm', ax))
        ax += 1
      else:
        if x.ndim != a.ndim or nadv != 1 or len(ks) != 1:
          raise Unsupported('multi-dimensional mask')
        for u, w in zip(x.shape, a.shape):
          if not same_dim(I, u, w):
            raise I.exc('IndexError')
        p.fullmask = x.snapshot()
        p.shape = None
        return p
    elif isinstance(x, NDArr):
      if x.dtype not in ('i8', 'i4', 'u1'):
        if x.dtype == 'f8' and not is_sym(x.size()) and x.size() == 0:
          pass
        else:
          raise I.exc('IndexError')
      g = x.snapshot()
      if nadv == 1:
        pos = len(out_shape)
        comps.append(('f', g, pos, x.ndim))
        for q in x.shape:
          out_shape.append((q, 'f', ax))
      else:
        bg = bget(I, x, adv_dims)
        if first_adv:
          p.advpos = len(out_shape)
          for q in adv_dims:
            out_shape.append((q, 'f', ax))
          first_adv = False
        comps.append(('f', bg, p.advpos, len(adv_dims)))
      if fancy_check(I, x, d):
        p.positive.add(ax)
      ax += 1
    else:
      if not is_num(x) or isinstance(x, bool):
        raise Unsupported('index %r' % (x,))
      i = lib.norm_index(I, x, d)
      comps.append(('i', i))
      ax += 1
  p.comps = comps
  p.shape = tuple(s for s, _, _ in out_shape)
  p.kinds = [q for _, q, _ in out_shape]
  p.base_shape = a.shape
  return p


def fancy_check(I, x, d):
  """All indices in range (else IndexError)."""
  if x.concrete and V.csize(x.shape) <= 64:
    for ix in V.indices(x.shape):
      v = x.get(*ix)
      if not is_sym(v) and not is_sym(d):
        if not -d <= v < d:
          raise I.exc('IndexError')
      elif not I.ctx.branch(And(Z(v) >= -Z(d), Z(v) < Z(d))):
        raise I.exc('IndexError')
  else:
    # arbitrary position must be in range.
    ks = [I.ctx.int('fi') for _ in x.shape]
    for k, n in zip(ks, x.shape):
      I.ctx.register_index(k, 1)
    inr = And(*[And(k >= 0, k < Z(n)) for k, n in zip(ks, x.shape)])
    v = x.get(*ks)
    if I.ctx.prove(Implies(inr, And(Z(v) >= 0, Z(v) < Z(d))), timeout=1000):
      return True
    if not I.ctx.prove(Implies(inr, And(Z(v) >= -Z(d), Z(v) < Z(d)))):
      raise Unsupported('cannot show fancy indices in range')
  return False


def wrap_neg(I, v, d):
  if not is_sym(v):
    if v >= 0:
      return v
    return simp(Z(d) + v) if is_sym(d) else d + v
  if I.ctx.prove(v >= 0):
    return v
  return simp(z3.If(v >= 0, v, v + d))


def plan_map(I, p):
  def mp(*ix):
    out = []
    for ax, c in enumerate(p.comps):
      if c[0] == 'i':
        out.append(c[1])
      elif c[0] == 's':
        i = ix[c[3]]
        st, step = c[1], c[2]
        if not is_sym(st) and st == 0 and step == 1:
          out.append(i)
        else:
          v = Z(st) + Z(i) * step if step != 1 else Z(st) + Z(i)
          out.append(simp(v))
      elif c[0] == 'm':
        out.append(simp(Z(c[1].S(ix[c[2]]))) if is_sym(ix[c[2]]) or is_sym(c[1].m)
                   else c[1].S(ix[c[2]]))
      else:
        g, pos, nd = c[1:]
        v = g(*ix[pos:pos + nd])
        out.append(v if ax in p.positive else wrap_neg(I, v, p.base_shape[ax]))
    return tuple(out)
  return mp


def getitem(I, a, k):
  if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], NDArr) and False:
    k = k[0]
  p = plan(I, a, k)
  if p.shape is None:
    # full boolean mask -> 1-D
    if not a.concrete:
      raise Unsupported('multi-dimensional mask of symbolic size')
    cells = [ix for ix in V.indices(a.shape) if I.ctx.branch(p.fullmask(*ix))]
    vals = [a.get(*ix) for ix in cells]
    r = V.arr_from_list(vals, a.dtype)
    r.oid = next(I.ctx.alloc)
    return r
  mp = plan_map(I, p)
  if p.fancy:
    g = a.snapshot()
    return new(I, p.shape, lambda *ix: g(*mp(*ix)), a.dtype)
  if not p.shape:
    return a.get(*mp())
  # invertible view

  def inverse(bix):
    vix = [0] * len(p.shape)
    cond = True
    for ax, c in enumerate(p.comps):
      b = bix[ax]
      if c[0] == 'i':
        cond = And(cond, eqi(b, c[1]))
      else:
        st, step, pos, ln = c[1:]
        if step == 1:
          off = simp(Z(b) - Z(st)) if is_sym(b) or is_sym(st) else b - st
          if not is_sym(off) and not is_sym(ln):
            cond = And(cond, 0 <= off < ln)
          elif not (not is_sym(st) and st == 0 and same_dim(I, ln, a.shape[ax])):
            cond = And(cond, And(Z(off) >= 0, Z(off) < Z(ln)))
          vix[pos] = off
        else:
          if is_sym(b) or is_sym(st) or is_sym(ln):
            off = Z(b) - Z(st)
            if step == -1:
              q = simp(-off)
              cond = And(cond, And(q >= 0, q < Z(ln)))
            else:
              q = simp(off / step)
              cond = And(cond, And(off % step == 0, q >= 0, q < Z(ln)))
            vix[pos] = q
          else:
            off = b - st
            ok = off % step == 0 and 0 <= off // step < ln
            cond = And(cond, ok)
            vix[pos] = off // step if ok else 0
      if cond is False:
        return False, tuple(vix)
    return cond, tuple(vix)
  return NDArr.view(a, p.shape, mp, inverse)


def setitem(I, a, k, v):
  if a.immutable:
    raise I.exc('TypeError')
  for t in I.trackers:
    if t.store(a, getattr(a, 'oid', None), k, v):
      return
  p = plan(I, a, k)
  d = a.dtype
  if p.shape is None:
    if not is_num(v):
      raise Unsupported('masked store of array')
    fm = p.fullmask
    write(I, a, lambda ix: fm(*ix), lambda ix: cast(I, v, d))
    return
  if not is_num(v):
    v = asarray(I, v)
    s = p.shape
    # drop leading ones of v as numpy does
    if v.ndim > len(s):
      raise I.exc('ValueError')
    v = broadcast_to(I, v, s) if v.shape != s else v
    g = v.snapshot()
    val = lambda vix: cast(I, g(*vix), d)
  else:
    c0 = cast(I, v, d)
    val = lambda vix: c0
  if not p.fancy:
    if not p.shape:
      mp = plan_map(I, p)()
      write(I, a, lambda ix: And(*[eqi(x, y) for x, y in zip(ix, mp)]),
            lambda ix: val(()))
      return
    view = getitem(I, a, k)
    write(I, view, lambda ix: True, lambda ix: val(ix))
    return
  # one mask or one concrete-length index array
  adv = [(ax, c) for ax, c in enumerate(p.comps) if c[0] in 'mf']

  def invert(bix, choose):
    cond = True
    vix = [0] * len(p.shape)
    for ax, c in enumerate(p.comps):
      b = bix[ax]
      if c[0] == 'i':
        cond = And(cond, eqi(b, c[1]))
      elif c[0] == 's':
        st, step, pos, ln = c[1:]
        if step != 1:
          raise Unsupported('strided fancy store')
        off = simp(Z(b) - Z(st)) if is_sym(b) or is_sym(st) else b - st
        cond = And(cond, And(Z(off) >= 0, Z(off) < Z(ln)) if is_sym(off) or is_sym(ln)
                   else 0 <= off < ln)
        vix[pos] = off
      else:
        cc, pos, q = choose(ax, c, b)
        cond = And(cond, cc)
        for x, y in zip(range(pos, pos + len(q)), q):
          vix[x] = y
    return cond, tuple(vix)
  if len(adv) == 1 and adv[0][1][0] == 'm':
    sel = adv[0][1][1]
    ch = lambda ax, c, b: (sel.mask(b), c[2], (sel.R(b),))
    write(I, a, lambda ix: invert(ix, ch)[0], lambda ix: val(invert(ix, ch)[1]))
    return
  if len(adv) > 1:
    for q in product_positions(I, p, adv):
      sub = {ax: wrap_neg(I, c[1](*q), a.shape[ax]) for ax, c in adv}
      ch = lambda ax, c, b, sub=sub, q=q: (eqi(b, sub[ax]), c[2], q)
      write(I, a, lambda ix, ch=ch: invert(ix, ch)[0],
            lambda ix, ch=ch: val(invert(ix, ch)[1]))
    return
  ax, c = adv[0]
  if c[3] == 1 and is_sym(p.shape[c[2]]):
    last = last_position(I, lambda q: wrap_neg(I, c[1](q), a.shape[ax]) if ax not in p.positive
                         else c[1](q), p.shape[c[2]])
    ch = lambda ax_, c_, b: (last(b) >= 0, c_[2], (last(b),))
    write(I, a, lambda ix: invert(ix, ch)[0], lambda ix: val(invert(ix, ch)[1]))
    return
  for q in product_positions(I, p, adv):
    tgt = wrap_neg(I, c[1](*q), a.shape[ax])
    ch = lambda ax_, c_, b, tgt=tgt, q=q: (eqi(b, tgt), c_[2], q)
    write(I, a, lambda ix, ch=ch: invert(ix, ch)[0],
          lambda ix, ch=ch: val(invert(ix, ch)[1]))


def last_position(I, idx, n):
  """b -> the last q < n with idx(q) == b, or -1."""
  ctx = I.ctx
  W = z3.Function(ctx.fresh_name('last'), IS, IS)
  seen = []

  def at(b):
    b = Z(b)
    w = W(b)
    if w.sexpr() not in ctx.uf_seen:
      ctx.uf_seen.add(w.sexpr())
      ctx.axiom(And(w >= -1, w < Z(n)))
    return w

  def one(q):
    return Z(ctx.merged(lambda: idx(q)))

  def facts(t, gen):
    out = []
    w = at(t)
    if gen < 2:
      out.append(Implies(w >= 0, one(w) == t))
      ctx.later.append((w, gen + 1))

    def pair(b, q):
      out.append(Implies(And(q >= 0, q < Z(n), one(q) == b), at(b) >= q))
    for u, gu in seen:
      if gen + gu <= 1:
        pair(t, u)
        pair(u, t)
    seen.append((t, gen))
    if gen < 1:
      pair(t, t)
    return out
  ctx.add_quant(facts)
  return at


def product_positions(I, p, adv):
  c = adv[0][1]
  shp = p.shape[c[2]:c[2] + c[3]]
  if any(is_sym(d) for d in shp):
    raise Unsupported('store at symbolic number of fancy indices')
  return list(V.indices(shp))


# ---------------------------------------------------------------------------
# reductions


def norm_axes(I, a, axis):
  if axis is None:
    return list(range(a.ndim))
  if isinstance(axis, (tuple, PList)):
    xs = list(axis) if isinstance(axis, tuple) else axis.items
  else:
    xs = [axis]
  out = []
  for x in xs:
    if not -a.ndim <= x < a.ndim:
      raise I.exc('ValueError')
    out.append(x % a.ndim)
  return out


def reduce(I, a, axis, keepdims, fold, symfold, dtype):
  """fold(list of values) for concrete extents; symfold(n, fn) otherwise."""
  a = toarr(I, a) if not isinstance(a, NDArr) else a
  if not isinstance(a, NDArr):
    if isinstance(a, OpaqueVal):
      raise Unsupported('reduction of an opaque array')
    return fold([a])
  axes = sorted(norm_axes(I, a, axis))
  g = a.snapshot()
  rest = [d for j, d in enumerate(a.shape) if j not in axes]
  oshape = tuple(1 if j in axes else d for j, d in enumerate(a.shape)) if keepdims \
      else tuple(rest)

  def cell(*ix):
    full_ = [None] * a.ndim
    q = 0
    for j in range(a.ndim):
      if j in axes:
        if keepdims:
          q += 1
        continue
      full_[j] = ix[q]
      q += 1

    def rec(k, cur):
      if k == len(axes):
        return g(*cur)
      j = axes[k]
      n = a.shape[j]

      def at(i):
        c = list(cur)
        c[j] = i
        return rec(k + 1, c)
      if is_sym(n):
        return symfold(n, at)
      return fold([at(i) for i in range(n)])
    return rec(0, full_)
  r = new(I, oshape, cell, dtype)
  if r.ndim == 0:
    return r.get()
  return r


def sum_(I, a, axis=None, dtype=None, keepdims=False, **kw):
  from pyvc import lib
  a = toarr(I, a)
  d = a.dtype if isinstance(a, NDArr) else scalar_dtype(a)
  rd = 'i8' if d in ('b', 'i4', 'i8') else d
  zero = 0 if rd == 'i8' else Fraction(0)

  def fold(vs):
    r = zero
    for v in vs:
      r = lib.scalar_binop(I, 'Add', r, num(v))
    return r
  return reduce(I, a, axis, keepdims, fold, lambda n, f: sym_sum(I, n, f), rd)


def sym_sum(I, n, f):
  ctx = I.ctx
  k = ctx.int('smk')
  inr = z3.And(k >= 0, k < Z(n))
  e = ctx.merged(lambda: num(f(k)))
  for (n2, f2, F) in ctx.sums:
    if not same_dim(I, n, n2):
      continue
    e2 = ctx.merged(lambda: num(f2(k)))
    if ctx.prove(Implies(inr, Z(e) == Z(e2))):
      return F(Z(n))
  name = ctx.fresh_name('Sum')
  srt = IS if (not is_sym(e) and isinstance(e, int)) or (is_sym(e) and z3.is_int(e)) else RS
  F = z3.Function(name, IS, srt)
  ctx.add(F(z3.IntVal(0)) == 0)
  ctx.sums.append((n, f, F))

  def facts(t, gen):
    v = ctx.merged(lambda: num(f(t)))
    return [Implies(And(t >= 0, t < Z(n)), F(t + 1) == F(t) + Z(v))]
  ctx.add_quant(facts)
  # sign of a sum of non-negative terms
  if ctx.prove(Implies(inr, Z(e) >= 0)):
    ctx.add(F(Z(n)) >= 0)
  # constant summand
  if srt == RS or srt == IS:
    if not is_sym(e) or k.sexpr() not in e.sexpr():
      if ctx.prove(Z(n) >= 0):
        ctx.add(F(Z(n)) == Z(e) * Z(n))
  return F(Z(n))


def sym_all(I, n, f):
  """Bool term equivalent to: forall 0<=i<n. f(i)."""
  ctx = I.ctx
  b = ctx.bool('all')
  w = ctx.int('allw')

  def facts(t, gen):
    v = ctx.merged(lambda: f(t))
    return [Implies(And(b, t >= 0, t < Z(n)), v)]
  ctx.add_quant(facts)
  ctx.register_index(w)
  vw = ctx.merged(lambda: f(w))
  ctx.add(Or(b, And(w >= 0, w < Z(n), Not(vw))))
  return b


def all_(I, a, axis=None, keepdims=False, **kw):
  from pyvc import lib
  return reduce(I, a, axis, keepdims, lambda vs: And(*[lib.truth(I, v) for v in vs]),
                lambda n, f: sym_all(I, n, lambda i: lib.truth(I, f(i))), 'b')


def any_(I, a, axis=None, keepdims=False, **kw):
  from pyvc import lib
  return reduce(I, a, axis, keepdims, lambda vs: Or(*[lib.truth(I, v) for v in vs]),
                lambda n, f: Not(sym_all(I, n, lambda i: Not(lib.truth(I, f(i))))), 'b')


def mean_(I, a, axis=None, keepdims=False, **kw):
  a = toarr(I, a)
  s = sum_(I, a, axis, keepdims=keepdims)
  n = 1
  for j in norm_axes(I, a, axis):
    n = n * a.shape[j]
  if not is_sym(n):
    if n == 0:
      raise Unsupported('mean of empty array')
    return binop(I, 'Div', s, n) if isinstance(s, NDArr) else _div(I, s, n)
  if not I.ctx.prove(n > 0):
    I.ctx.div0_guard(n)
  return binop(I, 'Div', s, n) if isinstance(s, NDArr) else _div(I, s, n)


def _div(I, a, b):
  from pyvc import lib
  return lib.scalar_binop(I, 'Div', a, b, np_mode=True)


def copy_of(I, a):
  g = a.snapshot()
  return new(I, a.shape, lambda *ix: g(*ix), a.dtype)


def argextreme(I, n, f, which):
  """Index of the first extreme element."""
  ctx = I.ctx
  if not is_sym(n):
    if n == 0:
      raise I.exc('ValueError')
    best = 0
    for i in range(1, n):
      a, b = Z(num(f(i))), Z(num(f(best)))
      if ctx.branch(simp(a < b if which == 'min' else a > b)):
        best = i
    return best
  if not ctx.branch(Z(n) > 0):
    raise I.exc('ValueError')
  k = ctx.int('amk')
  inr = z3.And(k >= 0, k < Z(n))
  e = ctx.merged(lambda: num(f(k)))
  for (w2, n2, f2, a2) in ctx.argmins:
    if w2 != which or not same_dim(I, n, n2):
      continue
    e2 = ctx.merged(lambda: num(f2(k)))
    if ctx.prove(Implies(inr, Z(e) == Z(e2))):
      return a2
  a = ctx.int('arg' + which)
  ctx.add(z3.And(a >= 0, a < Z(n)))
  ctx.argmins.append((which, n, f, a))
  va = Z(ctx.merged(lambda: num(f(a))))

  def facts(t, gen):
    v = Z(ctx.merged(lambda: num(f(t))))
    le = va <= v if which == 'min' else va >= v
    lt = va < v if which == 'min' else va > v
    return [Implies(And(t >= 0, t < Z(n)), And(le, Implies(t < a, lt)))]
  ctx.add_quant(facts)
  ctx.register_index(a)
  ctx.register_index(z3.IntVal(0))
  return a


def row_extremes(I, a, which, axis):
  """Index of the first extreme element of every row, and its value (None if not applicable)."""
  if axis is None or a.ndim != 2:
    return None
  axis = norm_axes(I, a, axis)
  if len(axis) != 1:
    return None
  axis = list(axis)[0]
  n, rows = a.shape[axis], a.shape[1 - axis]
  if not is_sym(n) or not is_sym(rows):
    return None
  ctx = I.ctx
  g = a.snapshot()

  def val(i, k):
    return ctx.merged(lambda: num(g(k, i) if axis == 0 else g(i, k)))
  key = (which, str(n), str(rows), Z(val(z3.Int('row!'), z3.Int('col!'))).sexpr())
  if key in ctx.rows:
    return ctx.rows[key]
  if not ctx.branch(Z(n) > 0):
    raise I.exc('ValueError')
  name = ctx.fresh_name('row' + which)
  A = z3.Function(name, IS, IS)
  seen = []

  def at(i):
    # (Outside of the rows A is any index.)
    i = Z(i)
    if A(i).sexpr() not in ctx.uf_seen:
      ctx.uf_seen.add(A(i).sexpr())
      ctx.axiom(And(A(i) >= 0, A(i) < Z(n)))
    return A(i)

  def facts(t, gen):
    at(t)
    out = []

    def pair(i, k):
      b, v = Z(val(i, A(i))), Z(val(i, k))
      le = b <= v if which == 'min' else b >= v
      lt = b < v if which == 'min' else b > v
      out.append(Implies(And(i >= 0, i < Z(rows), k >= 0, k < Z(n)),
                         And(le, Implies(k < A(i), lt))))
    for u, gu in seen:
      if gen + gu <= 1:
        pair(t, u)
        pair(u, t)
    seen.append((t, gen))
    if gen < 1:
      pair(t, t)
      ctx.later.append((A(t), gen + 1))
    return out
  ctx.rows[key] = (new(I, (rows,), at, 'i8'),
                   new(I, (rows,), lambda i: val(i, at(i)), a.dtype))
  ctx.add_quant(facts)
  ctx.register_index(z3.IntVal(0))
  return ctx.rows[key]


def argmin(I, a, which, axis=None):
  a = asarray(I, a)
  r = row_extremes(I, a, which, axis)
  if r is not None:
    return copy_of(I, r[0])
  if axis is None:
    if a.ndim != 1:
      if a.ndim == 0:
        return 0
      a = reshape(I, a, (-1,))
    g = a.snapshot()
    return argextreme(I, a.shape[0], lambda i: g(i), which)
  return reduce(I, a, axis, False,
                lambda vs: argextreme(I, len(vs), lambda i: vs[i], which),
                lambda n, f: argextreme(I, n, f, which), 'i8')


def minmax(I, a, which, axis=None, keepdims=False, initial=None):
  def fold(vs):
    if not vs:
      raise I.exc('ValueError')
    r = num(vs[0])
    for v in vs[1:]:
      v = num(v)
      c = simp(Z(v) < Z(r) if which == 'min' else Z(v) > Z(r))
      r = simp(Ite(c, v, r))
    return r
  d = a.dtype if isinstance(a, NDArr) else 'f8'
  if isinstance(a, NDArr) and not keepdims:
    r = row_extremes(I, a, which, axis)
    if r is not None:
      return copy_of(I, r[1])
  return reduce(I, a, axis, keepdims, fold,
                lambda n, f: num(f(argextreme(I, n, f, which))), d)


def norm(I, a, ord=None, axis=None, keepdims=False):
  from pyvc import lib
  if ord not in (None, 2):
    raise Unsupported('norm ord')
  a = asarray(I, a)
  sq = ew(I, lambda x: lib.scalar_binop(I, 'Mult', R(x), R(x)), (a,), 'f8')
  def root(x):
    if is_sym(x):
      I.ctx.axiom(R(x) >= 0)  # A sum of squares.
    return uf(I, 'sqrt', x)
  if is_num(sq):
    return root(sq)
  s = sum_(I, sq, axis, keepdims=keepdims)
  return ew(I, root, (s,), 'f8')


def abs_(I, x):
  if isinstance(x, Host) and not isinstance(x, NDArr) and hasattr(x, 'abs_'):
    return x.abs_(I)
  def f(v):
    v = num(v)
    if not is_sym(v):
      return abs(v)
    return simp(z3.If(v >= 0, v, -v))
  if isinstance(x, NDArr):
    return ew(I, f, (x,), x.dtype)
  if not is_num(x):
    raise Unsupported('abs')
  return f(x)


def round_(I, x, nd=None):
  x = num(x)
  s = 10 ** (nd or 0)
  if not is_sym(x):
    r = round(Fraction(x) * s)
    return Fraction(r, s) if nd is not None else r
  if z3.is_int(x) and not nd:
    return x
  y = R(x) * s
  fl = z3.ToInt(y)
  d = y - z3.ToReal(fl)
  half = z3.RealVal(Fraction(1, 2))
  r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
  if nd is None:
    return simp(r)
  return simp(z3.ToReal(r) / s)


def minimum(I, a, b):
  f = lambda x, y: simp(Ite(simp(Z(num(x)) <= Z(num(y))), num(x), num(y)))
  return ew(I, f, (a, b), arith_dtype('Add', (toarr(I, a), toarr(I, b))))


def maximum(I, a, b):
  f = lambda x, y: simp(Ite(simp(Z(num(x)) >= Z(num(y))), num(x), num(y)))
  return ew(I, f, (a, b), arith_dtype('Add', (toarr(I, a), toarr(I, b))))


def clip(I, a, lo, hi):
  if lo is not None:
    a = maximum(I, a, lo)
  if hi is not None:
    a = minimum(I, a, hi)
  if isinstance(a, (PList, tuple)):
    a = asarray(I, a)
  return a


def matmul(I, a, b):
  from pyvc import lib
  a, b = asarray(I, a), asarray(I, b)
  ka = a.shape[-1]
  kb = b.shape[0] if b.ndim == 1 else b.shape[-2]
  if not same_dim(I, ka, kb):
    raise I.exc('ValueError')
  k = ka if not is_sym(ka) else kb
  if a.ndim > 2 or b.ndim > 2 or a.ndim == 0 or b.ndim == 0:
    raise Unsupported('matmul rank')
  if is_sym(k):
    raise Unsupported('matmul over a symbolic dimension')
  ga, gb = a.snapshot(), b.snapshot()
  d = V.result_dtype(a.dtype, b.dtype)

  def dot(ra, rb):
    r = Fraction(0) if d in ('f8', 'f4') else 0
    for q in range(k):
      r = lib.scalar_binop(I, 'Add', r, lib.scalar_binop(I, 'Mult', num(ra(q)), num(rb(q))))
    return r
  if a.ndim == 1 and b.ndim == 1:
    return dot(lambda q: ga(q), lambda q: gb(q))
  if a.ndim == 1:
    return new(I, (b.shape[1],), lambda j: dot(lambda q: ga(q), lambda q: gb(q, j)), d)
  if b.ndim == 1:
    return new(I, (a.shape[0],), lambda i: dot(lambda q: ga(i, q), lambda q: gb(q)), d)
  return new(I, (a.shape[0], b.shape[1]),
             lambda i, j: dot(lambda q: ga(i, q), lambda q: gb(q, j)), d)


# ---------------------------------------------------------------------------
# shape manipulation


def reshape(I, a, shape):
  if isinstance(shape, (PList,)):
    shape = tuple(shape.items)
  if not isinstance(shape, tuple):
    shape = (shape,)
  shape = tuple(simp(num(item(I, d))) for d in shape)
  size = a.size()
  neg = [q for q, d in enumerate(shape) if not is_sym(d) and d == -1]
  known = 1
  for q, d in enumerate(shape):
    if q not in neg:
      known = simp(Z(known) * Z(d)) if is_sym(known) or is_sym(d) else known * d
  if neg:
    if len(neg) > 1:
      raise I.exc('ValueError')
    if not is_sym(size) and not is_sym(known):
      if known == 0 or size % known:
        raise I.exc('ValueError')
      v = size // known
    else:
      v = sym_div(I, a.shape, known, size)
    shape = tuple(I.ctx.pin(v) if q in neg else d for q, d in enumerate(shape))
  else:
    if not is_sym(size) and not is_sym(known):
      if size != known:
        raise I.exc('ValueError')
    elif not I.ctx.branch(Z(size) == Z(known)):
      raise I.exc('ValueError')
  if not shape:
    return new(I, (), lambda: a.get(*([0] * a.ndim)), a.dtype)
  mp = reshape_map(I, a.shape, shape)
  inv = reshape_map(I, shape, a.shape)
  return NDArr.view(a, shape, lambda *ix: mp(ix), lambda bix: (True, inv(bix)))


def sym_div(I, ashape, known, size):
  """size // known, exact."""
  if not is_sym(known):
    # divide out concrete factors
    conc = 1
    syms = []
    for d in ashape:
      if is_sym(d):
        syms.append(d)
      else:
        conc *= d
    if conc % known == 0:
      r = conc // known
      v = z3.IntVal(r)
      for s in syms:
        v = v * s
      return simp(v)
    q = simp(Z(size) / known)
    if not I.ctx.branch(Z(size) == Z(q) * known):
      raise I.exc('ValueError')
    return q
  for j, d in enumerate(ashape):
    if is_sym(d) and d.eq(known):
      r = 1
      for q, e in enumerate(ashape):
        if q != j:
          r = simp(Z(r) * Z(e))
      return r
  raise Unsupported('reshape of symbolic sizes')


def reshape_map(I, src, dst):
  """Index map dst index -> src index for row-major reshape."""
  # strip matching leading/trailing dims to stay linear where possible.
  def strip(s):
    return [(q, d) for q, d in enumerate(s) if is_sym(d) or d != 1]
  s2, d2 = strip(src), strip(dst)
  if len(s2) == len(d2) and all(same_dim(I, x[1], y[1]) for x, y in zip(s2, d2)):
    def mp(ix):
      out = [0] * len(src)
      for (sq, _), (dq, _) in zip(s2, d2):
        out[sq] = ix[dq]
      return tuple(out)
    return mp

  def flat(ix, shape):
    f = 0
    for i, d in zip(ix, shape):
      f = simp(Z(f) * Z(d) + Z(i)) if is_sym(f) or is_sym(d) or is_sym(i) else f * d + i
    return f

  def unflat(f, shape):
    out = []
    for d in reversed(shape[1:]):
      if is_sym(f) or is_sym(d):
        if is_sym(d):
          raise Unsupported('non-linear reshape index')
        out.append(simp(Z(f) % d))
        f = simp(Z(f) / d)
      else:
        out.append(f % d if d else 0)
        f = f // d if d else 0
    out.append(f)
    return tuple(reversed(out))
  if not src:
    return lambda ix: ()
  return lambda ix: unflat(flat(ix, dst), src)


def transpose(I, a, axes=None):
  n = a.ndim
  axes = list(axes) if axes is not None else list(range(n))[::-1]
  axes = [x % n for x in axes]
  shape = tuple(a.shape[x] for x in axes)

  def mp(*ix):
    out = [0] * n
    for q, x in enumerate(axes):
      out[x] = ix[q]
    return tuple(out)
  return NDArr.view(a, shape, mp, lambda bix: (True, tuple(bix[x] for x in axes)))


def stack(I, arrs, axis=0, dtype=None):
  arrs = [asarray(I, a) for a in arrs]
  if not arrs:
    raise I.exc('ValueError')
  s0 = arrs[0].shape
  for a in arrs[1:]:
    if len(a.shape) != len(s0):
      raise I.exc('ValueError')
    for x, y in zip(a.shape, s0):
      if not same_dim(I, x, y):
        if is_sym(x) or is_sym(y):
          if I.ctx.branch(Z(x) == Z(y)):
            continue
        raise I.exc('ValueError')
  d = dtype or V.result_dtype(*[a.dtype for a in arrs])
  ax = axis % (len(s0) + 1)
  gs = [a.snapshot() for a in arrs]
  shape = s0[:ax] + (len(arrs),) + s0[ax:]

  def get(*ix):
    q = ix[ax]
    r = ix[:ax] + ix[ax + 1:]
    if not is_sym(q):
      return cast(I, gs[q](*r), d)
    out = cast(I, gs[-1](*r), d)
    for j in range(len(gs) - 2, -1, -1):
      out = Ite(q == j, cast(I, gs[j](*r), d), out)
    return out
  return new(I, shape, get, d)


def concatenate(I, arrs, axis=0):
  from pyvc import lib
  if isinstance(arrs, PList) and not arrs.concrete:
    raise Unsupported('concatenate symbolic list')
  arrs = [asarray(I, a) for a in lib.iterate(I, arrs)]
  if not arrs:
    raise I.exc('ValueError')
  if axis is None:
    arrs = [reshape(I, a, (-1,)) for a in arrs]
    axis = 0
  n = arrs[0].ndim
  if n == 0 or any(a.ndim != n for a in arrs):
    raise I.exc('ValueError')
  ax = axis % n
  for a in arrs[1:]:
    for q in range(n):
      if q != ax and not same_dim(I, a.shape[q], arrs[0].shape[q]):
        if is_sym(a.shape[q]) or is_sym(arrs[0].shape[q]):
          if I.ctx.branch(Z(a.shape[q]) == Z(arrs[0].shape[q])):
            continue
        raise I.exc('ValueError')
  d = V.result_dtype(*[a.dtype for a in arrs])
  gs = [a.snapshot() for a in arrs]
  offs = [0]
  for a in arrs:
    t = offs[-1]
    s = a.shape[ax]
    offs.append(simp(Z(t) + Z(s)) if is_sym(t) or is_sym(s) else t + s)
  shape = arrs[0].shape[:ax] + (offs[-1],) + arrs[0].shape[ax + 1:]

  def get(*ix):
    i = ix[ax]

    def at(j):
      o = offs[j]
      li = simp(Z(i) - Z(o)) if is_sym(i) or is_sym(o) else i - o
      return cast(I, gs[j](*(ix[:ax] + (li,) + ix[ax + 1:])), d)
    live = [j for j in range(len(gs))
            if is_sym(arrs[j].shape[ax]) or arrs[j].shape[ax] > 0]
    if not live:
      raise Unsupported('index into empty concatenation')
    if not is_sym(i) and all(not is_sym(o) for o in offs):
      for j in live:
        if offs[j] <= i < offs[j + 1]:
          return at(j)
    out = None
    for j in reversed(live):
      if out is None:
        out = at(j)
        continue
      c = simp(Z(i) < Z(offs[j + 1]))
      if c is True:
        out = at(j)
      elif c is False:
        pass
      else:
        out = Ite(c, at(j), out)
    return out
  return new(I, shape, get, d)


def where(I, c, *xy):
  if not xy:
    c = asarray(I, c)
    if c.ndim != 1:
      raise Unsupported('np.where on rank %d' % c.ndim)
    from pyvc import lib
    g = c.snapshot()
    sel = select(I, c.shape[0], lambda i: lib.truth(I, g(i)))
    return (new(I, (sel.m,), lambda j: sel.S(j), 'i8'),)
  x, y = xy
  x, y = toarr(I, x), toarr(I, y)
  d = arith_dtype('Add', (x, y)) if isinstance(x, NDArr) or isinstance(y, NDArr) else 'f8'
  from pyvc import lib
  def f(k, p, q):
    k = lib.truth(I, k)
    return simp(Ite(k, p, q)) if is_sym(k) else (p if k else q)
  return ew(I, f, (c, x, y), d)


def argsort(I, a, axis=-1, **kw):
  from pyvc import lib
  a = asarray(I, a)
  if a.ndim != 1:
    raise Unsupported('argsort rank')
  n = a.shape[0]
  if not is_sym(n):
    vals = [a.get(i) for i in range(n)]
    order = []
    for i in range(n):
      p = len(order)
      while p > 0 and I.ctx.branch(simp(Z(num(vals[i])) < Z(num(vals[order[p - 1]])))):
        p -= 1
      order.insert(p, i)
    return asarray(I, I.new_list(order)) if order else new(I, (0,), lambda i: 0, 'i8')
  raise Unsupported('argsort of symbolic length')


def attr(I, a, name):
  from pyvc import lib
  L = lambda f: LibFn('ndarray.' + name, f)
  if name == 'shape':
    return a.shape
  if name == 'ndim':
    return a.ndim
  if name == 'size':
    return a.size()
  if name == 'dtype':
    return DTypeCls(a.dtype)
  if name == 'T':
    return transpose(I, a)
  if name == 'reshape':
    return L(lambda *s, **k: reshape(I, a, s[0] if len(s) == 1 else tuple(s)))
  if name == 'flatten':
    return L(lambda: asarray(I, reshape(I, a, (-1,)), copy=True))
  if name == 'ravel':
    return L(lambda: reshape(I, a, (-1,)))
  if name == 'astype':
    return L(lambda d, **k: astype(I, a, d))
  if name == 'copy':
    return L(lambda: asarray(I, a, copy=True))
  if name == 'all':
    return L(lambda axis=None, keepdims=False: all_(I, a, axis, keepdims))
  if name == 'any':
    return L(lambda axis=None, keepdims=False: any_(I, a, axis, keepdims))
  if name == 'sum':
    return L(lambda axis=None, keepdims=False: sum_(I, a, axis, keepdims=keepdims))
  if name == 'mean':
    return L(lambda axis=None, keepdims=False: mean_(I, a, axis, keepdims))
  if name in ('min', 'max'):
    return L(lambda axis=None, keepdims=False: minmax(I, a, name, axis, keepdims))
  if name in ('argmin', 'argmax'):
    return L(lambda axis=None: argmin(I, a, name[3:], axis))
  if name == 'argsort':
    return L(lambda axis=-1, **k: argsort(I, a, axis))
  if name == 'item':
    return L(lambda: item(I, a))
  if name == 'tolist':
    def tolist():
      if a.ndim == 1:
        return I.new_list([a.get(i) for i in range(a.shape[0])])
      return I.new_list([lib.value_attr(I, getitem(I, a, i), 'tolist').fn()
                         for i in range(a.shape[0])])
    return L(tolist)
  if name == 'transpose':
    return L(lambda *ax: transpose(I, a, ax[0] if len(ax) == 1 and isinstance(
        ax[0], tuple) else (ax or None)))
  if name == 'fill':
    def fill(v):
      write(I, a, lambda ix: True, lambda ix: cast(I, v, a.dtype))
    return L(fill)
  if name == 'clip':
    return L(lambda lo=None, hi=None: clip(I, a, lo, hi))
  if name == 'dot':
    return L(lambda b: matmul(I, a, b))
  if name == 'round':
    return L(lambda decimals=0: ew(I, lambda x: round_(I, x, decimals), (a,), a.dtype))
  if name == 'squeeze':
    return L(lambda axis=None: squeeze(I, a, axis))
  if name in ('tobytes', 'numpy', 'setflags', 'view'):
    raise Unsupported('ndarray.%s' % name)
  raise I.exc('AttributeError', name)


def squeeze(I, a, axis=None):
  if axis is None:
    if not a.concrete:
      raise Unsupported('squeeze of symbolic shape')
    shape = tuple(d for d in a.shape if d != 1)
  else:
    ax = axis % a.ndim
    shape = a.shape[:ax] + a.shape[ax + 1:]
  return reshape(I, a, shape)


def scalar_attr(I, o, name):
  L = lambda f: LibFn('scalar.' + name, f)
  if name == 'item':
    return L(lambda: o)
  if name == 'astype':
    return L(lambda d: cast(I, o, dtype_key(I, d, 'f8')))
  if name == 'shape':
    return ()
  if name == 'ndim':
    return 0
  if name == 'size':
    return 1
  if name == 'reshape':
    return L(lambda *s: reshape(I, asarray(I, o), s[0] if len(s) == 1 else tuple(s)))
  if name in ('any', 'all'):
    from pyvc import lib
    return L(lambda *a, **k: lib.truth(I, o))
  if name in ('sum', 'mean', 'min', 'max'):
    return L(lambda *a, **k: o)
  if name == 'is_integer':
    return L(lambda: True if isinstance(o, int) else simp(z3.IsInt(R(o))))
  if name == 'dtype':
    return DTypeCls(scalar_dtype(o))
  if name == 'squeeze':
    return L(lambda *a: o)
  raise I.exc('AttributeError', name)


def sym_all_nd(I, shape, g):
  """The truth of g at every index (one symbolic dimension at most)."""
  symd = [i for i, d in enumerate(shape) if is_sym(d)]
  if not symd:
    return And(*[I.truth(g(*ix)) for ix in V.indices(shape)])
  if len(symd) > 1:
    p = symd[0]
    rest = tuple(d for i, d in enumerate(shape) if i != p)
    return sym_all(I, shape[p], lambda t: sym_all_nd(
        I, rest, lambda *q: g(*(q[:p] + (t,) + q[p:]))))
  p = symd[0]
  rest = [d for i, d in enumerate(shape) if i != p]

  def row(t):
    return And(*[I.truth(g(*(ix[:p] + (t,) + ix[p:]))) for ix in V.indices(rest)])
  return sym_all(I, shape[p], row)
