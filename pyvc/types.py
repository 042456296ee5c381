"""Descriptors of contract inputs, shared by the verifier and the runner.

Each descriptor knows how to draw a JSON datum (rand), and how to build the
native value from a datum (build); symtypes.py gives the symbolic value.
"""


def _num(x):
  if x is None:
    return None
  return x if isinstance(x, int) else float(x)


class Ty:
  pass


class Real(Ty):
  """A real number; lo/hi are inclusive unless strict."""

  def __init__(self, lo=None, hi=None, strict=False):
    self.lo, self.hi, self.strict = lo, hi, strict

  def rand(self, r, d):
    lo, hi = _num(self.lo), _num(self.hi)
    if lo is None and hi is None:
      lo, hi = -8.0, 8.0
    elif lo is None:
      lo = hi - 8.0
    elif hi is None:
      hi = lo + 8.0
    # Coincidences: sometimes a number that occurs elsewhere in the same input.
    pool = d.setdefault('#numbers', [])
    if pool and r.random() < 0.08:
      v = r.choice(pool)
      if lo < v < hi:
        return v
    v = self.draw(r, lo, hi)
    pool.append(v)
    return v

  def draw(self, r, lo, hi):
    k = r.random()
    if k < 0.1 and not self.strict:
      return float(lo)
    if k < 0.2 and not self.strict:
      return float(hi)
    if k < 0.45:
      v = lo + (hi - lo) * r.randint(1, 15) / 16.0
      return float(v)
    v = r.uniform(lo, hi)
    if self.strict and (v <= lo or v >= hi):
      v = (lo + hi) / 2
    return float(v)

  def fit(self, v):
    v = float(v)
    lo, hi = _num(self.lo), _num(self.hi)
    if lo is not None and v < lo:
      v = float(lo)
    if hi is not None and v > hi:
      v = float(hi)
    return v

  def build(self, j, env):
    return float(j)


class Int(Ty):

  def __init__(self, lo=None, hi=None):
    self.lo, self.hi = lo, hi

  def rand(self, r, d):
    lo = self.lo if self.lo is not None else (
        -4 if self.hi is None else self.hi - 6)
    hi = self.hi if self.hi is not None else lo + 8
    return r.randint(int(lo), int(hi))

  def build(self, j, env):
    return int(j)


class Bool(Ty):

  def rand(self, r, d):
    return r.random() < 0.5

  def build(self, j, env):
    return bool(j)


class OneOf(Ty):
  """One of a fixed set of constants."""

  def __init__(self, *vals):
    self.vals = list(vals)

  def rand(self, r, d):
    return r.randrange(len(self.vals))

  def build(self, j, env):
    v = self.vals[j]
    return float(v) if type(v).__name__ == 'Fraction' else v


class Opt(Ty):

  def __init__(self, t):
    self.t = t

  def rand(self, r, d):
    if r.random() < 0.3:
      return None
    return [self.t.rand(r, d)]

  def build(self, j, env):
    return None if j is None else self.t.build(j[0], env)


class Tup(Ty):

  def __init__(self, *ts):
    self.ts = list(ts)

  def rand(self, r, d):
    return [t.rand(r, d) for t in self.ts]

  def build(self, j, env):
    return tuple(t.build(x, env) for t, x in zip(self.ts, j))


def dim_name(n):
  """'n', 'n>=2', 'n<=5' or an int."""
  if isinstance(n, int):
    return None, n, n
  lo, hi = 0, None
  for op in ('>=', '<='):
    if op in n:
      n, k = n.split(op)
      if op == '>=':
        lo = int(k)
      else:
        hi = int(k)
  return n.strip(), lo, hi


def rand_dim(n, r, d):
  name, lo, hi = dim_name(n)
  if name is None:
    return lo
  if name not in d:
    top = hi if hi is not None else lo + 6
    d[name] = r.choice([lo] + [r.randint(lo, top) for _ in range(5)])
  if d[name] < lo:
    d[name] = lo
  return d[name]


class SeqOf(Ty):

  def __init__(self, t, n='n', kind='list'):
    self.t, self.n, self.kind = t, n, kind

  def rand(self, r, d):
    return [self.t.rand(r, d) for _ in range(rand_dim(self.n, r, d))]

  def build(self, j, env):
    xs = [self.t.build(x, env) for x in j]
    return tuple(xs) if self.kind == 'tuple' else xs


class Arr(Ty):
  """A numpy array; dims are ints or named lengths; element constraints."""

  def __init__(self, shape, lo=None, hi=None, dtype='float64', among=None, strict=False):
    if not isinstance(shape, (tuple, list)):
      shape = (shape,)
    self.shape = tuple(shape)
    self.lo, self.hi, self.dtype, self.strict = lo, hi, dtype, strict
    self.among = None if among is None else list(among)

  def elem(self):
    if self.dtype == 'bool':
      return Bool()
    if self.dtype.startswith('int'):
      return Int(self.lo, self.hi)
    return Real(self.lo, self.hi, self.strict)

  def rand(self, r, d):
    dims = [rand_dim(n, r, d) for n in self.shape]
    e = self.elem()

    def rec(k):
      if k == len(dims):
        if self.among is not None:
          return _num(r.choice(self.among))
        return e.rand(r, d)
      return [rec(k + 1) for _ in range(dims[k])]
    data = rec(0)
    return {'shape': dims, 'data': data}

  def build(self, j, env):
    import numpy as np
    return np.asarray(j['data'], dtype=self.dtype).reshape(j['shape'])


class Img(Ty):
  """An image or tensor whose content is opaque to the verifier."""

  def __init__(self, shape=(4, 4, 1), dtype='float32'):
    self.shape, self.dtype = tuple(shape), dtype

  def rand(self, r, d):
    return r.randint(0, 10**6)

  def build(self, j, env):
    import numpy as np
    g = np.random.default_rng(int(j))
    if self.dtype == 'uint8':
      return g.integers(0, 255, self.shape).astype('uint8')
    return g.normal(size=self.shape).astype(self.dtype)


class Rng(Ty):
  """A random generator; every draw is arbitrary within its support."""

  def rand(self, r, d):
    return {'seed': r.randint(0, 10**6)}

  def build(self, j, env):
    return env.make_rng(j)


class Const(Ty):

  def __init__(self, v):
    self.v = v

  def rand(self, r, d):
    return 0

  def build(self, j, env):
    return self.v


class Build(Ty):
  """fn(*values): an object built by a constructor of the contract."""

  def __init__(self, fn, *ts):
    self.fn, self.ts = fn, list(ts)

  def rand(self, r, d):
    return [t.rand(r, d) for t in self.ts]

  def build(self, j, env):
    return self.fn(*[t.build(x, env) for t, x in zip(self.ts, j)])


ALL = dict(Real=Real, Int=Int, Bool=Bool, OneOf=OneOf, Opt=Opt, Tup=Tup, SeqOf=SeqOf,
           Arr=Arr, Img=Img, Rng=Rng, Const=Const, Build=Build)
