"""Run-time values of the symbolic interpreter."""
from fractions import Fraction
import itertools

import z3

from pyvc.core import *  # noqa
from pyvc.core import Unsupported, PyExc, is_sym, Z, num, simp, may_memo

OpaqueSort = z3.DeclareSort('Opaque')


class Host:
  """Base of library-model objects."""
  tname = 'object'

  def getattr_(self, I, name):
    raise Unsupported('%s.%s' % (self.tname, name))

  def setattr_(self, I, name, v):
    raise Unsupported('set %s.%s' % (self.tname, name))


class ClassVal:

  def __init__(self, name, bases=(), attrs=None, module=None, host=None):
    self.name = name
    self.bases = list(bases)
    self.attrs = attrs if attrs is not None else {}
    self.module = module
    self.host = host              # python exception class, for builtins
    self.dc = None                # dataclass info: dict(fields, frozen, eq)
    self.is_enum = any(getattr(b, 'is_enum', False) for b in bases)
    self.mro = self._mro()

  def _mro(self):
    seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassVal)]
    seqs.append([b for b in self.bases if isinstance(b, ClassVal)])
    out = [self]
    while True:
      seqs = [s for s in seqs if s]
      if not seqs:
        return out
      for s in seqs:
        c = s[0]
        if not any(c in t[1:] for t in seqs):
          break
      else:
        raise Unsupported('mro of %s' % self.name)
      out.append(c)
      for s in seqs:
        if s and s[0] is c:
          s.pop(0)

  def lookup(self, name):
    for c in self.mro:
      if name in c.attrs:
        return c.attrs[name], c
    return None, None

  def subclass_of(self, other):
    return other in self.mro

  def __repr__(self):
    return '<class %s>' % self.name


class Obj:

  def __init__(self, cls, oid):
    self.cls = cls
    self.fields = {}
    self.oid = oid

  def __repr__(self):
    return '<%s %s>' % (self.cls.name, self.fields)

  def heap_state(self, field):
    return dict(self.fields) if field == '*' else self.fields.get(field, V_MISSING)

  def heap_restore(self, field, v):
    if field == '*':
      self.fields = dict(v)
    elif v is V_MISSING:
      self.fields.pop(field, None)
    else:
      self.fields[field] = v


V_MISSING = object()


class PDict(dict):
  """A dictionary made by the program."""
  oid = None
  frozen = False


class PSet(set):
  oid = None


class FunctionVal:

  def __init__(self, node, module, frame, qualname, cls=None):
    self.node = node
    self.module = module
    self.frame = frame
    self.qualname = qualname
    self.cls = cls
    self.kind = 'function'
    self.name = getattr(node, 'name', '<lambda>')
    self.defaults = None
    self.is_abstract = False

  def __repr__(self):
    return '<function %s>' % self.qualname


class Wrapped:
  """property / classmethod / staticmethod / cached_property."""

  def __init__(self, kind, fn):
    self.kind = kind
    self.fn = fn
    self.setter = None


class Bound:

  def __init__(self, fn, self_):
    self.fn = fn
    self.self_ = self_


class LibFn:

  def __init__(self, name, fn):
    self.name = name
    self.fn = fn

  def __repr__(self):
    return '<lib %s>' % self.name


class LibModule:

  def __init__(self, name, attrs):
    self.name = name
    self.attrs = attrs


class LibUnknown:

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return '<unmodelled %s>' % self.name


class Partial:

  def __init__(self, fn, args, kwargs):
    self.fn, self.args, self.kwargs = fn, args, kwargs


class Poison:

  def __init__(self, why):
    self.why = why


class SymStr(Host):
  """A string whose text is not modelled."""
  tname = 'str'


class OpaqueVal(Host):
  """An uninterpreted value (an image, a tensor): only equality is known."""
  tname = 'ndarray'

  def __init__(self, term):
    self.term = term


class DType:

  def __init__(self, k):
    self.k = k

  def __repr__(self):
    return 'dtype(%s)' % self.k

  def __eq__(self, o):
    return isinstance(o, DType) and o.k == self.k

  def __hash__(self):
    return hash(self.k)


# ---------------------------------------------------------------------------
# Sequences


class SymSeg:
  """A symbolic-length run of elements: elem(i) for 0 <= i < n."""

  def __init__(self, n, elem):
    self.n = n
    self.elem = elem
    self.memo = {}

  def at(self, i):
    key = i.sexpr() if is_sym(i) else i
    if key in self.memo:
      return self.memo[key]
    v = self.elem(i)
    if may_memo():
      self.memo[key] = v
    return v


class PList:
  """A (mutable) python list or deque; segments concrete or symbolic."""

  def __init__(self, items=(), kind='list', maxlen=None, oid=None):
    self.segs = [list(items)]
    self.kind = kind
    self.maxlen = maxlen
    self.oid = oid

  @staticmethod
  def sym(n, elem, kind='list'):
    p = PList((), kind)
    p.segs = [SymSeg(n, elem)]
    return p

  @property
  def concrete(self):
    return all(isinstance(s, list) for s in self.segs)

  @property
  def items(self):
    out = []
    for s in self.segs:
      if not isinstance(s, list):
        raise Unsupported('symbolic-length sequence used as concrete')
      out.extend(s)
    return out

  def set_items(self, items):
    self.segs = [list(items)]

  def length(self):
    n = 0
    for s in self.segs:
      n = n + (len(s) if isinstance(s, list) else s.n)
    return simp(n) if is_sym(n) else n

  def heap_state(self, field):
    return [list(s) if isinstance(s, list) else s for s in self.segs]

  def heap_restore(self, field, v):
    self.segs = v

  def append(self, v):
    if not self.segs or not isinstance(self.segs[-1], list):
      self.segs.append([])
    self.segs[-1].append(v)

  def copy(self, kind=None):
    p = PList((), kind or self.kind, self.maxlen)
    p.segs = [list(s) if isinstance(s, list) else s for s in self.segs]
    return p


# ---------------------------------------------------------------------------
# Arrays

_F = ('f8', 'f4')


def result_dtype(*ds):
  if 'f8' in ds:
    return 'f8'
  if 'f4' in ds:
    # float32 with 64-bit ints promotes to float64.
    return 'f8' if ('i8' in ds) or ('i4' in ds) else 'f4'
  if 'i8' in ds:
    return 'i8'
  if 'i4' in ds:
    return 'i4'
  if 'u1' in ds:
    return 'u1'
  return 'b' if ds and all(d == 'b' for d in ds) else 'O'


class NDArr:
  """An array cell: symbolic shape, element function, in-place mutable.

  A view reads (and, where the index map is invertible, writes) its base.
  """

  def __init__(self, shape, get, dtype='f8', oid=None):
    self.shape = tuple(shape)
    self._get = get
    self.dtype = dtype
    self.base = None
    self.viewmap = None
    self.oid = oid
    self.memo = {}
    self.immutable = False

  @staticmethod
  def view(base, shape, viewmap, inverse=None):
    """inverse: base index -> (condition, view index), for writes."""
    v = NDArr(shape, None, base.dtype)
    v.base = base
    v.viewmap = viewmap
    v.inverse = inverse
    return v

  def get(self, *idx):
    if self.base is not None:
      return self.base.get(*self.viewmap(*idx))
    key = tuple(i.sexpr() if is_sym(i) else i for i in idx)
    memo = self.memo
    if key in memo:
      return memo[key]
    v = self._get(*idx)
    if may_memo():
      memo[key] = v
    return v

  @property
  def ndim(self):
    return len(self.shape)

  @property
  def concrete(self):
    return all(not is_sym(d) for d in self.shape)

  def size(self):
    n = 1
    for d in self.shape:
      n = n * d
    return simp(n) if is_sym(n) else n

  def set_get(self, get):
    self._get = get
    self.memo = {}

  def heap_state(self, field):
    return self._get, self.memo

  def heap_restore(self, field, v):
    self._get, self.memo = v

  def snapshot(self):
    """A getter of the current contents, unaffected by later writes."""
    if self.base is not None:
      g = self.base.snapshot()
      m = self.viewmap
      return lambda *ix: g(*m(*ix))
    g, memo = self._get, self.memo

    def f(*idx):
      key = tuple(i.sexpr() if is_sym(i) else i for i in idx)
      if key in memo:
        return memo[key]
      v = g(*idx)
      if may_memo():
        memo[key] = v
      return v
    return f


def csize(shape):
  n = 1
  for d in shape:
    n *= d
  return n


def indices(shape):
  return itertools.product(*[range(d) for d in shape])


def table_get(t, shape, ix):
  """Look up a concrete table with possibly symbolic indices."""
  if all(not is_sym(i) for i in ix):
    try:
      return t[tuple(ix)]
    except KeyError:
      raise Unsupported('table index %r out of range %r' % (ix, shape))
  for p, i in enumerate(ix):
    if is_sym(i):
      n = shape[p]
      if n == 0:
        raise Unsupported('index into empty table')
      rest = lambda k: table_get(t, shape, ix[:p] + (k,) + ix[p + 1:])
      r = rest(n - 1)
      for k in range(n - 2, -1, -1):
        r = Ite(i == k, rest(k), r)
      return r


def arr_from_table(shape, t, dtype):
  shape = tuple(shape)
  a = NDArr(shape, lambda *ix: table_get(t, shape, ix), dtype)
  return a


def arr_from_list(vals, dtype='f8'):
  return arr_from_table((len(vals),), {(i,): v for i, v in enumerate(vals)}, dtype)


def materialize(a, limit=256):
  """Evaluate small concrete-shape arrays eagerly."""
  if a.concrete and csize(a.shape) <= limit:
    t = {ix: a.get(*ix) for ix in indices(a.shape)}
    return arr_from_table(a.shape, t, a.dtype)
  return a
