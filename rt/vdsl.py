"""The contract language, executed on the real code under CPython."""
import copy
import sys
import os

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from pyvc.types import *  # noqa
from pyvc.types import ALL

import numpy as np

symbolic = False
ENTRIES = []


class Skip(Exception):
  """The input does not satisfy the precondition."""


class State:

  def __init__(self):
    self.failures = []
    self.checks = 0
    self.names = set()
    self.env = None


ST = State()


class Entry:

  def __init__(self, kind, fn, types, target, use, opts):
    self.kind, self.fn, self.types, self.target = kind, fn, types, target
    self.use, self.opts = use, opts
    self.name = fn.__name__
    self.module = fn.__module__


def _register(kind, target, kw):
  use = kw.pop('use', ())
  opts = {k: kw.pop(k) for k in ('samples', 'native_only', 'timeout', 'sizes', 'note', 'bound') if k in kw}

  def deco(fn):
    e = Entry(kind, fn, kw, target, use, opts)
    ENTRIES.append(e)
    fn.entry = e
    return fn
  return deco


def proof(**kw):
  return _register('proof', None, kw)


def bounded(**kw):
  return _register('bounded', None, kw)


def contract(target, **kw):
  return _register('contract', target, kw)


def _true(c):
  if isinstance(c, np.ndarray) or (hasattr(c, 'shape') and hasattr(c, 'dtype')):
    return bool(np.all(np.asarray(c)))
  return bool(c)


def require(cond):
  if not _true(cond):
    raise Skip()


def require_all(n, fn):
  import itertools
  for ix in itertools.product(*[range(int(d)) for d in (n if isinstance(n, tuple) else (n,))]):
    require(fn(*ix))


assume_all = require_all


def check(name, cond):
  ST.checks += 1
  ST.names.add(name)
  if not _true(cond):
    ST.failures.append(name)


def check_all(name, n, fn):
  ST.names.add(name)
  import itertools
  shape = n if isinstance(n, tuple) else (n,)
  for ix in itertools.product(*[range(int(d)) for d in shape]):
    ST.checks += 1
    if not _true(fn(*ix)):
      ST.failures.append('%s [index %s]' % (name, ix))
      return


lemma_all = check_all


def check_same(name, a, b):
  ST.checks += 1
  ST.names.add(name)
  why = differ(a, b)
  if why:
    ST.failures.append('%s: %s' % (name, why))


def differ(a, b, path='', seen=None):
  seen = set() if seen is None else seen
  if a is b or (id(a), id(b)) in seen:
    return ''
  seen.add((id(a), id(b)))
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
      return path + ' kind'
    if a.shape != b.shape:
      return path + ' shape %s %s' % (a.shape, b.shape)
    if a.dtype == object or a.dtype.kind not in 'fiub':
      return ''
    return '' if np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') else path + ' values'
  if isinstance(a, (int, float, np.number, bool, np.bool_)) and isinstance(
      b, (int, float, np.number, bool, np.bool_)):
    return '' if (a == b or (a != a and b != b)) else '%s: %r vs %r' % (path, a, b)
  if isinstance(a, (list, tuple)) or type(a).__name__ == 'deque':
    if len(a) != len(b):
      return path + ' length'
    for k, (x, y) in enumerate(zip(a, b)):
      w = differ(x, y, '%s[%d]' % (path, k), seen)
      if w:
        return w
    return ''
  if isinstance(a, dict):
    if list(a) != list(b):
      return path + ' keys'
    for k in a:
      w = differ(a[k], b[k], '%s[%r]' % (path, k), seen)
      if w:
        return w
    return ''
  if isinstance(a, (str, bytes)) or a is None or b is None:
    return '' if a == b else '%s: %r vs %r' % (path, a, b)
  if type(a) is not type(b):
    return path + ' type'
  if isinstance(a, np.random.Generator) or callable(a) and not hasattr(a, '__dict__'):
    return ''
  if type(a).__module__.startswith('shapely'):
    return '' if a.equals(b) else '%s: %s vs %s' % (path, a, b)
  if hasattr(a, '__dict__') and type(a).__module__.startswith(('putting_dune', 'contracts')):
    import functools
    for k in set(a.__dict__) | set(b.__dict__):
      if isinstance(getattr(type(a), k, None), functools.cached_property):
        continue
      if k not in a.__dict__ or k not in b.__dict__:
        return '%s.%s' % (path, k)
      w = differ(a.__dict__[k], b.__dict__[k], '%s.%s' % (path, k), seen)
      if w:
        return w
    return ''
  if callable(a):
    return ''
  try:
    return '' if a == b else '%s: %r vs %r' % (path, a, b)
  except Exception:  # pylint: disable=broad-except
    return ''


def snapshot(x):
  return copy.deepcopy(x)


def approx(a, b, tol=None):
  """Equality up to rounding: float64 by default."""
  tol = 1e-6 if tol is None else float(tol)
  if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
    if len(a) != len(b):
      return False
    return all(approx(x, y, tol) for x, y in zip(a, b))
  if a is None or b is None:
    return a is b
  if not isinstance(a, (int, float, np.ndarray, np.generic, list, tuple)) and not hasattr(a, '__array__'):
    if isinstance(b, type(a)) and hasattr(a, 'total_seconds'):
      return abs(a.total_seconds() - b.total_seconds()) <= 2e-6 + tol * abs(a.total_seconds())
    return a == b
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype.kind in 'biu' and b.dtype.kind in 'biu':
    return bool(np.array_equal(a, b))
  a, b = a.astype(np.float64), b.astype(np.float64)
  finite = np.isfinite(a) & np.isfinite(b)
  return bool(np.all((finite & (np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))))) |
                     (a == b) | (np.isnan(a) & np.isnan(b))))


def close(a, b, tol=1e-5):
  """Equality up to a relative and absolute error (also for the verifier)."""
  return approx(a, b, tol)


def implies(p, q):
  return (not _true(p)) or _true(q)


def iff(p, q):
  return _true(p) == _true(q)


def all_of(*xs):
  return all(_true(x) for x in xs)


def any_of(*xs):
  return any(_true(x) for x in xs)


def outside(what):
  """The code does something a stand-in of the contract does not speak of."""
  raise Skip(what)


def negate(x):
  return not _true(x)


def ite(c, x, y):
  return x if _true(c) else y


def fresh(t):
  return ST.env.fresh(t)


def raises(exc, fn, *args, **kw):
  try:
    fn(*args, **kw)
  except exc:
    return True
  except Exception:  # pylint: disable=broad-except
    return False
  return False


def index(k):
  return k


def invariant(name, fn):
  pass


def roots(*xs):
  pass


def assumed(target, **kw):
  return _register('assumed', target, kw)


class Call:

  def __init__(self, fn, bound):
    self.fn, self.bound = fn, bound
    self.havocked = []

  def run(self):
    return self.fn(**self.bound)

  def returns(self, t=None, conform=None, pure=False):
    old = {}
    for k, v in self.bound.items():
      if isinstance(v, np.random.Generator):
        continue
      try:
        old[k] = copy.deepcopy(v)
      except Exception:  # pylint: disable=broad-except
        pass
    r = self.run()
    for k in old:
      skip = [f for o, f in self.havocked if o is self.bound[k]]
      if skip and hasattr(self.bound[k], '__dict__'):
        for f, x in self.bound[k].__dict__.items():
          if f not in skip and f in old[k].__dict__:
            check_same('frame: %s.%s unchanged' % (k, f), x, old[k].__dict__[f])
      elif not skip:
        check_same('frame: argument %s unchanged' % k, self.bound[k], old[k])
    return r

  def raises_if(self, cond, exc):
    if not _true(cond):
      return
    try:
      self.run()
    except exc:
      check('%s raises %s' % (getattr(self.fn, '__name__', '?'), exc.__name__), True)
    except Exception as e:  # pylint: disable=broad-except
      check('%s raises %s, not %r' % (getattr(self.fn, '__name__', '?'), exc.__name__, e), False)
    else:
      check('%s raises %s' % (getattr(self.fn, '__name__', '?'), exc.__name__), False)
    raise Done()

  def modifies(self, o, field=None, t=None):
    self.havocked.append((o, field))


class Done(Exception):
  """The contract is settled for this input."""
