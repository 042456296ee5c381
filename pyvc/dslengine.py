"""The contract language, as seen by the verifier (module vdsl)."""
from fractions import Fraction

import z3

from pyvc.core import *  # noqa
from pyvc.core import (Unsupported, PathEnd, PyExc, is_sym, Z, num, simp, And, Or, Not,
                       Implies, Ite, is_num)
from pyvc.values import *  # noqa
from pyvc import values as V
from pyvc import npmodel as N
from pyvc import types as T
from pyvc import symtypes as S


class Entry:

  def __init__(self, kind, fn, types, target=None, use=(), opts=None):
    self.kind, self.fn, self.types = kind, fn, types
    self.target, self.use, self.opts = target, list(use), opts or {}
    self.name = fn.name


def pyarg(I, v):
  """Descriptor arguments: engine values to plain python."""
  if isinstance(v, PList):
    return [pyarg(I, x) for x in v.items]
  if isinstance(v, tuple):
    return tuple(pyarg(I, x) for x in v)
  return v


def conds(I, c):
  """A condition value -> list of scalar conditions or ('all', shape, fn)."""
  if isinstance(c, NDArr):
    if c.concrete:
      return [I.truth(c.get(*ix)) for ix in V.indices(c.shape)]
    return [('all', c.shape, c.snapshot())]
  return [I.truth(c)]


def scalar_cond(I, c):
  out = True
  for x in conds(I, c):
    if isinstance(x, tuple):
      out = And(out, N.sym_all_nd(I, x[1], x[2]))
    else:
      out = And(out, x)
  return out


def decide(I, name, c):
  """Prove (or, in a used contract, assume) a condition value."""
  ctx = I.ctx
  for x in conds(I, c):
    if isinstance(x, tuple):
      _, shape, g = x
      forall(I, name, shape, g)
    else:
      ctx.oblige(name, x)


def forall(I, name, shape, g):
  ctx = I.ctx
  if any(not is_sym(d) and d == 0 for d in shape):
    return
  if ctx.assume_mode:
    assume_forall(I, shape, g)
    return
  if ctx.pick(['rest', 'probe']) == 'rest':
    return
  ks = []
  for d in shape:
    k = ctx.int('k')
    ks.append(k)
    ctx.add(And(k >= 0, k < Z(d)))
    ctx.register_index(k)
  if ctx._check(timeout=1000) == z3.unsat:
    raise PathEnd()
  v = g(*ks)
  if isinstance(v, NDArr):
    decide(I, name, v)
  else:
    ctx.oblige(name, I.truth(v))
  raise PathEnd()


def assume_forall(I, shape, g):
  ctx = I.ctx
  symd = [i for i, d in enumerate(shape) if is_sym(d)]
  if not symd:
    for ix in V.indices(shape):
      ctx.assume(scalar_cond(I, g(*ix)))
    return

  if len(symd) == 1:
    p = symd[0]
    rest = [d for i, d in enumerate(shape) if i != p]

    def facts(t, gen):
      out = []
      inr = And(t >= 0, t < Z(shape[p]))
      for ix in V.indices(rest):
        full = list(ix)
        full.insert(p, t)

        def body(full=full):
          if not ctx.fork(inr):
            return True
          return scalar_cond(I, g(*full))
        out.append(Z(ctx.merged(body)))
      return out
    ctx.add_quant(facts)
    return
  if len(symd) == 2 and len(shape) == 2:
    # At every pair of registered index terms.
    terms = []

    def pair(s, t):
      inr = And(s >= 0, s < Z(shape[0]), t >= 0, t < Z(shape[1]))

      def body():
        if not ctx.fork(inr):
          return True
        return scalar_cond(I, g(s, t))
      return Z(ctx.merged(body))

    def both(t, gen):
      out = [pair(t, t)]
      for s in list(terms):
        out += [pair(s, t), pair(t, s)]
      terms.append(t)
      return out
    ctx.add_quant(both)
    return
  raise Unsupported('assumption over several symbolic dimensions')


def approx(I, a, b):
  if isinstance(a, (NDArr, OpaqueVal)) and isinstance(b, OpaqueVal) or isinstance(a, OpaqueVal):
    return I.cmp_eq(a, b)
  if isinstance(a, NDArr) or isinstance(b, NDArr):
    a, b = N.asarray(I, a), N.asarray(I, b)
    if a.ndim != b.ndim:
      return False
    for x, y in zip(a.shape, b.shape):
      if not N.same_dim(I, x, y):
        # shapes must be provably equal; otherwise the claim is their equality.
        if not I.ctx.branch(simp(Z(x) == Z(y))):
          return False
    return N.compare(I, 'Eq', a, b)
  if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
    xs = a.items if isinstance(a, PList) else list(a)
    ys = b.items if isinstance(b, PList) else list(b)
    if len(xs) != len(ys):
      return False
    r = True
    for x, y in zip(xs, ys):
      r = And(r, scalar_cond(I, approx(I, x, y)))
    return r
  return I.truth(I.cmp_eq(a, b))


def close(I, a, b, tol):
  """Equality up to a relative and absolute error."""
  if isinstance(a, NDArr) and a.ndim or isinstance(b, NDArr) and b.ndim:
    a, b = N.asarray(I, a), N.asarray(I, b)
    if a.ndim != b.ndim:
      return False
    if not (a.concrete and b.concrete):
      raise Unsupported('close() on arrays of symbolic size')
    if a.shape != b.shape:
      return False
    a = tuple(a.get(*ix) for ix in V.indices(a.shape))
    b = tuple(b.get(*ix) for ix in V.indices(b.shape))
  if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
    xs = a.items if isinstance(a, PList) else list(a)
    ys = b.items if isinstance(b, PList) else list(b)
    if len(xs) != len(ys):
      return False
    r = True
    for x, y in zip(xs, ys):
      r = And(r, close(I, x, y, tol))
    return r
  x, y = N.R(N.item(I, a)), N.R(N.item(I, b))
  if isinstance(x, float) or isinstance(y, float):
    raise Unsupported('close() on a non-finite number')
  x, y, t = Z(x), Z(y), Z(N.R(N.item(I, tol)))
  d = x - y
  m = z3.If(y >= 0, y, -y)
  return simp(z3.Or(x == y, z3.And(d <= t * (1 + m), -d <= t * (1 + m))))


def deep_eq(I, a, b, out, label='', seen=None):
  """Conditions under which two heap values are structurally identical."""
  from pyvc import libmods as L
  seen = set() if seen is None else seen
  if a is b:
    return
  key = (id(a), id(b))
  if key in seen:
    return
  seen.add(key)
  if is_num(a) and is_num(b):
    out.append((label, I.truth(I.cmp_eq(a, b))))
  elif isinstance(a, NDArr) and isinstance(b, NDArr):
    if a.ndim != b.ndim:
      out.append((label + ' shape', False))
      return
    for x, y in zip(a.shape, b.shape):
      out.append((label + ' shape', I.truth(I.cmp_eq(x, y))))
    ga, gb = a.snapshot(), b.snapshot()
    if a.concrete and b.concrete:
      if a.shape == b.shape:
        for ix in V.indices(a.shape):
          out.append((label, I.truth(I.cmp_eq(ga(*ix), gb(*ix)))))
    else:
      out.append((label, ('all', a.shape, lambda *ix: I.truth(I.cmp_eq(ga(*ix), gb(*ix))))))
  elif isinstance(a, PList) and isinstance(b, PList):
    out.append((label + ' length', I.truth(I.cmp_eq(a.length(), b.length()))))
    if a.concrete and b.concrete:
      for k, (x, y) in enumerate(zip(a.items, b.items)):
        deep_eq(I, x, y, out, '%s[%d]' % (label, k), seen)
    else:
      la, lb = I.lib.iter_at(I, a), I.lib.iter_at(I, b)

      def elem(k):
        o2 = []
        deep_eq(I, la(k), lb(k), o2, label + '[]')
        r = True
        for _, c in o2:
          if isinstance(c, tuple):
            c = N.sym_all_nd(I, c[1], c[2])
          r = And(r, c)
        return r
      out.append((label, ('all', (a.length(),), elem)))
  elif isinstance(a, tuple) and isinstance(b, tuple):
    if len(a) != len(b):
      out.append((label, False))
      return
    for k, (x, y) in enumerate(zip(a, b)):
      deep_eq(I, x, y, out, '%s[%d]' % (label, k), seen)
  elif isinstance(a, dict) and isinstance(b, dict):
    if list(a) != list(b):
      out.append((label, False))
      return
    for k in a:
      deep_eq(I, a[k], b[k], out, '%s[%r]' % (label, k), seen)
  elif isinstance(a, Obj) and isinstance(b, Obj):
    if a.cls is not b.cls:
      out.append((label, False))
      return
    for k in set(a.fields) | set(b.fields):
      if k not in a.fields or k not in b.fields:
        # cached attributes may be added lazily.
        w, _ = a.cls.lookup(k)
        if isinstance(w, V.Wrapped) and w.kind == 'cached_property':
          continue
        out.append(('%s.%s' % (label, k), False))
        continue
      deep_eq(I, a.fields[k], b.fields[k], out, '%s.%s' % (label, k), seen)
  elif isinstance(a, (FunctionVal, Bound, LibFn, ClassVal, L.Rng, Partial)):
    if isinstance(a, Bound) and isinstance(b, Bound):
      out.append((label, a.fn is b.fn))
  else:
    out.append((label, I.truth(I.cmp_eq(a, b))))


def check_same(I, name, a, b):
  out = []
  deep_eq(I, a, b, out)
  if not out:
    I.ctx.oblige(name, True)
  for lb, c in out:
    nm = name + (' (%s)' % lb.strip('.') if lb else '')
    if isinstance(c, tuple):
      forall(I, nm, c[1], c[2])
    else:
      I.ctx.oblige(nm, c)


class Call(Host):
  """The `call` argument of a contract function."""
  tname = 'call'

  def __init__(self, I, mode, fn, bound):
    self.I, self.mode, self.fn, self.bound = I, mode, fn, bound
    self.result = None
    self.havocked = []
    self.done = False
    self.oid = None

  def run(self):
    I = self.I
    f = self.fn
    a = f.node.args
    args, kw = [], dict(self.bound)
    for x in a.posonlyargs + a.args:
      if x.arg in kw:
        args.append(kw.pop(x.arg))
      else:
        break
    if a.vararg is not None and a.vararg.arg in kw:
      args.extend(kw.pop(a.vararg.arg))
    old = I.under_proof
    I.under_proof = f.qualname
    try:
      return I.call_function(f, args, kw)
    finally:
      I.under_proof = old

  def getattr_(self, I, name):
    from pyvc import libmods as L
    ctx = I.ctx

    def returns(t=None, conform=None, pure=False):
      if self.mode == 'use':
        nm = ctx.fresh_name('ret_' + self.fn.name)
        if pure:
          # One result for each list of arguments, copied for every caller.
          key = (self.fn.qualname, tuple(
              (k, str(v) if is_sym(v) else v) for k, v in sorted(self.bound.items())))
          if key not in ctx.pure_results:
            ctx.pure_results[key] = S.sym(I, t, nm)
          self.result = N.asarray(I, ctx.pure_results[key], copy=True)
        else:
          self.result = None if t is None else S.sym(I, t, nm)
        self.done = True
        return self.result
      old = L.deep(I, {k: v for k, v in self.bound.items()}, {})
      r = self.run()
      self.done = True
      self.result = r
      if t is not None:
        conforms(I, t, r, 'result of ' + self.fn.name)
      for k, v in self.bound.items():
        skip = [f for o, f in self.havocked if o is v]
        if isinstance(v, L.Rng):
          continue
        if isinstance(v, Obj) and skip:
          for f in v.fields:
            if f not in skip and f in old[k].fields:
              check_same(I, 'frame: %s.%s unchanged' % (k, f), v.fields[f], old[k].fields[f])
        elif not any(o is v for o, f in self.havocked):
          check_same(I, 'frame: argument %s unchanged' % k, v, old[k])
      return r

    def raises_if(cond, exc):
      c = I.truth(cond)
      if not ctx.branch(c):
        return None
      if self.mode == 'use':
        raise I.to_exc(exc)
      try:
        self.run()
      except PyExc as e:
        ctx.oblige('%s raises %s' % (self.fn.name, exc.name), e.cls.subclass_of(exc))
        raise PathEnd()
      ctx.oblige('%s raises %s' % (self.fn.name, exc.name), False)
      raise PathEnd()

    def modifies(o, field=None, t=None):
      self.havocked.append((o, field))
      if self.mode == 'use' and t is not None:
        I.setattr(o, field, S.sym(I, t, ctx.fresh_name('mod_' + field)))
    t = {'returns': returns, 'raises_if': raises_if, 'modifies': modifies}
    if name in t:
      return LibFn('call.' + name, t[name])
    raise I.exc('AttributeError', name)


def conforms(I, t, r, what):
  """The result has the declared kind (a proof obligation)."""
  ctx = I.ctx
  if isinstance(t, T.Real):
    ok = is_num(r) and not isinstance(r, float) or (isinstance(r, NDArr) and r.ndim == 0)
    ctx.oblige(what + ' is a number', bool(ok))
    r = N.item(I, r) if isinstance(r, NDArr) else r
    if t.lo is not None:
      ctx.oblige(what + ' in range', simp(N.R(r) > N.R(t.lo) if t.strict else N.R(r) >= N.R(t.lo)))
    if t.hi is not None:
      ctx.oblige(what + ' in range', simp(N.R(r) < N.R(t.hi) if t.strict else N.R(r) <= N.R(t.hi)))
  elif isinstance(t, T.Int):
    ctx.oblige(what + ' is an integer', is_num(r))
    if t.lo is not None:
      ctx.oblige(what + ' in range', I.truth(I.lib.scalar_compare('GtE', r, t.lo)))
    if t.hi is not None:
      ctx.oblige(what + ' in range', I.truth(I.lib.scalar_compare('LtE', r, t.hi)))
  elif isinstance(t, T.Arr):
    ok = isinstance(r, NDArr) and r.ndim == len(t.shape)
    ctx.oblige(what + ' is an array of %d dimensions' % len(t.shape), ok)
    for n, d in zip(t.shape, r.shape):
      nm, lo, hi = T.dim_name(n)
      if nm is None:
        ctx.oblige(what + ' has the declared shape', I.truth(I.cmp_eq(d, lo)))
      else:
        if nm not in ctx.dims:
          ctx.dims[nm] = d
        ctx.oblige(what + ' has the declared shape', I.truth(I.cmp_eq(d, ctx.dims[nm])))
  elif isinstance(t, T.Tup):
    ctx.oblige(what + ' is a tuple', isinstance(r, tuple) and len(r) == len(t.ts))
    for x, y in zip(t.ts, r):
      conforms(I, x, y, what)
  elif isinstance(t, T.SeqOf):
    ctx.oblige(what + ' is a sequence', isinstance(r, (PList, tuple)))
  elif isinstance(t, T.Bool):
    ctx.oblige(what + ' is a boolean', isinstance(r, bool) or (is_sym(r) and z3.is_bool(r)))


class ContractUse:

  def __init__(self, entry):
    self.entry = entry

  def apply(self, I, f, args, kwargs):
    ctx = I.ctx
    bound = I.bind_args(f, args, kwargs)
    c = Call(I, 'use', f, bound)
    names = [x.arg for x in self.entry.fn.node.args.args][1:]
    old = getattr(ctx, 'use_contract', None)
    saved_dims = ctx.dims
    # dimension names are local to one application of a contract.
    ctx.dims = {}
    ctx.use_contract = self.entry
    ctx.contracts_used = getattr(ctx, 'contracts_used', set())
    ctx.contracts_used.add(self.entry.target)
    if self.entry.kind == 'assumed':
      ctx.assumptions.add('contract of %s assumed (bounded check on the real code only)' %
                          self.entry.target)
    try:
      I.call_function(self.entry.fn, [c] + [bound[n] for n in names], {})
    finally:
      ctx.use_contract = old
      ctx.dims = saved_dims
    if not c.done:
      raise Unsupported('contract of %s returned nothing' % f.qualname)
    return c.result


def module(I):
  ctx = I.ctx
  a = {}

  def lf(name):
    def deco(fn):
      a[name] = LibFn('vdsl.' + name, fn)
      return fn
    return deco
  for n, c in T.ALL.items():
    a[n] = LibFn('vdsl.' + n, (lambda c: lambda *x, **k: c(
        *[pyarg(I, y) for y in x], **{q: pyarg(I, y) for q, y in k.items()}))(c))

  def register(kind, target, kw):
    use = kw.pop('use', ())
    use = use.items if isinstance(use, PList) else use
    opts = {k: kw.pop(k) for k in ('samples', 'native_only', 'timeout', 'sizes', 'note', 'bound') if k in kw}

    def deco(fn):
      e = Entry(kind, fn, kw, target, use, opts)
      I.entries.append((fn.module.name, e))
      fn.entry = e
      return fn
    return LibFn('vdsl.' + kind, deco)
  a['proof'] = LibFn('vdsl.proof', lambda **kw: register('proof', None, kw))
  a['bounded'] = LibFn('vdsl.bounded', lambda **kw: register('bounded', None, kw))
  a['contract'] = LibFn('vdsl.contract', lambda target, **kw: register('contract', target, kw))
  # a contract that is used in proofs, but only checked on a bounded set of inputs.
  a['assumed'] = LibFn('vdsl.assumed', lambda target, **kw: register('assumed', target, kw))

  def using():
    return getattr(ctx, 'use_contract', None)

  @lf('require')
  def require(cond):
    u = using()
    for x in conds(I, cond):
      if isinstance(x, tuple):
        if u:
          forall(I, 'precondition of ' + u.name, x[1], x[2])
        else:
          assume_forall(I, x[1], x[2])
      elif u:
        ctx.oblige('precondition of ' + u.name, x)
      else:
        ctx.assume(x)

  @lf('require_all')
  def require_all(n, fn):
    g = lambda *k: scalar_cond(I, I.call(fn, list(k), {}))
    shape = n if isinstance(n, tuple) else (n,)
    u = using()
    if u:
      forall(I, 'precondition of ' + u.name, shape, g)
    else:
      assume_forall(I, shape, g)

  @lf('check')
  def check(name, cond):
    if using():
      for x in conds(I, cond):
        if isinstance(x, tuple):
          assume_forall(I, x[1], x[2])
        else:
          ctx.assume(x)
      return
    ctx.reached.add(name)
    decide(I, name, cond)

  @lf('check_all')
  def check_all(name, n, fn):
    g = lambda *k: scalar_cond(I, I.call(fn, list(k), {}))
    shape = n if isinstance(n, tuple) else (n,)
    if using():
      assume_forall(I, shape, g)
      return
    ctx.reached.add(name)
    if all(not is_sym(d) for d in shape):
      for ix in V.indices(shape):
        ctx.oblige(name, g(*ix))
      return
    forall(I, name, shape, g)

  @lf('lemma_all')
  def lemma_all(name, n, fn):
    check_all(name, n, fn)
    if not using():
      assume_forall(I, (n,), lambda *k: scalar_cond(I, I.call(fn, list(k), {})))

  a['assume_all'] = LibFn('assume_all', lambda n, fn: assume_forall(
      I, (n,), lambda *k: scalar_cond(I, I.call(fn, list(k), {}))))
  a['check_same'] = LibFn('check_same', lambda name, x, y: check_same(I, name, x, y))

  @lf('snapshot')
  def snapshot(x):
    from pyvc import libmods as L
    return L.deep(I, x, {})
  a['approx'] = LibFn('approx', lambda x, y, tol=None: approx(I, x, y))
  a['close'] = LibFn('close', lambda x, y, tol=Fraction(1, 10**5): close(I, x, y, tol))
  a['implies'] = LibFn('implies', lambda p, q: Implies(scalar_cond(I, p), scalar_cond(I, q)))
  a['iff'] = LibFn('iff', lambda p, q: simp(
      Z(scalar_cond(I, p)) == Z(scalar_cond(I, q))))
  a['all_of'] = LibFn('all_of', lambda *xs: And(*[scalar_cond(I, x) for x in xs]))
  a['any_of'] = LibFn('any_of', lambda *xs: Or(*[scalar_cond(I, x) for x in xs]))
  def outside(what):
    raise Unsupported('outside of the contract: %s' % what)
  a['outside'] = LibFn('outside', outside)
  a['negate'] = LibFn('negate', lambda x: Not(scalar_cond(I, x)))
  a['ite'] = LibFn('ite', lambda c, x, y: merge_values(scalar_cond(I, c), x, y))

  @lf('fresh')
  def fresh(t):
    nm = ctx.fresh_name('fresh')
    ctx.freshes.append((t, nm))
    return S.sym(I, t, nm)

  @lf('raises')
  def raises(exc, fn, *args, **kw):
    try:
      I.call(fn, list(args), kw)
    except PyExc as e:
      excs = exc if isinstance(exc, tuple) else (exc,)
      return any(e.cls.subclass_of(x) for x in excs)
    return False

  @lf('index')
  def index(k):
    if ctx.merge_depth:
      ctx.later.append((Z(k), ctx.gen + 1))
    else:
      ctx.register_index(Z(k), ctx.gen + 1)
    if is_sym(k) and z3.is_const(k):
      ctx.user_indices.append(k)
    return k

  @lf('invariant')
  def invariant(name, fn):
    ctx.ghost_inv.append((name, lambda: I.call(fn, [], {})))

  @lf('roots')
  def roots(*xs):
    I.roots.extend(xs)
  a['symbolic'] = True
  return LibModule('vdsl', a)
