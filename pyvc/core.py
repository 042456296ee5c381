"""Path explorer, obligations, and ground-instantiation of quantified facts."""
import itertools
import time
from fractions import Fraction

import z3

from pyvc import nonlin


class Unsupported(Exception):
  """The code uses something outside the verified subset: undecided."""


class SideEffect(Unsupported):
  """A lazily evaluated element would write to the heap."""


class PathEnd(Exception):
  """This path is finished (infeasible, assumed false or loop cut)."""


class Restart(Exception):
  """Loop summaries changed: re-explore the harness from the start."""


class PyExc(Exception):
  """An exception raised by the interpreted program."""

  def __init__(self, cls, args=(), obj=None):
    Exception.__init__(self, str(cls))
    self.cls = cls
    self.args_ = args
    self.obj = obj


def is_sym(v):
  return isinstance(v, z3.ExprRef)


def Z(v):
  """Any scalar value to a z3 expression."""
  if isinstance(v, z3.ExprRef):
    return v
  if isinstance(v, bool):
    return z3.BoolVal(v)
  if isinstance(v, int):
    return z3.IntVal(v)
  if isinstance(v, Fraction):
    return z3.RealVal(v)
  if isinstance(v, float):
    if v != v or v in (float('inf'), float('-inf')):
      raise Unsupported('non-finite float in arithmetic')
    return z3.RealVal(Fraction(repr(v)))
  raise Unsupported('not a scalar: %r' % (type(v),))


def num(v):
  """Numeric view of a scalar (bools become 0/1)."""
  if isinstance(v, bool):
    return int(v)
  if is_sym(v) and z3.is_bool(v):
    return z3.If(v, z3.IntVal(1), z3.IntVal(0))
  if isinstance(v, float) and v == v and abs(v) != float('inf'):
    return Fraction(repr(v))
  return v


def is_num(v):
  return (isinstance(v, (int, float, Fraction)) or
          (is_sym(v) and (z3.is_arith(v) or z3.is_bool(v))))


def simp(e):
  if not is_sym(e):
    return e
  e = z3.simplify(e)
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  if z3.is_int_value(e):
    return e.as_long()
  if z3.is_rational_value(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long())
  return e


def And(*xs):
  ys = []
  for x in xs:
    if isinstance(x, bool):
      if not x:
        return False
    else:
      ys.append(x)
  if not ys:
    return True
  return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
  ys = []
  for x in xs:
    if isinstance(x, bool):
      if x:
        return True
    else:
      ys.append(x)
  if not ys:
    return False
  return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
  if isinstance(x, bool):
    return not x
  return z3.Not(x)


def Implies(a, b):
  return Or(Not(a), b)


def Ite(c, a, b):
  if isinstance(c, bool):
    return a if c else b
  if a is b:
    return a
  if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
    return a
  if is_num(a) and is_num(b):
    if (isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))) and (
        isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))):
      return z3.If(c, Z(a), Z(b))
    a, b = Z(num(a)), Z(num(b))
    if a.sort() != b.sort():
      a = z3.ToReal(a) if z3.is_int(a) else a
      b = z3.ToReal(b) if z3.is_int(b) else b
    return z3.If(c, a, b)
  if is_sym(a) and is_sym(b) and a.sort() == b.sort():
    return z3.If(c, a, b)
  raise Unsupported('cannot merge %s and %s' % (type(a), type(b)))


def merge_values(c, a, b):
  if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
    return tuple(merge_values(c, x, y) for x, y in zip(a, b))
  return Ite(c, a, b)


def status_of(r):
  if r == z3.sat:
    return 'refuted'
  return 'discharged' if r == z3.unsat else 'unknown'


class Explorer:
  """Depth-first enumeration of decision traces by re-execution."""

  def __init__(self):
    self.todo = [[]]
    self.trace = []
    self.pos = 0

  def next(self):
    if not self.todo:
      return False
    self.trace = self.todo.pop()
    self.pos = 0
    return True

  def choose(self, options):
    """options: list of usable alternatives (already feasibility filtered)."""
    if self.pos < len(self.trace):
      d = self.trace[self.pos]
    else:
      d = options[0]
      for o in reversed(options[1:]):
        self.todo.append(self.trace[:self.pos] + [o])
      self.trace = self.trace + [d]
    self.pos += 1
    return d


class Quant:
  """A universally quantified fact, instantiated at registered index terms."""

  def __init__(self, fn, gen):
    self.fn = fn
    self.gen = gen
    self.done = set()


class Obligation:

  def __init__(self, name, fn, path, status, solver, secs, detail='', model=None,
               tainted=False):
    self.name = name
    self.fn = fn
    self.path = path
    self.status = status  # discharged | refuted | unknown
    self.solver = solver
    self.secs = secs
    self.detail = detail
    self.model = model
    self.tainted = tainted


CUR = [None]


def may_memo():
  """Values may be remembered unless they depend on a local branch."""
  c = CUR[0]
  return c is None or not (c.merge_conds or c.merge_outer)


class AtHeap:
  """Evaluation with the heap as it was at a node."""

  def __init__(self, ctx, node):
    self.ctx, self.node = ctx, node

  def __enter__(self):
    self.back = self.ctx.heap
    self.ctx.goto_heap(self.node)

  def __exit__(self, *a):
    self.ctx.goto_heap(self.back)


MISSING = object()


class Heap:
  """A version of the heap: the parent's, but for one object, whose other state is kept."""
  __slots__ = ('parent', 'depth', 'x', 'field', 'other')

  def __init__(self, parent, x, field):
    self.parent, self.x, self.field = parent, x, field
    self.depth = parent.depth + 1 if parent is not None else 0
    self.other = self.state() if parent is not None else None

  def state(self):
    x = self.x
    if hasattr(x, 'heap_state'):
      return x.heap_state(self.field)
    if isinstance(x, (dict, set)):
      return x.copy()
    raise Unsupported('write to %s' % type(x).__name__)

  def toggle(self):
    x, now = self.x, self.state()
    if isinstance(x, (dict, set)) and not hasattr(x, 'heap_state'):
      x.clear()
      x.update(self.other)
    else:
      x.heap_restore(self.field, self.other)
    self.other = now


class Ctx:
  MAX_PATHS = 4000

  def __init__(self, timeout_ms=10000, deadline=None):
    self.timeout_ms = timeout_ms
    self.deadline = deadline
    self.explorer = Explorer()
    self.obligations = []
    self.loops = {}       # persistent loop summaries (across re-execution)
    self.ghost_inv = []
    self.solver_secs = 0.0
    self.queries = 0
    self.paths = 0
    self.fn = ''
    self.assumptions = set()   # trusted models actually used
    self.inlined = set()       # repo functions executed
    self.bounded = None        # concrete size for bounded refutation mode
    self.refute_first = False
    self.stop_on_refute = False
    self.reset_path()

  # -- versions of the heap ---------------------------------------------------
  def heap_write(self, x, field):
    """About to write: remembers what was there, for evaluations at an earlier time."""
    self.heap = Heap(self.heap, x, field)

  def goto_heap(self, node):
    cur = self.heap
    if cur is node:
      return
    down = []
    t = node
    while t.depth > cur.depth:
      down.append(t)
      t = t.parent
    while cur.depth > t.depth:
      cur.toggle()
      cur = cur.parent
    while cur is not t:
      cur.toggle()
      cur = cur.parent
      down.append(t)
      t = t.parent
    for n in reversed(down):
      n.toggle()
    self.heap = node

  def at_heap(self, node):
    return AtHeap(self, node)

  # -- per-path state -------------------------------------------------------
  def reset_path(self):
    self.pure_results = {}  # (function, arguments) -> result of a pure contract.
    CUR[0] = self
    self.solver = z3.Solver()
    self.solver.set('timeout', self.timeout_ms)
    self.pc = []
    self.counter = itertools.count()
    self.names = {}
    self.idx_terms = []      # (term, generation)
    self.idx_seen = set()
    self.gen = -1            # that of the term a quantified fact is instantiated with
    self.starts = {}         # symbolic starts of slices
    self.positions = {}      # terms that are positions in a permutation
    self.quants = []
    self.selections = []
    self.user_indices = []
    self.sums = []
    self.argmins = []
    self.slow = {}
    self.rows = {}
    self.draws = []
    self.lengths = []
    self.tainted = []
    self.alloc = itertools.count()
    self.loop_stack = []
    self.assume_mode = 0
    self.noninstant = 0
    self.uf_seen = set()
    self.pins = getattr(self, 'pins', {})
    self.sqrts = []
    self.pure = 0
    self.pure_mark = 0
    self.heap = Heap(None, None, None)
    self.fcache = {}
    self.reached = set()
    self.later = []
    self.merge_depth = 0
    self.merge_facts = []
    self.merge_axioms = []
    self.merge_conds = []
    self.merge_outer = 0
    self.explorers = []
    self.draining = False
    self.freshes = []
    self.dims = {}
    self.nns = []
    self.resizes = []
    self.now = None

  def fresh_name(self, base):
    k = self.names.get(base, 0)
    self.names[base] = k + 1
    return base if k == 0 else '%s!%d' % (base, k)

  def real(self, base):
    return z3.Real(self.fresh_name(base))

  def int(self, base):
    return z3.Int(self.fresh_name(base))

  def bool(self, base):
    return z3.Bool(self.fresh_name(base))

  # -- facts ----------------------------------------------------------------
  def add(self, c):
    """Add a fact to the path condition."""
    if isinstance(c, bool):
      if not c:
        raise PathEnd()
      return
    self.pc.append(c)
    self.solver.add(c)

  def fact(self, c):
    """A fact that holds regardless of the local branch being explored."""
    self.pc.append(c)
    self.solver.add(c)
    if self.merge_depth:
      self.merge_facts.append(c)

  def axiom(self, c):
    """A fact that holds unconditionally (a library axiom)."""
    if isinstance(c, bool):
      if not c:
        raise PathEnd()
      return
    self.pc.append(c)
    self.solver.add(c)
    if self.merge_depth:
      self.merge_axioms.append(c)

  def merged(self, fn):
    """Evaluate fn over all its local branches and merge with if-then-else."""
    outer, oconds = self.explorer, self.merge_conds
    ofacts = self.merge_facts
    oaxioms = self.merge_axioms
    self.merge_facts = []
    self.merge_axioms = []
    facts = []
    results = []
    local = Explorer()
    self.explorer = local
    self.explorers.append(outer)
    self.merge_depth += 1
    self.merge_outer += len(oconds)
    try:
      while local.next():
        self.merge_conds = []
        mark = len(self.pc)
        self.merge_facts = []
        axm = len(self.merge_axioms)
        self.solver.push()
        try:
          v = fn()
          results.append((list(self.merge_conds), v))
        except PathEnd:
          pass
        except PyExc as e:
          if self._check() != z3.unsat:
            raise Unsupported('exception %s in a merged expression' % e)
        finally:
          self.solver.pop()
          del self.pc[mark:]
          facts.extend((And(*self.merge_conds), f) for f in self.merge_facts)
          for f in self.merge_axioms[axm:]:
            self.pc.append(f)
            self.solver.add(f)
        if len(results) > 64:
          raise Unsupported('too many merged branches')
    finally:
      self.merge_depth -= 1
      self.merge_outer -= len(oconds)
      self.explorer = outer
      self.explorers.pop()
      self.merge_conds = oconds
      self.merge_facts = ofacts
      inner = self.merge_axioms
      self.merge_axioms = oaxioms
      if self.merge_depth:
        self.merge_axioms.extend(inner)
    for c, f in facts:
      self.fact(Implies(c, f))
    if not results:
      raise PathEnd()
    out = results[-1][1]
    for conds, v in reversed(results[:-1]):
      c = simp(And(*conds)) if conds else True
      out = merge_values(c, v, out)
    return out

  def prefix(self):
    out = []
    for e in self.explorers + [self.explorer]:
      out.append(tuple(e.trace[:e.pos]))
    return tuple(out)

  def div0_guard(self, b):
    self.oblige('divisor is non-zero', Z(b) != 0)

  def assume(self, c):
    if isinstance(c, bool):
      if not c:
        raise PathEnd()
      return
    c = simp(c)
    self.add(c)

  def register_index(self, term, gen=0):
    """Make an Int term available for instantiation of quantified facts."""
    if isinstance(term, (int, Fraction)):
      term = z3.IntVal(int(term))
    key = term.sexpr()
    if key in self.idx_seen:
      return
    self.idx_seen.add(key)
    self.idx_terms.append((term, gen))
    for q in list(self.quants):
      self._inst(q, term, gen)
    self._drain()

  def slice_start(self, st):
    """Positions of a permutation are looked at from the start of a slice, too."""
    if st.sexpr() not in self.starts:
      self.starts[st.sexpr()] = st
      for t, gen in list(self.positions.values()):
        self.later.append((simp(t - st), gen))
      self._drain()

  def position(self, t, gen):
    if t.sexpr() not in self.positions:
      self.positions[t.sexpr()] = (t, gen)
      self.later.append((t, gen))
      for st in list(self.starts.values()):
        self.later.append((simp(t - st), gen))

  def _drain(self):
    if self.draining:
      return
    self.draining = True
    try:
      while self.later:
        t, g = self.later.pop(0)
        self.register_index(t, g)
    finally:
      self.draining = False

  def add_quant(self, fn, gen=0):
    """fn: Int term -> list of facts (z3 bools)."""
    q = Quant(fn, gen)
    q.heap = self.heap
    if self.merge_depth:
      if self.merge_conds or self.merge_outer:
        raise Unsupported('quantified fact under a merged condition')
    self.quants.append(q)
    for t, g in list(self.idx_terms):
      self._inst(q, t, g)
    self._drain()

  def _inst(self, q, term, gen):
    if gen + q.gen > 2:
      return
    key = term.sexpr()
    if key in q.done:
      return
    q.done.add(key)
    outer, self.gen = self.gen, max(self.gen, gen)
    try:
      with self.at_heap(q.heap):
        facts = list(q.fn(term, gen) or ())
    finally:
      self.gen = outer
    for f in facts:
      if isinstance(f, bool):
        if not f:
          self.fact(z3.BoolVal(False))
        continue
      self.fact(f)

  # -- queries --------------------------------------------------------------
  def _check(self, *extra, timeout=None):
    if self.deadline and time.time() > self.deadline:
      raise Unsupported('time budget for this proof exhausted')
    t = time.time()
    if timeout:
      self.solver.set('timeout', timeout)
    r = self.solver.check(*extra)
    if timeout:
      self.solver.set('timeout', self.timeout_ms)
    self.solver_secs += time.time() - t
    self.queries += 1
    return r

  def feasible(self, c):
    if isinstance(c, bool):
      return c
    r = self._check(c, timeout=min(1000, self.timeout_ms))
    if r == z3.unknown:
      for method, ms in ((self.abstraction, 1000), (self.reals, 700)):
        if self.slow.get(ms, 0) < 2 and len(self.pc) < 3000:
          t = time.time()
          if method(c, ms):
            return False
          self.slow[ms] = self.slow.get(ms, 0) + (time.time() - t > 8)
    return r != z3.unsat

  def prove(self, c, timeout=3000):
    """True only when c is proved on this path."""
    if isinstance(c, bool):
      return c
    c = simp(c)
    if isinstance(c, bool):
      return c
    if nonlin.near(self.pc, z3.Not(c), 100) == z3.unsat:
      return True
    r = self._check(z3.Not(c), timeout=min(timeout, 1000))
    if r != z3.unknown:
      return r == z3.unsat
    if self.abstraction(z3.Not(c), timeout):
      return True
    return (timeout > 1000 and
            self._check(z3.Not(c), timeout=timeout) == z3.unsat)

  def abstraction(self, goal, timeout, compare=False):
    t = time.time()
    r = nonlin.query(self.pc + [goal], timeout, compare)
    self.solver_secs += time.time() - t
    self.queries += 1
    return r == z3.unsat

  def reals(self, goal, timeout):
    t = time.time()
    r = nonlin.reals(self.pc, goal, timeout)
    self.solver_secs += time.time() - t
    self.queries += 1
    return r == z3.unsat

  def every_slice(self, timeout, last=12):
    """Whether the path contradicts itself, seen from one of its latest facts."""
    return any(self.reals(p, timeout) for p in self.pc[:-last - 1:-1])

  def pin(self, n, top=8):
    """A length that the path determines, as an int; otherwise n."""
    if not is_sym(n):
      return n
    n = simp(n)
    if not is_sym(n):
      return n
    key = (self.prefix(), len(self.pc), n.sexpr())
    if key not in self.pins:
      out = None
      # (candidates rather than a model: the answer must not depend on one.)
      for v in (1, 3, 2, 0, 4, 6, 5, 7, 8):
        if self._check(n == v, timeout=2000) == z3.unsat:
          continue
        out = v if self.prove(n == v) else None
        break
      self.pins[key] = out
    v = self.pins[key]
    return n if v is None else v

  def fork(self, c):
    """Like branch, without asking the solver whether a side is feasible."""
    c = simp(c) if not isinstance(c, bool) else c
    if isinstance(c, bool):
      return c
    return self.branch(c, ask=False)

  def branch(self, c, ask=True):
    """Decide a symbolic condition, forking the path."""
    if isinstance(c, bool):
      return c
    c = simp(c)
    if isinstance(c, bool):
      return c
    if self.explorer.pos < len(self.explorer.trace):
      d, only = self.explorer.choose(None)
    else:
      t, f = (self.feasible(c), self.feasible(z3.Not(c))) if ask else (True, True)
      if not t and not f:
        raise PathEnd()
      only = not (t and f)
      d, _ = self.explorer.choose(([(True, only)] if t else []) +
                                  ([(False, only)] if f else []))
    lit = c if d else z3.Not(c)
    if self.merge_depth and not only:
      self.merge_conds.append(lit)
    self.add(lit)
    return d

  def pick(self, options, label=''):
    """Nondeterministic choice among concrete options."""
    if len(options) == 1:
      return options[0]
    i = self.explorer.choose(list(range(len(options))))
    return options[i]

  # -- obligations ----------------------------------------------------------
  def oblige(self, name, c):
    if self.assume_mode:
      self.assume(c)
      return
    c = simp(c) if is_sym(c) else bool(c)
    t = time.time()
    model = None
    detail = ''
    solver = 'simplifier'
    if c is True:
      status = 'discharged'
    elif c is False:
      r = self._check()
      solver = 'z3'
      if r == z3.unknown:
        yes = z3.BoolVal(True)
        if self.abstraction(yes, 4000) or self.abstraction(yes, 4000, compare=True):
          r, solver = z3.unsat, 'z3 (monomials abstracted)'
        elif self.every_slice(2500):
          r, solver = z3.unsat, 'z3-nlsat (nearby facts)'
        else:
          r, solver = self.second_opinion(z3.BoolVal(False))
      status = status_of(r)
      if r == z3.sat:
        model = self.small_model([])
      detail = 'goal simplifies to false'
    else:
      r = self._check(z3.Not(c), timeout=min(1000, self.timeout_ms))
      solver = 'z3'
      if r == z3.unknown:
        if self.abstraction(z3.Not(c), 4000):
          r, solver = z3.unsat, 'z3 (monomials abstracted)'
        elif self.reals(z3.Not(c), 2500):
          r, solver = z3.unsat, 'z3-nlsat (nearby facts)'
        elif self.abstraction(z3.Not(c), 4000, compare=True):
          r, solver = z3.unsat, 'z3 (monomials abstracted)'
        else:
          r = self._check(z3.Not(c))
      if r == z3.unknown:
        r, solver = self.second_opinion(c)
      status = status_of(r)
      if r == z3.sat:
        if solver.startswith('z3'):
          model = self.small_model([z3.Not(c)])
        detail = 'negated goal: %s' % z3.Not(c).sexpr()[:1500]
    ob = Obligation(name, self.fn, self.paths, status, solver, time.time() - t,
                    detail, model, bool(self.tainted))
    if model is not None:
      ob.draws = [(k, self.ev(model, v)) for k, v in self.draws]
    self.obligations.append(ob)
    if status != 'discharged':
      # continue under the goal, so that later obligations are independent.
      if c is False:
        raise PathEnd()
    if c is not True:
      if c is False:
        raise PathEnd()
      self.add(c)

  def small_model(self, extra):
    for bound in (2, 4, 8):
      cs = [z3.And(l >= 0, l <= bound) for l in self.lengths]
      if cs and self._check(*(extra + cs), timeout=3000) == z3.sat:
        return self.solver.model()
    if self._check(*extra) == z3.sat:
      return self.solver.model()
    return None

  def second_opinion(self, c):
    """cvc5, then z3 with a different tactic."""
    goal = z3.Solver()
    goal.add(*self.pc)
    goal.add(z3.Not(c))
    t = time.time()
    try:
      from pyvc import back_cvc5
      r = back_cvc5.check(goal.to_smt2(), self.timeout_ms)
      if r is not None:
        return r, 'cvc5'
    except Unsupported:
      pass
    finally:
      self.solver_secs += time.time() - t
    s = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
    s.set('timeout', self.timeout_ms)
    s.add(*self.pc)
    s.add(z3.Not(c))
    try:
      t = time.time()
      r = s.check()
      self.solver_secs += time.time() - t
      if r == z3.unsat:
        return r, 'z3-nlsat'
    except z3.Z3Exception:
      pass
    return z3.unknown, 'z3+cvc5'

  def ev(self, model, v):
    """Evaluate a scalar in a model to a python number."""
    if not is_sym(v):
      if isinstance(v, Fraction):
        return float(v)
      return v
    r = model.eval(v, model_completion=True)
    return pynum(r)

  def taint(self, why):
    self.tainted.append(why)


def pynum(r):
  if z3.is_true(r):
    return True
  if z3.is_false(r):
    return False
  if z3.is_int_value(r):
    return r.as_long()
  if z3.is_rational_value(r):
    return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
  if z3.is_algebraic_value(r):
    a = r.approx(20)
    return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
  return str(r)
