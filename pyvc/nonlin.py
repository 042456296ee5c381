"""Linear abstraction of nonlinear queries.

Each nonlinear monomial becomes an application of an uninterpreted function to
its (sorted) factors, with a few valid facts about signs and inverses.  Unsat
of the abstraction implies unsat of the query; sat means nothing.
"""

import z3

_FNS = {}
_NORM = {}
_ABS = {}


def _fn(name, n, sort):
  key = (name, n, sort.name())
  if key not in _FNS:
    _FNS[key] = z3.Function('%s_%d_%s' % (name, n, sort.name()), *([sort] * (n + 1)))
  return _FNS[key]


def _numeral(t):
  return z3.is_rational_value(t) or z3.is_int_value(t)


def norm(f):
  k = f.get_id()
  if k not in _NORM:
    if len(_NORM) > 20000:
      _NORM.clear()
    _NORM[k] = (f, z3.simplify(f, som=True, sort_sums=True, som_blowup=200))
  return _NORM[k][1]


def _size(t, limit):
  seen = set()
  todo = [t]
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if len(seen) > limit:
      return limit
    todo.extend(x.children())
  return len(seen)


def abstract(t):
  """-> (abstracted term, monomials it contains)."""
  todo = [t]
  while todo:
    x = todo[-1]
    k = x.get_id()
    if k in _ABS:
      todo.pop()
      continue
    if z3.is_quantifier(x) or z3.is_var(x) or not x.children():
      _ABS[k] = (x, x, frozenset())
      todo.pop()
      continue
    kids = x.children()
    wait = [c for c in kids if c.get_id() not in _ABS]
    if wait:
      todo.extend(wait)
      continue
    todo.pop()
    new = [_ABS[c.get_id()][1] for c in kids]
    mons = frozenset().union(*[_ABS[c.get_id()][2] for c in kids])
    kind = x.decl().kind()
    if kind == z3.Z3_OP_MUL:
      coef = [c for c in new if _numeral(c)]
      rest = [c for c in new if not _numeral(c)]
      if len(rest) > 1:
        rest = sorted(rest, key=lambda c: c.get_id())
        m = _fn('nlmul', len(rest), x.sort())(*rest)
        mons = mons | {m}
        out = m
        for c in coef:
          out = c * out
      else:
        out = x.decl()(*new)
    elif kind == z3.Z3_OP_DIV and not _numeral(new[1]):
      out = _fn('nldiv', 2, x.sort())(*new)
      mons = mons | {out}
    elif kind == z3.Z3_OP_POWER:
      out = _fn('nlpow', 2, x.sort())(*new)
    else:
      out = x.decl()(*new)
    _ABS[k] = (x, out, mons)
  return _ABS[t.get_id()][1:]


def facts(m):
  a = m.children()
  if m.decl().name().startswith('nldiv'):
    p, q = a
    r = m
    yield z3.Implies(z3.And(p > 0, q > 0), r > 0)
    yield z3.Implies(z3.And(p >= 0, q > 0), r >= 0)
    yield z3.Implies(z3.And(p <= 0, q > 0), r <= 0)
    yield z3.Implies(z3.And(p >= 0, q < 0), r <= 0)
    yield z3.Implies(z3.And(q > 0, p <= q), r <= 1)
    yield z3.Implies(z3.And(q > 0, p >= q), r >= 1)
    yield z3.Implies(z3.And(p == 0, q != 0), r == 0)
    x = _fn('nlmul', 2, m.sort())(*sorted([r, q], key=lambda c: c.get_id()))
    yield z3.Implies(q != 0, x == p)
    return
  if len(a) == 2:
    p, q = a
    if p.eq(q):
      yield m >= 0
      yield (m == 0) == (p == 0)
      yield z3.Implies(z3.Or(p >= 1, p <= -1), m >= 1)
      yield z3.Implies(z3.And(p <= 1, p >= -1), m <= 1)
    else:
      yield (m == 0) == z3.Or(p == 0, q == 0)
      yield (m > 0) == z3.Or(z3.And(p > 0, q > 0), z3.And(p < 0, q < 0))
  elif len(a) == 4 and a[0].eq(a[1]) and a[2].eq(a[3]):
    yield m >= 0
  else:
    yield z3.Implies(z3.And(*[x >= 0 for x in a]), m >= 0)


def square(m):
  a = m.children()
  return len(a) == 2 and a[0].eq(a[1]) and a[0].sort() == z3.RealSort()


def bounds(fs, among):
  """The constants that the terms `among` (ids) are compared with."""
  seen, out = set(), {}
  todo = list(fs)
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    kids = x.children()
    if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
      for p, c in (kids, kids[::-1]):
        if p.get_id() in among and z3.is_rational_value(c) and c.as_fraction() != 0:
          out[p.get_id(), c.get_id()] = (p, c)
    todo.extend(kids)
  return list(out.values())[:40]


def query(fs, timeout, compare=False):
  """unsat, or None."""
  if len(_ABS) > 200000:
    _ABS.clear()
  out = []
  mons = set()
  for f in fs:
    if isinstance(f, bool):
      if not f:
        return z3.unsat
      continue
    g, m = abstract(norm(f))
    out.append(g)
    mons |= m
  if not mons:
    return None
  s = z3.Solver()
  s.set('timeout', timeout)
  s.add(*out)
  for m in mons:
    s.add(*list(facts(m)))
  for p, c in bounds(out, {m.children()[0].get_id() for m in mons if square(m)}) if compare else ():
    q, v = _fn('nlmul', 2, p.sort())(p, p), abs(c.as_fraction())
    v = z3.RealVal(v * v)
    s.add(z3.Implies(z3.And(p > abs(c.as_fraction())), q > v))
    s.add(z3.Implies(z3.And(p >= abs(c.as_fraction())), q >= v))
    s.add(z3.Implies(z3.And(q > v, p >= 0), p > abs(c.as_fraction())))
    s.add(z3.Implies(z3.And(q >= v, p >= 0), p >= abs(c.as_fraction())))
  return z3.unsat if s.check() == z3.unsat else None


# -- nonlinear queries over the reals alone -------------------------------------
_PURE = {}
_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE,
          z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_NOT,
          z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT,
          z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}


def pure(t):
  """-> (term in which whatever is not real arithmetic is a variable, those variables)."""
  todo = [t]
  while todo:
    x = todo[-1]
    k = x.get_id()
    if k in _PURE:
      todo.pop()
      continue
    if _numeral(x) and x.sort() == z3.RealSort():
      _PURE[k] = (x, x, frozenset())
      todo.pop()
      continue
    kids = x.children()
    ok = (x.decl().kind() in _ARITH and not z3.is_int(x) and not z3.is_quantifier(x) and
          not any(c.sort() not in (z3.RealSort(), z3.BoolSort()) for c in kids))
    if not ok:
      if x.sort() == z3.RealSort():
        v = z3.Real('pure_%d' % k)
      elif x.sort() == z3.BoolSort():
        v = z3.Bool('pureb_%d' % k)
      else:
        v = x
      _PURE[k] = (x, v, frozenset((v,)))
      todo.pop()
      continue
    wait = [c for c in kids if c.get_id() not in _PURE]
    if wait:
      todo.extend(wait)
      continue
    todo.pop()
    new = [_PURE[c.get_id()][1] for c in kids]
    names = frozenset().union(*[_PURE[c.get_id()][2] for c in kids])
    kind = x.decl().kind()
    if kind == z3.Z3_OP_AND:
      out = z3.And(*new)
    elif kind == z3.Z3_OP_OR:
      out = z3.Or(*new)
    elif kind == z3.Z3_OP_ADD:
      out = z3.Sum(*new)
    elif kind == z3.Z3_OP_MUL:
      out = z3.Product(*new)
    else:
      out = x.decl()(*new)
    _PURE[k] = (x, out, names)
  return _PURE[t.get_id()][1:]


def conjuncts(f):
  if z3.is_and(f):
    for c in f.children():
      yield from conjuncts(c)
  else:
    yield f


def reals(fs, goal, timeout):
  """unsat, or None: fs and goal, from the facts near the goal outwards."""
  if len(_PURE) > 200000:
    _PURE.clear()
  g, seen = pure(goal)
  rest = []
  for f in fs:
    if isinstance(f, bool):
      if not f:
        return z3.unsat
      continue
    for c in conjuncts(f):
      rest.append(pure(c))
  last = -1
  for level in range(4):
    near = [c for c, names in rest if names <= seen]
    if len(near) > last:
      last = len(near)
      s = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra-nlsat').solver()
      s.set('timeout', timeout)
      s.add(g)
      s.add(*near)
      try:
        if s.check() == z3.unsat:
          return z3.unsat
      except z3.Z3Exception:
        pass
    more = seen
    for c, names in rest:
      if len(names) <= 4 + 2 * level and names & seen:
        more = more | names
    if more == seen and level:
      break
    seen = more
  return None


# -- the facts that speak of nothing but what the goal speaks of ------------------
_ATOMS = {}


def atoms(t):
  """Uninterpreted constants and applications in t."""
  todo = [t]
  while todo:
    x = todo[-1]
    k = x.get_id()
    if k in _ATOMS:
      todo.pop()
      continue
    kids = x.children()
    wait = [c for c in kids if c.get_id() not in _ATOMS]
    if wait:
      todo.extend(wait)
      continue
    todo.pop()
    out = set().union(*[_ATOMS[c.get_id()][1] for c in kids]) if kids else set()
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.add(k)
    _ATOMS[k] = (x, frozenset(out))
  return _ATOMS[t.get_id()][1]


def near(fs, goal, timeout):
  """unsat, or None: goal and the facts over its own atoms."""
  if len(_ATOMS) > 200000:
    _ATOMS.clear()
  mine = atoms(goal)
  s = z3.Solver()
  s.set('timeout', timeout)
  s.add(goal)
  for f in fs:
    if not isinstance(f, bool) and atoms(f) <= mine:
      s.add(f)
  return z3.unsat if s.check() == z3.unsat else None
