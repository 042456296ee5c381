"""C20: offsets, drifts and merged atoms when observations are aligned."""
import numpy as np
from putting_dune import alignment
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *


def far(a, i, b, j):
  """The squared distance of row i of a from row j of b."""
  return (a[i, 0] - b[j, 0]) * (a[i, 0] - b[j, 0]) + (a[i, 1] - b[j, 1]) * (a[i, 1] - b[j, 1])


@proof(left=Arr(('m>=1', 2), -4, 4), right=Arr(('n>=1', 2), -4, 4), i=Int(0), j=Int(0))
def offsets(left, right, i, j):
  require(index(i) < left.shape[0])
  require(index(j) < right.shape[0])
  old = snapshot((left, right))
  r = alignment.get_offsets(left, right)
  check('one for every atom', r.shape == (left.shape[0], 2))
  x, y = left[i, 0] + r[i, 0], left[i, 1] + r[i, 1]
  check('none is nearer', r[i, 0] * r[i, 0] + r[i, 1] * r[i, 1] <= far(left, i, right, j) + 1e-9)
  check_same('inputs unchanged', (left, right), old)


@proof(left=Arr(('m>=1', 2), -4, 4), right=Arr(('n>=1', 2), -4, 4), i=Int(0))
def to_an_atom(left, right, i):
  require(index(i) < left.shape[0])
  r = alignment.get_offsets(left, right)
  x, y = left[i, 0] + r[i, 0], left[i, 1] + r[i, 1]
  check('to an atom', np.any(abs(right[:, 0] - x) + abs(right[:, 1] - y) <= 1e-9))


@proof(left=Arr(('m>=1', 2), -4, 4), right=Arr(('n>=1', 2), -4, 4), limit=Real(0, 4), i=Int(0))
def masked(left, right, limit, i):
  every = alignment.get_offsets(left, right)
  kept = every[np.linalg.norm(every, axis=-1) < limit]
  check_same('those nearer than the limit', alignment.get_offsets(left, right, limit), kept)


@proof(old=Arr(('m>=1', 2), -4, 4), new=Arr(('n>=1', 2), -4, 4),
       numbers=Arr(('m>=1',), among=(6, 14)), j=Int(0))
def numbers(old, new, numbers, j):
  require(index(j) < new.shape[0])
  r = alignment.propagate_atomic_numbers(old, new, numbers)
  check('one for every atom', r.shape == (new.shape[0],))
  d = np.linalg.norm(old[:, None] - new[None], axis=-1)
  mine = (d.argmin(-1) == j) & (d.min(-1) < 0.8)
  if np.any(mine):
    check('that of an atom nearest to it', np.any(mine & (numbers == r[j])))
  else:
    check('carbon otherwise', r[j] == 6)


@proof(old=Arr(('m>=1', 2), -4, 4), new=Arr(('n>=1', 2), -4, 4),
       numbers=Arr(('m>=1',), among=(6, 14)))
def numbers_read(old, new, numbers):
  before = snapshot((old, new, numbers))
  alignment.propagate_atomic_numbers(old, new, numbers)
  check_same('inputs unchanged', (old, new, numbers), before)


def drifted(new, ref, kinds, ref_kinds, start, limit, steps):
  """What the closest-point iteration is to give, and whether a shift was cut."""
  d = start
  for _ in range(steps):
    parts = []
    for c in (0, 1):
      if np.any(kinds == c):
        parts.append(alignment.get_offsets(new[kinds == c] + d, ref[ref_kinds == c]))
    every = np.concatenate(parts)
    d = d + every.mean(axis=0)
    size = np.linalg.norm(d)
    if size > limit:
      d = d * limit / size
  return d


def drift_case(new, ref, kinds, ref_kinds, start, limit, steps):
  old = snapshot((new, ref, kinds, ref_kinds, start))
  r = alignment.align_latest(new, ref, kinds, ref_kinds, iterations=steps, max_shift=limit,
                             init_shift=start)
  check('a vector', r.shape == (2,))
  check('never more than the greatest shift', r[0] * r[0] + r[1] * r[1] <= limit * limit + 1e-6)
  want = drifted(new, ref, kinds, ref_kinds, start, limit, steps)
  check('the mean offset within the classes', approx((r[0], r[1]), (want[0], want[1])))
  check_same('inputs unchanged', (new, ref, kinds, ref_kinds, start), old)


@proof(bound='one iteration, two atoms and two to align with', new=Arr((2, 2), -3, 3),
       ref=Arr((2, 2), -3, 3), start=Opt(Arr((2,), -1, 1)), limit=Real(0.1, 4), two=Bool())
def drift(new, ref, start, limit, two):
  kinds = np.asarray([0, 1 if two else 0])
  r = alignment.align_latest(new, ref, kinds, kinds, iterations=1, max_shift=limit,
                             init_shift=start)
  check('never more than the greatest shift', r[0] * r[0] + r[1] * r[1] <= limit * limit + 1e-6)
  want = drifted(new, ref, kinds, kinds, np.zeros(2) if start is None else start, limit, 1)
  check('the mean offset within the classes', approx((r[0], r[1]), (want[0], want[1])))


@proof(bound='two iterations, one atom and two to align with', new=Arr((1, 2), -3, 3),
       ref=Arr((2, 2), -3, 3), start=Arr((2,), -1, 1), limit=Real(0.1, 4))
def drift_unchanged(new, ref, start, limit):
  """The initial shift is the caller's, and so is the default one."""
  kinds, ref_kinds = np.asarray([0]), np.asarray([0, 0])
  old = snapshot((new, ref, start))
  alignment.align_latest(new, ref, kinds, ref_kinds, iterations=2, max_shift=limit,
                         init_shift=start)
  check_same('inputs unchanged', (new, ref, start), old)
  a = alignment.align_latest(new, ref, kinds, ref_kinds, iterations=1, max_shift=limit)
  b = alignment.align_latest(new, ref, kinds, ref_kinds, iterations=1, max_shift=limit)
  check_same('the same again', a, b)


@bounded(new=Arr(('n>=1', 2), -3, 3), ref=Arr(('m>=2', 2), -3, 3), start=Arr((2,), -1, 1),
         limit=Real(0.1, 4), steps=Int(1, 4), seed=Int(0, 10**6))
def drifts(new, ref, start, limit, steps, seed):
  r = np.random.default_rng(seed)
  kinds = r.integers(0, 2, size=len(new))
  ref_kinds = r.integers(0, 2, size=len(ref))
  ref_kinds[:2] = (0, 1)
  drift_case(new, ref, kinds, ref_kinds, start, limit, steps)


def merged(lists, cutoff):
  old = snapshot(lists)
  positions, counts = alignment.naive_merge(lists, cutoff)
  check_same('inputs unchanged', lists, old)
  n, x, y = 0, 0.0, 0.0
  for c in lists:
    for i in range(c.shape[0]):
      n, x, y = n + 1, x + c[i, 0], y + c[i, 1]
  m, u, v = 0, 0.0, 0.0
  check('one count for every atom', counts.shape == (positions.shape[0],))
  for i in range(positions.shape[0]):
    check('made of at least one', counts[i] >= 1)
    m = m + counts[i]
    u, v = u + counts[i] * positions[i, 0], v + counts[i] * positions[i, 1]
  check('every atom counted once', m == n)
  check('each at the mean of its atoms', approx((u, v), (x, y), 1e-6))


@proof(bound='two lists of up to two atoms', a=Arr((2, 2), -3, 3), b=Arr((2, 2), -3, 3),
       cutoff=Real(0.1, 3), one=Bool())
def merge(a, b, cutoff, one):
  merged([a, b[:1] if one else b], cutoff)


@bounded(lists=SeqOf(Arr(('n', 2), -3, 3), 'k>=1'), cutoff=Real(0.1, 3))
def merges(lists, cutoff):
  require(any(len(c) for c in lists))
  merged(list(lists), cutoff)


@bounded(n=Int(3, 5), m=Int(3, 5), x=Real(-3, 3), y=Real(-3, 3), turn=Real(0, 6),
         seed=Int(0, 10**6), limit=Real(0.1, 2), cliques=Bool(), samples=25)
def filtered(n, m, x, y, turn, seed, limit, cliques):
  """A lattice seen twice, and then where it moved by (x, y)."""
  a = 1.42 * np.asarray([[1.5, np.sqrt(3) / 2], [1.5, -np.sqrt(3) / 2]])
  p = np.concatenate([np.asarray([i, j]) @ a + np.asarray([[0.0, 0.0], [1.42, 0.0]])
                      for i in range(n) for j in range(m)])
  p = p @ np.asarray([[np.cos(turn), np.sin(turn)], [-np.sin(turn), np.cos(turn)]])
  z = np.random.default_rng(seed).choice([6, 14], size=len(p))
  first = mu.AtomicGridMaterialFrame(mu.AtomicGrid(p, z))
  second = mu.AtomicGridMaterialFrame(mu.AtomicGrid(p + np.asarray([x, y]), z))
  old = snapshot((first, second))
  filtering = alignment.IterativeAlignmentFiltering(
      clique_merging=cliques, merge_cutoff=0.7, max_shift=limit)
  for _ in range(2):
    g, d = filtering(first)
    check_same('the first as it is', g, first)
    check_same('which did not move', d, np.zeros(2))
    g, d = filtering(first)
    check('nor did it the second time', approx((d[0], d[1]), (0.0, 0.0), 1e-6))
    order = [int(np.argmin(np.linalg.norm(g.atom_positions - q, axis=-1))) for q in p]
    check('every atom once', sorted(order) == list(range(len(p))) and len(g.atomic_numbers) == len(p))
    check('where it was', bool(np.all(abs(g.atom_positions[order] - p) < 1e-6)))
    check('and of its species', bool(np.all(g.atomic_numbers[order] == z)))
    g, d = filtering(second)
    check('never more than the greatest shift', d[0] * d[0] + d[1] * d[1] <= limit * limit + 1e-6)
    filtering.reset()
  check_same('observations unchanged', (first, second), old)
