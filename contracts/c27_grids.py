"""C27: atomic grids compare equal by the atoms they hold, in whatever order."""
import numpy as np
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *

AtomsT = Arr(('n', 2), -4, 4)
KindsT = Arr(('n',), among=(6, 14))
OthersT = Arr(('m', 2), -4, 4)
OtherKindsT = Arr(('m',), among=(6, 14))


def distance(p, i, q, j):
  """The squared distance of atom i of p from atom j of q."""
  return (q[j, 0] - p[i, 0]) * (q[j, 0] - p[i, 0]) + (q[j, 1] - p[i, 1]) * (q[j, 1] - p[i, 1])


def shuffled(p, z, q, y, w, rng):
  """For samples: the second grid is mostly the first one in another order, perhaps spoiled."""
  if symbolic:
    return q, y, w
  what = rng.integers(0, 7)
  if what == 0 or len(p) == 0:
    return q, y, np.zeros(len(q), dtype=int)
  w = rng.permutation(len(p))
  q, y = p[w] + rng.uniform(-5e-4, 5e-4, size=p.shape), z[w]
  if what == 1:
    q[0, 0] = q[0, 0] + 2e-3
  if what == 2:
    y[0] = 20 - y[0]
  if what == 3:
    y = np.roll(y, 1)
  return q, y, w


def some_order(turn, swap):
  """Each of the six orders of three atoms."""
  if turn == 0:
    return [1, 0, 2] if swap else [0, 1, 2]
  if turn == 1:
    return [2, 1, 0] if swap else [1, 2, 0]
  return [0, 2, 1] if swap else [2, 0, 1]


@proof(p=AtomsT, z=KindsT, q=OthersT, y=OtherKindsT, j=Int(0), rng=Rng())
def equal(p, z, q, y, j, rng):
  q, y, _ = shuffled(p, z, q, y, None, rng)
  same = mu.AtomicGrid(p, z) == mu.AtomicGrid(q, y)
  if same:
    check('as many atoms', p.shape[0] == q.shape[0])
    for i in ([index(j)] if symbolic else range(q.shape[0])):
      if i < q.shape[0]:
        check('each of them is one of the other', np.any(
            (np.hypot(p[:, 0] - q[i, 0], p[:, 1] - q[i, 1]) <= 1e-3) & (z == y[i])))


@proof(p=AtomsT, z=KindsT, q=OthersT, y=OtherKindsT, rng=Rng())
def in_order(p, z, q, y, rng):
  """Unbounded: any number of atoms that come in the same order."""
  if not symbolic and rng.integers(0, 3):
    q, y = p + rng.uniform(-6e-4, 6e-4, size=p.shape), z
  old = snapshot((p, z, q, y))
  same = mu.AtomicGrid(p, z) == mu.AtomicGrid(q, y)
  check_same('inputs unchanged', (p, z, q, y), old)
  if p.shape[0] != q.shape[0]:
    check('not as many', not same)
  else:
    # Atom j of the second is atom j of the first, and no other of these is near.
    require_all(q.shape[0], lambda j: all_of(z[j] == y[j], distance(p, j, q, j) <= 1e-6))
    require_all((p.shape[0], q.shape[0]), lambda i, j: any_of(i == j, distance(p, i, q, j) > 1e-6))
    check('the same atoms', same)


@proof(bound='two atoms the other way round', p=Arr((2, 2), -4, 4), z=Arr((2,), among=(6, 14)),
       q=Arr((2, 2), -4, 4), rng=Rng())
def same_atoms(p, z, q, rng):
  if not symbolic:
    q = p[::-1] + rng.uniform(-7e-4, 7e-4, size=(2, 2))
  for j in range(2):
    require(distance(p, index(1 - j), q, j) <= 1e-6)
    require(distance(p, index(j), q, j) > 1e-6)
  first, second = mu.AtomicGrid(p, z), mu.AtomicGrid(q, z[[1, 0]])
  old = snapshot((p, z, q))
  check('the same atoms', first == second)
  check_same('inputs unchanged', (p, z, q), old)


@proof(bound='grids of three atoms', p=Arr((3, 2), -4, 4), z=Arr((3,), among=(6, 14)),
       turn=Int(0, 2), swap=Bool())
def hashes(p, z, turn, swap):
  """The order of the atoms does not matter for the hash."""
  order = some_order(turn, swap)
  check('hash alike', mu.AtomicGrid(p, z).__hash__() == mu.AtomicGrid(p[order], z[order]).__hash__())


@bounded(samples=300, n=Int(0, 12), rng=Rng())
def many(n, rng):
  """Sampled: larger grids, in any order; one atom too far, of another kind, or missing."""
  p = rng.uniform(-9, 9, size=(n, 2))
  z = rng.choice([6, 14], size=n)
  order = rng.permutation(n)
  q, y = p[order], z[order]
  grid = mu.AtomicGrid(p, z)
  check('no order', grid == mu.AtomicGrid(q, y) and hash(grid) == hash(mu.AtomicGrid(q, y)))
  if n:
    j = int(rng.integers(n))
    far = q.copy()
    far[j, 0] += 0.002
    check('moved', n == 0 or not grid == mu.AtomicGrid(far, y))
    other = y.copy()
    other[j] = 20 - other[j]
    check('another kind', not grid == mu.AtomicGrid(q, other))
    if (np.roll(y, 1) != y).any():
      check('kinds exchanged', not grid == mu.AtomicGrid(q, np.roll(y, 1)))
    check('missing', not grid == mu.AtomicGrid(np.delete(q, j, 0), np.delete(y, j)))
