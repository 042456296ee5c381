"""C18: beam and neighbours are brought to one canonical orientation."""
import numpy as np
from putting_dune.rate_learning import data_utils
from vdsl import *
from contracts.common import *

BeamT = Arr((2,), -4, 4)
NeighborsT = Arr((3, 2), -4, 4)


def sq(x, y):
  return x * x + y * y


def ahead(v, w):
  """How far counter-clockwise from w to v, in [0, 2 pi)."""
  return (np.arctan2(v[1], v[0]) - np.arctan2(w[1], w[0])) % (2 * np.pi)


@proof(beam=BeamT, near=NeighborsT)
def standard(beam, near):
  for j in range(3):
    require(sq(near[j, 0], near[j, 1]) >= 1e-4)
    # The order of neighbours in one direction is left open.
    for i in range(j):
      require(ahead(near[i], near[j]) >= 1e-6)
      require(ahead(near[j], near[i]) >= 1e-6)
  oldb, oldn = snapshot(beam), snapshot(near)
  b, n, order = data_utils.standardize_beam_and_neighbors(beam, near)
  check('shapes', all_of(b.shape == (2,), n.shape == (3, 2), order.shape == (3,)))
  check('a permutation', all_of(
      order[0] >= 0, order[0] <= 2, order[1] >= 0, order[1] <= 2, order[2] >= 0, order[2] <= 2,
      order[0] != order[1], order[0] != order[2], order[1] != order[2]))
  k = 2
  if order[0] == 0:
    k = 0
  elif order[0] == 1:
    k = 1
  x, y = near[k, 0], near[k, 1]
  for j in range(3):
    check('first the neighbour nearest to the beam', sq(x - beam[0], y - beam[1]) <= sq(
        near[j, 0] - beam[0], near[j, 1] - beam[1]) + 1e-9)
  d = np.sqrt(sq(x, y))
  check('it comes to lie to the right', approx((n[k, 0], n[k, 1]), (d, 0.0), 1e-6))
  # Turning by its angle: inner and outer products with it.
  check('the beam is turned with it', approx(
      (b[0] * d, b[1] * d), (x * beam[0] + y * beam[1], x * beam[1] - y * beam[0]), 1e-5))
  for j in range(3):
    check('the neighbours are turned with it', approx(
        (n[j, 0] * d, n[j, 1] * d), (x * near[j, 0] + y * near[j, 1],
                                     x * near[j, 1] - y * near[j, 0]), 1e-5))
  check('then counter-clockwise', ahead(near[order[1]], near[k]) <= ahead(
      near[order[2]], near[k]) + 1e-9)
  check_same('inputs unchanged', (beam, near), (oldb, oldn))
