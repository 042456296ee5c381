"""C06: rate functions propose the three neighbours with the documented rates."""
import os
import tempfile

import numpy as np
from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *
from contracts.parts import *

PosT = Arr(('n>=4', 2), -30, 30)


def d2(p, q, i):
  return (p[i, 0] - q[0]) * (p[i, 0] - q[0]) + (p[i, 1] - q[1]) * (p[i, 1] - q[1])


def separated(pos, s):
  """The silicon is an atom and no other atom sits on it."""
  n = pos.shape[0]
  require(s < n)
  q = pos[index(s)]
  require_all(n, lambda i: any_of(i == s, d2(pos, q, i) >= 0.01))


def check_successors(rates, pos, s, idx):
  """Three successors: the silicon trades places with one of its neighbours."""
  n = pos.shape[0]
  check('three successors', len(rates.successor_states) == 3)
  for k in range(3):
    g = rates.successor_states[k].grid
    check_same('atoms stay where they are', g.atom_positions, pos)
    check('the silicon moves to a neighbour, all else is carbon',
          all_of(g.atomic_numbers.shape == (n,), idx[k] >= 0, idx[k] < n, idx[k] != s))
    check_same('the silicon moves to a neighbour, all else is carbon',
               g.atomic_numbers, one_silicon(n, idx[k]))
  check('three different neighbours',
        all_of(idx[0] != idx[1], idx[0] != idx[2], idx[1] != idx[2]))
  far = d2(pos, pos[s], idx[2])
  check_all('no other atom is nearer', n, lambda i: any_of(
      i == s, i == idx[0], i == idx[1], i == idx[2], d2(pos, pos[s], i) >= far - 1e-6))


class Canonical:
  """An arbitrary canonical rate predictor, which records what it is asked."""

  def __init__(self, lo):
    self.lo = lo
    self.calls = 0

  def __call__(self, grid, beam_position, silicon_position, neighbor_indices):
    self.calls = self.calls + 1
    self.grid = grid
    self.beam = beam_position
    self.si = silicon_position
    self.idx = neighbor_indices
    self.rates = fresh(Arr((3,), self.lo, 50))
    return self.rates


@proof(pos=PosT, s=Int(0), p=PointT)
def predictor(pos, s, p):
  separated(pos, s)
  grid = silicon_grid(pos, s)
  old = snapshot(grid)
  fn = Canonical(0)
  rates = graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=fn)(grid, p)
  check('asked once', fn.calls == 1)
  check_same('asked about the grid', fn.grid, old)
  check('asked about the beam position', approx((fn.beam.x, fn.beam.y), (p.x, p.y)))
  check('asked about the silicon', approx(fn.si, pos[s]))
  check('asked about three atoms', fn.idx.shape == (3,))
  check_successors(rates, pos, s, fn.idx)
  for k in range(3):
    check('rates are the predicted ones, to float32',
          rates.successor_states[k].rate == np.float32(fn.rates[k]))
    check('rates are not negative', rates.successor_states[k].rate >= 0)
  check('total rate', approx(rates.total_rate, rates.successor_states[0].rate
                             + rates.successor_states[1].rate + rates.successor_states[2].rate))
  check_same('grid unchanged', grid, old)


@proof(pos=PosT, s=Int(0), p=PointT)
def negative_rates(pos, s, p):
  separated(pos, s)
  fn = Canonical(-50)
  predictor = graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=fn)
  bad = raises(AssertionError, predictor, silicon_grid(pos, s), p)
  low = np.float32(np.min(fn.rates))
  check('negative rates are refused', iff(bad, any_of(
      np.float32(fn.rates[0]) < 0, np.float32(fn.rates[1]) < 0, np.float32(fn.rates[2]) < 0)))


@proof(pos=PosT, s=Int(0), p=PointT, size=OneOf(1, 2, 4))
def wrong_number_of_rates(pos, s, p, size):
  separated(pos, s)
  predictor = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=lambda *a: np.ones((size,)))
  check('one rate per neighbour', raises(AssertionError, predictor, silicon_grid(pos, s), p))


@proof(pos=PosT, s=Int(0), p=PointT, a=Int(0), b=Int(0), c=Int(0))
def simple_rates(pos, s, p, a, b, c):
  n = pos.shape[0]
  require(all_of(s < n, a < n, b < n, c < n))
  idx = np.asarray([a, b, c])
  r = graphene.simple_canonical_rate_function(silicon_grid(pos, s), p, pos[s], idx)
  check('three rates', r.shape == (3,))
  bond = constants.CARBON_BOND_DISTANCE_ANGSTROMS
  q = (p.x, p.y)
  for k in range(3):
    check('one over one plus sixteen squared bond lengths',
          approx(r[k] * (1 + 16 * d2(pos, q, idx[k]) / (bond * bond)), 1))
    check('at most one', all_of(r[k] > 0, r[k] <= 1))


@proof(pos=PosT, s=Int(0), p=PointT, a=Int(0), b=Int(0), c=Int(0), k=OneOf(0, 1, 2))
def human_prior(pos, s, p, a, b, c, k):
  n = pos.shape[0]
  require(all_of(s < n, a < n, b < n, c < n))
  idx = np.asarray([a, b, c])
  for i in range(3):
    require(d2(pos, pos[s], idx[i]) >= 0.01)
  r = graphene.HumanPriorRatePredictor().predict(silicon_grid(pos, s), p, pos[s], idx)
  top = constants.SIGR_PRIOR_MAX_RATE
  check('three rates', r.shape == (3,))
  check('between zero and the maximum', all_of(r[k] >= 0, r[k] <= top + 1e-6))


@proof(pos=PosT, s=Int(0), a=Int(0), b=Int(0), c=Int(0), which=OneOf('first', 'second', 'third'))
def human_prior_peak(pos, s, a, b, c, which):
  n = pos.shape[0]
  require(all_of(s < n, a < n, b < n, c < n))
  idx = np.asarray([a, b, c])
  for i in range(3):
    require(d2(pos, pos[s], idx[i]) >= 0.01)
  # The beam sits 0.85 bond lengths from the silicon towards neighbour k.
  k = 0
  if which == 'second':
    k = 1
  elif which == 'third':
    k = 2
  v = pos[idx[k]] - pos[s]
  far = constants.CARBON_BOND_DISTANCE_ANGSTROMS * constants.SIGR_PRIOR_RATE_MEAN[0]
  t = np.arctan2(v[1], v[0])
  beam = point(pos[s, 0] + far * np.cos(t), pos[s, 1] + far * np.sin(t))
  r = graphene.HumanPriorRatePredictor().predict(silicon_grid(pos, s), beam, pos[s], idx)
  check('highest just short of the neighbour',
        approx(r[k], constants.SIGR_PRIOR_MAX_RATE, 1e-3))


MixT = Build(
    lambda m, w, l, v: graphene.GaussianMixtureRateFunction(m, w, l, v),
    Real(0.1, 2), Arr(('m>=1',), 0.05, 1), Arr(('m>=1',), -1, 2), Arr(('m>=1', 2), 0.2, 3))


def density(x, y, a, b):
  """Normal density at (x, y) along the axes of variances a, b."""
  return np.exp(-(x * x / a + y * y / b) / 2) / (2 * np.pi * np.sqrt(a * b))


@bounded(f=MixT, pos=Arr(('n>=5', 2), -6, 6), s=Int(0, 4), p=Build(point, Real(-4, 4), Real(-4, 4)),
         samples=150)
def mixture(f, pos, s, p):
  separated(pos, s)
  grid = silicon_grid(pos, s)
  old = snapshot(grid)
  rates = f(grid, p)
  idx = [int(np.argmax(x.grid.atomic_numbers)) for x in rates.successor_states]
  check_successors(rates, pos, s, idx)
  top = np.max(f.mixture_weights * density(0, 0, f.variances[:, 0], f.variances[:, 1]))
  for k in range(3):
    v = pos[idx[k]] - pos[s]
    e = v / np.sqrt(np.sum(v * v))
    want = 0.0
    for j in range(len(f.mixture_weights)):
      o = np.asarray([p.x, p.y]) - pos[s] - v * f.loc_distances[j]
      want = want + f.mixture_weights[j] * density(
          o[0] * e[0] + o[1] * e[1], o[1] * e[0] - o[0] * e[1], f.variances[j, 0],
          f.variances[j, 1])
    check('the mixture density, scaled to the maximum rate',
          approx(rates.successor_states[k].rate, want * f.max_rate / top, 1e-5))
  check_same('grid unchanged', grid, old)


@bounded(f=MixT)
def mixture_saved(f):
  with tempfile.TemporaryDirectory() as d:
    f.serialize_to_directory(d)
    g = graphene.GaussianMixtureRateFunction.deserialize_from_directory(d)
  check('read back', all_of(approx(g.max_rate, f.max_rate),
                            approx(g.mixture_weights, f.mixture_weights),
                            approx(g.loc_distances, f.loc_distances),
                            approx(g.variances, f.variances)))
  check('equal to the one saved', g == f)


@proof(f=MixT, e=Real(-1, 1), k=OneOf(0, 1, 2, 3), i=Int(0), j=OneOf(0, 1))
def mixture_equality(f, e, k, i, j):
  require(index(i) < f.mixture_weights.shape[0])
  require(any_of(e >= 0.0011, e <= -0.0011, all_of(e <= 0.0009, e >= -0.0009)))
  w = f.mixture_weights.copy()
  l = f.loc_distances.copy()
  v = f.variances.copy()
  r = f.max_rate
  if k == 0:
    w[i] = w[i] + e
  elif k == 1:
    l[i] = l[i] + e
  elif k == 2:
    v[i, j] = v[i, j] + e
  else:
    r = r + e
  g = graphene.GaussianMixtureRateFunction(r, w, l, v)
  same = all_of(e <= 0.001, e >= -0.001)
  check('equal iff all parameters agree to 1e-3', iff(f == g, same))


@proof(rng=Rng())
def mixture_sampled(rng):
  f = graphene.GaussianMixtureRateFunction.sample_new(rng)
  m = f.mixture_weights.shape[0]
  check('at least one component', m >= 1)
  check('shapes', all_of(f.loc_distances.shape == (m,), f.variances.shape == (m, 2)))
  check('maximum rate', all_of(f.max_rate >= 0.01, f.max_rate <= 1))
  check_all('variances are positive', (m, 2), lambda i, j: f.variances[i, j] > 0)


@proof(g=GridT)
def single_silicon(g):
  old = snapshot(g)
  n = g.atom_positions.shape[0]
  seen = np.any(g.atomic_numbers == 14)
  if seen:
    r = graphene.get_single_silicon_position(g)
    check('a position', r.shape == (2,))
    near = lambda x, y: (x - 0.5) * (x - 0.5) + (y - 0.5) * (y - 0.5)
    check_all('no other silicon is nearer the centre', n, lambda i: implies(
        g.atomic_numbers[i] == 14,
        near(g.atom_positions[i, 0], g.atom_positions[i, 1]) >= near(r[0], r[1]) - 1e-6))
    check('it is a silicon', np.any((g.atomic_numbers == 14) & (g.atom_positions[:, 0] == r[0])
                                    & (g.atom_positions[:, 1] == r[1])))
  else:
    check('no silicon is an error', raises(
        graphene.SiliconNotFoundError, graphene.get_single_silicon_position, g))
  check_same('grid unchanged', g, old)
