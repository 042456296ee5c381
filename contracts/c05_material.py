"""C05: the dynamics of the graphene sheet under the beam."""
import datetime as dt

import numpy as np
from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *
from contracts.parts import *


class World:
  """What the rate function, the dice and the observer of one exposure see."""

  def __init__(self, grid, si, dwell, beam):
    self.positions = grid.atom_positions
    self.si = si               # index of the silicon atom
    self.grid = grid           # the grid the material must be showing
    self.dwell = dwell
    self.beam = beam
    self.total = 0.0           # time drawn so far (seconds)
    self.draws = 0
    self.seen = 0              # transitions observed
    self.proposed = None       # successor indices proposed last
    self.grids = None
    self.rates = None
    self.chosen = 0


class RateFn:
  """An arbitrary rate function: three successors, positive total rate."""

  def __init__(self, w):
    self.w = w

  def __call__(self, grid, beam_position):
    w = self.w
    n = w.positions.shape[0]
    check_same('rates are computed for the grid shown', grid, w.grid)
    check('rates are computed for the beam position',
          approx((beam_position.x, beam_position.y), (w.beam.x, w.beam.y)))
    a = fresh(Int(0, 4))
    b = fresh(Int(0, 4))
    c = fresh(Int(0, 4))
    require(all_of(a < n, b < n, c < n))
    v = fresh(Arr((3,), 0, 50, 'float32'))
    r = [v[0], v[1], v[2]]
    require(v[0] + v[1] + v[2] >= 0.01)
    w.proposed = [a, b, c]
    w.rates = r
    w.grids = [silicon_grid(w.positions, k) for k in w.proposed]
    return graphene.Rates([graphene.SuccessorState(g, x) for g, x in zip(w.grids, r)])


def in_microseconds(t):
  return seconds(dt.timedelta(seconds=t))


class Dice(StandIn):
  """A random generator whose draws are arbitrary and whose laws are checked."""

  def __init__(self, w):
    self.w = w

  def exponential(self, scale=1.0, size=None):
    w = self.w
    check('the exposure continues only within the dwell time', w.total < w.dwell)
    check('every transition due so far happened', w.seen == w.draws)
    check('the waiting time has the total rate',
          approx(scale * (w.rates[0] + w.rates[1] + w.rates[2]), 1.0, 1e-4))
    e = in_microseconds(fresh(Real(0.001, 8000)))
    w.draws = w.draws + 1
    w.total = in_microseconds(w.total + ite(e < 3600, e, 3600))
    return e

  def choice(self, a, size=None, replace=True, p=None):
    w = self.w
    t = w.rates[0] + w.rates[1] + w.rates[2]
    check('one of the three successors', (a if np.ndim(a) == 0 else len(a)) == 3)
    check('chosen with probability proportional to its rate', all_of(
        approx(p[0] * t, w.rates[0], 1e-4), approx(p[1] * t, w.rates[1], 1e-4),
        approx(p[2] * t, w.rates[2], 1e-4)))
    k = fresh(OneOf(0, 1, 2))
    require(p[k] > 0)
    w.chosen = k
    return k if np.ndim(a) == 0 else a[k]


class Watch(mu.SimulatorObserver):

  def __init__(self, w):
    self.w = w

  def observe_transition(self, time_since_control_was_applied, grid):
    w = self.w
    check('observed at the time of the transition',
          approx(seconds(time_since_control_was_applied), w.total))
    check('a transition happens within the dwell time', w.total <= w.dwell + 1e-6)
    w.si = w.proposed[w.chosen]
    w.grid = grid
    w.seen = w.seen + 1
    check_same('the observed grid is the chosen successor', grid,
               silicon_grid(w.positions, w.si))


@proof(pos=Arr(('n>=5', 2), -60, 60), si=Int(0, 4), p=PointT, dwell=Real(0, 30),
       use=[sheet], samples=80)
def apply_control(pos, si, p, dwell):
  dwell = seconds(dt.timedelta(seconds=dwell))
  grid = silicon_grid(pos, si)
  w = World(grid, si, dwell, p)
  m = material_of(grid, RateFn(w))
  n = pos.shape[0]
  invariant('atoms stay where they are', lambda: m.grid.atom_positions == pos)
  invariant('one silicon', lambda: m.grid.atomic_numbers == one_silicon(n, w.si))
  invariant('the silicon is an atom', lambda: all_of(w.si >= 0, w.si < n))
  invariant('ghost positions', lambda: w.grid.atom_positions == pos)
  invariant('ghost numbers', lambda: w.grid.atomic_numbers == one_silicon(n, w.si))
  invariant('transitions up to date', lambda: implies(w.total <= w.dwell, w.seen == w.draws))
  invariant('one draw beyond', lambda: implies(w.total > w.dwell, w.seen == w.draws - 1))
  m.apply_control(Dice(w), mu.BeamControl(p, dt.timedelta(seconds=dwell), 60, 0.1), (Watch(w),))
  check('the exposure lasts for the dwell time', w.total >= w.dwell - 1e-6)
  check('a transition happens iff it is due within the dwell time',
        w.seen == ite(w.total <= w.dwell, w.draws, w.draws - 1))
  check_same('atoms stay where they are', m.grid.atom_positions, pos)
  check_same('exactly one silicon', m.grid.atomic_numbers, one_silicon(n, w.si))
  index(w.si)
  check_same('silicon position', m.get_silicon_position(), pos[w.si])


@proof(n=OneOf(0, 1, 2, 3), use=[sheet])
def needs_reset(n):
  m = graphene.PristineSingleDopedGraphene(grid_columns=6)
  p = point(0.0, 0.0)
  c = mu.BeamControl(p, dt.timedelta(seconds=1.0))
  if n == 0:
    check('refused', raises(RuntimeError, m.get_atoms_in_bounds, p, p))
  elif n == 1:
    check('refused', raises(RuntimeError, m.apply_control, np.random.default_rng(0), c))
  elif n == 2:
    check('refused', raises(RuntimeError, m.get_silicon_position))
  else:
    m.reset(np.random.default_rng(0))
    check('accepted', not raises(RuntimeError, m.get_silicon_position))


@proof(rng=Rng(), columns=Int(4, 50), use=[sheet])
def reset(rng, columns):
  m = graphene.PristineSingleDopedGraphene(grid_columns=columns)
  m.reset(rng)
  n = m.grid.atom_positions.shape[0]
  k = int(np.argmax(m.grid.atomic_numbers))
  check_same('exactly one silicon, all else carbon', m.grid.atomic_numbers, one_silicon(n, k))
  d = np.sum(np.square(m.grid.atom_positions), axis=1)
  check_all('the silicon is the atom nearest the origin', n, lambda i: d[k] <= d[i] + 1e-9)
  check_same('silicon position', m.get_silicon_position(), m.grid.atom_positions[k])


@bounded(rng=Rng(), columns=Int(4, 50), samples=60)
def lattice(rng, columns):
  p = graphene.generate_pristine_graphene(rng, columns)
  bond = constants.CARBON_BOND_DISTANCE_ANGSTROMS
  d = np.sqrt(np.sum(np.square(p[:, None, :] - p[None, :, :]), axis=-1))
  d = d + np.where(np.eye(p.shape[0]) > 0, 1e6, 0.0)
  near = d < bond * 1.01
  check('no two atoms closer than a carbon bond', d >= bond * 0.999)
  check('at most three bonds', np.sum(near, axis=1) <= 3)
  inner = np.max(np.abs(p), axis=1) < columns * bond / 2 / 1.5 - 2 * bond
  check('three bonds away from the edge', np.sum(near, axis=1)[inner] == 3)
  check('centred', np.abs(np.mean(p, axis=0)) <= bond / 2 * 1.4143)
