"""C10: goals are sampled, and reached, by the documented rule."""
import datetime as dt

import numpy as np
from putting_dune import constants
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *
from contracts.parts import *

ViewT = Arr(('n>=1', 2), 0, 1)
BOND = constants.CARBON_BOND_DISTANCE_ANGSTROMS


class Chooser(StandIn):
  """A random generator that picks any of the candidates."""

  def __init__(self):
    self.asked = 0
    self.size = -1
    self.picked = 0

  def choice(self, a, size=None, replace=True, p=None):
    check('every valid goal is as likely as any other', p is None)
    if np.ndim(a) == 0:
      return self.pick(a)
    return a[self.pick(len(a))]

  def integers(self, low, high=None, size=None):
    if high is None:
      return self.pick(low)
    return low + self.pick(high - low)

  def pick(self, n):
    self.asked = self.asked + 1
    self.size = n
    k = fresh(Int(0))
    require(index(k) < n)
    self.picked = k
    return k


def seen(pos, k, f, elapsed):
  return mu.MicroscopeObservation(
      silicon_grid(pos, k), f, (), dt.timedelta(seconds=elapsed))


def d2(pos, k, i, w, h):
  return ((pos[i, 0] - pos[k, 0]) * w) * ((pos[i, 0] - pos[k, 0]) * w) + (
      (pos[i, 1] - pos[k, 1]) * h) * ((pos[i, 1] - pos[k, 1]) * h)


@proof(pos=ViewT, k=Int(0), f=FovT, lo=Real(0, 3), more=Real(0.1, 60), given=Bool())
def reset(pos, k, f, lo, more, given):
  n = pos.shape[0]
  require(index(k) < n)
  hi = lo + more
  g = goals.SingleSiliconGoalReaching()
  if given:
    g.goal_range_angstroms = (lo, hi)
  else:
    lo = 0.1
    hi = 50
  o = seen(pos, k, f, 2.0)
  old = snapshot(o)
  w = f.upper_right.x - f.lower_left.x
  h = f.upper_right.y - f.lower_left.y
  dx = (pos[:, 0] - pos[k, 0]) * w
  dy = (pos[:, 1] - pos[k, 1]) * h
  d = np.sqrt(dx * dx + dy * dy)
  ok = (d < hi) & (d > lo)
  rng = Chooser()
  if np.any(ok):
    g.reset(rng, o)
    candidates = pos[ok]
    check('one draw, among all atoms in range', all_of(
        rng.asked == 1, rng.size == candidates.shape[0]))
    m = g.goal_position_material_frame
    c = g.current_goal
    check('the goal is a point', m.shape == (2,))
    check('the current goal is the goal', approx((c.x, c.y), (m[0], m[1])))
    at = candidates[rng.picked]
    check('the goal is an atom in range, in the material frame', approx(
        (m[0], m[1]),
        (f.lower_left.x + at[0] * w, f.lower_left.y + at[1] * h)))
  else:
    check('no atom in range is an error', raises(RuntimeError, g.reset, rng, o))
  check_same('observation unchanged', o, old)


@proof(g=GridT, f=FovT)
def no_silicon(g, f):
  n = g.atomic_numbers.shape[0]
  require_all(n, lambda i: g.atomic_numbers[i] == 6)
  o = mu.MicroscopeObservation(g, f, (), dt.timedelta(seconds=2))
  goal = goals.SingleSiliconGoalReaching()
  check('no silicon is an error', raises(
      graphene.SiliconNotFoundError, goal.reset, np.random.default_rng(0), o))
  check('no silicon is an error', raises(
      graphene.SiliconNotFoundError, goal.calculate_reward_and_terminal, o))


@proof(pos=ViewT, k=Int(0), f=FovT, goal=Arr((2,), -50, 50), elapsed=Real(0, 1000),
       near=Real(-2, 2), near_y=Real(-2, 2), aim=Bool())
def reward(pos, k, f, goal, elapsed, near, near_y, aim):
  require(index(k) < pos.shape[0])
  w = f.upper_right.x - f.lower_left.x
  h = f.upper_right.y - f.lower_left.y
  x = f.lower_left.x + pos[k, 0] * w
  y = f.lower_left.y + pos[k, 1] * h
  if aim:  # Sampled goals are seldom close.
    goal = np.asarray([x + near, y + near_y])
  g = goals.SingleSiliconGoalReaching()
  g.goal_position_material_frame = goal
  o = seen(pos, k, f, elapsed)
  old = snapshot(o)
  d = (x - goal[0]) * (x - goal[0]) + (y - goal[1]) * (y - goal[1])
  require(any_of(d <= BOND * BOND / 4 - 1e-5, d >= BOND * BOND / 4 + 1e-5))
  r = g.calculate_reward_and_terminal(o)
  check('reached iff within half a bond length', iff(r.is_terminal, d < BOND * BOND / 4))
  check('never truncated', not r.is_truncated)
  t = seconds(o.elapsed_time)
  check('the reward for reaching it is discounted over the time of the step', implies(
      r.is_terminal, approx(r.reward, constants.GAMMA_PER_SECOND ** t)))
  check('no reward otherwise', implies(not r.is_terminal, r.reward == 0.0))
  check_same('observation unchanged', o, old)
  check_same('goal kept', g.goal_position_material_frame, goal)
  # Asked again about a silicon elsewhere: decided afresh.
  q = g.calculate_reward_and_terminal(o)
  check('decided afresh at every step', iff(q.is_terminal, r.is_terminal))


@proof(pos=ViewT, k=Int(0), f=FovT, g=FovT, rng=Rng(), elapsed=Real(0, 100))
def goal_follows_the_material(pos, k, f, g, rng, elapsed):
  """A goal is a place in the material: the view may move without moving it."""
  require(index(k) < pos.shape[0])
  m = f.microscope_frame_to_material_frame(pos[k])
  u = g.material_frame_to_microscope_frame(m)
  other = pos.copy()
  other[k] = u
  goal = goals.SingleSiliconGoalReaching()
  goal.goal_position_material_frame = np.asarray([m[0] + 0.3, m[1] - 0.2])
  a = goal.calculate_reward_and_terminal(seen(pos, k, f, elapsed))
  b = goal.calculate_reward_and_terminal(seen(other, k, g, elapsed))
  check('reached, from whichever view', all_of(a.is_terminal, b.is_terminal))
  check('the same reward', approx(a.reward, b.reward))
