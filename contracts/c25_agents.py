"""C25: the greedy agent aims at the neighbour nearest to the goal."""
import dm_env
import numpy as np
from putting_dune.agents import agent_lib
from vdsl import *
from contracts.common import *

ObservationT = Arr((10,), -4, 4)
PointT = Arr((2,), -4, 4)


class Noise(StandIn):
  """A generator whose standard normal numbers are given."""

  def __init__(self, values):
    self.values = values
    self.asked = 0

  def normal(self, loc=0.0, scale=1.0, size=None):
    self.asked = self.asked + 1
    check('two numbers', size in (2, (2,)))
    return loc + scale * self.values

  def standard_normal(self, size=None):
    return self.normal(0.0, 1.0, size)


def time_step(o):
  return dm_env.TimeStep(dm_env.StepType.MID, 0.0, 1.0, o)


def gap(o, j):
  """The squared distance of neighbour j from the goal."""
  return ((o[2 + 2 * j] - o[8]) * (o[2 + 2 * j] - o[8]) +
          (o[3 + 2 * j] - o[9]) * (o[3 + 2 * j] - o[9]))


def possible(o):
  """Three neighbours elsewhere, at different distances from the goal."""
  for j in range(3):
    require(o[2 + 2 * j] * o[2 + 2 * j] + o[3 + 2 * j] * o[3 + 2 * j] >= 1e-4)
    for i in range(j):
      require(abs(gap(o, i) - gap(o, j)) >= 1e-6)


def aimed(action, o, aim):
  """Whether the action is aim, turned towards the neighbour nearest to the goal."""
  x, y = o[6], o[7]
  if gap(o, 0) < gap(o, 1) and gap(o, 0) < gap(o, 2):
    x, y = o[2], o[3]
  elif gap(o, 1) < gap(o, 2):
    x, y = o[4], o[5]
  d = np.sqrt(x * x + y * y)
  check('two numbers', action.shape == (2,))
  # Turning by its angle: products with its length.
  check('turned towards the nearest', approx(
      (action[0] * d, action[1] * d), (x * aim[0] - y * aim[1], y * aim[0] + x * aim[1]), 1e-4))


@proof(o=ObservationT, peak=PointT, offset=PointT, noise=PointT, sigma=Real(0, 2))
def greedy(o, peak, offset, noise, sigma):
  possible(o)
  old = snapshot((o, peak, offset))
  agent = agent_lib.GreedyAgent(
      rng=Noise(noise), argmax=peak, fixed_offset=offset, position_noise_sigma=sigma)
  action = agent.step(time_step(o))
  aimed(action, o, (peak[0] + offset[0] + sigma * noise[0],
                    peak[1] + offset[1] + sigma * noise[1]))
  check_same('nothing modified', (o, peak, offset), old)


@proof(o=ObservationT, peak=PointT, offset=PointT, noise=PointT, mode=OneOf(
    agent_lib.AgentMode.TRAIN, agent_lib.AgentMode.EVAL))
def again(o, peak, offset, noise, mode):
  """Neither earlier steps nor the mode matter."""
  for j in range(3):
    require(o[2 + 2 * j] * o[2 + 2 * j] + o[3 + 2 * j] * o[3 + 2 * j] >= 1e-4)
  q = np.asarray([0.5, 0.25, 1.0, 2.0, -2.0, -0.5, 0.5, -1.5, 1.0, 3.0])
  a = agent_lib.GreedyAgent(rng=Noise(noise), argmax=peak, fixed_offset=offset,
                            position_noise_sigma=1.0)
  b = agent_lib.GreedyAgent(rng=Noise(noise), argmax=peak, fixed_offset=offset,
                            position_noise_sigma=1.0)
  a.step(time_step(q))
  a.set_mode(mode)
  check_same('the same action', a.step(time_step(o)), b.step(time_step(o)))


@proof(o=ObservationT)
def defaults(o):
  possible(o)
  agent = agent_lib.GreedyAgent(rng=Noise(np.zeros(2)))
  aimed(agent.step(time_step(o)), o, (1.42, 0.0))


@proof(kind=OneOf('none'))
def no_aim(kind):
  check('refused', raises(ValueError, lambda: agent_lib.GreedyAgent(argmax=None)))


@proof(o=ObservationT, peak=PointT, rng=Rng())
def without_noise(o, peak, rng):
  possible(o)
  agent = agent_lib.GreedyAgent(rng=rng, argmax=peak)
  aimed(agent.step(time_step(o)), o, (peak[0], peak[1]))


def searched(n, low, high, a, b, c):
  """The agent aims at the point of the grid with the greatest score."""
  def score(x, y):
    return a * x + b * y + c * x * y

  def transition(p):
    return np.asarray([score(p[0], p[1]), 0.0 - score(p[0], p[1]), 1.0])

  agent = agent_lib.GreedyAgent(
      rng=Noise(np.zeros(2)), transition_function=transition, argmax=None,
      argmax_resolution=(high - low) / (n + 0.5), low=low, high=high)
  # With the nearest neighbour to the right, the aim is not turned.
  aim = agent.step(time_step(np.asarray([0.5, 0.5, 2.0, 0.0, -1.0, 1.0, -1.0, -1.0, 3.0, 0.0])))
  among = []
  for i in range(n):
    for j in range(n):
      x = low + i * (high - low) / (n - 1)
      y = low + j * (high - low) / (n - 1)
      check('none is better', score(aim[0], aim[1]) >= score(x, y) - 1e-4)
      among.append(all_of(close(aim[0], x, 1e-4), close(aim[1], y, 1e-4)))
  check('a point of the grid', any_of(*among))


@proof(bound='grids of two or three points a side', more=Bool(), wide=Bool(), a=Real(-2, 2),
       b=Real(-2, 2), c=Real(-2, 2))
def search(more, wide, a, b, c):
  if more:
    searched(3, -1.0, 2.0, a, b, c)
  elif wide:
    searched(2, -5.0, 5.0, a, b, c)
  else:
    searched(2, 0.0, 1.0, a, b, c)


@bounded(n=Int(2, 12), low=Real(-5, 0), size=Real(1, 6), a=Real(-2, 2), b=Real(-2, 2), c=Real(-2, 2),
         samples=60)
def larger(n, low, size, a, b, c):
  searched(n, low, low + size, a, b, c)


@proof(rng=Rng(), low=Real(-4, 4), size=Real(0.1, 5), mode=OneOf(
    agent_lib.AgentMode.TRAIN, agent_lib.AgentMode.EVAL))
def uniform(rng, low, size, mode):
  agent = agent_lib.UniformRandomAgent(rng, low, low + size, (2,))
  agent.set_mode(mode)
  a = agent.step(time_step(np.zeros(10)))
  b = agent.step(time_step(np.ones(10)))
  for x in (a, b):
    check('as many as asked for', x.shape == (2,))
    for j in range(2):
      check('within the bounds', all_of(x[j] >= low, x[j] <= low + size))


@proof(rng=Rng(), low=Arr((2,), -4, 0), high=Arr((2,), 1, 4))
def uniform_bounds(rng, low, high):
  """Bounds may differ between the parts of the action."""
  a = agent_lib.UniformRandomAgent(rng, low, high, (2,)).step(time_step(np.zeros(10)))
  for j in range(2):
    check('within the bounds', all_of(a[j] >= low[j], a[j] <= high[j]))
