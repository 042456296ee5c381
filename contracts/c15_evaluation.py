"""C15: evaluation runs every seed once and reports what happened."""
import datetime as dt
import time

import dm_env
import numpy as np
from putting_dune import eval_lib
from putting_dune.agents import agent_lib
from vdsl import *
from contracts.common import *


class Seen:

  def __init__(self):
    self.elapsed_time = dt.timedelta(seconds=0)


class World(StandIn):
  """An environment and an agent; everything that happens in an episode is added up."""

  def __init__(self, seeds, limit):
    self.seeds = seeds
    self.limit = limit
    self.past = []
    self.left = 0.0          # when the environment returned
    self.most = 0.0          # time spent outside the environment
    self.runs = 0            # episodes begun
    self.seeded = -1
    self.actions = 0
    self.clock = 0.0         # simulated time
    self.thinking = 0.0      # time the agent spent
    self.reward = 0.0
    self.ended = False
    self.reached = False
    self.mode = ''
    self.observation = 0.0
    self.action = 0.0
    self.last_microscope_observation = Seen()

  def seed(self, s):
    self.seeded = s

  def tick(self):
    t = dt.timedelta(seconds=fresh(Real(0, 100)))
    self.last_microscope_observation.elapsed_time = t
    self.clock = self.clock + seconds(t)
    self.observation = fresh(Real(-1, 1))

  def finish(self):
    """An episode is over."""
    self.past = self.past + [
        (self.actions, self.reward, self.reached, self.clock,
         self.thinking, self.most)]
    check('ended by the environment or the timeout', any_of(
        self.ended, self.clock + self.most >= self.limit - 1e-4))

  def reset(self):
    if self.runs > 0:
      self.finish()
    check('every episode has the next seed', self.seeded == self.seeds[self.runs])
    check('the agent is evaluated', self.mode == 'eval')
    self.runs = self.runs + 1
    self.actions = 0
    self.clock = 0.0
    self.thinking = 0.0
    self.reward = 0.0
    self.ended = False
    self.reached = False
    self.tick()
    self.most = 0.0
    self.left = time.perf_counter()
    return dm_env.TimeStep(dm_env.StepType.FIRST, 0.0, fresh(Real(0.1, 1)), self.observation)

  def step(self, action):
    check('no step after the end', negate(self.ended))
    check('the action of the agent is taken', action == self.action)
    self.actions = self.actions + 1
    self.most = self.most + (time.perf_counter() - self.left)
    self.tick()
    self.left = time.perf_counter()
    reward = fresh(Real(-1, 1))
    self.reward = self.reward + reward
    self.ended = fresh(Bool())
    if self.ended:
      self.reached = fresh(Bool())
      if self.reached:
        return dm_env.TimeStep(dm_env.StepType.LAST, reward, 0.0, self.observation)
      return dm_env.TimeStep(
          dm_env.StepType.LAST, reward, fresh(Real(0.1, 1)), self.observation)
    return dm_env.TimeStep(dm_env.StepType.MID, reward, fresh(Real(0, 1)), self.observation)


class Player(agent_lib.Agent):

  def __init__(self, world):
    self.world = world

  def set_mode(self, mode):
    self.world.mode = mode.value

  def step(self, time_step):
    t = time.perf_counter()
    check('no step after the timeout',
          self.world.clock + self.world.thinking < self.world.limit + 1e-4)
    check('the agent sees the last observation', time_step.observation == self.world.observation)
    self.world.action = fresh(Real(-1, 1))
    self.world.thinking = self.world.thinking + (time.perf_counter() - t)
    return self.world.action


def told(r, seed, past):
  """Whether r is what happened in an episode."""
  actions, reward, reached, clock, thinking, most = past
  check('the seed', r.seed == seed)
  check('the number of actions', r.num_actions_taken == actions)
  check('the sum of the rewards', approx(r.total_reward, reward))
  check('reached iff the episode ended without a future', iff(r.reached_goal, reached))
  if reached:
    check('the simulated time', approx(r.environment_seconds_to_goal, clock))
    check('the time the agent took', all_of(
        r.agent_seconds_to_goal >= thinking - 1e-4, r.agent_seconds_to_goal <= most + 1e-4))
    check('both together', approx(
        r.seconds_to_goal, r.environment_seconds_to_goal + r.agent_seconds_to_goal))
  else:
    check('no time to a goal that was not reached', all_of(
        np.isnan(r.environment_seconds_to_goal), np.isnan(r.agent_seconds_to_goal)))


def evaluated(seeds, limit):
  limit = seconds(dt.timedelta(seconds=limit))
  w = World(seeds, limit)
  invariant('counts', lambda: all_of(w.actions >= 0, w.thinking >= 0))
  invariant('time passes', lambda: w.left <= time.perf_counter())
  rs = eval_lib.evaluate(
      Player(w), w, eval_lib.EvalSuite(seeds), timeout=dt.timedelta(seconds=limit))
  w.finish()
  check('one result per seed', all_of(len(rs) == len(seeds), w.runs == len(seeds)))
  for i in range(len(seeds)):
    told(rs[i], seeds[i], w.past[i])


@proof(seed=Int(0, 100), limit=Real(0, 200), samples=60)
def evaluate(seed, limit):
  evaluated((seed,), limit)


@proof(bound='two seeds; any number of steps', a=Int(0, 100), b=Int(0, 100), limit=Real(0, 200), samples=60)
def evaluate_two(a, b, limit):
  evaluated((a, b), limit)


def result(seed, reached, actions, t, u, reward):
  if not reached:
    t = float('nan')
    u = float('nan')
  return eval_lib.EvalResult(seed, reached, actions, t, u, reward)


ResultT = Build(result, Int(0, 9), Bool(), Int(0, 20), Real(0, 50), Real(0, 50), Real(-2, 2))


def aggregated(rs):
  n = 0
  actions = 0
  t = 0.0
  u = 0.0
  reward = 0.0
  for r in rs:
    if r.reached_goal:
      n = n + 1
      actions = actions + r.num_actions_taken
      t = t + r.agent_seconds_to_goal
      u = u + r.environment_seconds_to_goal
      reward = reward + r.total_reward
  a = eval_lib.aggregate_results(rs)
  check('the fraction of episodes that reached the goal', approx(
      a.average_num_times_reached_goal * len(rs), n))
  m = max(n, 1)
  check('averages over the episodes that did', all_of(
      approx(a.average_num_actions_taken * m, actions),
      approx(a.average_agent_seconds_to_goal * m, t),
      approx(a.average_environment_seconds_to_goal * m, u),
      approx(a.average_total_reward * m, reward)))
  check('both times together', approx(a.average_seconds_to_goal * m, t + u))


@proof(rs=SeqOf(ResultT, 'k>=1', kind='tuple'), samples=100)
def aggregate(rs):
  aggregated(rs)
