"""C14: the microscope agent turns observations into controls; its logger keeps what happened."""
import csv
import datetime as dt
import os
import shutil
import tempfile

import dm_env
import numpy as np
from putting_dune import constants
from putting_dune import goals
from putting_dune import graphene
from putting_dune import io as pdio
from putting_dune import microscope_agent
from putting_dune import microscope_utils as mu
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments
from vdsl import *
from contracts.common import *
from contracts.parts import *


class Parts:
  """What the agent is made of; the calls it makes are checked."""

  def __init__(self):
    self.observation = None
    self.resets = 0
    self.first = True        # no step since the reset
    self.missing = False     # no silicon in the observation
    self.early = False       # noticed by the features
    self.feature = 0.0
    self.reward = 0.0
    self.terminal = False
    self.truncated = False
    self.asked = 0           # times the agent was asked for an action
    self.action = 0.0
    self.control = None


class Features(StandIn):

  def __init__(self, parts):
    self.parts = parts

  def reset(self):
    self.parts.resets = self.parts.resets + 1

  def get_features(self, observation, goal):
    check('features of the observation given', observation is self.parts.observation)
    check('features for the goal', goal.parts is self.parts)
    if self.parts.missing and self.parts.early:
      raise graphene.SiliconNotFoundError()
    self.parts.feature = fresh(Real(-5, 5))
    return self.parts.feature


class Goal(StandIn):

  def __init__(self, parts):
    self.parts = parts

  def reset(self, rng, observation):
    check('the goal is chosen on the observation given', observation is self.parts.observation)
    self.parts.resets = self.parts.resets + 1

  def calculate_reward_and_terminal(self, observation):
    check('the reward of the observation given', observation is self.parts.observation)
    if self.parts.missing:
      raise graphene.SiliconNotFoundError()
    return goals.GoalReturn(self.parts.reward, self.parts.terminal, self.parts.truncated)


class Player(agent_lib.Agent):

  def __init__(self, parts):
    self.parts = parts

  def set_mode(self, mode):
    pass

  def step(self, time_step):
    p = self.parts
    p.asked = p.asked + 1
    check('the agent sees the features', time_step.observation == p.feature)
    discount = constants.GAMMA_PER_SECOND ** seconds(p.observation.elapsed_time)
    if p.terminal:
      check('the goal is reached', all_of(
          time_step.step_type == dm_env.StepType.LAST, time_step.discount == 0.0,
          time_step.reward == p.reward))
    elif p.truncated:
      check('the episode is cut off', all_of(
          time_step.step_type == dm_env.StepType.LAST, time_step.reward == p.reward,
          approx(time_step.discount, discount)))
    elif p.first:
      check('an episode begins', time_step.step_type == dm_env.StepType.FIRST)
    else:
      check('an episode goes on', all_of(
          time_step.step_type == dm_env.StepType.MID, time_step.reward == p.reward,
          approx(time_step.discount, discount)))
    p.action = fresh(Real(-1, 1))
    return p.action


class Adapter(StandIn):

  def __init__(self, parts):
    self.parts = parts

  def reset(self):
    self.parts.resets = self.parts.resets + 1

  def get_action(self, observation, action):
    check('the action is taken on the observation given', observation is self.parts.observation)
    check('the action of the agent', action == self.parts.action)
    self.parts.control = [action]
    return self.parts.control


def an_agent(parts, rng):
  return microscope_agent.MicroscopeAgent(rng, experiments.MicroscopeExperiment(
      get_agent=lambda r, a: Player(parts),
      get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(
          action_adapter=Adapter(parts), feature_constructor=Features(parts), goal=Goal(parts))))


def look(parts):
  """The next observation."""
  parts.observation = mu.MicroscopeObservation(
      mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(np.zeros((2, 2)), np.asarray([14, 6]))),
      fov(0.0, 0.0, 20.0, 20.0), (), dt.timedelta(seconds=fresh(Real(0, 100))))
  parts.missing = fresh(Bool())
  parts.early = fresh(Bool())
  parts.reward = fresh(Real(-5, 5))
  parts.terminal = fresh(Bool())
  parts.truncated = fresh(Bool())
  return parts.observation


@proof(ops=SeqOf(Bool(), 'k'), rng=Rng(), samples=200)
def agent(ops, rng):
  parts = Parts()
  a = an_agent(parts, rng)
  for i in range(len(ops)):
    parts.resets = 0
    o = look(parts)
    asked = parts.asked
    if ops[i]:
      a.reset(rng, o)
      parts.first = True
      check('everything is reset', parts.resets == 3)
      check('no action for a reset', parts.asked == asked)
    else:
      c = a.step(o)
      check('nothing is reset by a step', parts.resets == 0)
      if parts.missing:
        check('one control', len(c) == 1)
        check('a rescan: no exposure', all_of(
            c[0].dwell_time == dt.timedelta(seconds=0), c[0].position.x == 0.0,
            c[0].position.y == 0.0))
        check('the agent is not asked', parts.asked == asked)
      else:
        check('the controls of the action', c is parts.control)
        check('the agent is asked once', parts.asked == asked + 1)
        parts.first = False


class Spot(goals.SingleSiliconGoalReaching):
  """A goal with a position."""

  def __init__(self, parts):
    super().__init__()
    self.parts = parts

  def reset(self, rng, observation):
    self.goal_position_material_frame = fresh(Arr((2,), -9, 9))

  def calculate_reward_and_terminal(self, observation):
    self.parts.judged = self.parts.judged + 1
    if self.parts.missing:
      raise graphene.SiliconNotFoundError()
    return goals.GoalReturn(self.parts.reward, self.parts.terminal, self.parts.truncated)


def rows(path):
  with open(path) as f:
    return list(csv.DictReader(f))


def written(where, episodes):
  """Whether the files tell of these episodes: (steps, goal) with steps of (observation, reward, terminal)."""
  steps = rows(os.path.join(where, 'steps.csv'))
  told = rows(os.path.join(where, 'episodes.csv'))
  seen = list(pdio.read_records(os.path.join(where, 'trajectories.tfrecords'), mu.Trajectory))
  check('one trajectory and one record per episode with steps', all_of(
      len(seen) == len(episodes), len(told) == len(episodes)))
  check('one record per step', len(steps) == sum([len(e[1]) for e in episodes]))
  n = 0
  for t, r, (number, happened, goal) in zip(seen, told, episodes):
    check('every observation of the episode, in order', all_of(
        len(t.observations) == len(happened), all_of(*[
            approx(seconds(x.elapsed_time), seconds(y[0].elapsed_time), 1e-3)
            for x, y in zip(t.observations, happened)])))
    check('the number of the episode', r['episode'] == str(number))
    check('its number of steps', r['episode_steps'] == str(len(happened)))
    check('its return', approx(float(r['episode_return']), sum([y[1] for y in happened])))
    check('its goal', r['episode_goal'] == ('' if goal is None else str(goal)))
    for j, (o, reward, terminal) in enumerate(happened):
      s = steps[n]
      n = n + 1
      check('each step, in order', all_of(
          s['episode'] == str(number), int(s['episode_step']) == j + 1,
          approx(float(s['reward']), reward), s['terminal'] == str(terminal),
          approx(float(s['elapsed_seconds']), seconds(o.elapsed_time))))


@bounded(ops=SeqOf(OneOf('reset', 'step', 'step', 'step', 'flush'), 'k'), rng=Rng(),
         spot=Bool(), samples=60)
def logger(ops, rng, spot):
  parts = Parts()
  parts.judged = 0
  goal = Spot(parts) if spot else Goal(parts)
  where = tempfile.mkdtemp()
  try:
    inner = microscope_agent.MicroscopeAgent(rng, experiments.MicroscopeExperiment(
        get_agent=lambda r, a: Player(parts),
        get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(
            action_adapter=Adapter(parts), feature_constructor=Features(parts), goal=goal)))
    episodes = []
    here = []
    number = 0

    def kept():
      if not here:
        return episodes
      g = (goal.current_goal.x, goal.current_goal.y) if spot else None
      return episodes + [(number, here, g)]

    with microscope_agent.MicroscopeAgentLogger(inner, logdir=where) as a:
      a.reset(rng, look(parts))
      parts.first = True
      for op in ops:
        o = look(parts)
        if op == 'reset':
          episodes = kept()
          if here:
            number = number + 1
          here = []
          a.reset(rng, o)
          parts.first = True
        elif op == 'step':
          judged = parts.judged
          c = a.step(o)
          check('the goal is asked at most once', parts.judged <= judged + 1)
          if parts.missing:
            check('a rescan is passed on', c[0].dwell_time == dt.timedelta(seconds=0))
            here.append((o, 0.0, False))
          else:
            check('the controls are passed on', c is parts.control)
            parts.first = False
            here.append((o, parts.reward, parts.terminal))
        else:
          a.flush()
          written(where, kept())
    written(where, kept())
  finally:
    shutil.rmtree(where)
