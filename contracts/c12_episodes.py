"""C12: environments follow the dm_env protocol, with time-integrated discounts."""
import datetime as dt

import dm_env
import numpy as np
from putting_dune import constants
from putting_dune import goals
from putting_dune import microscope_utils as mu
from putting_dune import putting_dune_environment as pde
from putting_dune import run_helpers
from vdsl import *
from contracts.common import *
from contracts.parts import *
from contracts.stage import *


class Parts:
  """Everything the environment talks to; its calls are checked against the protocol."""

  def __init__(self, wants_image):
    self.wants_image = wants_image
    self.grid = mu.AtomicGridMicroscopeFrame(
        mu.AtomicGrid(np.zeros((2, 2)), np.asarray([14, 6])))
    self.phase = 0       # simulator calls since the episode began
    self.time = 0.0      # elapsed time of the last observation
    self.terminal = False
    self.truncated = False
    self.reward = 0.0
    self.feature = 0.0
    self.resets = 0      # goal, adapter and feature constructor resets
    self.action = 0.0
    self.adapter = None

  def observation(self):
    self.time = seconds(dt.timedelta(seconds=fresh(Real(0, 100))))
    return mu.MicroscopeObservation(
        self.grid, fov(0.0, 0.0, 20.0, 20.0), (), dt.timedelta(seconds=self.time))


class Sim(StandIn):

  def __init__(self, parts):
    self.parts = parts

  def reset(self, rng, return_image=False):
    self.parts.phase = 0
    self.parts.resets = 0
    check('seeded', rng is self.parts.adapter.rng)
    check('an image is taken iff the features need one', iff(
        return_image, self.parts.wants_image))
    return self.parts.observation()

  def step_and_image(self, rng, controls, return_image=False):
    check('seeded', rng is self.parts.adapter.rng)
    check('the controls of the action are applied', controls[0] == self.parts.action)
    check('an image is taken iff the features need one', iff(
        return_image, self.parts.wants_image))
    self.parts.phase = self.parts.phase + 1
    return self.parts.observation()


class Adapter(StandIn):

  def __init__(self, parts):
    self.parts = parts
    parts.adapter = self
    self.rng = None

  def reset(self):
    self.parts.resets = self.parts.resets + 1

  def get_action(self, observation, action):
    check('the action is taken on the last observation',
          seconds(observation.elapsed_time) == self.parts.time)
    self.parts.action = action
    return (action,)


class Features(StandIn):

  def __init__(self, parts):
    self.parts = parts
    self.requires_image = parts.wants_image

  def reset(self):
    self.parts.resets = self.parts.resets + 1

  def get_features(self, observation, goal):
    check('features of the last observation',
          seconds(observation.elapsed_time) == self.parts.time)
    check('features for the goal of this episode', goal.parts.resets == 3)
    self.parts.feature = fresh(Real(-5, 5))
    return self.parts.feature


class Goal(StandIn):

  def __init__(self, parts):
    self.parts = parts

  def reset(self, rng, observation):
    check('seeded', rng is self.parts.adapter.rng)
    check('the goal is chosen on the first observation', all_of(
        seconds(observation.elapsed_time) == self.parts.time, self.parts.phase == 0))
    self.parts.resets = self.parts.resets + 1

  def calculate_reward_and_terminal(self, observation):
    check('the reward is that of the last observation',
          seconds(observation.elapsed_time) == self.parts.time)
    self.parts.reward = fresh(Real(-5, 5))
    self.parts.terminal = fresh(Bool())
    self.parts.truncated = fresh(Bool())
    return goals.GoalReturn(self.parts.reward, self.parts.terminal, self.parts.truncated)


class Episode:
  """What a caller knows: whether an episode is running, and for how many steps."""

  def __init__(self):
    self.over = True
    self.count = 0


def make(wants_image, seed):
  parts = Parts(wants_image)
  env = pde.PuttingDuneEnvironment(None, Adapter(parts), Features(parts), Goal(parts))
  env.sim = Sim(parts)
  env.seed(seed)
  return env, parts


def is_first(r, parts):
  return all_of(
      r.step_type == dm_env.StepType.FIRST, r.reward == 0.0,
      approx(r.discount, constants.GAMMA_PER_SECOND ** parts.time),
      r.observation == parts.feature, parts.phase == 0, parts.resets == 3)


@proof(ops=SeqOf(Bool(), 'k'), acts=Arr(('k',), -1, 1), wants_image=Bool(), seed=Int(0, 99),
       samples=100)
def environment(ops, acts, wants_image, seed):
  env, parts = make(wants_image, seed)
  e = Episode()
  invariant('an episode is set up once', lambda: any_of(e.over, parts.resets == 3))
  i = 0
  for op in ops:
    if op:
      r = env.reset()
      check('a reset begins an episode', is_first(r, parts))
      e.over = False
    elif e.over:
      r = env.step(acts[i])
      check('a step after the end begins an episode', is_first(r, parts))
      e.over = False
    else:
      before = parts.phase + 0
      r = env.step(acts[i])
      check('the action is applied once', all_of(
          parts.phase == before + 1, parts.action == acts[i]))
      check('the reward and observation of the step', all_of(
          r.reward == parts.reward, r.observation == parts.feature))
      g = constants.GAMMA_PER_SECOND ** parts.time
      e.over = any_of(parts.terminal, parts.truncated)
      check('the episode ends iff the goal says so', iff(
          r.step_type == dm_env.StepType.LAST, e.over))
      check('otherwise it goes on', iff(
          r.step_type == dm_env.StepType.MID, negate(e.over)))
      check('no future after a terminal step', implies(parts.terminal, r.discount == 0.0))
      check('discounted over the time of the step', implies(
          negate(parts.terminal), approx(r.discount, g)))
    i = i + 1


class Inner(dm_env.Environment):
  """Any environment that follows the protocol."""

  def __init__(self):
    self.over = True
    self.calls = 0
    self.action = 0.0
    self.last = None

  def first(self):
    self.over = False
    self.last = dm_env.TimeStep(
        dm_env.StepType.FIRST, fresh(Real(-1, 1)), fresh(Real(0, 1)), fresh(Real(-1, 1)))
    return self.last

  def reset(self):
    self.calls = self.calls + 1
    self.action = 0.0
    return self.first()

  def step(self, action):
    self.calls = self.calls + 1
    self.action = action
    if self.over:
      return self.first()
    self.over = fresh(Bool())
    kind = dm_env.StepType.MID
    if self.over:
      kind = dm_env.StepType.LAST
    self.last = dm_env.TimeStep(kind, fresh(Real(-1, 1)), fresh(Real(0, 1)), fresh(Real(-1, 1)))
    return self.last

  def action_spec(self):
    return ('action', self.action)

  def observation_spec(self):
    return ('observation', self.action)

  def hello(self, x):
    return (x, self.action)


def same_step(r, q):
  return all_of(r.step_type == q.step_type, r.reward == q.reward, r.discount == q.discount,
                r.observation == q.observation)


@proof(ops=SeqOf(Bool(), 'k'), acts=Arr(('k',), 0.1, 1), limit=Int(1, 6), samples=200)
def step_limit(ops, acts, limit):
  inner = Inner()
  env = run_helpers.StepLimitWrapper(inner, step_limit=limit)
  e = Episode()
  cut = Episode()
  cut.over = False  # Whether the last episode was cut by the limit.
  invariant('the limit is kept', lambda: all_of(
      e.count >= -1, e.count < limit, iff(cut.over, e.count == -1)))
  i = 0
  for op in ops:
    calls = inner.calls + 0
    ended = inner.over
    was_cut = cut.over
    if op:
      r = env.reset()
    else:
      r = env.step(acts[i])
    check('the environment is called once', inner.calls == calls + 1)
    if any_of(op, ended, was_cut):
      check('an episode begins', all_of(
          r.step_type == dm_env.StepType.FIRST, same_step(r, inner.last)))
      e.count = 0
      cut.over = False
    else:
      e.count = e.count + 1
      check('the action is passed on', inner.action == acts[i])
      if e.count >= limit:
        check('ended at the limit', all_of(
            r.step_type == dm_env.StepType.LAST, r.reward == inner.last.reward,
            r.discount == inner.last.discount, r.observation == inner.last.observation))
        e.count = -1  # (Unknown to the environment.)
        cut.over = True
      else:
        check('passed on before the limit', same_step(r, inner.last))
    i = i + 1


@proof(ops=SeqOf(Bool(), 'k'), acts=Arr(('k',), 0.1, 1), samples=40)
def no_limit(ops, acts):
  inner = Inner()
  env = run_helpers.StepLimitWrapper(inner)
  i = 0
  for op in ops:
    calls = inner.calls + 0
    if op:
      r = env.reset()
    else:
      r = env.step(acts[i])
      check('the action is passed on', inner.action == acts[i])
    check('the environment is called once', inner.calls == calls + 1)
    check('passed on', same_step(r, inner.last))
    i = i + 1


@proof(a=Real(-1, 1), x=Real(-1, 1), limit=Int(1, 9), samples=20)
def wrapped(a, x, limit):
  inner = Inner()
  env = run_helpers.StepLimitWrapper(inner, step_limit=limit)
  env.reset()
  env.step(a)
  b = inner.action
  check('specs are those of the environment', all_of(
      env.action_spec() == ('action', b), env.observation_spec() == ('observation', b)))
  check('anything else is that of the environment', env.hello(x) == (x, b))
  inner.over = True
  check('attributes too', env.calls == 2)


class Adapters:

  def __init__(self, parts):
    self.action_adapter = Adapter(parts)
    self.feature_constructor = Features(parts)
    self.goal = Goal(parts)


class Config:

  def __init__(self, stage, duration):
    self.material = stage
    self.image_duration = duration


@proof(pos=ViewT, k=Int(0), start=Arr((2,), -60, 60), duration=Real(0, 10), seed=Int(0, 1000),
       use=[stem_image], samples=30)
def created(pos, k, start, duration, seed):
  require(index(k) < pos.shape[0])
  stage = Stage(pos, k, start, ())
  parts = Parts(False)
  a = Log(stage)
  b = Log(stage)
  duration = dt.timedelta(seconds=duration)
  adapters = Adapters(parts)
  env = run_helpers.create_putting_dune_env(
      seed, get_adapters_and_goal=lambda: adapters,
      get_simulator_config=lambda: Config(stage, duration),
      simulator_observers=[a, b], step_limit=2)
  parts.time = seconds(duration)
  check('the random generator is shared', adapters.action_adapter.rng is not None)
  r = env.reset()
  check('the material given is simulated', stage.resets == 1)
  check('every observer hears of it', all_of(a.resets == 1, b.resets == 1))
  check('images take the given time', approx(a.clock, seconds(duration)))
  check('discounted over the time of the image', approx(
      r.discount, constants.GAMMA_PER_SECOND ** seconds(duration)))
  check('the goal given is pursued', env.environment.goal is adapters.goal)
