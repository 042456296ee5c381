"""C23: the parts of every registered experiment fit together."""
import datetime as dt

import dm_env
import numpy as np
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import run_helpers
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments
from putting_dune.experiments import registry
from vdsl import *
from contracts.common import *
from contracts.parts import *

ViewT = Arr(('n>=4', 2), 0, 1)
OneT = Arr(('n>=1', 2), 0, 1)
GoalT = Arr((2,), -50, 50)
BOND = 1.42

# name -> the shortest and longest dwell time (s), how far from the silicon (Å)
RANDOM = {
    'relative_random': (1.5, 1.5, BOND),
    'relative_random_long': (1.0, 5.0, 2 * BOND),
    'relative_random_extra_long': (1.0, 5.0, 3 * BOND),
    'relative_random_simple': (1.5, 1.5, BOND),
    'relative_random_prior_rates': (1.5, 1.5, BOND),
}
# name -> where it aims, with the neighbour to the right (Å)
GREEDY = {
    'greedy_on_neighbor': (1.42, 0.0),
    'greedy_short_of_neighbor': (0.58, 0.0),
    'greedy_on_neighbor_offset_horizontally': (1.42, 0.42),
    'greedy_from_learned_rates_v3': (1.8686869, 0.0),
    'greedy_from_learned_rates_v5': (2.1717172, -0.15151516),
}
TRAIN = ('relative_simple_rates', 'relative_prior_rates', 'relative_simple_rates_from_images',
         'relative_simple_rates_from_images_variable_time', 'direct_simple_rates_from_images')
RandomT = OneOf(*RANDOM)
GreedyT = OneOf(*GREEDY)


def experiment(name):
  if name in ('relative_random_simple', 'relative_random_prior_rates'):
    return registry.create_eval_experiment(name)
  if name in TRAIN:
    return registry.create_train_experiment(name)
  return registry.create_microscope_experiment(name)


def time_step(features):
  return dm_env.TimeStep(dm_env.StepType.MID, 0.0, 1.0, features)


def seen(pos, k, f):
  return mu.MicroscopeObservation(silicon_grid(pos, k), f, (), dt.timedelta(seconds=2))


def clip(x, lo, hi):
  return ite(x < lo, lo, ite(x > hi, hi, x))


@proof(name=RandomT, pos=OneT, k=Int(0), f=FovT, rng=Rng(), o=Arr((10,), -4, 4))
def random(name, pos, k, f, rng, o):
  """What the random agent asks for can be done, and is done near the silicon."""
  require(index(k) < pos.shape[0])
  e = experiment(name)
  parts = e.get_adapters_and_goal()
  spec = parts.action_adapter.action_spec
  a = e.get_agent(rng, parts).step(time_step(o))
  shortest, longest, far = RANDOM[name]
  check('of the shape asked for', all_of(
      a.shape == spec.shape, spec.shape == ((2,) if shortest == longest else (3,))))
  lows, highs = np.broadcast_to(spec.minimum, a.shape), np.broadcast_to(spec.maximum, a.shape)
  for i in range(a.shape[0]):
    check('within the bounds', all_of(a[i] >= lows[i], a[i] <= highs[i]))
  r = parts.action_adapter.get_action(seen(pos, k, f), a)
  check('one control', len(r) == 1)
  c = r[0]
  check('in view', all_of(c.position.x >= 0, c.position.x <= 1, c.position.y >= 0,
                          c.position.y <= 1))
  w, h = f.upper_right.x - f.lower_left.x, f.upper_right.y - f.lower_left.y
  check('not far from the silicon', all_of(
      abs(c.position.x - pos[k, 0]) * w <= far + 1e-4, abs(c.position.y - pos[k, 1]) * h <= far + 1e-4))
  check('as long as the experiment has it', all_of(
      seconds(c.dwell_time) >= shortest - 1e-5, seconds(c.dwell_time) <= longest + 1e-5))


def gap(o, j):
  """The squared distance of neighbour j from the goal."""
  return ((o[2 + 2 * j] - o[8]) * (o[2 + 2 * j] - o[8]) +
          (o[3 + 2 * j] - o[9]) * (o[3 + 2 * j] - o[9]))


@proof(name=GreedyT, pos=OneT, k=Int(0), f=FovT, rng=Rng(), o=Arr((10,), -4, 4), nearest=Int(0, 2))
def greedy(name, pos, k, f, rng, o, nearest):
  """The control aims where the experiment says, turned to the neighbour nearest to the goal."""
  require(index(k) < pos.shape[0])
  x, y = o[2 + 2 * nearest], o[3 + 2 * nearest]
  require(x * x + y * y >= 1e-4)
  for j in range(3):
    require(any_of(j == nearest, gap(o, nearest) < gap(o, j) - 1e-6))
  e = experiment(name)
  parts = e.get_adapters_and_goal()
  a = e.get_agent(rng, parts).step(time_step(o))
  check('of the shape asked for', a.shape == parts.action_adapter.action_spec.shape)
  r = parts.action_adapter.get_action(seen(pos, k, f), a)
  check('one control', len(r) == 1)
  check('for five seconds', seconds(r[0].dwell_time) == 5)
  aim = GREEDY[name]
  d = np.sqrt(x * x + y * y)
  check('turned towards the nearest', approx(
      (a[0] * d, a[1] * d), (x * aim[0] - y * aim[1], y * aim[0] + x * aim[1]), 1e-4))
  w, h = f.upper_right.x - f.lower_left.x, f.upper_right.y - f.lower_left.y
  at = r[0].position
  check('that far from the silicon, or at the border', approx(
      (at.x, at.y), (clip(pos[k, 0] + a[0] / w, 0, 1), clip(pos[k, 1] + a[1] / h, 0, 1)), 1e-5))


def d2(p, k, i, w, h):
  return ((p[i, 0] - p[k, 0]) * w) * ((p[i, 0] - p[k, 0]) * w) + (
      (p[i, 1] - p[k, 1]) * h) * ((p[i, 1] - p[k, 1]) * h)


@proof(name=GreedyT, pos=ViewT, k=Int(0), f=FovT, at=GoalT)
def greedy_sees(name, pos, k, f, at):
  """The features are vectors in Å, as the greedy agent takes them to be."""
  require(index(k) < pos.shape[0])
  w, h = f.upper_right.x - f.lower_left.x, f.upper_right.y - f.lower_left.y
  require_all(pos.shape[0], lambda i: any_of(i == k, d2(pos, k, i, w, h) >= 1e-4))
  parts = experiment(name).get_adapters_and_goal()
  parts.goal.goal_position_material_frame = at
  o = seen(pos, k, f)
  r = parts.feature_constructor.get_features(o, parts.goal)
  check('ten numbers', r.shape == (10,))
  m = f.microscope_frame_to_material_frame(o.grid).atom_positions
  q = geometry.nearest_neighbors3(m, m[k])
  for j in range(3):
    i = q.neighbor_indices[j]
    check('the neighbours', close(
        (r[2 + 2 * j], r[3 + 2 * j]), (m[i, 0] - m[k, 0], m[i, 1] - m[k, 1]), 1e-4))
  check('the goal', close((r[8], r[9]), (at[0] - m[k, 0], at[1] - m[k, 1]), 1e-4))


@proof(name=OneOf(*RANDOM, *GREEDY, *TRAIN))
def created(name):
  """The same experiment every time; its parts are made anew."""
  e = experiment(name)
  check('the same again', experiment(name) is e)
  a, b = e.get_adapters_and_goal(), e.get_adapters_and_goal()
  check('parts of its own', all_of(
      a.action_adapter is not b.action_adapter, a.goal is not b.goal,
      a.feature_constructor is not b.feature_constructor))
  check('a silicon to be moved', isinstance(a.goal, goals.SingleSiliconGoalReaching))
  if name in TRAIN or name not in GREEDY and RANDOM[name][2] == BOND and name != 'relative_random':
    c, d = e.get_simulator_config(), e.get_simulator_config()
    check('a material of its own', c.material is not d.material)
    check('two seconds for an image', seconds(c.image_duration) == 2)


@proof(known=RandomT, train=OneOf(*TRAIN))
def unknown(known, train):
  for name in ('', 'none', known + ' ', train.upper()):
    check('refused', all_of(
        raises(ValueError, lambda: registry.create_microscope_experiment(name)),
        raises(ValueError, lambda: registry.create_train_experiment(name)),
        raises(ValueError, lambda: registry.create_eval_experiment(name))))
  check('each kind has names of its own', all_of(
      raises(ValueError, lambda: registry.create_train_experiment(known)),
      raises(ValueError, lambda: registry.create_eval_experiment(train)),
      raises(ValueError, lambda: registry.create_microscope_experiment(train))))


def constructor():
  return None


@proof(known=OneOf('relative_random_simple', 'relative_random_prior_rates'))
def registered(known):
  """A new name is added once; what has a name already keeps it."""
  before = registry.create_eval_experiment(known)
  mine = experiments.EvalExperiment(constructor, constructor, constructor)
  other = experiments.EvalExperiment(constructor, constructor, constructor)
  k = 0
  while not raises(ValueError, lambda: registry.create_eval_experiment('mine%d' % k)):
    k = k + 1
  registry.register_eval_experiment('mine%d' % k, mine)
  for _ in range(2):
    registry.register_eval_experiment('mine%d' % k, other)
    registry.register_eval_experiment(known, other)
  check('there', registry.create_eval_experiment('mine%d' % k) is mine)
  check('the others are kept', registry.create_eval_experiment(known) is before)
  for name in ('relative_random_simple', 'relative_random_prior_rates', 'ppo_simple_images_tf'):
    check('all of them', registry.create_eval_experiment(name).get_agent is not constructor)


class Observer(mu.SimulatorObserver):
  """Counts what it is told."""

  def __init__(self):
    self.resets = 0
    self.controls = []

  def observe_reset(self, *a, **k):
    self.resets += 1

  def observe_apply_control(self, control):
    self.controls.append(control)

def same(a, b):
  if isinstance(a, dict):
    return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
  return np.array_equal(a, b)


@bounded(samples=24, name=OneOf('relative_simple_rates', 'relative_prior_rates',
                                'relative_simple_rates', 'relative_prior_rates', *TRAIN,
                                'relative_random_simple', 'relative_random_prior_rates'),
         seed=Int(0, 10**6), limit=Int(1, 6))
def runs(name, seed, limit):
  """Sampled: the environment of an experiment runs as specified, and repeats itself."""
  e = experiment(name)
  observer = Observer()
  envs = [run_helpers.create_putting_dune_env(
      seed, get_adapters_and_goal=e.get_adapters_and_goal,
      get_simulator_config=e.get_simulator_config, simulator_observers=o, step_limit=limit)
          for o in ((observer,), ())]
  rng = np.random.default_rng(seed)
  spec, looks = envs[0].action_spec(), envs[0].observation_spec()
  steps = [env.reset() for env in envs]
  check('begins', steps[0].first())
  for t in range(2 * limit):
    o = steps[0].observation
    for s, x in ([(looks[k], o[k]) for k in looks] if isinstance(looks, dict) else [(looks, o)]):
      check('observations as specified', x.shape == s.shape and x.dtype == s.dtype)
    check('the same seed, the same course', same(o, steps[1].observation) and (
        steps[0].reward, steps[0].discount, steps[0].step_type) == (
            steps[1].reward, steps[1].discount, steps[1].step_type))
    if steps[0].last():
      break
    action = rng.uniform(spec.minimum, spec.maximum, size=spec.shape).astype(spec.dtype)
    steps = [env.step(action) for env in envs]
  check('within the limit', steps[0].last() and t <= limit)
  check('the observer saw every control', len(observer.controls) == t and observer.resets == 1)
