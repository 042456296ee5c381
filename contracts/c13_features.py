"""C13: feature vectors describe the silicon, its neighbourhood and the way to the goal."""
import datetime as dt

import cv2
import numpy as np
from putting_dune import feature_constructors as fc
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *
from contracts.parts import *

ViewT = Arr(('n>=4', 2), 0, 1)
GoalT = Arr((2,), -50, 50)


def the_goal(at):
  g = goals.SingleSiliconGoalReaching()
  g.goal_position_material_frame = at
  return g


def seen(grid, f, image=None):
  return mu.MicroscopeObservation(grid, f, (), dt.timedelta(seconds=2.0), image)


def d2(p, k, i, w, h):
  return ((p[i, 0] - p[k, 0]) * w) * ((p[i, 0] - p[k, 0]) * w) + (
      (p[i, 1] - p[k, 1]) * h) * ((p[i, 1] - p[k, 1]) * h)


def to_goal(o, f, si, goal):
  x = f.lower_left.x + si[0] * (f.upper_right.x - f.lower_left.x)
  y = f.lower_left.y + si[1] * (f.upper_right.y - f.lower_left.y)
  return close((o[0], o[1]), (goal[0] - x, goal[1] - y), 1e-4)


@proof(pos=ViewT, k=Int(0), f=FovT, goal=GoalT)
def pristine(pos, k, f, goal):
  n = pos.shape[0]
  require(index(k) < n)
  require_all(n, lambda i: any_of(i == k, d2(pos, k, i, 1, 1) >= 1e-4))
  o = seen(silicon_grid(pos, k), f)
  old = snapshot(o)
  c = fc.SingleSiliconPristineGrapheneFeatureConstuctor()
  c.reset()
  r = c.get_features(o, the_goal(goal))
  check('ten float32 numbers', all_of(r.shape == (10,), r.dtype == np.float32))
  check('as specified', all_of(c.observation_spec().shape == (10,),
                               c.observation_spec().dtype == np.float32))
  check('no image needed', not c.requires_image)
  check('first the silicon position', close((r[0], r[1]), (pos[k, 0], pos[k, 1]), 1e-5))
  q = geometry.nearest_neighbors3(pos, pos[k])
  for j in range(3):
    i = q.neighbor_indices[j]
    d = q.neighbor_distances[j]
    check('then the directions to its neighbours', close(
        (r[2 + 2 * j], r[3 + 2 * j]),
        ((pos[i, 0] - pos[k, 0]) / d, (pos[i, 1] - pos[k, 1]) / d), 1e-5))
  check('then the way to the goal, in angstroms', to_goal(r[8:], f, pos[k], goal))
  check_same('observation unchanged', o, old)


@proof(pos=ViewT, k=Int(0), f=FovT, goal=GoalT)
def material_frame(pos, k, f, goal):
  n = pos.shape[0]
  require(index(k) < n)
  w = f.upper_right.x - f.lower_left.x
  h = f.upper_right.y - f.lower_left.y
  require_all(n, lambda i: any_of(i == k, d2(pos, k, i, w, h) >= 1e-4))
  g = silicon_grid(pos, k)
  o = seen(g, f)
  old = snapshot(o)
  c = fc.SingleSiliconMaterialFrameFeatureConstructor()
  c.reset()
  r = c.get_features(o, the_goal(goal))
  check('ten float32 numbers', all_of(r.shape == (10,), r.dtype == np.float32))
  check('as specified', all_of(c.observation_spec().shape == (10,),
                               c.observation_spec().dtype == np.float32))
  check('no image needed', not c.requires_image)
  m = f.microscope_frame_to_material_frame(g).atom_positions
  check('first the silicon position', close((r[0], r[1]), (m[k, 0], m[k, 1]), 1e-4))
  q = geometry.nearest_neighbors3(m, m[k])
  for j in range(3):
    i = q.neighbor_indices[j]
    check('then the vectors to its neighbours, in angstroms', close(
        (r[2 + 2 * j], r[3 + 2 * j]), (m[i, 0] - m[k, 0], m[i, 1] - m[k, 1]), 1e-4))
  check('then the way to the goal, in angstroms', to_goal(r[8:], f, pos[k], goal))
  check_same('observation unchanged', o, old)


@proof(pos=Arr(('n>=1', 2), 0, 1), k=Int(0), f=FovT, goal=GoalT, image=Arr(('a>=1', 'b>=1'), 0, 1))
def images(pos, k, f, goal, image):
  n = pos.shape[0]
  require(index(k) < n)
  o = seen(silicon_grid(pos, k), f, image)
  old = snapshot(o)
  c = fc.ImageFeatureConstructor()
  c.reset()
  r = c.get_features(o, the_goal(goal))
  s = c.observation_spec()
  check('two features', len(r) == 2)
  check('as specified', all_of(
      r['image'].shape == s['image'].shape, r['image'].dtype == s['image'].dtype,
      r['goal_delta_angstroms'].shape == s['goal_delta_angstroms'].shape,
      r['goal_delta_angstroms'].dtype == s['goal_delta_angstroms'].dtype))
  check('of known shape', all_of(
      r['image'].shape == (128, 128, 1), r['image'].dtype == np.float32,
      r['goal_delta_angstroms'].shape == (2,)))
  check('an image is needed', c.requires_image)
  want = cv2.resize(image, (128, 128))
  i = fresh(Int(0, 127))
  j = fresh(Int(0, 127))
  check('the image, resized', close(r['image'][i, j, 0], want[i, j]))
  check('the way to the goal, in angstroms', to_goal(r['goal_delta_angstroms'], f, pos[k], goal))
  check_same('observation unchanged', o, old)


class OtherGoal(goals.Goal):

  def reset(self, rng, initial_observation):
    pass

  def calculate_reward_and_terminal(self, observation):
    return goals.GoalReturn(0.0, False, False)


@proof(pos=ViewT, k=Int(0), f=FovT, goal=GoalT, which=OneOf('pristine', 'material', 'image'),
       what=OneOf('goal', 'silicon', 'image'))
def refused(pos, k, f, goal, which, what):
  n = pos.shape[0]
  require(index(k) < n)
  if which == 'pristine':
    c = fc.SingleSiliconPristineGrapheneFeatureConstuctor()
  elif which == 'material':
    c = fc.SingleSiliconMaterialFrameFeatureConstructor()
  else:
    c = fc.ImageFeatureConstructor()
  if what == 'goal':
    check('other goals are refused', raises(
        ValueError, c.get_features, seen(silicon_grid(pos, k), f), OtherGoal()))
  elif what == 'silicon' and which != 'image':
    g = mu.AtomicGrid(pos, np.full((n,), 6))
    check('no silicon is refused', raises(
        graphene.SiliconNotFoundError, c.get_features, seen(g, f), the_goal(goal)))
  elif what == 'image' and which == 'image':
    check('no image is refused', raises(
        RuntimeError, c.get_features, seen(silicon_grid(pos, k), f), the_goal(goal)))
