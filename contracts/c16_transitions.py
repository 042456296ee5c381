"""C16: recorded trajectories become transitions between adjacent observations."""
import datetime as dt

import numpy as np
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import trajectories_to_transitions as ttt
from vdsl import *
from contracts.common import *
from contracts.parts import *


def observation(pos, z, f, controls, t, image, label):
  return mu.MicroscopeObservation(
      mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(pos, z)), f, controls,
      dt.timedelta(seconds=t), image, label)


ObservationT = Build(
    observation, Arr((2, 2), 0, 1), Arr((2,), among=(6, 14)), FovT,
    SeqOf(ControlT, 'c', kind='tuple'), Real(0, 50), Opt(Arr((2, 2), 0, 1)), Opt(Arr((2, 2), 0, 1)))

PlainT = Build(
    observation, Arr((2, 2), 0, 1), Arr((2,), among=(6, 14)), FovT,
    SeqOf(ControlT, 'c', kind='tuple'), Real(0, 50), Arr((2, 2), 0, 1), Arr((2, 2), 0, 1))


def pair(t, a, b, late):
  check_same('the grids', (t.grid_before, t.grid_after), (a.grid, b.grid))
  check_same('the fields of view', (t.fov_before, t.fov_after), (a.fov, b.fov))
  check_same('the controls between them', t.controls, b.controls if late else a.controls)
  check_same('the images', (t.image_before, t.image_after), (a.image, b.image))
  check_same('the label images', (t.label_image_before, t.label_image_after),
             (a.label_image, b.label_image))


def pairs(r, at, o, late, j):
  """Whether r, from at on, pairs the observations o (symbolically: the pair at j)."""
  n = max(len(o) - 1, 0)
  if symbolic:
    if index(j) < n:
      pair(r[at + j], o[j], o[j + 1], late)
  else:
    for j in range(n):
      pair(r[at + j], o[j], o[j + 1], late)


@proof(o=SeqOf(PlainT, 'k', kind='tuple'), late=Bool(), j=Int(0))
def one(o, late, j):
  old = snapshot(o)
  r = ttt.trajectories_to_transitions(
      [mu.Trajectory(o)], previous_controls_at_current_timestep=late)
  check('one transition per pair', len(r) == max(len(o) - 1, 0))
  pairs(r, 0, o, late, j)
  check_same('observations unchanged', o, old)


def bare(z, image, label):
  return observation(np.zeros((1, 2)), np.asarray([z]), fov(0.0, 0.0, 1.0, 1.0), (), 1.0,
                     image, label)


@proof(o=SeqOf(Build(bare, Int(1, 90), Opt(Arr((1, 1), 0, 1)), Opt(Arr((1, 1), 0, 1))), 'k',
               kind='tuple'), j=Int(0))
def absent_images(o, j):
  r = ttt.trajectories_to_transitions([mu.Trajectory(o)])
  if symbolic:
    if index(j) < len(o) - 1:
      t = r[j]
      check_same('the images', (t.image_before, t.image_after), (o[j].image, o[j + 1].image))
      check_same('the label images', (t.label_image_before, t.label_image_after),
                 (o[j].label_image, o[j + 1].label_image))
  else:
    pairs(r, 0, o, False, j)


@proof(bound='two trajectories, of any length', o=SeqOf(PlainT, 'k', kind='tuple'),
       q=SeqOf(PlainT, 'm', kind='tuple'), late=Bool(), j=Int(0))
def two(o, q, late, j):
  r = ttt.trajectories_to_transitions(
      [mu.Trajectory(o), mu.Trajectory(q)], previous_controls_at_current_timestep=late)
  n = max(len(o) - 1, 0)
  check('no pairs across trajectories', len(r) == n + max(len(q) - 1, 0))
  pairs(r, 0, o, late, j)
  pairs(r, n, q, late, j)


@bounded(o=SeqOf(SeqOf(ObservationT, 'k', kind='tuple'), 'm', kind='tuple'), late=Bool(),
         samples=60)
def many(o, late):
  r = ttt.trajectories_to_transitions(
      [mu.Trajectory(x) for x in o], previous_controls_at_current_timestep=late)
  n = 0
  for x in o:
    pairs(r, n, x, late, 0)
    n = n + max(len(x) - 1, 0)
  check('one transition per pair', len(r) == n)
