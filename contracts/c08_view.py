"""C08: the field of view follows the silicon."""
import datetime as dt

import numpy as np
from putting_dune import simulator
from vdsl import *
from contracts.common import *
from contracts.parts import *
from contracts.stage import *


def centred(f, p, size):
  return approx(corners(f), (p[0] - size / 2, p[1] - size / 2, p[0] + size / 2, p[1] + size / 2))


@proof(pos=ViewT, k=Int(0), start=Arr((2,), -60, 60), rng=Rng(), samples=100)
def reset(pos, k, start, rng):
  require(index(k) < pos.shape[0])
  stage = Stage(pos, k, start, ())
  s = simulator.PuttingDuneSimulator(stage)
  r = s.reset(rng)
  w = r.fov.upper_right.x - r.fov.lower_left.x
  check('15 to 30 angstroms wide', all_of(w >= 15 - 1e-6, w <= 30 + 1e-6))
  check('square, centred on the silicon', centred(r.fov, start, w))
  check('the grid is the one seen from there', approx(corners(r.fov), stage.seen_from))
  check('the silicon is in view', stage.in_view)
  # A step keeps the size chosen.
  stage.images = 0
  stage.before = r.fov
  t = s.step_and_image(rng, ())
  check('the size is kept', all_of(approx(t.fov.width, w), approx(t.fov.height, w)))


@proof(controls=ControlsT, pos=ViewT, k=Int(0), start=Arr((2,), -60, 60), rng=Rng(),
       samples=150)
def step(controls, pos, k, start, rng):
  require(index(k) < pos.shape[0])
  stage = Stage(pos, k, start, controls)
  s, f = running(stage, 2.0, rng)
  a = Log(stage)
  b = Log(stage)
  s.add_observer(a)
  s.add_observer(b)
  size = f.upper_right.x - f.lower_left.x
  invariant('controls are applied in turn', lambda: all_of(
      a.applied == stage.applied, b.applied == stage.applied))
  invariant('no image yet', lambda: all_of(stage.images == 0, a.images == 0, b.images == 0))
  invariant('the view does not move', lambda: all_of(a.fov_changes == 0, b.fov_changes == 0))
  r = s.step_and_image(rng, controls)
  x = (stage.si[0] - f.lower_left.x) / size
  y = (stage.si[1] - f.lower_left.y) / size
  e = 1e-6
  if stage.images == 1:
    check('kept only if the silicon is in the safe area', all_of(
        x >= 0.25 - e, x <= 0.75 + e, y >= 0.25 - e, y <= 0.75 + e))
    check('the view is kept', approx(corners(r.fov), corners(f)))
    check('and reported as kept', all_of(a.fov_changes == 0, b.fov_changes == 0))
  else:
    check('moved only if the silicon left the safe area', any_of(
        x <= 0.25 + e, x >= 0.75 - e, y <= 0.25 + e, y >= 0.75 - e))
    check('centred on the silicon, of the same size', centred(r.fov, stage.si, size))
    check('and reported as moved', all_of(a.fov_changes == 1, b.fov_changes == 1,
                                          approx(corners(a.fov), corners(r.fov))))
  check('the grid is the one seen from there', approx(corners(r.fov), stage.seen_from))
  check('the silicon is in view', stage.in_view)
