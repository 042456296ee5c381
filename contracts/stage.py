"""A simulator around a material whose silicon wanders arbitrarily."""
import datetime as dt

import numpy as np
from putting_dune import geometry
from putting_dune import imaging
from putting_dune import microscope_utils as mu
from putting_dune import simulator
from vdsl import *
from contracts.common import *
from contracts.parts import *

ParamsT = Build(
    lambda *a: imaging.ImageGenerationParameters(*a, image_size=32),
    Real(1.4, 2), Real(0.001, 0.005), Real(0, 5), Real(10, 30), Real(0, 0.001), Real(0.1, 1),
    Real(0.7, 1.3), Real(0.01, 0.2), Real(0.01, 0.2))


@assumed('putting_dune.imaging:generate_stem_image',
         grid=Build(silicon_grid, Arr(('n>=4', 2), 0.1, 0.9), Int(0, 3)),
         fov=FovT, image_params=ParamsT, rng=Rng(), samples=10)
def stem_image(call, grid, fov, image_params, rng):
  r = call.returns(Arr((32, 32), 0, 1))
  check('an image', np.ndim(r) == 2)


class Stage:
  """The material: what the simulator does to it is checked and counted."""

  def __init__(self, pos, k, start, controls):
    self.pos = pos            # atoms in view; atom k is the silicon when it is in view
    self.k = k
    self.grid = silicon_grid(pos, k)
    self.si = start           # position of the silicon, material frame
    self.controls = controls  # the controls to be applied, microscope frame
    self.before = None        # the field of view when the step began
    self.fov = None           # the field of view when the last image was taken
    self.view = None          # the last grid seen
    self.in_view = False
    self.resets = 0
    self.images = 0
    self.applied = 0
    self.moves = 0

  def reset(self, rng):
    self.resets = self.resets + 1

  def get_silicon_position(self):
    return self.si.copy()

  def apply_control(self, rng, control, observers=()):
    check('exposures come before the image', self.images == 0)
    c = self.controls[self.applied]
    m = self.before.microscope_frame_to_material_frame(c)
    check('each control is applied once, in order', approx(
        (control.position.x, control.position.y), (m.position.x, m.position.y)))
    check('for its dwell time', control.dwell_time == c.dwell_time)
    check('at its voltage and current', all_of(
        control.voltage_kv == c.voltage_kv, control.current_na == c.current_na))
    self.applied = self.applied + 1
    n = 0
    for o in observers:
      check('observers hear of the control before it is applied', o.applied == self.applied)
      n = n + 1
    check('the material is given the observers', n == 2)
    self.wander()

  def wander(self):
    if not symbolic and fresh(Bool()):  # Samples should often stay in view.
      self.si = self.si + fresh(Arr((2,), -8, 8))
    else:
      self.si = fresh(Arr((2,), -60, 60))

  def get_atoms_in_bounds(self, lower_left, upper_right):
    self.images = self.images + 1
    w = upper_right.x - lower_left.x
    h = upper_right.y - lower_left.y
    p = self.pos.copy()
    n = p.shape[0]
    x = (self.si[0] - lower_left.x) / w
    y = (self.si[1] - lower_left.y) / h
    self.in_view = x >= 0 and x <= 1 and y >= 0 and y <= 1
    self.x = x
    self.y = y
    if self.in_view:
      p[self.k, 0] = x
      p[self.k, 1] = y
      self.view = silicon_grid(p, self.k)
    else:
      self.view = mu.AtomicGrid(p, np.full((n,), 6))
    self.seen_from = (lower_left.x, lower_left.y, upper_right.x, upper_right.y)
    return self.view


class Log(mu.SimulatorObserver):
  """Adds up the time the simulator says has passed."""

  def __init__(self, stage):
    self.stage = stage
    self.applied = 0
    self.images = 0
    self.clock = 0.0
    self.fov_changes = 0
    self.fov = None
    self.fov_of_image = None
    self.resets = 0
    self.generated = None

  def observe_reset(self, grid, fov):
    self.resets = self.resets + 1
    self.fov = fov

  def observe_apply_control(self, control):
    c = self.stage.controls[self.applied]
    check('observers hear of every control, in order', all_of(
        control.dwell_time == c.dwell_time, self.applied == self.stage.applied))
    self.applied = self.applied + 1
    self.clock = self.clock + seconds(control.dwell_time)

  def observe_fov_change(self, fov):
    self.fov_changes = self.fov_changes + 1
    self.fov = fov

  def observe_take_image(self, duration, fov):
    self.images = self.images + 1
    self.clock = self.clock + seconds(duration)
    self.fov_of_image = fov

  def observe_generated_image(self, image):
    self.generated = image


def corners(f):
  return (f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y)


def running(stage, duration, rng):
  """A simulator in the middle of an episode, and its (arbitrary square) field of view."""
  s = simulator.PuttingDuneSimulator(stage, image_duration=dt.timedelta(seconds=duration))
  f = s.reset(rng).fov
  stage.wander()
  stage.before = f
  stage.images = 0
  stage.resets = 0
  return s, f


ControlsT = SeqOf(ControlT, 'k', kind='tuple')
ViewT = Arr(('m>=1', 2), 0, 1)
