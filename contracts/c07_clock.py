"""C07: the simulator's clock and observers account for everything that happens."""
import datetime as dt

import numpy as np
from putting_dune import simulator
from putting_dune import simulator_observers
from vdsl import *
from contracts.common import *
from contracts.parts import *
from contracts.stage import *


@proof(controls=ControlsT, pos=ViewT, k=Int(0), start=Arr((2,), -60, 60),
       duration=Real(0, 10), rng=Rng(), samples=150)
def step(controls, pos, k, start, duration, rng):
  require(index(k) < pos.shape[0])
  duration = seconds(dt.timedelta(seconds=duration))
  stage = Stage(pos, k, start, controls)
  s, f = running(stage, duration, rng)
  a = Log(stage)
  b = Log(stage)
  s.add_observer(a)
  s.add_observer(b)
  invariant('controls are applied in turn', lambda: all_of(
      a.applied == stage.applied, b.applied == stage.applied))
  invariant('no image yet', lambda: all_of(stage.images == 0, a.images == 0, b.images == 0))
  invariant('the view does not move', lambda: all_of(a.fov_changes == 0, b.fov_changes == 0))
  r = s.step_and_image(rng, controls)
  for o in (a, b):
    check('every control was applied and reported', all_of(
        stage.applied == len(controls), o.applied == len(controls)))
    check('one image, or two when the view moved', o.images == 1 + o.fov_changes)
    check('every image taken was reported', o.images == stage.images)
    check('the elapsed time is the time of all events', approx(seconds(r.elapsed_time), o.clock))
    check('the last image was of the view returned',
          approx(corners(o.fov_of_image), corners(r.fov)))
  check_same('the controls are returned as given', r.controls, controls)
  check_same('the last grid seen is returned', r.grid, stage.view)
  check('no image unless asked', all_of(r.image is None, a.generated is None))
  s.remove_observer(a)


@proof(pos=ViewT, k=Int(0), start=Arr((2,), -60, 60), duration=Real(0, 10), rng=Rng(), samples=60)
def reset(pos, k, start, duration, rng):
  require(index(k) < pos.shape[0])
  duration = seconds(dt.timedelta(seconds=duration))
  stage = Stage(pos, k, start, ())
  a = Log(stage)
  b = Log(stage)
  s = simulator.PuttingDuneSimulator(
      stage, image_duration=dt.timedelta(seconds=duration), observers=[a])
  s.add_observer(b)
  r = s.reset(rng)
  check('the material is reset once', stage.resets == 1)
  for o in (a, b):
    check('observers hear of the reset and the view', all_of(
        o.resets == 1, o.fov_changes == 1, approx(corners(o.fov), corners(r.fov))))
    check('one image', all_of(o.images == 1, stage.images == 1))
    check('the elapsed time is the time of all events', approx(seconds(r.elapsed_time), o.clock))
    check('that of one image', approx(o.clock, duration))
  check_same('the grid seen is returned', r.grid, stage.view)
  check('no controls, no image', all_of(len(r.controls) == 0, r.image is None))
  # The simulator can be reset again, without the observer removed.
  s.remove_observer(b)
  r = s.reset(rng)
  check('heard again', all_of(a.resets == 2, stage.resets == 2, a.images == 2))
  check('not heard once removed', all_of(b.resets == 1, b.images == 1, b.applied == 0))


@proof(pos=ViewT, k=Int(0), start=Arr((2,), -60, 60), rng=Rng(), when=OneOf(0, 1),
       use=[stem_image], samples=6)
def images(pos, k, start, rng, when):
  require(index(k) < pos.shape[0])
  stage = Stage(pos, k, start, ())
  s, f = running(stage, 2.0, rng)
  a = Log(stage)
  s.add_observer(a)
  if when == 0:
    r = s.reset(rng, return_image=True)
  else:
    r = s.step_and_image(rng, (), return_image=True)
  check('an image is returned when asked for', r.image is not None)
  check_same('observers hear of it', a.generated, r.image)
  check('the elapsed time is the time of all events', approx(seconds(r.elapsed_time), a.clock))


@proof(pos=ViewT, k=Int(0), rng=Rng(), samples=10)
def before_reset(pos, k, rng):
  require(index(k) < pos.shape[0])
  stage = Stage(pos, k, np.zeros((2,)), ())
  s = simulator.PuttingDuneSimulator(stage)
  check('refused before reset', raises(RuntimeError, s.step_and_image, rng, ()))
  check('nothing happened', all_of(stage.images == 0, stage.applied == 0))


EventT = simulator_observers.SimulatorEventType


@proof(g=GridT, f=FovT, c=ControlT, t=Real(0, 100), image=Img(), k=OneOf(0, 1, 2, 3, 4), samples=60)
def event_observer(g, f, c, t, image, k):
  o = simulator_observers.EventObserver()
  at = dt.timedelta(seconds=t)
  o.observe_take_image(at, f)
  o.observe_transition(at, g)
  if k == 0:
    o.observe_reset(g, f)
    check('a reset starts the record anew', len(o.events) == 1)
    check_same('record', o.events[0].event_data, {'grid': g, 'fov': f})
    check('kind', o.events[0].event_type == EventT.RESET)
    return
  if k == 1:
    o.observe_transition(at, g)
    want = {'time_since_control_was_applied': at, 'grid': g}
    kind = EventT.TRANSITION
  elif k == 2:
    o.observe_apply_control(c)
    want = {'dwell_time': c.dwell_time, 'position': c.position}
    kind = EventT.APPLY_CONTROL
  elif k == 3:
    o.observe_take_image(at, f)
    want = {'duration': at, 'fov': f}
    kind = EventT.TAKE_IMAGE
  else:
    o.observe_generated_image(image)
    want = {'image': image}
    kind = EventT.GENERATED_IMAGE
  check('events are recorded in order', len(o.events) == 3)
  check_same('record', o.events[2].event_data, want)
  check('kind', o.events[2].event_type == kind)
  check('kind', all_of(o.events[0].event_type == EventT.TAKE_IMAGE,
                       o.events[1].event_type == EventT.TRANSITION))
