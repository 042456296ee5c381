"""C04: what is written to a protocol buffer is read back, to float32."""
import datetime as dt

import numpy as np
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune import putting_dune_pb2
from vdsl import *
from contracts.common import *

f32 = np.float32


def wire(model):
  """Written, serialized, parsed and read again."""
  return type(model).from_proto_string(model.to_proto().SerializeToString())


def same_point(p, q):
  return all_of(p.x == f32(q.x), p.y == f32(q.y))


def same_control(c, d):
  return all_of(
      same_point(c.position, d.position),
      approx(seconds(c.dwell_time), f32(seconds(d.dwell_time))),
      same_optional(c.voltage_kv, d.voltage_kv), same_optional(c.current_na, d.current_na))


def same_optional(x, y):
  if y is None:
    return x is None
  if x is None:
    return False
  return x == f32(y)


def same_fov(f, g):
  return all_of(same_point(f.lower_left, g.lower_left), same_point(f.upper_right, g.upper_right))


def check_grid(name, g, h):
  n = h.atom_positions.shape[0]
  check(name + ': as many atoms', all_of(g.atom_positions.shape == (n, 2),
                                         g.atomic_numbers.shape == (n,)))
  check_all(name + ': positions, in order', n, lambda i: all_of(
      g.atom_positions[i, 0] == f32(h.atom_positions[i, 0]),
      g.atom_positions[i, 1] == f32(h.atom_positions[i, 1])))
  check_all(name + ': species, in order', n,
            lambda i: g.atomic_numbers[i] == h.atomic_numbers[i])


def check_image(name, a, b):
  if b is None:
    check(name + ' absent', a is None)
  else:
    check(name + ' present', a is not None)
    check_same(name, a, b)


def check_controls(name, a, b):
  check(name + ': as many', len(a) == len(b))
  check_all(name, len(b), lambda i: same_control(a[i], b[i]))


def check_observation(a, b):
  check_grid('grid', a.grid, b.grid)
  check('field of view', same_fov(a.fov, b.fov))
  check_controls('controls', a.controls, b.controls)
  check('elapsed time', approx(seconds(a.elapsed_time), f32(seconds(b.elapsed_time))))
  check_image('image', a.image, b.image)
  check_image('label image', a.label_image, b.label_image)


OptControlT = Build(control, Coord, Coord, Real(0, 10), Opt(Real(1, 100)), Opt(Real(0, 1)))
SomeControlT = Build(control, Coord, Coord, Real(0, 10), Real(1, 100), Real(0, 1))


def make_observation(g, f, controls, t, image, label):
  return mu.MicroscopeObservation(g, f, controls, dt.timedelta(seconds=t), image, label)


ObservationT = Build(make_observation, GridT, FovT, SeqOf(SomeControlT, 'k', kind='tuple'),
                     Real(0, 5000), Opt(Img()), Opt(Img((4, 4, 2))))


@proof(p=PointT)
def points(p):
  q = mu.proto_point_to_shapely_point(mu.shapely_point_to_proto_point(p))
  check('point', same_point(q, p))


@proof(g=GridT)
def grids(g):
  old = snapshot(g)
  check_grid('grid', wire(g), g)
  check_grid('grid, unserialized', mu.AtomicGrid.from_proto(g.to_proto()), g)
  check_same('grid unchanged', g, old)


@proof(c=OptControlT)
def controls(c):
  check('control', same_control(wire(c), c))
  check('control, unserialized', same_control(mu.BeamControl.from_proto(c.to_proto()), c))


@proof(f=FovT)
def fovs(f):
  check('field of view', same_fov(wire(f), f))


@proof(o=ObservationT)
def observations(o):
  check_observation(wire(o), o)


def make_transition(g0, g1, f0, f1, controls, i0, i1, l0, l1):
  return mu.Transition(g0, g1, f0, f1, controls, i0, i1, l0, l1)


GridUT = Build(grid, Arr(('u', 2), -60, 60), Arr(('u',), dtype='int64', among=(6, 14)))


@proof(t=Build(make_transition, GridT, GridUT, FovT, FovT, SeqOf(SomeControlT, 'k', kind='tuple'),
               Opt(Img()), Opt(Img((4, 4, 2))), Opt(Img((2, 2, 1))), Opt(Img((2, 4, 1)))))
def transitions(t):
  r = wire(t)
  check_grid('grid before', r.grid_before, t.grid_before)
  check_grid('grid after', r.grid_after, t.grid_after)
  check('field of view before', same_fov(r.fov_before, t.fov_before))
  check('field of view after', same_fov(r.fov_after, t.fov_after))
  check_controls('controls', r.controls, t.controls)
  check_image('image before', r.image_before, t.image_before)
  check_image('image after', r.image_after, t.image_after)
  check_image('label image before', r.label_image_before, t.label_image_before)
  check_image('label image after', r.label_image_after, t.label_image_after)


def make_drift(jitter, drift):
  return mu.Drift(jitter=jitter, drift=drift)


DriftT = Build(make_drift, Arr(('n', 2), -5, 5), Arr((2,), -20, 20))


@proof(d=DriftT)
def drifts(d):
  r = wire(d)
  check('shape', all_of(r.jitter.shape == d.jitter.shape, r.drift.shape == (2,)))
  check('drift', all_of(r.drift[0] == f32(d.drift[0]), r.drift[1] == f32(d.drift[1])))
  check_all('jitter, in order', d.jitter.shape, lambda i, j: r.jitter[i, j] == f32(d.jitter[i, j]))


@proof(d=DriftT, e=Arr((2,), -20, 20))
def drift_sum(d, e):
  old = snapshot(d)
  r = d.cumulate_drift(mu.Drift(jitter=np.zeros((0, 2)), drift=e))
  check('drifts add up', approx(r.drift, d.drift + e))
  check_same('own jitter kept', r.jitter, d.jitter)
  check_same('unchanged', d, old)


@proof(d=DriftT, o=ObservationT)
def drift_applied(d, o):
  require(d.jitter.shape[0] == o.grid.atom_positions.shape[0])
  old = snapshot(o)
  r = d.apply_to_observation(o)
  check_all('atoms lose their jitter', o.grid.atom_positions.shape, lambda i, j: approx(
      r.grid.atom_positions[i, j], o.grid.atom_positions[i, j] - d.jitter[i, j]))
  check_same('species', r.grid.atomic_numbers, o.grid.atomic_numbers)
  check('field of view moves by the drift', approx(
      (r.fov.lower_left.x, r.fov.lower_left.y, r.fov.upper_right.x, r.fov.upper_right.y),
      (o.fov.lower_left.x + d.drift[0], o.fov.lower_left.y + d.drift[1],
       o.fov.upper_right.x + d.drift[0], o.fov.upper_right.y + d.drift[1])))
  check_same('controls', r.controls, o.controls)
  check_same('elapsed time', r.elapsed_time, o.elapsed_time)
  check_image('image', r.image, o.image)
  check_image('label image', r.label_image, o.label_image)
  check_same('observation unchanged', o, old)


def plain_observation(g, f, c, t):
  return mu.MicroscopeObservation(g, f, (c,), dt.timedelta(seconds=t))


PlainT = Build(plain_observation, GridT, FovT, SomeControlT, Real(0, 5000))




@proof(obs=SeqOf(PlainT, 'm', kind='tuple'), k=Int(0), i=Int(0))
def trajectories(obs, k, i):
  r = wire(mu.Trajectory(obs))
  check('as many observations', len(r.observations) == len(obs))
  require(k < len(obs))
  a = r.observations[k]
  b = obs[k]
  check('field of view', same_fov(a.fov, b.fov))
  check('elapsed time', approx(seconds(a.elapsed_time), f32(seconds(b.elapsed_time))))
  check('controls', all_of(len(a.controls) == 1, same_control(a.controls[0], b.controls[0])))
  check('as many atoms', a.grid.atom_positions.shape == b.grid.atom_positions.shape)
  require(i < b.grid.atom_positions.shape[0])
  check('position', all_of(a.grid.atom_positions[i, 0] == f32(b.grid.atom_positions[i, 0]),
                           a.grid.atom_positions[i, 1] == f32(b.grid.atom_positions[i, 1])))
  check('species', a.grid.atomic_numbers[i] == b.grid.atomic_numbers[i])


@proof(obs=SeqOf(PlainT, 'm', kind='tuple'), ds=SeqOf(DriftT, 'q'), k=Int(0),
       i=Int(0))
def labelled_trajectories(obs, ds, k, i):
  r = wire(mu.LabeledAlignmentTrajectory(mu.Trajectory(obs), ds))
  check('as many observations', len(r.trajectory.observations) == len(obs))
  check('as many drifts', len(r.drifts) == len(ds))
  if k < len(obs):
    a = r.trajectory.observations[k]
    check('field of view', same_fov(a.fov, obs[k].fov))
    check('elapsed time', approx(seconds(a.elapsed_time), f32(seconds(obs[k].elapsed_time))))
  if i < len(ds):
    d = r.drifts[i]
    check('drift', all_of(d.drift[0] == f32(ds[i].drift[0]), d.drift[1] == f32(ds[i].drift[1])))
    check('as many jitters', d.jitter.shape == ds[i].jitter.shape)
