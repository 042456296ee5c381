"""C01: microscope and material frames are related by one affine bijection."""
import numpy as np
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *


@proof(f=FovT, p=PointT)
def point_frames(f, p):
  w = f.upper_right.x - f.lower_left.x
  h = f.upper_right.y - f.lower_left.y
  m = f.microscope_frame_to_material_frame(p)
  check('material x is affine', approx(m.x, p.x * w + f.lower_left.x))
  check('material y is affine', approx(m.y, p.y * h + f.lower_left.y))
  b = f.material_frame_to_microscope_frame(m)
  check('back to the microscope frame', approx((b.x, b.y), (p.x, p.y)))
  u = f.material_frame_to_microscope_frame(p)
  check('microscope x is affine', approx(u.x * w, p.x - f.lower_left.x))
  check('microscope y is affine', approx(u.y * h, p.y - f.lower_left.y))
  a = f.microscope_frame_to_material_frame(u)
  check('back to the material frame', approx((a.x, a.y), (p.x, p.y)))


@proof(f=FovT, p=Arr(('n', 2), -60, 60))
def array_frames(f, p):
  old = snapshot(p)
  n = p.shape[0]
  m = f.microscope_frame_to_material_frame(p)
  u = f.material_frame_to_microscope_frame(p)
  check('shape', m.shape == p.shape)
  check('shape', u.shape == p.shape)
  ll = np.asarray([f.lower_left.x, f.lower_left.y])
  sc = np.asarray([f.upper_right.x, f.upper_right.y]) - ll
  check_all('affine', n, lambda i: approx(m[i], p[i] * sc + ll))
  check_all('affine back', n, lambda i: approx(u[i] * sc, p[i] - ll))
  check('inverse', approx(f.material_frame_to_microscope_frame(m), p))
  check('inverse', approx(f.microscope_frame_to_material_frame(u), p))
  check_same('input array unchanged', p, old)


@proof(f=FovT, p=Arr((2,), -60, 60))
def vector_frames(f, p):
  m = f.microscope_frame_to_material_frame(p)
  u = f.material_frame_to_microscope_frame(p)
  check('shape', m.shape == (2,))
  check('shape', u.shape == (2,))
  check('affine', approx(m[0], p[0] * (f.upper_right.x - f.lower_left.x) + f.lower_left.x))
  check('affine', approx(m[1], p[1] * (f.upper_right.y - f.lower_left.y) + f.lower_left.y))
  check('inverse', approx(f.material_frame_to_microscope_frame(m), p))
  check('inverse', approx(f.microscope_frame_to_material_frame(u), p))


@proof(f=FovT, g=GridT)
def grid_frames(f, g):
  old = snapshot(g)
  m = f.microscope_frame_to_material_frame(g)
  u = f.material_frame_to_microscope_frame(g)
  check('positions as for arrays',
        approx(m.atom_positions, f.microscope_frame_to_material_frame(g.atom_positions)))
  check('positions as for arrays',
        approx(u.atom_positions, f.material_frame_to_microscope_frame(g.atom_positions)))
  check_same('species kept', m.atomic_numbers, g.atomic_numbers)
  check_same('species kept', u.atomic_numbers, g.atomic_numbers)
  check('inverse', approx(
      f.material_frame_to_microscope_frame(m).atom_positions, g.atom_positions))
  check_same('input grid unchanged', g, old)


@proof(f=FovT, c=ControlT)
def control_frames(f, c):
  m = f.microscope_frame_to_material_frame(c)
  u = f.material_frame_to_microscope_frame(c)
  pm = f.microscope_frame_to_material_frame(c.position)
  pu = f.material_frame_to_microscope_frame(c.position)
  check('position as for points', approx((m.position.x, m.position.y), (pm.x, pm.y)))
  check('position as for points', approx((u.position.x, u.position.y), (pu.x, pu.y)))
  check('dwell time kept', m.dwell_time == c.dwell_time)
  check('dwell time kept', u.dwell_time == c.dwell_time)
  check('voltage kept', m.voltage_kv == c.voltage_kv)
  check('voltage kept', u.voltage_kv == c.voltage_kv)
  check('current kept', m.current_na == c.current_na)
  check('current kept', u.current_na == c.current_na)


@proof(f=FovT, k=OneOf(0, 1, 2, 3))
def other_types(f, k):
  v = [None, 'point', 1.5, [0.0, 1.0]][k]
  check('unsupported type', raises(
      NotImplementedError, f.microscope_frame_to_material_frame, v))
  check('unsupported type', raises(
      NotImplementedError, f.material_frame_to_microscope_frame, v))
