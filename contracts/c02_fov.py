"""C02: shifting, resizing and zooming a field of view."""
import numpy as np
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *


@proof(f=FovT)
def extent(f):
  check('width', approx(f.width, f.upper_right.x - f.lower_left.x))
  check('height', approx(f.height, f.upper_right.y - f.lower_left.y))
  check('offset is the centre', approx(f.offset.x * 2, f.upper_right.x + f.lower_left.x))
  check('offset is the centre', approx(f.offset.y * 2, f.upper_right.y + f.lower_left.y))


@proof(f=FovT, p=PointT)
def shift(f, p):
  old = snapshot(f)
  g = f.shift(p)
  check('lower left', approx((g.lower_left.x, g.lower_left.y),
                             (f.lower_left.x + p.x, f.lower_left.y + p.y)))
  check('upper right', approx((g.upper_right.x, g.upper_right.y),
                              (f.upper_right.x + p.x, f.upper_right.y + p.y)))
  check_same('field of view unchanged', f, old)


@proof(f=FovT, w=Real(-5, 50), h=Real(-5, 50))
def resize(f, w, h):
  old = snapshot(f)
  if w <= 0 or h <= 0:
    check('sizes must be positive', raises(AssertionError, f.resize, w, h))
  else:
    g = f.resize(w, h)
    check('width', approx(g.upper_right.x - g.lower_left.x, w))
    check('height', approx(g.upper_right.y - g.lower_left.y, h))
    check('centre kept', approx((g.offset.x, g.offset.y), (f.offset.x, f.offset.y)))
  check_same('field of view unchanged', f, old)


@proof(f=FovT, z=Real(-2, 10))
def zoom(f, z):
  require(any_of(z <= 0, z >= 0.05))
  if z <= 0:
    check('factor must be positive', raises(AssertionError, f.zoom, z))
  else:
    g = f.zoom(z)
    check('width', approx(g.width * z, f.width))
    check('height', approx(g.height * z, f.height))
    check('centre kept', approx((g.offset.x, g.offset.y), (f.offset.x, f.offset.y)))


@proof(c=ControlT, p=PointT)
def shift_control(c, p):
  s = c.shift(p)
  check('position', approx((s.position.x, s.position.y),
                           (c.position.x + p.x, c.position.y + p.y)))
  check('rest kept', all_of(s.dwell_time == c.dwell_time, s.voltage_kv == c.voltage_kv,
                            s.current_na == c.current_na))


@proof(g=GridT, v=Arr((2,), -10, 10))
def shift_grid(g, v):
  old = snapshot(g)
  s = g.shift(v)
  check_all('positions', g.atom_positions.shape[0],
            lambda i: approx(s.atom_positions[i], g.atom_positions[i] + v))
  check_same('species', s.atomic_numbers, g.atomic_numbers)
  check_same('grid unchanged', g, old)


@proof(g=GridT, v=Arr((3,), -10, 10), k=OneOf(1, 3))
def shift_grid_shape(g, v, k):
  check('a shift must have two components', raises(ValueError, g.shift, v[:k]))
