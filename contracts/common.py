"""Constructors of the objects the contracts quantify over."""
import datetime as dt

import numpy as np
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from vdsl import *

Coord = Real(-50, 50)
Size = Real(0.5, 60)
POS = 'putting_dune.microscope_utils:'


class StandIn:
  """A stand-in for a part; what it does not offer is outside of the contract."""

  def __getattr__(self, name):
    if name[:2] == '__':
      raise AttributeError(name)
    outside('use of ' + name)


def point(x, y):
  return geometry.Point((x, y))


def fov(x, y, w, h):
  return mu.MicroscopeFieldOfView(
      geometry.Point((x, y)), geometry.Point((x + w, y + h)))


def grid(positions, numbers):
  return mu.AtomicGrid(positions, numbers)


def control(x, y, dwell, kv, na):
  return mu.BeamControl(geometry.Point((x, y)), dt.timedelta(seconds=dwell), kv, na)


def seconds(t):
  return t.total_seconds()


def observation(g, f, controls, elapsed):
  return mu.MicroscopeObservation(g, f, tuple(controls), dt.timedelta(seconds=elapsed))


PointT = Build(point, Coord, Coord)
FovT = Build(fov, Coord, Coord, Size, Size)
GridT = Build(grid, Arr(('n', 2), -60, 60), Arr(('n',), dtype='int64', among=(6, 14)))
ControlT = Build(control, Coord, Coord, Real(0, 10), Real(1, 100), Real(0, 1))
