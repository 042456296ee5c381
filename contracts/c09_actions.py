"""C09: action adapters aim the beam where the action says."""
import datetime as dt

import numpy as np
from putting_dune import action_adapters as aa
from putting_dune import constants
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *
from contracts.parts import *


def clip(x, lo, hi):
  return ite(x < lo, lo, ite(x > hi, hi, x))


def one_control(r):
  check('one control', len(r) == 1)
  return r[0]


def at(c, x, y):
  return approx((c.position.x, c.position.y), (x, y))


def spec_is(s, shape, lo, hi):
  return all_of(s.shape == shape, s.dtype == np.float32, approx(np.asarray(s.minimum), np.asarray(lo, np.float32)),
                approx(np.asarray(s.maximum), np.asarray(hi, np.float32)))


def seen(pos, k, f):
  return mu.MicroscopeObservation(silicon_grid(pos, k), f, (), dt.timedelta(seconds=2))


ActionT = Arr((2,), -3, 3)
ViewT = Arr(('n>=1', 2), 0, 1)


@proof(a=ActionT, g=GridT, f=FovT)
def direct(a, g, f):
  old = snapshot(a)
  o = mu.MicroscopeObservation(g, f, (), dt.timedelta(seconds=2))
  ad = aa.DirectActionAdapter()
  ad.reset()
  c = one_control(ad.get_action(o, a))
  check('at the action, kept in view', at(c, clip(a[0], 0, 1), clip(a[1], 0, 1)))
  check('for a second and a half', seconds(c.dwell_time) == 1.5)
  check('spec', spec_is(ad.action_spec, (2,), 0.0, 1.0))
  check_same('action unchanged', a, old)


@proof(a=ActionT, b=ActionT, g=GridT, f=FovT, rng=Rng())
def delta(a, b, g, f, rng):
  o = mu.MicroscopeObservation(g, f, (), dt.timedelta(seconds=2))
  ad = aa.DeltaPositionActionAdapter(rng)
  ad.reset()
  old = snapshot(a)
  x = ad.beam_pos[0] + 0
  y = ad.beam_pos[1] + 0
  check('the beam starts in view', all_of(x >= 0, x <= 1, y >= 0, y <= 1))
  c = one_control(ad.get_action(o, a))
  x = clip(x + a[0], 0, 1)
  y = clip(y + a[1], 0, 1)
  check('moved by the action, kept in view', at(c, x, y))
  d = one_control(ad.get_action(o, b))
  check('moved again, from where it was', at(d, clip(x + b[0], 0, 1), clip(y + b[1], 0, 1)))
  check('for a second and a half', all_of(
      seconds(c.dwell_time) == 1.5, seconds(d.dwell_time) == 1.5))
  check('the first control stays as it was', at(c, x, y))
  check('spec', spec_is(ad.action_spec, (2,), -0.1, 0.1))
  check_same('action unchanged', a, old)


@proof(a=Arr((3,), -3, 3), pos=ViewT, k=Int(0), f=FovT, lo=Real(0, 5), more=Real(0, 5), r=Real(0.1, 5))
def relative(a, pos, k, f, lo, more, r):
  n = pos.shape[0]
  require(index(k) < n)
  require(any_of(more == 0, more >= 0.01))
  t0 = dt.timedelta(seconds=lo)
  t1 = dt.timedelta(seconds=lo + more)
  old = snapshot(a)
  o = seen(pos, k, f)
  ad = aa.RelativeToSiliconActionAdapter(dwell_time_range=(t0, t1), max_distance_angstroms=r)
  ad.reset()
  c = one_control(ad.get_action(o, a))
  m = f.microscope_frame_to_material_frame(pos[k])
  p = f.material_frame_to_microscope_frame(
      point(m[0] + clip(a[0], -1, 1) * r, m[1] + clip(a[1], -1, 1) * r))
  check('within the given distance of the silicon, kept in view',
        at(c, clip(p.x, 0, 1), clip(p.y, 0, 1)))
  t = clip(a[2], 0, 1)
  check('dwelling for the fraction of the range asked', approx(
      seconds(c.dwell_time), seconds(t0) + t * (seconds(t1) - seconds(t0)), 1e-5))
  if seconds(t0) == seconds(t1):
    check('spec', spec_is(ad.action_spec, (2,), -1.0, 1.0))
  else:
    check('spec', spec_is(ad.action_spec, (3,), [-1.0, -1.0, 0.0], [1.0, 1.0, 1.0]))
  check_same('action unchanged', a, old)


@proof(a=Arr((3,), -3, 3), pos=ViewT, k=Int(0), f=FovT, lo=Real(0, 5), more=Real(0, 5))
def relative_angstroms(a, pos, k, f, lo, more):
  n = pos.shape[0]
  require(index(k) < n)
  require(any_of(more == 0, more >= 0.01))
  t0 = dt.timedelta(seconds=lo)
  t1 = dt.timedelta(seconds=lo + more)
  old = snapshot(a)
  o = seen(pos, k, f)
  ad = aa.RelativeToSiliconMaterialFrameActionAdapter(dwell_time_range=(t0, t1))
  c = one_control(ad.get_action(o, a))
  m = f.microscope_frame_to_material_frame(pos[k])
  p = f.material_frame_to_microscope_frame(point(m[0] + a[0], m[1] + a[1]))
  check('as many angstroms from the silicon as asked, kept in view',
        at(c, clip(p.x, 0, 1), clip(p.y, 0, 1)))
  t = clip(a[2], 0, 1)
  check('dwelling for the fraction of the range asked', approx(
      seconds(c.dwell_time), seconds(t0) + t * (seconds(t1) - seconds(t0)), 1e-5))
  check_same('action unchanged', a, old)


@proof(a=ActionT, pos=ViewT, k=Int(0), f=FovT)
def default_relative(a, pos, k, f):
  require(index(k) < pos.shape[0])
  o = seen(pos, k, f)
  c = one_control(aa.RelativeToSiliconActionAdapter().get_action(o, a))
  d = one_control(aa.RelativeToSiliconActionAdapter(
      max_distance_angstroms=constants.CARBON_BOND_DISTANCE_ANGSTROMS).get_action(o, a))
  check('one bond length, unless given', at(c, d.position.x, d.position.y))
  check('for a second and a half', all_of(
      seconds(c.dwell_time) == 1.5, seconds(d.dwell_time) == 1.5))


@proof(a=ActionT, g=Build(grid, Arr(('n', 2), 0, 1), Arr(('n',), dtype='int64', among=(6, 14))),
       i=Int(0), j=Int(0), f=FovT, which=OneOf(0, 1))
def not_one_silicon(a, g, i, j, f, which):
  n = g.atomic_numbers.shape[0]
  o = mu.MicroscopeObservation(g, f, (), dt.timedelta(seconds=2))
  ad = aa.RelativeToSiliconActionAdapter() if which == 0 else (
      aa.RelativeToSiliconMaterialFrameActionAdapter())
  if all_of(index(i) < n, index(j) < n, i != j):
    require(all_of(g.atomic_numbers[i] == 14, g.atomic_numbers[j] == 14))
    check('several silicons are refused', raises(RuntimeError, ad.get_action, o, a))
  else:
    require_all(n, lambda q: g.atomic_numbers[q] == 6)
    check('no silicon is refused', raises(RuntimeError, ad.get_action, o, a))
