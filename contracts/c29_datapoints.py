"""C29: transitions become data points that say which neighbour the silicon moved to."""
import datetime as dt

import numpy as np
from etils import epath
from putting_dune import constants
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner as trl
from vdsl import *
from contracts.common import *

ARGS = trl.Args(source_path='', workdir='')


def inside(f, positions):
  """The same places in the coordinates of the field of view."""
  low = np.asarray([f.lower_left.x, f.lower_left.y])
  return (positions - low) / np.asarray([f.width, f.height])


def transition(before, after, zb, za, fb, fa, controls):
  """A transition whose grids are given in the material frame."""
  return mu.Transition(
      grid_before=mu.AtomicGrid(inside(fb, before), zb),
      grid_after=mu.AtomicGrid(inside(fa, after), za),
      fov_before=fb, fov_after=fa, controls=controls)


def patch(rng):
  """A patch of graphene around an atom at the origin: positions, its neighbours first."""
  a = 1.42
  cells = []
  for i in range(-3, 4):
    for j in range(-3, 4):
      at = i * np.array([np.sqrt(3), 0]) + j * np.array([np.sqrt(3) / 2, 1.5])
      cells += [at, at + np.array([0, 1.0])]
  p = a * np.array(cells)
  p = p[np.hypot(p[:, 0], p[:, 1]) < 4.5]
  p = p[np.argsort(np.hypot(p[:, 0], p[:, 1]), kind='stable')]
  turn = rng.uniform(0, 2 * np.pi)
  c, s = np.cos(turn), np.sin(turn)
  return p @ np.array([[c, s], [-s, c]])


def expected(before, after, zb, za, beam):
  """-> None if the transition is left out, else (label, beam position), by plain loops."""
  if sum(zb == 14) != 1 or len(before) < 10 or sum(za == 14) != 1 or len(after) < 4:
    return None
  si = before[list(zb).index(14)]
  far = lambda p, q: float(np.hypot(p[0] - q[0], p[1] - q[1]))
  near = sorted(range(len(before)), key=lambda i: far(before[i], si))
  reach = [far(before[i], si) for i in near[:10]]
  if abs(reach[1] - reach[4]) < 0.5 or reach[3] >= 2.0 or reach[4] <= 2.0:
    return None
  later = sorted(range(len(after)), key=lambda i: far(after[i], si))[:4]
  if 14 not in [za[i] for i in later]:
    return None
  moved = np.mean([min(far(before[i], after[j]) for j in later) for i in near[:4]])
  if moved > constants.CARBON_BOND_DISTANCE_ANGSTROMS / 2:
    return None
  now = after[list(za).index(14)]
  three = near[1:4]
  first = min(three, key=lambda i: far(before[i], beam))
  angle = lambda p: np.arctan2(p[1] - si[1], p[0] - si[0])
  ahead = lambda i: 0.0 if i == first else (angle(before[i]) - angle(before[first])) % (2 * np.pi)
  order = sorted(three, key=ahead)
  target = min(near[:4], key=lambda i: far(before[i], now))
  label = 0 if target == near[0] else order.index(target) + 1
  turn = angle(beam) - angle(before[first])
  d = far(beam, si)
  return label, (d * np.cos(turn), d * np.sin(turn))


@bounded(samples=400, fb=FovT, fa=FovT, goes=Int(0, 5), spoil=Int(0, 9), dwell=Real(0.1, 9),
         kv=Opt(Real(1, 100)), na=Opt(Real(0, 1)), rng=Rng())
def one(fb, fa, goes, spoil, dwell, kv, na, rng):
  """Sampled: graphene seen in two fields of view, the silicon going anywhere or staying."""
  origin = rng.uniform(-30, 30, size=2)
  before = patch(rng) + origin
  n = len(before)
  before = before + rng.uniform(-0.05, 0.05, size=(n, 2))
  zb, za = np.full(n, 6), np.full(n, 6)
  zb[0], za[goes] = 14, 14
  after = before + rng.uniform(-0.1, 0.1, size=(n, 2))
  if spoil == 1:
    zb[3] = 14
  elif spoil == 2:
    za[:] = 6
  elif spoil == 3:
    before[4] = before[0] + 1.6 * (before[4] - before[0]) / np.hypot(*(before[4] - before[0]))
  elif spoil == 4:
    after = after + rng.uniform(0.5, 0.9, size=2) * rng.choice([-1, 1], size=2)
  elif spoil == 5:
    before, zb = before[:9], zb[:9]
  elif spoil == 6:
    after, za = after[:3], za[:3]
  mix, mixa = rng.permutation(len(before)), rng.permutation(len(after))
  before, zb, after, za = before[mix], zb[mix], after[mixa], za[mixa]
  beam = origin + rng.uniform(-2.5, 2.5, size=2)
  at = inside(fb, beam)
  one_control = control(at[0], at[1], dwell, kv, na)
  controls = (one_control,) if spoil < 7 else (one_control,) * (2 * (spoil - 7))
  t = transition(before, after, zb, za, fb, fa, controls)
  old = snapshot(t)
  r = trl.transitions_to_datapoints([t], ARGS)
  want = expected(before, after, zb, za, beam) if len(controls) == 1 else None
  check('kept or left out', len(r) == (want is not None))
  if want is not None:
    check('where the silicon went', r[0]['next_state'] == want[0])
    check('the beam, with the nearest neighbour to the right', approx(
        r[0]['beam_pos'], want[1], 1e-5))
    check('of the control', all_of(
        approx(r[0]['seconds_between'], dwell, 1e-5), r[0]['current'] == na,
        r[0]['voltage'] == kv))
  check_same('transition unchanged', t, old)


def datapoint(label, position, seconds, current, voltage):
  return trl.DataPoint(next_state=label, beam_pos=position, seconds_between=seconds,
                       current=current, voltage=voltage)


DatapointT = Build(datapoint, Int(0, 3), Arr((2,), -4, 4), Real(0, 9), Real(0, 1), Real(1, 100))


@proof(data=SeqOf(DatapointT, 'n'), current=Bool(), voltage=Bool(), dwell=Bool(), j=Int(0))
def stacked(data, current, voltage, dwell, j):
  """Row j of everything is data point j; the context has what was asked for, in order."""
  require(len(data) >= 1)
  old = snapshot(data)
  r = trl.stack_data(data, current, voltage, dwell)
  n = len(data)
  check('as many rows', all_of(
      r['next_state'].shape == (n,), r['dt'].shape == (n,), r['position'].shape == (n, 2),
      r['rates'].shape == (n, 3)))
  columns = current + voltage + dwell
  if columns == 0:
    check('no context', r['context'] is None)
  else:
    check('the context has these columns', r['context'].shape == (n, columns))
  for i in ([index(j)] if symbolic else range(n)):
    if i < n:
      d = data[i]
      check('the label', r['next_state'][i] == d['next_state'])
      check('the time', r['dt'][i] == d['seconds_between'])
      check('the position', all_of(r['position'][i, 0] == d['beam_pos'][0],
                                   r['position'][i, 1] == d['beam_pos'][1]))
      want = ([d['current']] if current else []) + ([d['voltage']] if voltage else []) + (
          [d['seconds_between']] if dwell else [])
      for k in range(len(want)):
        check('the context', r['context'][i, k] == want[k])
  check_same('data unchanged', data, old)


GridT = Build(lambda p, z: mu.AtomicGrid(p, z), Arr(('n', 2), 0, 1), Arr(('n',), among=(6, 14)))
LaterT = Build(lambda p, z: mu.AtomicGrid(p, z), Arr(('m', 2), 0, 1), Arr(('m',), among=(6, 14)))


def points(g, h, fb, fa, controls):
  return trl.transitions_to_datapoints([mu.Transition(
      grid_before=g, grid_after=h, fov_before=fb, fov_after=fa, controls=controls)], ARGS)


@proof(g=GridT, h=LaterT, fb=FovT, fa=FovT, controls=SeqOf(ControlT, 'c', kind='tuple'))
def one_control(g, h, fb, fa, controls):
  """Transitions under no or several controls say nothing about one of them."""
  require(len(controls) != 1)
  old = snapshot((g, h, fb, fa, controls))
  check('left out', len(points(g, h, fb, fa, controls)) == 0)
  check_same('transition unchanged', (g, h, fb, fa, controls), old)


@proof(g=GridT, h=LaterT, fb=FovT, fa=FovT, c=ControlT, i=Int(0), j=Int(0))
def one_silicon(g, h, fb, fa, c, i, j):
  """A transition with two silicons, or with none, is left out."""
  n = g.atomic_numbers.shape[0]
  require(all_of(i != j, index(i) < n, index(j) < n))
  if g.atomic_numbers[i] == 14:
    require(g.atomic_numbers[j] == 14)
  else:
    require_all(n, lambda k: g.atomic_numbers[k] == 6)
  check('left out', len(points(g, h, fb, fa, (c,))) == 0)


@bounded(samples=60, k=Int(0, 6), rng=Rng())
def several(k, rng):
  """Sampled: each transition gives what it gives alone, in order."""
  ts = []
  for _ in range(k):
    before = patch(rng)
    n, goes = len(before), int(rng.integers(0, 5))
    zb, za = np.full(n, 6), np.full(n, 6)
    zb[0], za[goes] = 14, 14
    f = fov(-6.0, -6.0, 12.0, 12.0)
    at = inside(f, rng.uniform(-2, 2, size=2))
    controls = (control(at[0], at[1], float(rng.uniform(0, 5)), None, 0.5),) * int(rng.integers(1, 3))
    ts.append(transition(before, before, zb, za, f, f, controls))
  alone = [d for t in ts for d in trl.transitions_to_datapoints([t], ARGS)]
  all_at_once = trl.transitions_to_datapoints(ts, ARGS)
  check('as many', len(alone) == len(all_at_once))
  for d, e in zip(alone, all_at_once):
    check_same('in order', e, d)
