"""C26: recorded trajectories are realigned by the drift their images show."""
import datetime as dt
import os
import shutil
import tempfile

from etils import epath
import numpy as np
from putting_dune import alignment
from putting_dune import geometry
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import align_trajectories
from vdsl import *
from contracts.common import *


def observation(z, f, controls, t, image, label):
  return mu.MicroscopeObservation(
      mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(np.zeros((1, 2)), np.asarray([z]))), f, controls,
      dt.timedelta(seconds=t), image, label)


ObservationT = Build(
    observation, Int(1, 90), FovT, SeqOf(ControlT, 'c', kind='tuple'), Real(0, 50),
    Arr((2, 2), 0, 1), Arr((2, 2), 0, 1))


class Aligner(StandIn):
  """Sees each image once, in order; reports the drift it likes."""

  def __init__(self, history, given, kept):
    self.history = history
    self.given = given
    self.kept = kept       # whether to remember what was reported
    self.resets = 0
    self.seen = 0          # images since the reset
    self.x = 0.0           # the drift so far
    self.y = 0.0
    self.step = 1.0        # the part of a drift that is applied
    self.drifts = []
    self.grids = []

  def reset(self, history_length):
    check('with the history asked for', history_length == self.history)
    self.resets = self.resets + 1

  def __call__(self, image, f):
    o = self.given[self.seen]
    self.seen = self.seen + 1
    check_same('every image in turn', image, o.image)
    check('seen where the drift so far has moved it', close(
        (f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y),
        (o.fov.lower_left.x - self.x, o.fov.lower_left.y - self.y,
         o.fov.upper_right.x - self.x, o.fov.upper_right.y - self.y)))
    d = fresh(Arr((2,), -3, 3))
    self.x = self.x + d[0] * self.step
    self.y = self.y + d[1] * self.step
    g = mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(fresh(Arr((1, 2), 0, 1)), np.asarray([6])))
    if self.kept:
      self.drifts.append((self.x, self.y))
      self.grids.append(g)
    return g, d, None


def moved(new, o, drift, grid, relabel):
  """Whether the observation new is o, drift further back."""
  check('moved back by the drift', close(
      (new.fov.lower_left.x, new.fov.lower_left.y, new.fov.upper_right.x, new.fov.upper_right.y),
      (o.fov.lower_left.x - drift[0], o.fov.lower_left.y - drift[1],
       o.fov.upper_right.x - drift[0], o.fov.upper_right.y - drift[1])))
  check_same('the grid detected when asked for, its own otherwise', new.grid,
             grid if relabel else o.grid)
  check_same('all else as it was', (new.controls, new.elapsed_time, new.image, new.label_image),
             (o.controls, o.elapsed_time, o.image, o.label_image))


def asked(history, relabel, base=1.0, steps=1):
  return align_trajectories.Args(
      source_path='', target_path='', aligner_path='', history_length=history,
      alignment_iterations=steps, base_step_size=base, relabel=relabel)


@proof(o=SeqOf(ObservationT, 'k', kind='tuple'), history=Int(1, 9), relabel=Bool())
def followed(o, history, relabel):
  a = Aligner(history, o, False)
  r = align_trajectories.do_alignment(mu.Trajectory(o), asked(history, relabel), a)
  check('the aligner starts afresh', a.resets == 1)
  check('every image is seen', a.seen == len(o))
  check('every observation is kept', len(r.observations) == len(o))


@proof(o=SeqOf(ObservationT, 'k', kind='tuple'), history=Int(1, 9), relabel=Bool())
def followed_unchanged(o, history, relabel):
  old = snapshot(o)
  a = Aligner(history, o, False)
  align_trajectories.do_alignment(mu.Trajectory(o), asked(history, relabel), a)
  check_same('observations unchanged', o, old)


@proof(bound='three observations', o=ObservationT, p=ObservationT, q=ObservationT,
       history=Int(1, 9), relabel=Bool())
def three(o, p, q, history, relabel):
  a = Aligner(history, [o, p, q], True)
  r = align_trajectories.do_alignment(mu.Trajectory([o, p, q]), asked(history, relabel), a)
  check('every observation is kept', len(r.observations) == 3)
  for k in range(3):
    moved(r.observations[k], a.given[k], a.drifts[k], a.grids[k], relabel)


class Repeated(Aligner):
  """Aligns what it has aligned before; each time a share of the drift is applied."""

  def __init__(self, history, given, shares):
    super().__init__(history, given, True)
    self.shares = shares
    self.before = [(0.0, 0.0) for _ in given]

  def reset(self, history_length):
    super().reset(history_length)
    self.before = self.after()
    self.drifts = []
    self.grids = []
    self.seen = 0
    self.x = 0.0
    self.y = 0.0
    self.step = self.shares[self.resets - 1]

  def after(self):
    if not self.drifts:
      return self.before
    return [(b[0] + d[0], b[1] + d[1]) for b, d in zip(self.before, self.drifts)]

  def __call__(self, image, f):
    b = self.before[self.seen]
    return super().__call__(image, f.shift(geometry.Point((b[0], b[1]))))


def shares(base, steps):
  """From the share asked for to all of it."""
  return [base + (1.0 - base) * k / steps for k in range(1, steps + 1)]


def repeated(o, history, base, steps):
  a = Repeated(history, o, shares(base, steps))
  r = align_trajectories.do_alignment(
      mu.Trajectory(o), asked(history, True, base, steps), a)
  check('the aligner starts afresh each time', a.resets == steps)
  check('every observation is kept', len(r.observations) == len(o))
  for k in range(len(o)):
    moved(r.observations[k], o[k], a.after()[k], a.grids[k], True)


@proof(bound='two iterations, two observations', o=ObservationT, p=ObservationT,
       history=Int(1, 9), base=Real(0.1, 1))
def twice(o, p, history, base):
  repeated([o, p], history, base, 2)


@bounded(o=SeqOf(ObservationT, 'k>=1', kind='tuple'), history=Int(1, 9), base=Real(0.1, 1),
         steps=Int(1, 5), samples=60)
def often(o, history, base, steps):
  repeated(o, history, base, steps)


@bounded(a=SeqOf(SeqOf(ObservationT, 'k', kind='tuple'), 'm', kind='tuple'),
         b=SeqOf(SeqOf(ObservationT, 'k', kind='tuple'), 'm', kind='tuple'),
         folder=Bool(), relabel=Bool(), samples=25)
def files(a, b, folder, relabel):
  where = tempfile.mkdtemp()
  original = alignment.ImageAligner.from_path
  try:
    os.mkdir(os.path.join(where, 'in'))
    first = [mu.Trajectory(o) for o in a]
    second = [mu.Trajectory(o) for o in b]
    source = where_in = epath.Path(where) / 'in'
    pdio.write_records(source / 'first.tfrecords', first)
    if folder:
      pdio.write_records(source / 'second.tfrecords', second)
      (source / 'notes.txt').write_text('not a record file')
    else:
      source = source / 'first.tfrecords'
    used = []

    class Same:
      """Reports the same drift whatever it sees."""

      def reset(self, history_length):
        used.append(history_length)

      def __call__(self, image, f):
        return (mu.AtomicGrid(np.asarray([[0.5, 0.25]]), np.asarray([14])),
                np.asarray([0.5, -0.25]), None)

    def from_path(path, **options):
      check('the aligner asked for', path == epath.Path('weights') and options['hybrid'])
      return Same()
    alignment.ImageAligner.from_path = from_path
    align_trajectories.main(align_trajectories.Args(
        source_path=source, target_path=epath.Path(where) / 'out.tfrecords',
        aligner_path=epath.Path('weights'), history_length=3, hybrid=True, relabel=relabel))
    want = sorted([wrote(t) for f in [where_in / 'first.tfrecords'] + ([where_in / 'second.tfrecords'] if folder else [])
                   for t in pdio.read_records(f, mu.Trajectory)])
    got = list(pdio.read_records(epath.Path(where) / 'out.tfrecords', mu.Trajectory))
    check('every trajectory once', sorted([wrote(t) for t in got]) == want)
    check('each aligned for itself', used == [3] * len(want))
    for t in got:
      check('every observation', all([
          relabel == (o.grid.atom_positions.shape == (1, 2) and o.grid.atomic_numbers[0] == 14
                      and abs(o.grid.atom_positions[0, 1] - 0.25) < 1e-6)
          for o in t.observations]))
  finally:
    alignment.ImageAligner.from_path = original
    shutil.rmtree(where)


def wrote(t):
  """What identifies a trajectory, wherever it has been moved."""
  return tuple((len(o.controls), float(o.image.sum())) for o in t.observations)
