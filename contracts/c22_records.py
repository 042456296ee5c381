"""C22: records written to a file are read back."""
import os
import shutil
import tempfile

import numpy as np
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *
from contracts.c04_protos import same_control, check_grid, f32


class Folder:
  """A scratch folder, removed in the end."""

  def __enter__(self):
    self.path = tempfile.mkdtemp()
    return self.path

  def __exit__(self, a, b, c):
    shutil.rmtree(self.path, ignore_errors=True)


def written(name, records):
  pdio.write_records(name, records)


@proof(controls=SeqOf(ControlT, 'n'), i=Int(0))
def objects(controls, i):
  require(index(i) < len(controls))
  with Folder() as d:
    name = os.path.join(d, 'a.tfrecords')
    pdio.write_records(name, controls)
    back = list(pdio.read_records(name, mu.BeamControl))
    check('as many', len(back) == len(controls))
    check('in order', same_control(back[i], controls[i]))


@proof(controls=SeqOf(ControlT, 'n'), i=Int(0))
def strings(controls, i):
  """Serialized records are written as they are, and read so unless a type is given."""
  require(index(i) < len(controls))
  wire = [c.to_proto().SerializeToString() for c in controls]
  with Folder() as d:
    name = os.path.join(d, 'a.tfrecords')
    pdio.write_records(name, wire)
    back = list(pdio.read_records(name))
    check('as many', len(back) == len(wire))
    check_same('in order', mu.BeamControl.from_proto_string(back[i]),
               mu.BeamControl.from_proto_string(wire[i]))
    same = list(pdio.read_records(name, mu.BeamControl))
    check('as many with a type', len(same) == len(wire))
    check('in order with a type', same_control(same[i], controls[i]))


@proof(a=SeqOf(ControlT, 'n'), b=SeqOf(ControlT, 'm'), i=Int(0))
def replaced(a, b, i):
  """Writing again replaces a file and leaves others alone."""
  require(index(i) < len(a))
  with Folder() as d:
    one, two = os.path.join(d, 'a.tfrecords'), os.path.join(d, 'b.tfrecords')
    pdio.write_records(one, b)
    pdio.write_records(one, a)
    pdio.write_records(two, b)
    back = list(pdio.read_records(one, mu.BeamControl))
    check('only what was written last', len(back) == len(a))
    check('in order', same_control(back[i], a[i]))
    again = list(pdio.read_records(one, mu.BeamControl))
    check_same('read again', again[i], back[i])
    check('the other file', len(list(pdio.read_records(two, mu.BeamControl))) == len(b))


@proof(g=GridT, h=GridT)
def grids(g, h):
  with Folder() as d:
    name = os.path.join(d, 'grids.tfrecords')
    pdio.write_records(name, (g, h))
    back = list(pdio.read_records(name, mu.AtomicGrid))
    check('as many', len(back) == 2)
    check_grid('first', back[0], g)
    check_grid('second', back[1], h)


@proof(controls=SeqOf(ControlT, 'n'), kind=Int(0, 5))
def other_files(controls, kind):
  """Any other extension is refused, and nothing is written."""
  for k, name in enumerate(('a.recordio', 'a', 'a.tfrecord', 'a.tfrecords.txt', 'tfrecords', 'a.')):
    if k != kind:
      continue
    with Folder() as d:
      path = os.path.join(d, name)
      check('writing is refused', raises(ValueError, lambda: pdio.write_records(path, controls)))
      check('nothing is written', not os.path.exists(path))
      check('reading is refused', raises(ValueError, lambda: list(pdio.read_records(path))))
      check('reading objects is refused',
            raises(ValueError, lambda: list(pdio.read_records(path, mu.BeamControl))))
