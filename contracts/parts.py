"""Contracts shared by several properties, and the material built from parts."""
import datetime as dt

import numpy as np
from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *


@assumed('putting_dune.graphene:generate_pristine_graphene', rng=Rng(), num_columns=Int(4, 60),
         samples=40)
def sheet(call, rng, num_columns):
  p = call.returns(Arr(('n>=4', 2), -200, 200))
  check('at least four atoms', p.shape[0] >= 4)
  check('two coordinates', p.shape[1] == 2)
  check('finite', np.abs(p) <= 200)


def one_silicon(n, k):
  """Atomic numbers of a sheet of n atoms whose only silicon is atom k."""
  return np.where(np.arange(n) == k, 14, 6)


def silicon_grid(positions, k):
  return mu.AtomicGrid(positions, one_silicon(positions.shape[0], k))


def material_of(grid, rate_function=None, columns=6):
  """A material that has been reset, showing the given grid."""
  if rate_function is None:
    m = graphene.PristineSingleDopedGraphene(grid_columns=columns)
  else:
    m = graphene.PristineSingleDopedGraphene(
        rate_function=rate_function, grid_columns=columns)
  m.reset(np.random.default_rng(0))
  m.grid = grid
  return m
