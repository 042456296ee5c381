"""C03: exactly the atoms in view are seen."""
import numpy as np
from putting_dune import microscope_utils as mu
from putting_dune import graphene
from vdsl import *
from contracts.common import *
from contracts.parts import *


def inside(pos, x0, y0, x1, y1):
  x = pos[:, 0]
  y = pos[:, 1]
  return (x >= x0) & (x <= x1) & (y >= y0) & (y <= y1)


@proof(f=FovT, g=GridT, tol=Real(-3, 3))
def fov_atoms(f, g, tol):
  old = snapshot(g)
  r = f.get_atoms_in_bounds(g, tol)
  m = inside(g.atom_positions, f.lower_left.x - tol, f.lower_left.y - tol,
             f.upper_right.x + tol, f.upper_right.y + tol)
  check_same('the atoms within the bounds, in order', r.atom_positions, g.atom_positions[m])
  check_same('with their species', r.atomic_numbers, g.atomic_numbers[m])
  check_same('input grid unchanged', g, old)


@proof(f=FovT, g=GridT)
def fov_atoms_default(f, g):
  r = f.get_atoms_in_bounds(g)
  m = inside(g.atom_positions, f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y)
  check_same('the atoms within the bounds, in order', r.atom_positions, g.atom_positions[m])
  check_same('with their species', r.atomic_numbers, g.atomic_numbers[m])


@proof(g=GridT, p=PointT, w=Size, h=Size, use=[sheet])
def material_atoms(g, p, w, h):
  m = material_of(g)
  old = snapshot(m.grid)
  q = fov(p.x, p.y, w, h)
  r = m.get_atoms_in_bounds(q.lower_left, q.upper_right)
  k = inside(g.atom_positions, p.x, p.y, p.x + w, p.y + h)
  seen = g.atom_positions[k]
  check('as many atoms as lie in the bounds', r.atom_positions.shape[0] == seen.shape[0])
  check_all('normalised to the bounds', seen.shape[0], lambda i: approx(
      (r.atom_positions[i, 0] * w, r.atom_positions[i, 1] * h),
      (seen[i, 0] - p.x, seen[i, 1] - p.y)))
  check_same('with their species', r.atomic_numbers, g.atomic_numbers[k])
  check_same('material unchanged', m.grid, old)


@proof(p=PointT)
def before_reset(p):
  m = graphene.PristineSingleDopedGraphene(grid_columns=6)
  check('refused before reset', raises(RuntimeError, m.get_atoms_in_bounds, p, p))
