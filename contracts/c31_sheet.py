"""C31: the graphene sheet is a piece of the honeycomb lattice."""
import numpy as np
from putting_dune import constants
from putting_dune import graphene
from vdsl import *
from contracts.common import *

BOND = constants.CARBON_BOND_DISTANCE_ANGSTROMS


def distances(p):
  return np.sqrt(np.sum((p[:, None, :] - p[None, :, :]) ** 2, axis=2))


def check_lattice(p, columns):
  d = distances(p) + 100.0 * np.eye(p.shape[0])
  check('no two atoms are closer than a bond', np.min(d) >= BOND - 1e-3)
  bonds = np.abs(d - BOND) < 1e-3
  check('no atom has more than three bonds', np.max(np.sum(bonds, axis=1)) <= 3)
  from_centre = np.linalg.norm(p - np.mean(p, axis=0), axis=1)
  inside = from_centre < (columns / 2 - 2.0) * BOND
  check('inside the sheet every atom has three bonds',
        np.all(np.sum(bonds, axis=1)[inside] == 3))
  # The other two sides of the triangles of bonded neighbours.
  second = np.sum(np.abs(d - BOND * np.sqrt(3)) < 1e-3, axis=1)
  inner = from_centre < (columns / 2 - 3.0) * BOND
  check('and six second neighbours', np.all(second[inner] == 6))
  check('the sheet covers a square', np.max(from_centre) >= (columns - 1) / 2 * BOND)
  check('two of three lattice points', np.abs(
      p.shape[0] - columns * np.floor(columns / (np.sqrt(3) / 2)) * 2 / 3) <= columns)


@bounded(rng=Rng(), columns=Int(4, 40), samples=60)
def a_sheet_is_a_honeycomb(rng, columns):
  p = graphene.generate_pristine_graphene(rng, columns)
  check('two coordinates each', p.ndim == 2 and p.shape[1] == 2)
  check_lattice(p, columns)
  check('centred within half a bond', np.linalg.norm(np.mean(p, axis=0)) <= BOND * np.sqrt(0.5) + 1e-6)


@bounded(samples=1)
def the_canonical_sheets():
  for columns in range(4, 51):
    canonical_sheet(columns)


def canonical_sheet(columns):
  g = graphene.canonical_pristine_graphene_with_centered_silicon(columns)
  check_lattice(g.atom_positions, columns)
  silicon = np.flatnonzero(g.atomic_numbers == 14)
  check('one silicon', silicon.shape == (1,))
  check('all else carbon', np.sum(g.atomic_numbers == 6) == g.atom_positions.shape[0] - 1)
  check('at the origin', np.all(g.atom_positions[silicon[0]] == 0))
  check('near the middle of the sheet',
        np.linalg.norm(np.mean(g.atom_positions, axis=0)) <= BOND + 1e-3)
  again = graphene.canonical_pristine_graphene_with_centered_silicon(columns)
  check('always the same', np.array_equal(again.atom_positions, g.atom_positions))


def moved_and_turned(p, columns):
  q = graphene.canonical_pristine_graphene_with_centered_silicon(columns).atom_positions
  check('as many atoms', p.shape == q.shape)
  i, j = 0, p.shape[0] - 1
  for k in range(1, p.shape[0]):
    check('distances from the first atom are kept', approx(
        np.sum((p[k] - p[i]) ** 2), np.sum((q[k] - q[i]) ** 2), 1e-4))
    check('distances from the last atom are kept', approx(
        np.sum((p[k - 1] - p[j]) ** 2), np.sum((q[k - 1] - q[j]) ** 2), 1e-4))
    check('not mirrored', approx(
        (p[k][0] - p[i][0]) * (p[j][1] - p[i][1]) - (p[k][1] - p[i][1]) * (p[j][0] - p[i][0]),
        (q[k][0] - q[i][0]) * (q[j][1] - q[i][1]) - (q[k][1] - q[i][1]) * (q[j][0] - q[i][0]), 1e-4))
  m = np.mean(p, axis=0)
  check('centred within half a bond', m[0] ** 2 + m[1] ** 2 <= BOND ** 2 / 2 + 1e-6)


@proof(rng=Rng(), samples=40, bound='sheets of 4 to 10 columns')
def every_draw_moves_and_turns_the_same_sheet(rng):
  for columns in range(4, 11):
    moved_and_turned(graphene.generate_pristine_graphene(rng, columns), columns)


@assumed('putting_dune.graphene:_generate_hexagonal_grid', num_cols=Int(4, 60), samples=40)
def unit_sheet(call, num_cols):
  p = call.returns(Arr(('n>=3', 2), -100, 100), pure=True)
  check('at least three atoms', p.shape[0] >= 3)
  check('two coordinates', p.shape[1] == 2)


def turn(a, b, c):
  """Twice the area of a triangle, positive if counter-clockwise."""
  return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


@proof(rng=Rng(), columns=Int(4, 60), i=Int(0), j=Int(0), k=Int(0),
       use=[unit_sheet], samples=100)
def any_sheet_is_moved_and_turned(rng, columns, i, j, k):
  p = graphene.generate_pristine_graphene(rng, columns)
  q = graphene.canonical_pristine_graphene_with_centered_silicon(columns).atom_positions
  check('as many atoms', p.shape[0] == q.shape[0])
  require(all_of(index(i) < p.shape[0], index(j) < p.shape[0], index(k) < p.shape[0]))
  check('distances are kept', approx(
      np.sum((p[i] - p[j]) ** 2), np.sum((q[i] - q[j]) ** 2), 1e-4))
  check('not mirrored', approx(turn(p[i], p[j], p[k]), turn(q[i], q[j], q[k]), 1e-4))


@proof(columns=Int(4, 60), i=Int(0), k=Int(0), use=[unit_sheet], samples=50)
def any_canonical_sheet_has_its_silicon_at_the_origin(columns, i, k):
  g = graphene.canonical_pristine_graphene_with_centered_silicon(columns)
  require(all_of(index(i) < g.atom_positions.shape[0], index(k) < g.atom_positions.shape[0]))
  check('silicon exactly at the atom at the origin', implies(
      g.atomic_numbers[k] == 14, all_of(g.atom_positions[k][0] == 0, g.atom_positions[k][1] == 0)))
  check('otherwise carbon', any_of(g.atomic_numbers[k] == 14, g.atomic_numbers[k] == 6))
  check('one silicon at most', implies(
      all_of(g.atomic_numbers[i] == 14, g.atomic_numbers[k] == 14), i == k))
