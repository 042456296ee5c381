"""C21: rotations, angles and nearest neighbours."""
import numpy as np
from putting_dune import geometry
from vdsl import *
from contracts.common import *


@proof(c=Arr(('n', 2), -20, 20), t=Real(-7, 7))
def rotate(c, t):
  old = snapshot(c)
  r = geometry.rotate_coordinates(c, t)
  n = c.shape[0]
  check('shape', r.shape == c.shape)
  check_all('counter-clockwise rotation by theta', n, lambda i: approx(
      (r[i, 0], r[i, 1]), (np.cos(t) * c[i, 0] - np.sin(t) * c[i, 1],
                           np.sin(t) * c[i, 0] + np.cos(t) * c[i, 1])))
  check_all('distances to the origin are kept', n, lambda i: approx(
      r[i, 0] * r[i, 0] + r[i, 1] * r[i, 1], c[i, 0] * c[i, 0] + c[i, 1] * c[i, 1]))
  check_same('input unchanged', c, old)


@proof(c=Arr(('n', 2), -20, 20), t=Real(-7, 7), k=Int(0), m=Int(0))
def rigid(c, t, k, m):
  require(all_of(k < c.shape[0], m < c.shape[0]))
  r = geometry.rotate_coordinates(c, t)
  dx = r[k, 0] - r[m, 0]
  dy = r[k, 1] - r[m, 1]
  ex = c[k, 0] - c[m, 0]
  ey = c[k, 1] - c[m, 1]
  check('distances between points are kept', approx(dx * dx + dy * dy, ex * ex + ey * ey))


@proof(c=Arr(('n', 2), -20, 20), t=Real(-7, 7))
def rotate_jax(c, t):
  a = geometry.jnp_rotate_coordinates(c, t)
  b = geometry.rotate_coordinates(c, t)
  check('the jax version agrees', approx(a, b, 1e-4))


@proof(c=Arr(('n', 2), -20, 20), k=Int(0))
def angles(c, k):
  require(k < c.shape[0])
  a = geometry.get_angles(c)
  check('one angle per point', a.shape == (c.shape[0],))
  r2 = c[k, 0] * c[k, 0] + c[k, 1] * c[k, 1]
  require(r2 >= 0.01)
  r = np.sqrt(r2)
  check('within a turn', all_of(a[k] <= np.pi + 1e-9, a[k] >= -np.pi - 1e-9))
  check('direction of the point', approx((r * np.cos(a[k]), r * np.sin(a[k])), (c[k, 0], c[k, 1])))


def d2(p, q, i):
  return (p[i, 0] - q[0]) * (p[i, 0] - q[0]) + (p[i, 1] - q[1]) * (p[i, 1] - q[1])


@proof(p=Arr(('n>=4', 2), -30, 30), s=Int(0))
def neighbours_of_an_atom(p, s):
  n = p.shape[0]
  require(s < n)
  q = p[index(s)]
  require_all(n, lambda i: any_of(i == s, d2(p, q, i) >= 0.01))
  old = snapshot(p)
  r = geometry.nearest_neighbors3(p, q)
  a = r.neighbor_indices
  d = r.neighbor_distances
  check('three neighbours', all_of(a.shape == (3,), d.shape == (3,)))
  check('they are atoms', all_of(a[0] >= 0, a[0] < n, a[1] >= 0, a[1] < n, a[2] >= 0, a[2] < n))
  check('they are not the atom itself', all_of(a[0] != s, a[1] != s, a[2] != s))
  check('they are three', all_of(a[0] != a[1], a[0] != a[2], a[1] != a[2]))
  check_all('no other atom is nearer', n, lambda i: any_of(
      i == s, i == a[0], i == a[1], i == a[2], d2(p, q, i) >= d2(p, q, a[2]) - 1e-6))
  for k in range(3):
    check('distances', approx(d[k] * d[k], d2(p, q, a[k])))
  check('nearest first', all_of(d[0] <= d[1] + 1e-9, d[1] <= d[2] + 1e-9))
  check_same('positions unchanged', p, old)


@proof(p=Arr(('n>=4', 2), -30, 30), q=Arr(('m>=1', 2), -30, 30), k=Int(0))
def neighbours_with_self(p, q, k):
  n = p.shape[0]
  require(k < q.shape[0])
  r = geometry.nearest_neighbors3(p, q, include_self=True)
  a = r.neighbor_indices
  check('four per query', all_of(a.shape == (q.shape[0], 4),
                                 r.neighbor_distances.shape == (q.shape[0], 4)))
  check_all('no other atom is nearer', n, lambda i: any_of(
      i == a[k, 0], i == a[k, 1], i == a[k, 2], i == a[k, 3],
      d2(p, q[k], i) >= d2(p, q[k], a[k, 3]) - 1e-6))
  check('distances', approx(r.neighbor_distances[k, 0] * r.neighbor_distances[k, 0],
                            d2(p, q[k], a[k, 0])))


@proof(p=Arr(('n>=4', 2), -30, 30), q=Arr(('m>=1', 2), -30, 30), k=Int(0))
def neighbours_many(p, q, k):
  require(k < q.shape[0])
  r = geometry.nearest_neighbors3(p, q)
  f = geometry.nearest_neighbors3(p, q, include_self=True)
  check('three per query', all_of(r.neighbor_indices.shape == (q.shape[0], 3),
                                  r.neighbor_distances.shape == (q.shape[0], 3)))
  check('the nearest one left out', all_of(
      approx(r.neighbor_distances[k, 0], f.neighbor_distances[k, 1]),
      approx(r.neighbor_distances[k, 1], f.neighbor_distances[k, 2]),
      approx(r.neighbor_distances[k, 2], f.neighbor_distances[k, 3])))
