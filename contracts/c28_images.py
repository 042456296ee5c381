"""C28: masks and images show every atom where the field of view has it."""
import numpy as np
from putting_dune import constants
from putting_dune import imaging
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *

Unit = Real(-0.3, 1.3)
Kind = OneOf(6, 14)


def shown(places, kinds, f, exponent, width, height, i, j):
  """The species at pixel (i, j), or None where it is too close to call.

  Row 0 is the top of the field of view, column 0 its left; pixels are squares
  whose centres count.
  """
  x = f.lower_left.x + (f.upper_right.x - f.lower_left.x) * (j + 0.5) / width
  y = f.upper_right.y - (f.upper_right.y - f.lower_left.y) * (i + 0.5) / height
  out, sure = 0, True
  for (u, v), kind in zip(places, kinds):
    a = x - (f.lower_left.x + u * (f.upper_right.x - f.lower_left.x))
    b = y - (f.lower_left.y + v * (f.upper_right.y - f.lower_left.y))
    reach = (kind / 6) ** exponent * 0.1
    sure = all_of(sure, any_of(a * a + b * b < reach - 1e-9, a * a + b * b >= reach + 1e-9))
    out = ite(a * a + b * b < reach, kind, out)
  return out, sure


@proof(bound='one atom', f=FovT, p=Tup(Unit, Unit), z=Kind, width=Int(1, 600),
       height=Int(1, 600), i=Int(0, 599), j=Int(0, 599), samples=40)
def one_atom(f, p, z, width, height, i, j):
  require(all_of(i < height, j < width))
  g = mu.AtomicGrid(np.array([p]), np.array([z]))
  old = snapshot((g, f))
  mask = imaging.generate_grid_mask(g, f, image_dimensions=(width, height))
  check('a pixel for each', mask.shape == (height, width))
  want, sure = shown([p], [z], f, 1.7, width, height, i, j)
  check('the atom covers the pixels around it', implies(sure, mask[i, j] == want))
  check_same('inputs unchanged', (g, f), old)


@proof(bound='two atoms', f=FovT, p=Tup(Unit, Unit), q=Tup(Unit, Unit), y=Kind, z=Kind,
       exponent=Real(1, 2), size=OneOf((1, 1), (3, 2), (4, 5)), i=Int(0, 4), j=Int(0, 4))
def two_atoms(f, p, q, y, z, exponent, size, i, j):
  width, height = size
  require(all_of(i < height, j < width))
  g = mu.AtomicGrid(np.array([p, q]), np.array([y, z]))
  mask = imaging.generate_grid_mask(g, f, intensity_exponent=exponent, image_dimensions=size)
  check('a pixel for each', mask.shape == (height, width))
  want, sure = shown([p, q], [y, z], f, exponent, width, height, i, j)
  check('the later atom is in front', implies(sure, mask[i, j] == want))


def covers(f, p, z, t, width, height, i, j, slack):
  """Whether atom t covers the pixel (by slack)."""
  x = f.lower_left.x + (f.upper_right.x - f.lower_left.x) * (j + 0.5) / width
  y = f.upper_right.y - (f.upper_right.y - f.lower_left.y) * (i + 0.5) / height
  a = x - (f.lower_left.x + p[t, 0] * (f.upper_right.x - f.lower_left.x))
  b = y - (f.lower_left.y + p[t, 1] * (f.upper_right.y - f.lower_left.y))
  return a * a + b * b < (z[t] / 6) ** 1.7 * 0.1 - slack


def aimed(f, p, k, width, height, i, j):
  """For samples: a pixel at or near an atom."""
  if symbolic or k >= len(p) or (i + j) % 5 == 0:
    return i, j
  off = ((i * 7 + j) % 100 / 100 - 0.5) * 0.7
  return (int(np.floor((1 - p[k, 1] + off / f.height / 2) * height)),
          int(np.floor((p[k, 0] + off / f.width / 2) * width)))


@proof(f=FovT, p=Arr(('n', 2), -0.3, 1.3), z=Arr(('n',), dtype='int64', among=(6, 14)), width=Int(1, 300),
       height=Int(1, 300), i=Int(0, 299), j=Int(0, 299), k=Int(0), samples=200)
def in_front(f, p, z, width, height, i, j, k):
  """Any number of atoms: the last one that covers a pixel is seen there."""
  i, j = aimed(f, p, k, width, height, i, j)
  require(all_of(i >= 0, j >= 0, i < height, j < width, index(k) < z.shape[0]))
  require(covers(f, p, z, k, width, height, i, j, 1e-9))
  require_all(z.shape[0], lambda t: implies(
      t > k, negate(covers(f, p, z, t, width, height, i, j, -1e-9))))
  mask = imaging.generate_grid_mask(mu.AtomicGrid(p, z), f, image_dimensions=(width, height))
  check('a pixel for each', mask.shape == (height, width))
  check('the atom in front', mask[i, j] == z[k])


@proof(f=FovT, p=Arr(('n', 2), -0.3, 1.3), z=Arr(('n',), dtype='int64', among=(6, 14)), width=Int(1, 300),
       height=Int(1, 300), i=Int(0, 299), j=Int(0, 299), k=Int(0), samples=60)
def between(f, p, z, width, height, i, j, k):
  """Any number of atoms: where none covers a pixel there is none."""
  i, j = aimed(f, p, k, width, height, i, j)
  require(all_of(i >= 0, j >= 0, i < height, j < width))
  require_all(z.shape[0], lambda t: negate(covers(f, p, z, t, width, height, i, j, -1e-9)))
  g = mu.AtomicGrid(p, z)
  old = snapshot((g, f))
  mask = imaging.generate_grid_mask(g, f, image_dimensions=(width, height))
  check('nothing there', mask[i, j] == 0)
  check_same('inputs unchanged', (g, f), old)


@bounded(samples=60, n=Int(0, 6), width=Int(1, 20), height=Int(1, 20),
         f=Build(fov, Coord, Coord, Real(0.5, 4), Real(0.5, 4)), rng=Rng())
def many_atoms(n, width, height, f, rng):
  """Sampled: any number of atoms, every pixel."""
  places = rng.uniform(-0.2, 1.2, size=(n, 2))
  kinds = rng.choice([6, 14], size=n)
  mask = imaging.generate_grid_mask(mu.AtomicGrid(places, kinds), f,
                                    image_dimensions=(width, height))
  for i in range(height):
    for j in range(width):
      want, sure = shown(places, kinds, f, 1.7, width, height, i, j)
      check('every pixel', not sure or mask[i, j] == want)


@bounded(samples=300, p=Tup(Real(0.25, 0.75), Real(0.25, 0.75)), size=Int(40, 90),
         w=Real(15, 40), h=Real(15, 40), buffer=OneOf(0.0, 0.1, 0.25), z=Kind)
def clean_atom(p, size, w, h, buffer, z):
  """Sampled: one atom is a round spot (as wide in Å across as up) where it is."""
  f = fov(3.0, -2.0, w, h)
  g = mu.AtomicGrid(np.array([p]), np.array([z]))
  old = snapshot((g, f))
  image = imaging.generate_clean_image(g, f, image_size=size, buffer_size=buffer)
  check('a square image', image.shape == (size, size))
  check('from dark to bright', image.min() >= 0 and image.max() == 1)
  weight = image / image.sum()
  # The centre of light, and its spread, in Å.
  y = f.upper_right.y - (np.arange(size) + 0.5) / size * h
  x = f.lower_left.x + (np.arange(size) + 0.5) / size * w
  row, col = weight.sum(axis=1), weight.sum(axis=0)
  mid = (np.sum(col * x), np.sum(row * y))
  at = (f.lower_left.x + p[0] * w, f.lower_left.y + p[1] * h)
  off = 0.6 if buffer == 0 else 1.6  # (a buffer is a whole number of pixels.)
  check('where the atom is', abs(mid[0] - at[0]) <= off * w / size and
        abs(mid[1] - at[1]) <= off * h / size)
  across = np.sqrt(np.sum(col * (x - mid[0]) ** 2))
  up = np.sqrt(np.sum(row * (y - mid[1]) ** 2))
  check('as wide as high', abs(across - up) <= 0.15 * (across + up))
  check_same('inputs unchanged', (g, f), old)


@bounded(samples=40, exponent=Real(1.2, 2), swap=Bool(), size=Int(60, 100))
def brightness(exponent, swap, size):
  """Sampled: atoms are as bright as their atomic number to the exponent."""
  f = fov(0.0, 0.0, 20.0, 20.0)
  places = np.array([[0.25, 0.25], [0.75, 0.75]])
  kinds = np.array([14, 6] if swap else [6, 14])
  image = imaging.generate_clean_image(mu.AtomicGrid(places, kinds), f, image_size=size,
                                       intensity_exponent=exponent)
  half = size // 2
  low, high = image[half:, :half].max(), image[:half, half:].max()
  check('heavier is brighter', approx((low if swap else high), 1.0))
  check('by this much', abs((high if swap else low) - (6 / 14) ** exponent) < 0.02)


@bounded(samples=12, seed=Int(0, 1000), noisy=Bool(), size=OneOf(32, 48))
def stem(seed, noisy, size):
  """Sampled: a noisy image has the asked size and range, and follows its seed."""
  f = fov(0.0, 0.0, 20.0, 20.0)
  g = mu.AtomicGrid(np.random.default_rng(seed).uniform(0, 1, size=(20, 2)), np.full(20, 6))
  old = snapshot((g, f))
  sample = imaging.sample_noisy_image_parameters if noisy else imaging.sample_image_parameters
  images = []
  for _ in range(2):
    rng = np.random.default_rng(seed)
    images.append(imaging.generate_stem_image(g, f, sample(rng, size), rng))
  check('the asked size', images[0].shape == (size, size))
  check('from dark to bright', images[0].min() >= 0 and images[0].max() <= 1)
  check('the same again', np.array_equal(images[0], images[1]))
  check_same('inputs unchanged', (g, f), old)
