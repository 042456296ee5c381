"""C24: an image seen in another field of view shows what is there."""
import numpy as np
from putting_dune import alignment
from putting_dune import microscope_utils as mu
from vdsl import *
from contracts.common import *


def square(x, y, size):
  return fov(x, y, size, size)


ImageT = Arr(('h>=1', 'w>=1', 'c>=1'), 0, 1)
FlatT = Arr(('h>=1', 'w>=1'), 0, 1)


def clear(a):
  """Not half way between two pixels."""
  return any_of(a - np.floor(a) < 0.5 - 1e-6, a - np.floor(a) > 0.5 + 1e-6)


@proof(image=ImageT, x=Coord, y=Coord, size=Size, u=Real(-60, 60), v=Real(-60, 60),
       i=Int(0), j=Int(0), k=Int(0))
def shifted(image, x, y, size, u, v, i, j, k):
  h, w, c = image.shape
  require(all_of(i < h, j < w, k < c))
  f, g = square(x, y, size), square(x + u, y + v, size)
  down, right = -v * h / size, u * w / size
  require(all_of(clear(down), clear(right)))
  old = snapshot((image, f, g))
  r = alignment.pad_and_crop_images_by_fov(image, f, g)
  check('as large', r.shape == (h, w, c))
  p, q = i + np.round(down), j + np.round(right)
  if all_of(p >= 0, p < h, q >= 0, q < w):
    check('what was there', r[i, j, k] == image[int(p), int(q), k])
  else:
    check('nothing beyond the image', r[i, j, k] == 0)
  check_same('inputs unchanged', (image, f, g), old)


@proof(image=FlatT, x=Coord, y=Coord, size=Size, u=Real(-60, 60), v=Real(-60, 60),
       i=Int(0), j=Int(0))
def flat(image, x, y, size, u, v, i, j):
  """Images without channels are given one."""
  h, w = image.shape
  require(all_of(i < h, j < w))
  f, g = square(x, y, size), square(x + u, y + v, size)
  r = alignment.pad_and_crop_images_by_fov(image, f, g)
  s = alignment.pad_and_crop_images_by_fov(image.reshape(h, w, 1), f, g)
  check('one channel', all_of(r.shape == (h, w, 1), s.shape == (h, w, 1)))
  check('the same', r[i, j, 0] == s[i, j, 0])


@proof(image=ImageT, x=Coord, y=Coord, size=Size, i=Int(0), j=Int(0), k=Int(0))
def at_rest(image, x, y, size, i, j, k):
  """The same field of view: the same image."""
  h, w, c = image.shape
  require(all_of(i < h, j < w, k < c))
  r = alignment.pad_and_crop_images_by_fov(image, square(x, y, size), square(x, y, size))
  check('as large', r.shape == (h, w, c))
  check('the same', r[i, j, k] == image[i, j, k])


@bounded(samples=250, h=Int(4, 24), w=Int(4, 24), x=Coord, y=Coord, size=Size,
         zoom=OneOf(1.0, 0.5, 0.8, 1.25, 2.0, 3.0), u=Real(-1.2, 1.2), v=Real(-1.2, 1.2))
def seen(h, w, x, y, size, zoom, u, v):
  """Sampled: other sizes of the field of view too; every pixel, to within a pixel."""
  f, g = square(x, y, size), square(x + u * size, y + v * size, size * zoom)
  image = 1.0 + np.arange(h * w).reshape(h, w, 1)
  r = np.asarray(alignment.pad_and_crop_images_by_fov(image, f, g))
  check('as large', r.shape == (h, w, 1))
  slack = 1 + 1.1 * zoom  # pixels of the image
  for i in range(h):
    for j in range(w):
      # The centre of the pixel, then its row and column in the image.
      at = (g.lower_left.x + (j + 0.5) / w * g.width, g.upper_right.y - (i + 0.5) / h * g.height)
      row = (f.upper_right.y - at[1]) / f.height * h - 0.5
      col = (at[0] - f.lower_left.x) / f.width * w - 0.5
      if -0.5 - slack > row or row > h - 0.5 + slack or (
          -0.5 - slack > col or col > w - 0.5 + slack):
        check('nothing beyond the image', r[i, j, 0] == 0)
      elif r[i, j, 0] > 0:
        p, q = divmod(int(r[i, j, 0]) - 1, w)
        check('what was there', abs(p - row) <= slack and abs(q - col) <= slack)
      else:
        check('all that was there', not (
            slack < row < h - 1 - slack and slack < col < w - 1 - slack))
