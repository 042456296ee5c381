"""dm_env.specs, as far as putting_dune uses it."""
import numpy as np


class Array:

  def __init__(self, shape, dtype, name=None):
    self.shape = tuple(shape)
    self.dtype = dtype
    self.name = name


class BoundedArray(Array):

  def __init__(self, shape, dtype, minimum, maximum, name=None):
    self.shape = tuple(shape)
    self.dtype = dtype
    self.name = name
    self.minimum = np.asarray(minimum, dtype=dtype)
    self.maximum = np.asarray(maximum, dtype=dtype)
