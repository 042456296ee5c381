"""C19: rate data are divided into training and testing data."""
import jax
import numpy as np
from putting_dune.rate_learning import data_utils
from vdsl import *
from contracts.common import *

ValuesT = Arr(('n>=1', 2), -3, 3)
StatesT = Arr(('n>=1',), dtype='int64', among=(0, 1, 2, 3))
FractionT = OneOf(0.0, 0.1, 0.25, 0.5, 0.9, 1.0)


def dataset(values, states):
  """Every sample with its number."""
  return {'number': np.arange(values.shape[0]), 'value': values, 'state': states}


def together(part, values, states, i):
  """Sample i of a part has all that belongs to its number."""
  k = part['number'][i]
  check('a sample of the dataset', all_of(k >= 0, k < values.shape[0]))
  check('the value of that sample', all_of(
      part['value'][i, 0] == values[k, 0], part['value'][i, 1] == values[k, 1]))
  check('the state of that sample', part['state'][i] == states[k])


def shapes(part):
  n = part['number'].shape[0]
  check('its parts', all_of(
      len(part) == 3, part['value'].shape == (n, 2), part['state'].shape == (n,)))
  return n


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), f=FractionT, i=Int(0))
def split(values, states, seed, f, i):
  n = values.shape[0]
  require(index(i) < n)
  train, test = data_utils.split_dataset(
      dataset(values, states), jax.random.PRNGKey(seed), test_fraction=f)
  m = shapes(test)
  check('as many as asked for', m == int(n * f))
  check('the rest', shapes(train) == n - m)
  check('every sample in one of them', np.any(train['number'] == i) != np.any(test['number'] == i))


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), f=FractionT, i=Int(0))
def split_rows(values, states, seed, f, i):
  require(index(i) < values.shape[0])
  train, test = data_utils.split_dataset(
      dataset(values, states), jax.random.PRNGKey(seed), test_fraction=f)
  if i < train['number'].shape[0]:
    together(train, values, states, i)
  if i < test['number'].shape[0]:
    together(test, values, states, i)


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), f=FractionT, i=Int(0), j=Int(0))
def split_once(values, states, seed, f, i, j):
  require(index(i) < values.shape[0])
  require(index(j) < i)
  for part in data_utils.split_dataset(
      dataset(values, states), jax.random.PRNGKey(seed), test_fraction=f):
    if i < part['number'].shape[0]:
      check('no sample twice', part['number'][i] != part['number'][j])


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), i=Int(0))
def bootstrap(values, states, seed, i):
  n = values.shape[0]
  require(index(i) < n)
  train, test = data_utils.bootstrap_dataset(
      dataset(values, states), jax.random.PRNGKey(seed))
  check('as many as there are', shapes(train) == n)
  shapes(test)
  check('testing what is not trained on',
        np.any(test['number'] == i) != np.any(train['number'] == i))


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), i=Int(0))
def bootstrap_rows(values, states, seed, i):
  require(index(i) < values.shape[0])
  train, test = data_utils.bootstrap_dataset(
      dataset(values, states), jax.random.PRNGKey(seed))
  together(train, values, states, i)
  if i < test['number'].shape[0]:
    together(test, values, states, i)


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), i=Int(0), j=Int(0))
def bootstrap_once(values, states, seed, i, j):
  require(index(i) < values.shape[0])
  require(index(j) < i)
  _, test = data_utils.bootstrap_dataset(
      dataset(values, states), jax.random.PRNGKey(seed))
  if i < test['number'].shape[0]:
    check('no test sample twice', test['number'][i] != test['number'][j])


@proof(values=ValuesT, states=StatesT, seed=Int(0, 10**6), f=FractionT)
def unchanged(values, states, seed, f):
  old = snapshot((values, states))
  data_utils.split_dataset(dataset(values, states), jax.random.PRNGKey(seed), test_fraction=f)
  data_utils.bootstrap_dataset(dataset(values, states), jax.random.PRNGKey(seed))
  check_same('the data are not modified', (values, states), old)
