"""C17: augmenting rate data turns and mirrors every transition consistently."""
from jax import numpy as jnp
import numpy as np
from putting_dune.rate_learning import data_utils
from vdsl import *
from contracts.common import *

StatesT = Arr(('n>=1', 1), dtype='int64', among=(0, 1, 2, 3))
TimesT = Arr(('n>=1', 1), 0, 5)
RatesT = Arr(('n>=1', 3), 0, 1)
PositionT = Arr(('n>=1', 2), -3, 3)
ContextT = Arr(('n>=1', 2), -3, 3)


def turned(p, k):
  """p turned by k thirds of a full turn, counter-clockwise."""
  c = np.cos(2 * k * np.pi / 3)
  s = np.sin(2 * k * np.pi / 3)
  return (c * p[0] - s * p[1], s * p[0] + c * p[1])


def row(r, at, state, t, rates, p, context):
  check('state', r['next_state'][at, 0] == state)
  check('time', approx(r['dt'][at, 0], t, 1e-4))
  check('rates', approx((r['rates'][at, 0], r['rates'][at, 1], r['rates'][at, 2]), rates, 1e-4))
  check('position', approx((r['position'][at, 0], r['position'][at, 1]), p, 1e-4))
  if context is None:
    check('no context', r['context'] is None)
  else:
    check('context', approx((r['context'][at, 0], r['context'][at, 1]), context, 1e-4))


def rows(r, at, state, t, rates, p, context):
  """The three turns of a transition, from row at on."""
  for k in range(3):
    moved = 0
    if state != 0:
      moved = (state - 1 + k) % 3 + 1
    row(r, at + k, moved, t, (rates[(0 - k) % 3], rates[(1 - k) % 3], rates[(2 - k) % 3]),
        turned(p, k), context)


def augmented(states, times, rates, position, context, reflect):
  n = states.shape[0]
  r = data_utils.augment_data(
      jnp.asarray(states), jnp.asarray(times), jnp.asarray(rates), jnp.asarray(position),
      None if context is None else jnp.asarray(context), reflect=reflect)
  check('the parts of a dataset', all_of(
      len(r) == 5, 'next_state' in r, 'dt' in r, 'rates' in r, 'context' in r, 'position' in r))
  m = 2 * n if reflect else n
  check('three turns of each', all_of(
      r['next_state'].shape == (3 * m, 1), r['dt'].shape == (3 * m, 1),
      r['rates'].shape == (3 * m, 3), r['position'].shape == (3 * m, 2)))
  if context is not None:
    check('contexts too', r['context'].shape == (3 * m, 2))
  return r


@proof(states=StatesT, times=TimesT, rates=RatesT, position=PositionT, context=Opt(ContextT),
       reflect=Bool(), i=Int(0), samples=15)
def turn(states, times, rates, position, context, reflect, i):
  require(index(i) < states.shape[0])
  r = augmented(states, times, rates, position, context, reflect)
  c = None if context is None else (context[i, 0], context[i, 1])
  rows(r, 3 * i, states[i, 0], times[i, 0], (rates[i, 0], rates[i, 1], rates[i, 2]),
       (position[i, 0], position[i, 1]), c)


@proof(states=StatesT, times=TimesT, rates=RatesT, position=PositionT, context=Opt(ContextT),
       i=Int(0), samples=15)
def mirror(states, times, rates, position, context, i):
  n = states.shape[0]
  require(index(i) < n)
  r = augmented(states, times, rates, position, context, True)
  c = None if context is None else (context[i, 0], context[i, 1])
  state = states[i, 0]
  mirrored = state
  if state >= 2:
    mirrored = 5 - state
  rows(r, 3 * (n + i), mirrored, times[i, 0], (rates[i, 0], rates[i, 2], rates[i, 1]),
       (position[i, 0], -position[i, 1]), c)
