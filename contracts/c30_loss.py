"""C30: rates are learned from the likelihood of what was observed."""
import jax
import jax.numpy as jnp
import numpy as np
from putting_dune.rate_learning import learn_rates
from vdsl import *
from contracts.common import *

OutputT = Real(-3, 3)
TotalT = Real(0.05, 4)
TimeT = Real(0.05, 4)


class Net:
  """A network that is what it is told to be."""

  def __init__(self, output):
    self.output = output
    self.calls = []

  def apply(self, params, state, key, context, is_training):
    self.calls.append((params, state, key, context, is_training))
    return self.output, 'new state'


def chance(logits, k):
  """The share of neighbour k (from 0)."""
  return np.exp(logits[k]) / (np.exp(logits[0]) + np.exp(logits[1]) + np.exp(logits[2]))


@proof(bound='one sample', x=Tup(OutputT, OutputT, OutputT), total=TotalT, time=TimeT,
       where=Int(0, 3), training=Bool(), a=Real(0, 3), b=Real(0, 3))
def loss(x, total, time, where, training, a, b):
  net = Net(jnp.array([[x[0], x[1], x[2], total]]))
  context = jnp.array([[0.25, -0.5]])
  mean, (state, rates, total_loss, next_loss) = learn_rates.batched_loss_fn(
      'params', 'state', net.apply, jnp.array([where]), jnp.array([time]),
      jnp.array([1 if where > 0 else 0]), context, 'key', training, a, b)
  check('the network is asked once', len(net.calls) == 1)
  check_same('for these', net.calls[0], ('params', 'state', 'key', context, training))
  check('its new state', state == 'new state')
  # Nothing happens in that time with probability exp(-total * time).
  stays = np.exp(-total * time)
  if where == 0:
    check('staying', approx(total_loss[0], total * time, 1e-4))
    check('no neighbour', approx(next_loss[0], 0.0, 1e-6))
  else:
    if stays <= 0.99999:
      check('leaving', approx(total_loss[0], -np.log(1 - stays), 1e-3))
    check('to that neighbour', approx(next_loss[0], -np.log(chance(x, where - 1)), 1e-4))
  check('the loss weighs both', approx(mean, a * next_loss[0] + b * total_loss[0], 1e-4))
  for k in range(3):
    check('the rate of each neighbour', approx(rates[0, k], chance(x, k) * total, 1e-4))


@proof(out=Arr(('n>=1', 4), 0.05, 3), time=Arr(('n>=1',), 0.05, 4),
       where=Arr(('n>=1',), dtype='int64', among=(0, 1, 2, 3)), i=Int(0))
def rows(out, time, where, i):
  """Any number of samples: each has the loss that its own output gives."""
  n = out.shape[0]
  require(all_of(n == time.shape[0], n == where.shape[0], index(i) < n))
  _, (_, rates, total_loss, next_loss) = learn_rates.batched_loss_fn(
      None, None, Net(jnp.asarray(out)).apply, jnp.asarray(where), jnp.asarray(time),
      jnp.asarray(where > 0), None, None)
  check('a loss for each', all_of(total_loss.shape == (n,), next_loss.shape == (n,),
                                  rates.shape == (n, 3)))
  x, total = [out[i, 0], out[i, 1], out[i, 2]], out[i, 3]
  stays = np.exp(-total * time[i])
  if where[i] == 0:
    check('staying', approx(total_loss[i], total * time[i], 1e-4))
    check('no neighbour', approx(next_loss[i], 0.0, 1e-6))
  else:
    if stays <= 0.99999:
      check('leaving', approx(total_loss[i], -np.log(1 - stays), 1e-3))
    for k in range(3):
      if where[i] == k + 1:
        check('to that neighbour', approx(next_loss[i], -np.log(chance(x, k)), 1e-4))
  for k in range(3):
    check('the rate of each neighbour', approx(rates[i, k], chance(x, k) * total, 1e-4))


@bounded(samples=60, n=Int(1, 12), a=Real(0, 3), b=Real(0, 3), rng=Rng())
def batch(n, a, b, rng):
  """Sampled: every sample of a batch has the loss it has alone; the mean is taken."""
  out = rng.uniform(-2, 2, size=(n, 4))
  out[:, 3] = rng.uniform(0.1, 3, size=n)
  time, where = rng.uniform(0.1, 3, size=n), rng.integers(0, 4, size=n)
  f = lambda s: learn_rates.batched_loss_fn(
      None, None, Net(jnp.asarray(out[s])).apply, jnp.asarray(where[s]), jnp.asarray(time[s]),
      jnp.asarray(where[s] > 0), None, None, True, a, b)
  mean, (_, rates, total_loss, next_loss) = f(slice(None))
  means = []
  for i in range(n):
    m, (_, r, t, l) = f(slice(i, i + 1))
    means.append(float(m))
    check('rates', approx(np.asarray(rates[i]), np.asarray(r[0]), 1e-4))
    check('losses', approx((float(total_loss[i]), float(next_loss[i])),
                           (float(t[0]), float(l[0])), 1e-4))
  check('the mean', approx(float(mean), float(np.mean(means)), 1e-3))


def samples(n, rng):
  """Samples of which everything follows from the elapsed time."""
  t = rng.permutation(n) + 1.0
  return {'next_state': jnp.asarray((t % 4).astype(int)), 'dt': jnp.asarray(t),
          'position': jnp.stack([jnp.asarray(t) / 2, -jnp.asarray(t)], axis=1),
          'context': jnp.asarray(t)[:, None] * 3,
          'rates': jnp.stack([jnp.asarray(t) + k for k in range(3)], axis=1)}


@bounded(samples=40, n=Int(3, 14), k=Int(1, 4), how=OneOf('bootstrap', 'split', 'all'),
         augment=Bool(), seed=Int(0, 10**6), rng=Rng())
def splits(n, k, how, augment, seed, rng):
  """Sampled: each split is made of samples of the dataset, with all that belongs to them."""
  data = samples(n, rng)
  old = snapshot({a: np.asarray(b) for a, b in data.items()})
  train, test = learn_rates.create_dataset_splits(
      data, k, jax.random.PRNGKey(seed), bootstrap=how == 'bootstrap', augment_data=augment,
      test_fraction=0.0 if how == 'all' else 0.34)
  copies = 6 if augment else 1
  for part in (train, test):
    check('what is there', sorted(part) == ['context', 'dt', 'next_state', 'rates'])
    m = part['dt'].shape[1]
    check('as many splits', all(part[a].shape[:2] == (k, m) for a in part))
    context, t = np.asarray(part['context']), np.asarray(part['dt'])
    check('of this dataset', set(t.reshape(-1)) <= set(float(i) for i in range(1, n + 1)))
    check('the context first', context.shape == (k, m, 3) and approx(context[..., 0], 3 * t))
    if augment:
      check('then the position, turned', approx(
          context[..., 1]**2 + context[..., 2]**2, 1.25 * t**2, 1e-3))
    else:
      check('then the position', approx(context[..., 1], t / 2) and approx(context[..., 2], -t))
      check('its state', np.array_equal(np.asarray(part['next_state']), (t % 4).astype(int)))
      check('its rates', approx(np.asarray(part['rates'])[..., 1], t + 1))
  tested = int(n * 0.34)
  for i in range(k):
    a, b = np.asarray(train['dt'][i]), np.asarray(test['dt'][i])
    if how == 'all':
      check('all of them', len(a) == len(b) == copies * n and len(set(a)) == n)
    elif how == 'split':
      check('every sample once', len(set(a)) == n - tested and len(a) == copies * (n - tested))
      check('the others', len(b) == copies * tested and not set(a) & set(b))
    else:
      check('as many as there are', len(a) == copies * n)
      check('tested on others', not set(a) & set(b))
  check_same('dataset unchanged', {a: np.asarray(b) for a, b in data.items()}, old)
