"""Runs contracts on the real code: generated inputs, or the replay of one.

  run.py gen MODULE --samples N --seed S --budget SECS [--entry E]
  run.py replay FILE...

Prints one JSON document.
"""
import argparse
import contextlib
import importlib
import inspect
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for k, v in (('JAX_PLATFORMS', 'cpu'), ('TF_CPP_MIN_LOG_LEVEL', '3'), ('OMP_NUM_THREADS', '1'),
             ('MPLBACKEND', 'Agg')):
  os.environ.setdefault(k, v)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import logging as _l  # noqa
_l.disable(_l.CRITICAL)


def build_protos(tmp):
  """Regenerates the protobuf module of the current tree in a scratch folder."""
  import importlib.util
  # tensorflow's protos, found without importing tensorflow.
  spec = importlib.util.find_spec('tensorflow')
  inc = os.path.join(os.path.dirname(spec.origin), 'include')
  pdir = os.path.join(REPO, 'putting_dune')
  names = [f for f in sorted(os.listdir(pdir)) if f.endswith('.proto')]
  subprocess.run(['protoc', '-I=' + inc, '-I=' + REPO, '--python_out=' + tmp] +
                 [os.path.join(pdir, n) for n in names], check=True,
                 stdout=subprocess.DEVNULL)
  import putting_dune
  putting_dune.__path__.insert(0, os.path.join(tmp, 'putting_dune'))


class Env:

  def __init__(self, fresh=None, script=None, rand=None, dims=None):
    self.script = script
    self.fresh_in = list(fresh or [])
    self.fresh_out = []
    self.rand = rand
    self.dims = dims if dims is not None else {}

  def make_rng(self, j):
    import numpy as np
    if isinstance(j, dict) and j.get('script') and self.script is not None:
      return script_rng(self.script)
    return np.random.default_rng(j.get('seed', 0) if isinstance(j, dict) else 0)

  def fresh(self, t):
    if self.fresh_in:
      j = self.fresh_in.pop(0)
    else:
      j = t.rand(self.rand or random.Random(0), self.dims)
    self.fresh_out.append(j)
    return t.build(j, self)


def script_rng(script):
  import numpy as np

  class Scripted(np.random.Generator):

    def __init__(self):
      super().__init__(np.random.PCG64(0))

    def _next(self, kind):
      for k, (kk, v) in enumerate(script):
        if kk == kind:
          del script[k]
          return v
      return None

    def _draw(self, kind, size, fallback):
      if size is None:
        v = self._next(kind)
        return fallback() if v is None else v
      n = int(np.prod(size))
      vs = [self._next(kind) for _ in range(n)]
      if any(v is None for v in vs):
        return fallback()
      return np.asarray(vs).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
      return self._draw('uniform', size if size is not None or np.ndim(low) == 0 else np.shape(low),
                        lambda: super(Scripted, self).uniform(low, high, size))

    def random(self, size=None, **kw):
      return self._draw('uniform', size, lambda: super(Scripted, self).random(size))

    def exponential(self, scale=1.0, size=None):
      return self._draw('exponential', size,
                        lambda: super(Scripted, self).exponential(scale, size))

    def normal(self, loc=0.0, scale=1.0, size=None):
      return self._draw('normal', size, lambda: super(Scripted, self).normal(loc, scale, size))

    def poisson(self, lam=1.0, size=None):
      return self._draw('poisson', size, lambda: super(Scripted, self).poisson(lam, size))

    def integers(self, low, high=None, size=None, **kw):
      return self._draw('integers', size,
                        lambda: super(Scripted, self).integers(low, high, size, **kw))

    def choice(self, a, size=None, replace=True, p=None, **kw):
      v = self._next('choice') if size is None else None
      if v is None:
        return super().choice(a, size, replace, p, **kw)
      return int(v) if np.ndim(a) == 0 else a[int(v)]
  return Scripted()


def resolve(target):
  mod, qn = target.split(':')
  v = importlib.import_module(mod)
  for p in qn.split('.'):
    v = inspect.getattr_static(v, p) if inspect.isclass(v) else getattr(v, p)
    if isinstance(v, (staticmethod, classmethod)):
      v = v.__func__
    if isinstance(v, property):
      v = v.fget
    if type(v).__name__ == 'cached_property':
      v = v.func
  return v


def run_one(dsl, entry, inp, rand=None, dims=None):
  """-> (status, failures); status: ok | skip | fail."""
  script = None
  if inp.get('draws') is not None:
    script = [list(x) for x in inp['draws']]
  env = Env(inp.get('fresh'), script, rand, dims)
  dsl.ST.failures = []
  dsl.ST.env = env
  try:
    args = [t.build(inp['args'][p], env) for p, t in entry.types.items()]
    kw = dict(zip(entry.types, args))
    # Construction of the inputs is complete: exceptions now are behaviour.
    try:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import numpy as np
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
          if entry.kind in ('contract', 'assumed'):
            params = list(inspect.signature(entry.fn).parameters)[1:]
            try:
              target = resolve(entry.target)
            except AttributeError:
              if '_' == entry.target.split(':')[1].split('.')[-1][0]:
                raise dsl.Skip()  # A helper that is no more.
              raise
            call = dsl.Call(target, {p: kw[p] for p in params})
            entry.fn(call, **kw)
          else:
            entry.fn(**kw)
    except dsl.Skip:
      return 'skip', []
    except dsl.Done:
      pass
    except RecursionError:
      raise
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(e.__traceback__)
      where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
      dsl.ST.failures.append('unexpected exception %s: %s at %s' % (
          type(e).__name__, str(e)[:200], ' < '.join(where)))
  finally:
    inp['fresh'] = env.fresh_out
  if dsl.ST.failures:
    return 'fail', list(dsl.ST.failures)
  return 'ok', []


def generate(args, dsl):
  mods = [importlib.import_module('contracts.' + m) for m in args.modules]
  names = {m.__name__ for m in mods}
  entries = [e for e in dsl.ENTRIES if e.module in names or (
      args.used and '%s.%s' % (e.module, e.name) in args.used)]
  if args.entry:
    entries = [e for e in entries if e.name == args.entry]
  out = {'entries': [], 'failures': []}
  t_all = time.time()
  for n, e in enumerate(entries):
    left = args.budget - (time.time() - t_all)
    share = max(1.0, left / max(1, len(entries) - n))
    t0 = time.time()
    r = random.Random('%d/%s' % (args.seed, e.name))
    ok = skip = 0
    distinct = set()
    samples = []
    want = int(e.opts.get('samples', 200) * args.scale)
    fails = 0
    dsl.ST.checks = 0
    dsl.ST.names = set()
    tries = 0
    while ok < want and tries < 6 * want + 20 and time.time() - t0 < share:
      tries += 1
      dims = {}
      inp = {'args': {p: t.rand(r, dims) for p, t in e.types.items()}}
      status, failures = run_one(dsl, e, inp, r, dims)
      if status == 'skip':
        skip += 1
        continue
      key = json.dumps(inp, sort_keys=True)
      distinct.add(key)
      ok += 1
      if len(samples) < 2 and len(key) < 1500:
        samples.append(inp)
      if status == 'fail':
        fails += 1
        if fails <= 3:
          out['failures'].append({'module': e.module, 'entry': e.name, 'input': inp,
                                  'failures': failures})
        if fails >= 3 or args.quick_fail:
          break
    out['entries'].append({'module': e.module, 'entry': e.name, 'kind': e.kind, 'ran': ok,
                           'skipped': skip, 'distinct': len(distinct), 'checks': dsl.ST.checks,
                           'names': sorted(dsl.ST.names), 'failed': fails,
                           'samples': samples, 'wall': time.time() - t0})
    if args.quick_fail and fails:
      break
  return out


def replay(args, dsl):
  out = []
  for f in args.modules:
    d = json.load(open(f))
    for item in d['cases']:
      importlib.import_module(item['module'])
      e = [x for x in dsl.ENTRIES if x.module == item['module'] and x.name == item['entry']][0]
      try:
        status, failures = run_one(dsl, e, dict(item['input']), random.Random(0), {})
      except Exception as ex:  # pylint: disable=broad-except
        status, failures = 'error', [repr(ex)]
      out.append({'module': item['module'], 'entry': item['entry'], 'status': status,
                  'failures': failures, 'input': item['input'],
                  'obligation': item.get('obligation')})
  return {'cases': out}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('mode')
  ap.add_argument('modules', nargs='+')
  ap.add_argument('--samples', type=int, default=60)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--scale', type=float, default=1.0)
  ap.add_argument('--budget', type=float, default=60)
  ap.add_argument('--entry')
  ap.add_argument('--used', nargs='*')
  ap.add_argument('--out')
  ap.add_argument('--quick-fail', action='store_true')
  args = ap.parse_args()
  tmp = tempfile.mkdtemp(prefix='vproto')
  try:
    build_protos(tmp)
    import absl.logging
    absl.logging.set_verbosity(absl.logging.FATAL)
    import vdsl
    res = generate(args, vdsl) if args.mode == 'gen' else replay(args, vdsl)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  text = json.dumps(res)
  if args.out:
    with open(args.out, 'w') as f:
      f.write(text)
  else:
    print(text)


if __name__ == '__main__':
  main()
