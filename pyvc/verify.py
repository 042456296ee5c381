"""Prove the entries of a contract module against the source tree."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

import z3  # noqa

from pyvc.core import *  # noqa
from pyvc.core import Ctx, Explorer, Unsupported, PathEnd, Restart, PyExc
from pyvc.interp import Interp
from pyvc import lib, libmods, dslengine, symtypes
from pyvc import values as V

REPO = os.environ.get('VERIF_REPO', '/repo')


def extra_modules():
  out = {}
  for f in sorted(os.listdir(os.path.join(ROOT, 'contracts'))):
    if f.endswith('.py'):
      out['contracts.' + f[:-3]] = os.path.join(ROOT, 'contracts', f)
  for f in sorted(os.listdir(os.path.join(HERE, 'libsrc'))):
    if f.endswith('.py'):
      out[f[:-3]] = os.path.join(HERE, 'libsrc', f)
  return out


def make(timeout_ms, deadline):
  ctx = Ctx(timeout_ms, deadline)
  I = Interp(ctx, REPO, lib, extra_modules())
  I.entries = []
  return ctx, I


def load(I, module):
  I.entries = []
  m = I.get_module(module)
  if m is None or not hasattr(m, 'globals'):
    raise Unsupported('no contract module ' + module)
  for k, v in m.globals.items():
    if isinstance(v, V.Poison):
      raise Unsupported('%s.%s: %s' % (module, k, v.why))
  return m


def list_entries(module):
  ctx, I = make(1000, None)
  I.reset()
  load(I, module)
  return [(m, e.name, e.kind, e.target, [(x.module.name, x.name) for x in e.use])
          for m, e in I.entries]


def find_target(I, target):
  mod, qn = target.split(':')
  m = I.get_module(mod)
  if m is None:
    raise Unsupported('no module ' + mod)
  parts = qn.split('.')
  v = m.globals.get(parts[0])
  if isinstance(v, V.Poison):
    raise Unsupported(v.why)
  for p in parts[1:]:
    v, _ = v.lookup(p)
  if isinstance(v, V.Wrapped):
    v = v.fn
  if not isinstance(v, V.FunctionVal):
    raise Unsupported('%s is not a function' % target)
  return v


def run_path(ctx, I, module, name):
  ctx.reset_path()
  ctx.paths += 1
  ctx.ghost_inv = []
  ctx.use_contract = None
  I.roots = []
  I.reset()
  I.uses = {}
  I.under_proof = None
  load(I, module)
  entry = None
  for m, e in I.entries:
    if m == module and e.name == name:
      entry = e
  if entry is None:
    raise Unsupported('no entry %s' % name)
  for u in entry.use:
    e = u.entry
    I.uses[find_target(I, e.target).qualname] = dslengine.ContractUse(e)
  f = entry.fn
  params = [a.arg for a in f.node.args.args]
  args = []
  if entry.kind == 'contract':
    params = params[1:]
  ctx.entry = entry
  for p in params:
    if p not in entry.types:
      raise Unsupported('no type for parameter ' + p)
    args.append(symtypes.sym(I, entry.types[p], 'in.' + p))
  if entry.kind == 'contract':
    tf = find_target(I, entry.target)
    bound = dict(zip(params, args))
    c = dslengine.Call(I, 'prove', tf, bound)
    args = [c] + args
  try:
    I.call_function(f, args, {})
  except PyExc as e:
    ctx.oblige('no unexpected exception (%s)' % e.cls.name, False)
    return
  ctx.completed = getattr(ctx, 'completed', 0) + 1


def explore(ctx, I, module, name, max_restarts=60):
  restarts = 0
  while True:
    ctx.explorer = Explorer()
    ctx.obligations = []
    ctx.paths = 0
    ctx.completed = 0
    ctx.inlined = set()
    ctx.contracts_used = set()
    try:
      while ctx.explorer.next():
        if ctx.paths > ctx.MAX_PATHS:
          raise Unsupported('too many paths')
        try:
          run_path(ctx, I, module, name)
        except PathEnd:
          pass
        if ctx.stop_on_refute and any(
            o.status == 'refuted' and not o.tainted and (
                ctx.want is None or o.name in ctx.want) for o in ctx.obligations):
          return
      return
    except Restart:
      restarts += 1
      if restarts > max_restarts:
        raise Unsupported('loop invariant inference did not converge')


def model_inputs(ctx, entry, model):
  out = {'args': {}, 'fresh': []}
  for p, t in entry.types.items():
    out['args'][p] = symtypes.conc(ctx, model, t, 'in.' + p)
  for t, nm in ctx.freshes:
    out['fresh'].append(symtypes.conc(ctx, model, t, nm))
  out['draws'] = [[k, ctx.ev(model, v)] for k, v in ctx.draws]
  return out


def prove(module, name, budget=300, timeout_ms=10000, bounded=None, want=None):
  """-> plain dict (picklable)."""
  t0 = time.time()
  ctx, I = make(timeout_ms, t0 + budget)
  ctx.bounded = bounded
  ctx.fn = '%s.%s' % (module, name)
  if bounded is not None:
    ctx.stop_on_refute = True
    ctx.want = want
  res = {'module': module, 'name': name, 'error': None, 'error_kind': None}
  # Inputs are concretised as soon as a model exists (terms are per path).
  orig = ctx.oblige

  def oblige(nm, c):
    k = len(ctx.obligations)
    try:
      orig(nm, c)
    finally:
      for o in ctx.obligations[k:]:
        if o.model is not None:
          try:
            o.inputs = model_inputs(ctx, ctx.entry, o.model)
          except Exception as e:  # pylint: disable=broad-except
            o.inputs = None
            o.detail += ' (no concrete input: %s)' % e
          o.model = str(o.model)[:4000]
  ctx.oblige = oblige
  try:
    explore(ctx, I, module, name)
  except Unsupported as e:
    res['error'], res['error_kind'] = str(e), 'unsupported'
    if os.environ.get('PYVC_TRACE'):
      traceback.print_exc()
  except PyExc as e:
    res['error'], res['error_kind'] = 'exception %s while loading' % e, 'unsupported'
    if os.environ.get('PYVC_TRACE'):
      traceback.print_exc()
  except RecursionError as e:
    res['error'], res['error_kind'] = 'recursion', 'unsupported'
  except z3.Z3Exception as e:
    res['error'], res['error_kind'] = 'z3: %s' % e, 'internal'
    if os.environ.get('PYVC_TRACE'):
      traceback.print_exc()
  except Exception as e:  # pylint: disable=broad-except
    res['error'], res['error_kind'] = '%s: %s' % (type(e).__name__, e), 'internal'
    if os.environ.get('PYVC_TRACE'):
      traceback.print_exc()
  e = getattr(ctx, 'entry', None)
  res.update(
      kind=e.kind if e else None, bound=e.opts.get('bound') if e else None, target=e.target if e else None,
      wall=time.time() - t0, solver_s=ctx.solver_secs, queries=ctx.queries, paths=ctx.paths,
      completed=getattr(ctx, 'completed', 0), inlined=sorted(ctx.inlined),
      contracts=sorted(getattr(ctx, 'contracts_used', ())),
      assumptions=sorted(ctx.assumptions),
      obligations=[dict(name=o.name, status=o.status, solver=o.solver, secs=o.secs,
                        path=o.path, detail=o.detail, tainted=o.tainted, model=o.model,
                        inputs=getattr(o, 'inputs', None)) for o in ctx.obligations])
  return res


def summary(r):
  c = {}
  for o in r['obligations']:
    c[o['status']] = c.get(o['status'], 0) + 1
  return '%-40s %s paths=%d done=%d wall=%.1f solver=%.1f q=%d %s' % (
      r['name'], c, r['paths'], r['completed'], r['wall'], r['solver_s'], r['queries'],
      ('ERROR ' + r['error']) if r['error'] else '')


if __name__ == '__main__':
  mod = sys.argv[1]
  mod = mod if mod.startswith('contracts.') else 'contracts.' + mod
  want = sys.argv[2:]
  for m, n, kind, target, use in list_entries(mod):
    if m != mod or kind in ('bounded', 'assumed') or (want and n not in want):
      continue
    r = prove(m, n, budget=float(os.environ.get('BUDGET', '300')))
    print(summary(r), flush=True)
    seen = set()
    for o in r['obligations']:
      if o['status'] != 'discharged' and o['name'] not in seen:
        seen.add(o['name'])
        print('   ', o['status'], o['name'], '|', o['solver'], '|', o['detail'][:int(os.environ.get('DETAIL', '300'))])
        if o['inputs']:
          print('      inputs', json.dumps(o['inputs'])[:1500])
    if os.environ.get('VERBOSE'):
      print('    inlined', r['inlined'], 'assumptions', r['assumptions'])
