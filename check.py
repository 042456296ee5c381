#!/usr/bin/env python3-vt
"""Decides one property: check.py C01 [--tier quick|thorough].

Proves every contract of the property (and the contracts it uses) against the
current source, and runs the same contracts on the real code.  Exit 0 / 1.
"""
import argparse
import concurrent.futures as cf
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONHASHSEED'] = '0'

TRUSTED = [
    'pyvc: the verification-condition generator in /verif/pyvc (symbolic interpreter of the '
    'Python subset used by putting_dune), cross-checked on every run by executing the same '
    'contracts under CPython on the real code',
    'library models in pyvc/lib.py, libmods.py, npmodel.py (builtins, numpy, shapely points, '
    'datetime, sklearn neighbours, protobuf, tensorflow tensor protos, dm_env)',
    'floating point treated as exact real arithmetic; float32 as an idempotent rounding '
    'function; integers unbounded',
    'z3 %s and cvc5 (second opinion on unknown)']


def job(a):
  from pyvc import verify
  return verify.prove(*a[:2], **a[2])


def modules_of(pid):
  return sorted(os.path.basename(f)[:-3] for f in glob.glob(
      os.path.join(ROOT, 'contracts', pid.lower() + '_*.py')))


def static_part(mods, tier, pool):
  """-> list of (module, name, kind), results."""
  from pyvc import verify
  todo = []
  bounded = []
  errors = []
  for m in mods:
    try:
      es = verify.list_entries('contracts.' + m)
    except Exception as e:  # pylint: disable=broad-except
      errors.append('%s: cannot be interpreted: %s' % (m, e))
      continue
    by = {(x[0], x[1]): x for x in es}
    stack = [x for x in es if x[0] == 'contracts.' + m]
    seen = set()
    while stack:
      mod, name, kind, target, use = stack.pop()
      if (mod, name) in seen:
        continue
      seen.add((mod, name))
      if kind in ('bounded', 'assumed'):
        bounded.append((mod, name))
      else:
        todo.append((mod, name, kind, target))
      stack.extend(by[u] for u in use if u in by)
  todo = list(dict.fromkeys(todo))
  budget = 240 if tier == 'quick' else 700
  tmo = 10000 if tier == 'quick' else 40000
  futs = [pool.submit(job, (m, n, dict(budget=budget, timeout_ms=tmo))) for m, n, _, _ in todo]
  return todo, bounded, errors, futs


def known_findings(pid):
  f = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(f):
    return []
  return [k for k in json.load(open(f))['findings'] if k['property'] == pid]


def match_known(known, entry, failure):
  for k in known:
    if k['entry'] == entry and failure.startswith(k['check']):
      return k
  return None


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--no-native', action='store_true')
  args = ap.parse_args()
  pid, tier = args.pid, args.tier
  tier = tier if tier in ('quick', 'thorough') else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  mods = modules_of(pid)
  if not mods:
    print('no contracts for %s' % pid)
    return 2
  outdir = os.path.join(ROOT, 'evidence')
  os.makedirs(outdir, exist_ok=True)
  tmp = tempfile.mkdtemp(prefix='vcheck_%s_' % pid)
  try:
    return run(pid, tier, seed, t0, mods, outdir, tmp, args)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def native_gen(mods, used, tier, seed, tmp):
  out = os.path.join(tmp, 'gen.json')
  err = open(os.path.join(tmp, 'gen.err'), 'w')
  cmd = [NATIVE, os.path.join(ROOT, 'rt', 'run.py'), 'gen'] + mods + [
      '--seed', str(seed), '--out', out,
      '--budget', '100' if tier == 'quick' else '450',
      '--scale', '1' if tier == 'quick' else '12']
  if used:
    cmd += ['--used'] + used
  return subprocess.Popen(['timeout', '-k', '5', '300' if tier == 'quick' else '700'] + cmd,
                          stdout=err, stderr=err, cwd=ROOT), out


def native_replay(cases, tmp):
  f = os.path.join(tmp, 'cases.json')
  out = os.path.join(tmp, 'replay.json')
  json.dump({'cases': cases}, open(f, 'w'))
  subprocess.run(['timeout', '-k', '5', '200', NATIVE, os.path.join(ROOT, 'rt', 'run.py'),
                  'replay', f, '--out', out], stdout=subprocess.DEVNULL,
                 stderr=subprocess.DEVNULL, cwd=ROOT)
  if not os.path.exists(out):
    return []
  return json.load(open(out))['cases']


def run(pid, tier, seed, t0, mods, outdir, tmp, args):
  import z3
  ctx = mp.get_context('fork')
  pool = cf.ProcessPoolExecutor(7, mp_context=ctx)
  todo, bounded, errors, futs = static_part(mods, tier, pool)
  used = ['%s.%s' % (m, n) for m, n in [x[:2] for x in todo] + bounded
          if m.split('.')[-1] not in mods]
  proc = None
  if not args.no_native:
    proc, gen_out = native_gen(mods, used, tier, seed, tmp)
  results = []
  for (m, n, _, _), f in zip(todo, futs):
    try:
      results.append(f.result())
    except Exception as e:  # a worker died (memory): undecided.
      results.append(dict(module=m, name=n, error='worker ended: %s' % e, error_kind='internal',
                          obligations=[], wall=0, solver_s=0, paths=0, completed=0, inlined=[],
                          contracts=[], assumptions=[], target=None, kind=None))
      pool = cf.ProcessPoolExecutor(7, mp_context=ctx)
  # Smaller, exact instances of refuted entries, for concrete inputs.
  again = []
  for r in results:
    if any(o['status'] != 'discharged' for o in r['obligations']) and len(again) < 7:
      want = sorted({o['name'] for o in r['obligations'] if o['status'] == 'refuted'})
      again.append((r, pool.submit(job, (r['module'], r['name'], dict(
          budget=90, timeout_ms=5000, bounded=(1, 2, 3), want=want or None)))))
  small = []
  for r, f in again:
    try:
      small.append((r, f.result()))
    except Exception:  # pylint: disable=broad-except
      pass
  pool.shutdown(wait=False, cancel_futures=True)
  gen = {'entries': [], 'failures': []}
  native_note = None
  if proc is not None:
    proc.wait()
    if os.path.exists(gen_out):
      gen = json.load(open(gen_out))
    else:
      err = open(os.path.join(tmp, 'gen.err')).read()[-1500:]
      native_note = 'the runner on the real code gave no result: ' + err
  # Replay of solver models.
  cases = []
  for r, src in [(r, r) for r in results] + small:
    for o in src['obligations']:
      if o['status'] == 'refuted' and o['inputs'] and len(cases) < 60:
        cases.append(dict(module=r['module'], entry=r['name'], input=o['inputs'],
                          obligation=o['name']))
  reproduced = []
  if cases and not args.no_native:
    for c in native_replay(cases, tmp):
      if c['status'] == 'fail':
        reproduced.append(c)
  known = known_findings(pid)
  violations = []
  hits = {}
  for f in gen['failures']:
    rest = []
    for x in f['failures']:
      k = match_known(known, f['entry'], x)
      if k:
        hits[k['id']] = k
      else:
        rest.append(x)
    if rest:
      violations.append(dict(kind='input found by running the contract on the real code',
                             module=f['module'], entry=f['entry'], failures=rest,
                             input=f['input']))
  for c in reproduced:
    rest = []
    for x in c['failures']:
      k = match_known(known, c['entry'], x)
      if k:
        hits[k['id']] = k
      else:
        rest.append(x)
    if rest:
      violations.append(dict(kind='solver counterexample replayed on the real code',
                             module=c['module'], entry=c['entry'], failures=rest,
                             input=c['input'], obligation=c['obligation']))
  # Failed obligations without a reproducing input.
  exact_runs = {(r['module'], r['name']): b for r, b in small}
  unrep = []
  for r in results:
    if r['error_kind'] == 'internal':
      continue
    exact = exact_runs.get((r['module'], r['name']))
    for o in r['obligations']:
      if o['status'] == 'refuted' and not o['tainted']:
        # The failure must show in the exact small instances too (every length
        # concrete, every quantifier expanded), unless those cannot be run.
        if exact is not None and not exact['error'] and exact['completed'] and not any(
            x['name'] == o['name'] and x['status'] == 'refuted' and not x['tainted']
            for x in exact['obligations']):
          continue
        k = match_known(known, r['name'], o['name'])
        if k:
          hits[k['id']] = k
          continue
        unrep.append(dict(kind='failed proof obligation', module=r['module'], entry=r['name'],
                          obligation=o['name'], detail=o['detail'], model=o['model'],
                          solver=o['solver'], input=o['inputs']))
  within = [r for r in results if r.get('bound')]
  results = [r for r in results if not r.get('bound')]
  obs = [o for r in results for o in r['obligations']]
  discharged = sum(o['status'] == 'discharged' for o in obs)
  undecided = [dict(entry=r['name'], reason=r['error']) for r in results + within if r['error']]
  undecided += [dict(entry=r['name'], reason='vacuous: no path completes')
                for r in results + within if not r['error'] and not r['completed'] and not any(
                    o['status'] == 'discharged' for o in r['obligations'])]
  known_ob = lambda r, o: match_known(known, r['name'], o['name'])
  pending = len(undecided) + len(errors)
  backends = {}
  for o in obs:
    if o['status'] == 'discharged':
      backends[o['solver']] = backends.get(o['solver'], 0) + 1
  inlined = sorted({q for r in results + within for q in r['inlined']})
  under = sorted({r['target'] for r in results if r['target']})
  assumptions = sorted({a for r in results + within for a in r['assumptions']})
  nb = [e for e in gen['entries'] if e['kind'] in ('bounded', 'assumed')]
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
      'coverage': {
          'obligations': len(obs) + pending,
          'discharged': discharged,
          'checker_cmd': './check.py %s --tier %s' % (pid, tier),
          'trusted_base': [t % z3.get_version_string() if '%s' in t else t for t in TRUSTED],
          'functions_under_contract': under,
          'functions_verified_through_their_code': inlined,
          'proofs': [dict(entry=r['name'], kind=r['kind'], target=r['target'], paths=r['paths'],
                          obligations=len(r['obligations']),
                          discharged=sum(o['status'] == 'discharged' for o in r['obligations']),
                          solver_s=round(r['solver_s'], 2), wall_s=round(r['wall'], 2),
                          contracts_used=r['contracts'],
                          undecided=r['error']) for r in results],
          'backends': backends,
          'solver_s': round(sum(r['solver_s'] for r in results), 2),
          'undecided': undecided + [dict(entry='*', reason=e) for e in errors],
          'failed_obligations': sorted({'%s: %s (%s)' % (r['name'], o['name'], o['status'])
                                        for r in results for o in r['obligations']
                                        if o['status'] != 'discharged'}),
          'bounded_not_counted_as_proved': [
              dict(entry=e['entry'], inputs=e['ran'], checks=e['checks'], samples=e['samples'][:1])
              for e in nb] + [
                  dict(entry=r['name'], bound=r['bound'], obligations=len(r['obligations']),
                       discharged=sum(o['status'] == 'discharged' for o in r['obligations']),
                       solver_s=round(r['solver_s'], 2), undecided=r['error']) for r in within],
          'contracts_run_on_real_code': [
              dict(entry=e['entry'], inputs=e['ran'], distinct=e['distinct'],
                   outside_precondition=e['skipped'], checks=e['checks'])
              for e in gen['entries']],
      },
      'assumptions': assumptions + ['solver time-outs and constructs outside the verified subset '
                                    'leave an entry undecided; the same contract is then only '
                                    'checked on the inputs listed'],
      'wall_s': round(time.time() - t0, 2),
      'violations': 0,
  }
  if native_note:
    ev['coverage']['runner_note'] = native_note
  for k in known:
    if k['id'] in hits:
      print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  rc = 0
  if violations or unrep:
    rdir = os.path.join(outdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.json' % pid)
    doc = {'property': pid, 'violations': violations, 'failed_obligations': unrep,
           'cases': [dict(module=v['module'], entry=v['entry'], input=v['input'])
                     for v in violations],
           'how_to_replay': '%s %s replay %s' % (NATIVE, os.path.join(ROOT, 'rt', 'run.py'), path)}
    json.dump(doc, open(path, 'w'), indent=1, default=str)
    for v in violations[:8]:
      print('%s.%s: %s' % (v['module'], v['entry'], '; '.join(v['failures'])[:600]))
    for u in unrep[:8]:
      print('obligation failed: %s.%s: %s' % (u['module'], u['entry'], u['obligation']))
    print('VIOLATION property=%s replay=%s%s' % (
        pid, path, '' if violations else ' no-failing-input-found'))
    ev['violations'] = len(violations) or len(unrep)
    rc = 1
  json.dump(ev, open(os.path.join(outdir, pid + '.json'), 'w'), indent=1, default=str)
  print('%s: %d/%d obligations discharged, %d entries undecided, %d inputs run on the real code, '
        '%.1f s' % (pid, discharged, len(obs) + pending, pending,
                    sum(e['ran'] for e in gen['entries']), time.time() - t0))
  for u in undecided[:20]:
    print('  undecided: %s: %s' % (u['entry'], u['reason']))
  for e in errors:
    print('  undecided: ' + e)
  if native_note:
    print('  ' + native_note[-600:])
  sys.stdout.flush()
  return rc


if __name__ == '__main__':
  rc_ = main()
  sys.stdout.flush()
  os._exit(rc_)
