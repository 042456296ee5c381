#!/usr/bin/env python3
"""Makes, confirms and runs planted bugs.  plant.py confirm|check ID... """
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')


def sh(cmd, cwd=None, env=None, timeout=1200):
  e = dict(os.environ)
  e.update(env or {})
  return subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def scratch():
  d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
  sh('cp -a /repo %s/repo' % d)
  return d, d + '/repo'


def make(id, prop, file, edits, needs, breaks, demo):
  """edits: list of (old, new) for file, or dict file -> list."""
  d, r = scratch()
  try:
    per = edits if isinstance(edits, dict) else {file: edits}
    for fl, es in per.items():
      p = os.path.join(r, 'putting_dune', fl)
      s = open(p).read()
      for old, new in es:
        assert s.count(old) == 1, (id, fl, s.count(old), old)
        s = s.replace(old, new)
      open(p, 'w').write(s)
    o = os.path.join(SEEDED, id)
    os.makedirs(o, exist_ok=True)
    diff = sh('git diff', cwd=r).stdout
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(o + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(o + '/meta.json', 'w'), indent=1)
  finally:
    shutil.rmtree(d)


def confirm(id, tests=not os.environ.get("NOTESTS")):
  o = os.path.join(SEEDED, id)
  d, r = scratch()
  try:
    a = sh('bash %s/demo.sh' % o, cwd=r)
    x = sh('git apply %s/patch.diff' % o, cwd=r)
    b = sh('bash %s/demo.sh' % o, cwd=r)
    print(id, 'demo clean', a.returncode, 'patched', b.returncode, 'apply', x.returncode)
    if a.returncode:
      print(a.stdout[-1500:])
    if not b.returncode:
      print(b.stdout[-1500:])
    ok = a.returncode == 0 and b.returncode != 0 and x.returncode == 0
    if tests and ok:
      base = json.load(open('/opt/vp/BASELINE.json'))
      t = sh(open('/opt/vp/test.sh').read().replace('/repo', r) if False else
             'sed "s#/repo#%s#g" /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/out.json' % (r, d, d, d))
      res = json.load(open(d + '/out.json'))
      names = base.get('stable') or base.get('passed') or base
      bad = missing(names, res)
      print('  tests:', 'ok' if not bad else bad[:5], t.stdout.strip().splitlines()[-1:])
      ok = ok and not bad
    return ok
  finally:
    shutil.rmtree(d)


def missing(names, res):
  passed = set(res.get('passed') or res.get('pass') or [])
  return [n for n in names if n not in passed]


def check(id, pid=None):
  o = os.path.join(SEEDED, id)
  pid = pid or json.load(open(o + '/meta.json'))['property']
  d, r = scratch()
  try:
    sh('git apply %s/patch.diff' % o, cwd=r)
    v = d + '/verif'
    sh('mkdir %s; cp -a %s/check.py %s/pyvc %s/rt %s/contracts %s/known_findings.json %s' % (
        v, ROOT, ROOT, ROOT, ROOT, ROOT, v))
    c = sh('./check.py %s --tier quick' % pid, cwd=v, env=dict(VERIF_REPO=r, VERIF_SEED='1'))
    print(id, pid, 'exit', c.returncode)
    print('   ' + '\n   '.join(x[:300] for x in c.stdout.strip().splitlines()[-12:]))
  finally:
    shutil.rmtree(d)


if __name__ == '__main__':
  ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
  for i in ids:
    {'confirm': confirm, 'check': check}[sys.argv[1]](i)
