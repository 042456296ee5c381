#!/usr/bin/env python3
"""Mutates the functions a property depends on and runs its contracts on the real code.

  mutate.py C05 [C06 ...] --jobs N --out DIR [--max N]

Development tool: lists mutants that the run on the real code does not notice.
No check uses it.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = {
    'C14': ['putting_dune.microscope_agent:*'],
    'C20': ['putting_dune.alignment:*'],
    'C03': ['putting_dune.microscope_utils:MicroscopeFieldOfView.get_atoms_in_bounds',
            'putting_dune.graphene:PristineSingleDopedGraphene.get_atoms_in_bounds'],
}
SKIP = ('ProtoModel.__init_subclass__',)


def functions(pid):
  f = os.path.join(ROOT, 'evidence', pid + '.json')
  out = list(EXTRA.get(pid, []))
  if os.path.exists(f) and pid not in ('C14',):
    c = json.load(open(f))['coverage']
    out += c['functions_verified_through_their_code'] + c['functions_under_contract']
  return sorted({x for x in out if x.startswith('putting_dune') and not x.endswith(SKIP)})


CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'],
       ast.Mod: ['+'], ast.Pow: ['*']}


def mutants(tree, quals):
  """-> (qualname, description, node, replacement source or node)."""
  out = []
  funcs = []

  def walk(node, path):
    for ch in ast.iter_child_nodes(node):
      if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
        p = path + [ch.name]
        if isinstance(ch, ast.FunctionDef) and ('*' in quals or '.'.join(p) in quals):
          funcs.append(('.'.join(p), ch))
        else:
          walk(ch, p)
      else:
        walk(ch, path)
  walk(tree, [])
  for q, fn in funcs:
    dull = set()             # axes and shapes: negative means the same
    for n in ast.walk(fn):
      if isinstance(n, ast.keyword) and n.arg == 'axis':
        dull.update(id(x) for x in ast.walk(n.value))
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'reshape':
        dull.update(id(x) for a in n.args for x in ast.walk(a))
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                    and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})
    skip = set()
    for n in ast.walk(fn):
      if isinstance(n, ast.Raise):
        skip.update(id(x) for x in ast.walk(n))
      if isinstance(n, ast.arg) and n.annotation:
        skip.update(id(x) for x in ast.walk(n.annotation))
      if isinstance(n, ast.AnnAssign):
        skip.update(id(x) for x in ast.walk(n.annotation))
    if fn.returns:
      skip.update(id(x) for x in ast.walk(fn.returns))
    for d in fn.decorator_list:
      skip.update(id(x) for x in ast.walk(d))
    body = fn.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
      skip.add(id(body[0])); skip.add(id(body[0].value))
    def add(node, new, what):
      out.append((q, what, node, new))
    for n in ast.walk(fn):
      if id(n) in skip or n is fn:
        continue
      if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
          add(n, '(%s %s %s)' % (ast.unparse(n.left), o, ast.unparse(n.comparators[0])), 'cmp ' + o)
      elif isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
          add(n, '(%s %s %s)' % (ast.unparse(n.left), o, ast.unparse(n.right)), 'bin ' + o)
        if isinstance(n.op, (ast.Sub, ast.Div)):
          op = '-' if isinstance(n.op, ast.Sub) else '/'
          add(n, '(%s %s %s)' % (ast.unparse(n.right), op, ast.unparse(n.left)), 'swap operands')
        add(n, '(%s)' % ast.unparse(n.left), 'left operand only')
      elif isinstance(n, ast.BoolOp):
        o = ' and ' if isinstance(n.op, ast.Or) else ' or '
        add(n, '(%s)' % o.join('(%s)' % ast.unparse(v) for v in n.values), 'bool' + o)
        for v in n.values:
          add(n, '(%s)' % ast.unparse(v), 'only one operand')
      elif isinstance(n, ast.UnaryOp):
        add(n, '(%s)' % ast.unparse(n.operand), 'drop unary')
      elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not Ellipsis:
        v = n.value
        if id(n) in dull:
          continue
        if isinstance(v, bool):
          add(n, str(not v), 'const')
        elif isinstance(v, (int, float)):
          add(n, repr(v + 1), 'const+1')
          if v:
            add(n, '(%r)' % (-v), 'const neg')
            if isinstance(v, float):
              add(n, repr(v * 1.1), 'const*1.1')
        elif v is None:
          pass
      elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
        r = random.Random(n.lineno * 1000 + n.col_offset)
        for o in r.sample([x for x in names if x not in (n.id, 'self')],
                          min(2, len([x for x in names if x not in (n.id, 'self')]))):
          add(n, o, 'name %s' % o)
      elif isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
          m = copy.deepcopy(n)
          m.args[0], m.args[1] = m.args[1], m.args[0]
          add(n, ast.unparse(m), 'swap args')
        for i, k in enumerate(n.keywords):
          m = copy.deepcopy(n)
          del m.keywords[i]
          add(n, ast.unparse(m), 'drop keyword %s' % k.arg)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'item', 'tolist'):
          add(n, ast.unparse(n.func.value), 'drop .%s()' % n.func.attr)
        elif len(n.args) == 1 and not n.keywords and not ast.unparse(n.func).endswith('Frame') and not isinstance(n.args[0], ast.Starred):
          add(n, '(%s)' % ast.unparse(n.args[0]), 'drop call')
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
          o = dict(min='max', max='min', any='all', all='any')[n.func.id]
          m = copy.deepcopy(n)
          m.func.id = o
          add(n, ast.unparse(m), o)
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
            'min', 'max', 'any', 'all', 'argmin', 'argmax', 'sin', 'cos', 'floor', 'ceil', 'append'):
          o = dict(min='max', max='min', any='all', all='any', argmin='argmax', argmax='argmin',
                   sin='cos', cos='sin', floor='ceil', ceil='floor', append='extend')[n.func.attr]
          m = copy.deepcopy(n)
          m.func.attr = o
          add(n, ast.unparse(m), o)
      elif isinstance(n, ast.IfExp):
        add(n, '(%s)' % ast.unparse(n.body), 'ifexp body')
        add(n, '(%s)' % ast.unparse(n.orelse), 'ifexp else')
      elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        o = dict(lower_left='upper_right', upper_right='lower_left', x='y', y='x', width='height',
                 height='width', atom_positions='atomic_numbers').get(n.attr)
        if o:
          m = copy.deepcopy(n)
          m.attr = o
          add(n, ast.unparse(m), 'attr ' + o)
      if isinstance(n, (ast.If, ast.While)):
        add(n.test, '(not (%s))' % ast.unparse(n.test), 'negate condition')
      if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.Return, ast.Raise)):
        add(n, 'pass', 'delete statement')
      if isinstance(n, ast.If) and n.orelse:
        pass
      if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
        m = copy.deepcopy(n)
        m.elts = m.elts[::-1]
        add(n, ast.unparse(m), 'swap pair')
  return out


def apply(src, node, new):
  lines = src.split('\n')
  enc = [l.encode() for l in lines]
  a, b = node.lineno - 1, node.end_lineno - 1
  head, tail = enc[a][:node.col_offset], enc[b][node.end_col_offset:]
  new = new.replace('\n', ' ') if not isinstance(node, ast.stmt) else new
  enc[a:b + 1] = [head + new.encode() + tail]
  return b'\n'.join(enc).decode()


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pids', nargs='+')
  ap.add_argument('--jobs', type=int, default=6)
  ap.add_argument('--out', default='/tmp/mut')
  ap.add_argument('--max', type=int, default=10**6)
  ap.add_argument('--budget', default='40')
  ap.add_argument('--only', default='')
  ap.add_argument('--minutes', type=float, default=60)
  args = ap.parse_args()
  os.makedirs(args.out, exist_ok=True)
  work = queue.Queue()
  stop = time.time() + args.minutes * 60
  for k in range(args.jobs):
    d = os.path.join(args.out, 'w%d' % k)
    if not os.path.exists(d):
      subprocess.run(['cp', '-a', '/repo', d], check=True)
    work.put(d)
  todo = []
  for pid in args.pids:
    per = {}
    for x in functions(pid):
      m, q = x.split(':')
      per.setdefault(m, set()).add(q)
    mods = [os.path.basename(f)[:-3] for f in sorted(os.listdir(os.path.join(ROOT, 'contracts')))
            if f.startswith(pid.lower() + '_')]
    one = []
    for m, qs in sorted(per.items()):
      f = m.replace('.', '/') + '.py'
      src = open('/repo/' + f).read()
      seen = set()
      for q, what, node, new in mutants(ast.parse(src), qs):
        if args.only and args.only not in q:
          continue
        text = apply(src, node, new)
        if text in seen:
          continue
        seen.add(text)
        try:
          if ast.dump(ast.parse(text)) == ast.dump(ast.parse(src)):
            continue
        except SyntaxError:
          continue
        one.append((pid, mods, f, q, what, node.lineno, src, text))
    random.Random(0).shuffle(one)
    todo += one[:args.max]
  print(len(todo), 'mutants', flush=True)

  def run(t):
    pid, mods, f, q, what, line, src, text = t
    d = work.get()
    try:
      open(os.path.join(d, f), 'w').write(text)
      out = os.path.join(d, 'gen.json')
      if time.time() > stop:
        return 'late', t, ''
      if os.path.exists(out):
        os.remove(out)
      p = subprocess.run(
          ['timeout', '-k', '2', '150', '/opt/venv/bin/python', os.path.join(ROOT, 'rt', 'run.py'),
           'gen'] + mods + ['--budget', args.budget, '--out', out, '--quick-fail'],
          cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
                             PYTHONDONTWRITEBYTECODE='1'),
          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      if not os.path.exists(out):
        return 'noresult', t, p.stdout[-300:]
      g = json.load(open(out))
      return ('killed' if g['failures'] else 'alive'), t, ''
    finally:
      open(os.path.join(d, f), 'w').write(src)
      work.put(d)

  count = {}
  alive = open(os.path.join(args.out, 'alive_%s.txt' % '_'.join(args.pids[:3])), 'a')
  with cf.ThreadPoolExecutor(args.jobs) as ex:
    for st, t, note in ex.map(run, todo):
      count[t[0], st] = count.get((t[0], st), 0) + 1
      if st not in ('killed', 'late'):
        pid, mods, f, q, what, line, src, text = t
        a, b = src.split('\n'), text.split('\n')
        k = next(i for i in range(min(len(a), len(b))) if a[i] != b[i])
        alive.write('%s %s %s:%s [%s] %s\n   - %s\n   + %s\n' % (
            pid, st, f, k + 1, what, q, a[k].strip(), b[k].strip()) + (note and '   ' + note + '\n'))
        alive.flush()
  print(count)


if __name__ == '__main__':
  main()
