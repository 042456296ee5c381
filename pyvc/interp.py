"""Symbolic interpreter for the Python subset used by putting_dune.

The program text interpreted is the text of the files under the repository
root, parsed on every run.  Nothing is dropped except type annotations,
docstrings, logging/print calls and the text of error messages.
"""
import ast
from fractions import Fraction
import os

import z3

from pyvc.core import *  # noqa
from pyvc.core import (SideEffect, Unsupported, PathEnd, Restart, PyExc, is_sym, Z, num, simp,
                       And, Or, Not, Implies, Ite, is_num, Explorer)
from pyvc.values import *  # noqa
from pyvc import values as V


class ReturnX(Exception):

  def __init__(self, v):
    self.v = v


class BreakX(Exception):
  pass


class ContinueX(Exception):
  pass


class NotMap(Exception):
  """The loop is not iteration-independent."""


UNDEF = object()


class Frame:

  def __init__(self, module, parent=None, cls=None, fn=None):
    self.module = module
    self.locals = {}
    self.parent = parent
    self.cls = cls
    self.fn = fn
    self.globals_decl = set()
    self.nonlocal_decl = set()
    self.self_ = None

  def child(self):
    f = Frame(self.module, self.parent, self.cls, self.fn)
    f.locals = dict(self.locals)
    f.self_ = self.self_
    f.globals_decl = self.globals_decl
    return f


class Module:

  def __init__(self, name, path):
    self.name = name
    self.path = path
    self.globals = {}
    self.loaded = False


AST_CACHE = {}


def parse_file(path):
  if path not in AST_CACHE:
    with open(path) as f:
      AST_CACHE[path] = ast.parse(f.read(), path)
  return AST_CACHE[path]


class Interp:

  def __init__(self, ctx, repo_root, lib, extra_modules=None):
    self.ctx = ctx
    self.root = repo_root
    self.lib = lib          # name -> LibModule factory
    self.extra = extra_modules or {}
    self.uses = {}          # qualname -> contract (modular calls)
    self.modules = {}
    self.builtins = lib.make_builtins(self)
    self.libmods = {}
    self.depth = 0
    self.trackers = []
    self.roots = []
    self.protos = None
    self.lines = set()

  def reset(self):
    self.modules = {}
    self.libmods = {}
    self.depth = 0
    self.trackers = []
    self.builtins = self.lib.make_builtins(self)

  # -- allocation / write tracking -------------------------------------------
  def new_obj(self, cls):
    return Obj(cls, next(self.ctx.alloc))

  def new_list(self, items=(), kind='list'):
    return PList(items, kind, oid=next(self.ctx.alloc))

  def oid(self, x):
    if getattr(x, 'oid', None) is None:
      x.oid = next(self.ctx.alloc)
    return x.oid

  def note_write(self, x, field, new=None):
    oid = x.oid if getattr(x, 'oid', None) is not None else None
    if self.ctx.pure and (oid is None or oid < self.ctx.pure_mark):
      raise SideEffect('side effect inside a lazily evaluated element')
    for t in self.trackers:
      t.write(x, oid, field)
    self.heap_write(x, field)

  def heap_write(self, x, field):
    # (What a lazy evaluation makes is its own.)
    if not self.ctx.pure:
      self.ctx.heap_write(x, field)

  def new_dict(self, d=()):
    r = PDict(d)
    r.oid = next(self.ctx.alloc)
    return r

  def new_set(self, d=()):
    r = PSet(d)
    r.oid = next(self.ctx.alloc)
    return r

  def note_read(self, x, field):
    for t in self.trackers:
      t.read(x, getattr(x, 'oid', None), field)

  # -- modules ---------------------------------------------------------------
  def get_module(self, name):
    if name in self.modules:
      return self.modules[name]
    if name in self.extra:
      path = self.extra[name]
    elif name == 'putting_dune' or name.startswith('putting_dune.'):
      rel = name.replace('.', '/')
      path = os.path.join(self.root, rel + '.py')
      if not os.path.exists(path):
        path = os.path.join(self.root, rel, '__init__.py')
      if name == 'putting_dune.putting_dune_pb2':
        return self.lib_module('putting_dune.putting_dune_pb2')
      if not os.path.exists(path):
        return None
    else:
      return self.lib_module(name)
    m = Module(name, path)
    self.modules[name] = m
    m.globals['__name__'] = name
    self.load(m)
    return m

  def lib_module(self, name):
    if name not in self.libmods:
      self.libmods[name] = self.lib.make_module(self, name)
    return self.libmods[name]

  def load(self, m):
    tree = parse_file(m.path)
    fr = Frame(m)
    fr.locals = m.globals
    fr.is_module = True
    for st in tree.body:
      try:
        self.exec_stmt(st, fr)
      except (Unsupported, PyExc, RecursionError) as e:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
          m.globals[st.name] = Poison(str(e))
        elif isinstance(st, ast.Assign):
          for t in st.targets:
            for n in ast.walk(t):
              if isinstance(n, ast.Name):
                m.globals[n.id] = Poison(str(e))
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
          m.globals[st.target.id] = Poison(str(e))
    m.loaded = True

  # -- statements --------------------------------------------------------------
  def exec_block(self, body, fr):
    for st in body:
      self.exec_stmt(st, fr)

  def exec_stmt(self, st, fr):
    m = getattr(self, 's_' + type(st).__name__, None)
    if m is None:
      raise Unsupported('statement %s' % type(st).__name__)
    m(st, fr)

  def s_Expr(self, st, fr):
    if isinstance(st.value, ast.Constant):
      return
    if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
      return self.do_yield(st.value, fr)
    self.eval(st.value, fr)

  def do_yield(self, node, fr):
    ys = fr.locals.get('@yields')
    if ys is None:
      raise Unsupported('yield')
    if isinstance(node, ast.YieldFrom):
      self.call(self.getattr(ys, 'extend'), [self.eval(node.value, fr)], {})
    else:
      v = self.eval(node.value, fr) if node.value else None
      self.call(self.getattr(ys, 'append'), [v], {})

  def s_Match(self, st, fr):
    v = self.eval(st.subject, fr)
    for c in st.cases:
      if not self.matches(c.pattern, v, fr):
        continue
      if c.guard is not None and not self.truth(self.eval(c.guard, fr)):
        continue
      self.exec_block(c.body, fr)
      return

  def matches(self, p, v, fr):
    if isinstance(p, ast.MatchValue):
      return self.truth(self.compare('Eq', v, self.eval(p.value, fr)))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchOr):
      return any(self.matches(q, v, fr) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None and not self.matches(p.pattern, v, fr):
        return False
      if p.name:
        self.bind(p.name, v, fr)
      return True
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
      return self.truth(self.call(self.builtins['isinstance'], [v, self.eval(p.cls, fr)], {}))
    raise Unsupported('pattern %s' % type(p).__name__)

  def s_Pass(self, st, fr):
    pass

  def s_Import(self, st, fr):
    for a in st.names:
      if a.asname:
        self.bind(a.asname, self.import_module(a.name), fr)
      else:
        top = a.name.split('.')[0]
        self.bind(top, self.import_module(top), fr)

  def import_module(self, name):
    m = self.get_module(name)
    if m is None:
      return LibUnknown(name)
    return m

  def s_ImportFrom(self, st, fr):
    for a in st.names:
      if a.name == '*':
        m = self.get_module(st.module)
        src = m.globals if isinstance(m, Module) else m.attrs
        for k, v in list(src.items()):
          if not k.startswith('_'):
            self.bind(k, v, fr)
        continue
      full = '%s.%s' % (st.module, a.name)
      v = None
      if st.module == 'putting_dune' or st.module.startswith('putting_dune.'):
        v = self.get_module(full)
        if v is None:
          v = self.getattr(self.get_module(st.module), a.name)
      else:
        m = self.get_module(st.module)
        if isinstance(m, Module):
          v = m.globals.get(a.name)
          if v is None:
            v = self.get_module(full)
          self.bind(a.asname or a.name, v, fr)
          continue
        if isinstance(m, LibModule) and a.name in m.attrs:
          v = m.attrs[a.name]
        else:
          v = self.lib_module(full)
      self.bind(a.asname or a.name, v, fr)

  def bind(self, name, v, fr):
    if name in fr.globals_decl:
      if self.trackers:
        raise Unsupported('module variable assigned in a loop')
      fr.module.globals[name] = v
      return
    if name in fr.nonlocal_decl:
      p = fr.parent
      while p is not None:
        if name in p.locals:
          p.locals[name] = v
          return
        p = p.parent
      raise Unsupported('nonlocal')
    for t in self.trackers:
      t.local_write(fr, name)
    fr.locals[name] = v

  def s_FunctionDef(self, st, fr):
    f = FunctionVal(st, fr.module, fr, self.qual(fr, st.name), fr.cls)
    self.set_defaults(f, fr)
    v = f
    for d in reversed(st.decorator_list):
      v = self.decorate(d, v, fr)
    if v is not None:
      fr.locals[st.name] = v

  def s_Global(self, st, fr):
    fr.globals_decl |= set(st.names)

  def s_Nonlocal(self, st, fr):
    fr.nonlocal_decl |= set(st.names)

  def qual(self, fr, name):
    base = fr.module.name
    if fr.cls is not None:
      return '%s:%s.%s' % (base, fr.cls.name, name)
    return '%s:%s' % (base, name)

  def set_defaults(self, f, fr):
    a = f.node.args
    f.defaults = [self.lazy_default(d, fr) for d in a.defaults]
    f.kwdefaults = [None if d is None else self.lazy_default(d, fr)
                    for d in a.kw_defaults]

  def lazy_default(self, d, fr):
    try:
      return self.eval(d, fr)
    except (Unsupported, PyExc) as e:
      return Poison('default value: %s' % e)

  def decorate(self, d, v, fr):
    name = ast.unparse(d.func if isinstance(d, ast.Call) else d)
    last = name.split('.')[-1]
    if last == 'overload':
      return None if v.name not in fr.locals else fr.locals[v.name]
    if last in ('abstractmethod',):
      if isinstance(v, FunctionVal):
        v.is_abstract = True
      elif isinstance(v, Wrapped):
        v.fn.is_abstract = True
      return v
    if last in ('property', 'cached_property', 'classmethod', 'staticmethod'):
      return Wrapped(last, v)
    if last == 'setter':
      w = fr.locals[v.name]
      w.setter = v
      return w
    if name in ('jax.jit', 'typing.final', 'functools.wraps', 'final',
                'typing.no_type_check', 'tf.function', 'nn.compact'):
      return v
    if name == 'functools.partial' and isinstance(d, ast.Call) and d.args and \
        ast.unparse(d.args[0]) == 'jax.jit':
      return v
    dec = self.eval(d, fr)
    return self.call(dec, [v], {})

  def s_ClassDef(self, st, fr):
    bases = []
    for b in st.bases:
      node = b
      while isinstance(node, ast.Subscript):
        node = node.value
      try:
        bv = self.eval(node, fr)
      except Unsupported:
        bv = None
      if isinstance(bv, ClassVal):
        bases.append(bv)
    cls = ClassVal(st.name, bases, {}, fr.module)
    cfr = Frame(fr.module, fr, cls)
    cfr.locals = cls.attrs
    cls.attrs['__qualname__'] = st.name
    cls.ann = []
    # class scope is not visible from methods: methods get parent=fr.
    for b in st.body:
      if isinstance(b, ast.FunctionDef):
        f = FunctionVal(b, fr.module, fr, '%s:%s.%s' % (
            fr.module.name, st.name, b.name), cls)
        self.set_defaults(f, cfr)
        v = f
        for d in reversed(b.decorator_list):
          v = self.decorate(d, v, cfr)
        if v is not None:
          cls.attrs[b.name] = v
      elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
        ann = ast.unparse(b.annotation)
        dflt = UNDEF
        if b.value is not None:
          dflt = self.eval(b.value, cfr)
          cls.attrs[b.target.id] = dflt
        if not ann.startswith(('ClassVar', 'typing.ClassVar')):
          cls.ann.append((b.target.id, dflt, ann))
      elif isinstance(b, (ast.Assign, ast.Expr, ast.Pass)):
        self.exec_stmt(b, cfr)
      else:
        raise Unsupported('class body %s' % type(b).__name__)
    if cls.is_enum:
      k = 0
      for n, v in list(cls.attrs.items()):
        if n.startswith('_') or isinstance(v, (FunctionVal, Wrapped)):
          continue
        k += 1
        if isinstance(v, V.LibUnknown) or v is self.lib.AUTO:
          v = k
        o = self.new_obj(cls)
        o.fields = {'name': n, 'value': v}
        cls.attrs[n] = o
    v = cls
    for d in reversed(st.decorator_list):
      name = ast.unparse(d.func if isinstance(d, ast.Call) else d)
      if name.split('.')[-1] == 'dataclass':
        kw = {}
        if isinstance(d, ast.Call):
          kw = {k.arg: self.eval(k.value, fr) for k in d.keywords}
        self.make_dataclass(cls, kw)
      elif name.split('.')[-1] == 'unique':
        pass
      else:
        v = self.call(self.eval(d, fr), [v], {})
    # NamedTuple-style and Protocol classes: nothing special.
    if any(b in ('NamedTuple', 'typing.NamedTuple')
           for b in [ast.unparse(x) for x in st.bases]):
      self.make_dataclass(cls, {'frozen': True})
      cls.dc['tuple'] = True
    if any(b in ('TypedDict', 'typing.TypedDict') for b in [ast.unparse(x) for x in st.bases]):
      make = self.builtins['dict'].attrs['__construct__']
      cls.attrs['__construct__'] = lambda I_, c_, a, k: make(I_, c_, a, k)
    # __init_subclass__ hooks run with the class object.
    for base in cls.mro[1:]:
      if '__init_subclass__' in base.attrs:
        h = base.attrs['__init_subclass__']
        h = h.fn if isinstance(h, Wrapped) else h
        try:
          self.call(h, [cls], {})
        except PyExc:
          raise
        break
    self.bind(st.name, v, fr)

  def make_dataclass(self, cls, kw):
    fields = []
    for base in reversed(cls.mro[1:]):
      if base.dc:
        for f in base.dc['fields']:
          fields = [g for g in fields if g[0] != f[0]] + [f]
    for n, d, ann in cls.ann:
      fields = [g if g[0] != n else (n, d, ann) for g in fields]
      if not any(g[0] == n for g in fields):
        fields.append((n, d, ann))
    cls.dc = {'fields': fields, 'frozen': kw.get('frozen', False),
              'eq': kw.get('eq', True), 'kw_only': kw.get('kw_only', False)}

  def s_Return(self, st, fr):
    raise ReturnX(self.eval(st.value, fr) if st.value is not None else None)

  def s_Delete(self, st, fr):
    for t in st.targets:
      if isinstance(t, ast.Name):
        fr.locals.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, fr)
        k = self.eval(t.slice, fr)
        if isinstance(o, dict):
          if k not in o:
            raise self.exc('KeyError')
          self.note_write(o, 'items')
          del o[k]
        elif isinstance(o, PList):
          items = o.items
          self.note_write(o, 'items')
          del items[k]
          o.set_items(items)
        else:
          raise Unsupported('del')
      else:
        raise Unsupported('del')

  def s_Assign(self, st, fr):
    v = self.eval(st.value, fr)
    for t in st.targets:
      self.assign(t, v, fr)

  def s_AnnAssign(self, st, fr):
    if st.value is not None:
      self.assign(st.target, self.eval(st.value, fr), fr)

  def s_AugAssign(self, st, fr):
    op = type(st.op).__name__
    t = st.target
    if isinstance(t, ast.Name):
      old = self.eval(ast.Name(id=t.id, ctx=ast.Load(), lineno=st.lineno), fr)
      self.assign(t, self.inplace(op, old, self.eval(st.value, fr)), fr)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, fr)
      old = self.getattr(o, t.attr)
      self.setattr(o, t.attr, self.inplace(op, old, self.eval(st.value, fr)))
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, fr)
      k = self.eval(t.slice, fr)
      old = self.getitem(o, k)
      self.setitem(o, k, self.inplace(op, old, self.eval(st.value, fr)))
    else:
      raise Unsupported('augassign')

  def inplace(self, op, old, rhs):
    if isinstance(old, NDArr) and not old.immutable:
      new = self.binop(op, old, rhs)
      if not isinstance(new, NDArr):
        raise Unsupported('in-place result')
      return self.lib.np_inplace(self, old, new)
    if isinstance(old, PList) and op == 'Add':
      self.note_write(old, 'items')
      self.lib.list_extend(self, old, rhs)
      return old
    if isinstance(old, set) and op == 'BitOr':
      self.note_write(old, 'items')
      old |= rhs
      return old
    return self.binop(op, old, rhs)

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      self.bind(t.id, v, fr)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
      self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vals = self.unpack(v, t.elts)
      for e, x in zip(t.elts, vals):
        self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
    else:
      raise Unsupported('assign target')

  def unpack(self, v, elts):
    n = len(elts)
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    ln = self.len_(v)
    if not star:
      if not self.ctx.branch(self.cmp_eq(ln, n)):
        raise self.exc('ValueError')
      if isinstance(v, NDArr):
        return [self.getitem(v, i) for i in range(n)]
      if isinstance(v, PList) and not v.concrete:
        return [self.getitem(v, i) for i in range(n)]
      return list(self.iterate(v))
    items = list(self.iterate(v))
    i = star[0]
    after = n - i - 1
    if len(items) < n - 1:
      raise self.exc('ValueError')
    return items[:i] + [self.new_list(items[i:len(items) - after])] + \
        items[len(items) - after:]

  def s_If(self, st, fr):
    if self.ctx.branch(self.truth(self.eval(st.test, fr))):
      self.exec_block(st.body, fr)
    else:
      self.exec_block(st.orelse, fr)

  def s_Assert(self, st, fr):
    if not self.ctx.branch(self.truth(self.eval(st.test, fr))):
      raise self.exc('AssertionError')

  def s_Raise(self, st, fr):
    if st.exc is None:
      raise getattr(fr, 'handling', None) or Unsupported('re-raise')
    v = self.eval(st.exc, fr)
    raise self.to_exc(v)

  def to_exc(self, v):
    if isinstance(v, ClassVal):
      return PyExc(v, (), None)
    if isinstance(v, Obj):
      return PyExc(v.cls, v.fields.get('args', ()), v)
    raise Unsupported('raise %r' % (v,))

  def exc(self, name, *args):
    if os.environ.get('PYVC_EXC') == name:
      import traceback
      traceback.print_stack(limit=12)
    return PyExc(self.builtins[name], args)

  def s_Try(self, st, fr):
    try:
      try:
        self.exec_block(st.body, fr)
      except PyExc as e:
        for h in st.handlers:
          if h.type is None:
            ok = True
          else:
            t = self.eval(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            ok = any(isinstance(c, ClassVal) and e.cls.subclass_of(c) for c in ts)
          if ok:
            if h.name:
              o = e.obj
              if o is None:
                o = self.new_obj(e.cls)
                o.fields['args'] = tuple(e.args_)
              fr.locals[h.name] = o
            saved = getattr(fr, 'handling', None)
            fr.handling = e
            self.exec_block(h.body, fr)
            fr.handling = saved
            break
        else:
          raise
      else:
        self.exec_block(st.orelse, fr)
    finally:
      import sys
      et = sys.exc_info()[0]
      if et is None or issubclass(et, (PyExc, ReturnX, BreakX, ContinueX)):
        self.exec_block(st.finalbody, fr)

  def s_With(self, st, fr):
    exits = []
    for item in st.items:
      c = self.eval(item.context_expr, fr)
      v = self.call(self.getattr(c, '__enter__'), [], {})
      exits.append(c)
      if item.optional_vars is not None:
        self.assign(item.optional_vars, v, fr)
    try:
      self.exec_block(st.body, fr)
    except (PyExc, ReturnX, BreakX, ContinueX):
      for c in reversed(exits):
        self.call(self.getattr(c, '__exit__'), [None, None, None], {})
      raise
    for c in reversed(exits):
      self.call(self.getattr(c, '__exit__'), [None, None, None], {})

  def s_Break(self, st, fr):
    raise BreakX()

  def s_Continue(self, st, fr):
    raise ContinueX()

  # -- loops -------------------------------------------------------------------
  MAX_UNROLL = 300

  def s_For(self, st, fr):
    it = self.eval(st.iter, fr)
    n = self.iter_len(it)
    items = None
    if is_sym(n):
      n = self.ctx.pin(n)
      if not is_sym(n):
        at = self.iter_at(it)
        items = [at(i) for i in range(n)]
    if not is_sym(n):
      broke = False
      for v in self.iterate(it) if items is None else items:
        self.assign(st.target, v, fr)
        try:
          self.exec_block(st.body, fr)
        except BreakX:
          broke = True
          break
        except ContinueX:
          continue
      if not broke:
        self.exec_block(st.orelse, fr)
      return
    at = self.iter_at(it)
    from pyvc import loops
    loops.symbolic_for(self, st, fr, n, at)

  def s_While(self, st, fr):
    from pyvc import loops
    count = 0
    while True:
      c = self.truth(self.eval(st.test, fr))
      c = simp(c) if is_sym(c) else c
      if is_sym(c) and count == 0:
        loops.symbolic_while(self, st, fr)
        return
      if not self.ctx.branch(c):
        break
      count += 1
      if count > self.MAX_UNROLL:
        raise Unsupported('while loop unrolled too far')
      try:
        self.exec_block(st.body, fr)
      except BreakX:
        return
      except ContinueX:
        continue
    self.exec_block(st.orelse, fr)

  # -- expressions -------------------------------------------------------------
  def eval(self, e, fr):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported('expression %s' % type(e).__name__)
    return m(e, fr)

  def e_Constant(self, e, fr):
    v = e.value
    if isinstance(v, float):
      return Fraction(repr(v))
    if isinstance(v, complex):
      raise Unsupported('complex')
    return v

  def e_Name(self, e, fr):
    f = fr
    n = e.id
    first = True
    while f is not None:
      if n in f.locals:
        v = f.locals[n]
        for t in self.trackers:
          t.local_read(f, n)
        if isinstance(v, Poison):
          raise Unsupported('%s: %s' % (n, v.why))
        return v
      f = f.parent
    g = fr.module.globals
    if n in g:
      v = g[n]
      if isinstance(v, Poison):
        raise Unsupported('%s: %s' % (n, v.why))
      return v
    if n in self.builtins:
      return self.builtins[n]
    raise self.exc('NameError', n)

  def e_Tuple(self, e, fr):
    return self.seq_display(e.elts, fr, tuple)

  def e_List(self, e, fr):
    return self.new_list(self.seq_display(e.elts, fr, list))

  def seq_display(self, elts, fr, kind):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.eval(x.value, fr)))
      else:
        out.append(self.eval(x, fr))
    return kind(out)

  def e_Set(self, e, fr):
    return self.new_set(self.seq_display(e.elts, fr, list))

  def e_Dict(self, e, fr):
    d = self.new_dict()
    for k, v in zip(e.keys, e.values):
      if k is None:
        d.update(self.eval(v, fr))
      else:
        d[self.hashable(self.eval(k, fr))] = self.eval(v, fr)
    return d

  def hashable(self, k):
    if is_sym(k) or isinstance(k, SymStr):
      raise Unsupported('symbolic dictionary key')
    return k

  def e_Attribute(self, e, fr):
    return self.getattr(self.eval(e.value, fr), e.attr)

  def e_Subscript(self, e, fr):
    o = self.eval(e.value, fr)
    if isinstance(o, (ClassVal, LibFn, LibUnknown)) and not (
        isinstance(o, ClassVal) and o.is_enum):
      return o  # generic alias
    return self.getitem(o, self.eval(e.slice, fr))

  def e_Slice(self, e, fr):
    ev = lambda x: None if x is None else self.eval(x, fr)
    return slice(ev(e.lower), ev(e.upper), ev(e.step))

  def e_Starred(self, e, fr):
    raise Unsupported('starred')

  def e_JoinedStr(self, e, fr):
    parts = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        parts.append(v.value)
      else:
        try:
          x = self.eval(v.value, fr)
        except Unsupported:
          x = SymStr()
        if v.format_spec is not None or not isinstance(x, (str, int)) or \
            isinstance(x, bool) or v.conversion != -1:
          if v.format_spec is not None and isinstance(x, (int, Fraction)) and \
              not isinstance(x, bool):
            spec = self.eval(v.format_spec, fr)
            if isinstance(spec, str):
              parts.append(format(x if isinstance(x, int) else float(x), spec))
              continue
          return SymStr()
        parts.append(str(x))
    return ''.join(parts)

  def e_BinOp(self, e, fr):
    return self.binop(type(e.op).__name__, self.eval(e.left, fr),
                      self.eval(e.right, fr))

  def e_UnaryOp(self, e, fr):
    v = self.eval(e.operand, fr)
    op = type(e.op).__name__
    if op == 'Not':
      return Not(self.truth(v))
    if isinstance(v, NDArr):
      return self.lib.np_unary(self, op, v)
    if isinstance(v, Host):
      return v.unary_(self, op)
    if op == 'USub':
      return -num(v)
    if op == 'UAdd':
      return num(v)
    if op == 'Invert':
      if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
        return Not(v)   # numpy bool_
      if isinstance(v, int):
        return ~v
    raise Unsupported('unary %s' % op)

  def e_BoolOp(self, e, fr):
    is_and = isinstance(e.op, ast.And)
    # Pure scalar conditions are combined without forking when the right
    # operand cannot raise or have effects (names, constants, comparisons).
    v = None
    for i, x in enumerate(e.values):
      v = self.eval(x, fr)
      if i == len(e.values) - 1:
        return v
      t = self.truth(v)
      if is_sym(t):
        t = simp(t)
      if is_sym(t) and (is_sym(v) and z3.is_bool(v)):
        rest = e.values[i + 1:]
        if all(self.simple(r) for r in rest):
          vals = [self.truth(self.eval(r, fr)) for r in rest]
          return And(v, *vals) if is_and else Or(v, *vals)
      b = self.ctx.branch(t)
      if is_and and not b:
        return v if not is_sym(v) else False
      if not is_and and b:
        return v if not is_sym(v) else (True if z3.is_bool(v) else v)
    return v

  def simple(self, e):
    for n in ast.walk(e):
      if not isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.Attribute,
                            ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop,
                            ast.cmpop, ast.expr_context, ast.BoolOp, ast.boolop)):
        return False
      if isinstance(n, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
        return False
    return True

  def e_Compare(self, e, fr):
    left = self.eval(e.left, fr)
    res = True
    for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
      right = self.eval(r, fr)
      c = self.compare(type(op).__name__, left, right)
      if i == 0 and len(e.ops) == 1:
        return c
      res = And(res, self.truth(c))
      if res is False:
        return False
      left = right
    return res

  def e_IfExp(self, e, fr):
    if self.ctx.branch(self.truth(self.eval(e.test, fr))):
      return self.eval(e.body, fr)
    return self.eval(e.orelse, fr)

  def e_Lambda(self, e, fr):
    f = FunctionVal(e, fr.module, fr, self.qual(fr, '<lambda>'), None)
    self.set_defaults(f, fr)
    return f

  def e_NamedExpr(self, e, fr):
    v = self.eval(e.value, fr)
    self.assign(e.target, v, fr)
    return v

  def e_ListComp(self, e, fr):
    return self.comp(e, fr, 'list')

  def e_GeneratorExp(self, e, fr):
    return self.comp(e, fr, 'gen')

  def e_SetComp(self, e, fr):
    return self.new_set(self.comp(e, fr, 'list').items)

  def e_DictComp(self, e, fr):
    out = self.new_dict()
    f2 = Frame(fr.module, fr, fr.cls, fr.fn)
    f2.self_ = fr.self_

    def rec(gens):
      if not gens:
        out[self.hashable(self.eval(e.key, f2))] = self.eval(e.value, f2)
        return
      g = gens[0]
      for v in self.iterate(self.eval(g.iter, f2)):
        self.assign(g.target, v, f2)
        if all(self.ctx.branch(self.truth(self.eval(c, f2))) for c in g.ifs):
          rec(gens[1:])
    rec(e.generators)
    return out

  def filtered(self, e, fr, g, n, at, snap):
    """[elt for target in it if conds] over a symbolic length."""
    from pyvc import npmodel as N
    heap = self.ctx.heap

    def frame(i):
      f2 = Frame(fr.module, snap, fr.cls, fr.fn)
      f2.self_ = fr.self_
      self.assign(g.target, at(i), f2)
      return f2

    def keep(i):
      with self.purely(heap):
        f2 = frame(i)
        r = True
        for c in g.ifs:
          r = And(r, self.truth(self.eval(c, f2)))
        return r

    def elem(i):
      with self.purely(heap):
        return self.eval(e.elt, frame(i))

    def probe(i):
      if self.ctx.branch(keep(i)):
        elem(i)
    self.probe_elem(n, probe)
    sel = N.select(self, n, keep)
    r = PList.sym(sel.m, lambda j: elem(sel.S(j)), 'list')
    r.oid = next(self.ctx.alloc)
    return r

  def comp(self, e, fr, kind):
    gens = e.generators
    if len(gens) == 1:
      g = gens[0]
      it = self.eval(g.iter, fr)
      n = self.iter_len(it)
      n = simp(n) if is_sym(n) else n
      if is_sym(n):
        at = self.iter_at(it)
        snap = fr.child()
        if g.ifs:
          return self.filtered(e, fr, g, n, at, snap)

        heap = self.ctx.heap

        def elem(i):
          f2 = Frame(fr.module, snap, fr.cls, fr.fn)
          f2.self_ = fr.self_
          with self.purely(heap):
            self.assign(g.target, at(i), f2)
            return self.eval(e.elt, f2)
        self.probe_elem(n, elem)
        r = PList.sym(n, elem, 'list')
        r.oid = next(self.ctx.alloc)
        return r
    out = []
    f2 = Frame(fr.module, fr, fr.cls, fr.fn)
    f2.self_ = fr.self_

    def rec(k):
      if k == len(gens):
        out.append(self.eval(e.elt, f2))
        return
      g = gens[k]
      for v in self.iterate(self.eval(g.iter, f2 if k else fr)):
        self.assign(g.target, v, f2)
        if all(self.ctx.branch(self.truth(self.eval(c, f2))) for c in g.ifs):
          rec(k + 1)
    rec(0)
    return self.new_list(out)

  def purely(self, node=None):
    """Evaluation without side effects, with the heap as it was at a node."""
    I = self

    class P:

      def __enter__(s):
        s.mark = I.ctx.pure_mark
        if not I.ctx.pure:
          I.ctx.pure_mark = next(I.ctx.alloc)
        I.ctx.pure += 1
        s.back = I.ctx.heap
        if node is not None:
          I.ctx.goto_heap(node)

      def __exit__(s, *a):
        I.ctx.goto_heap(s.back)
        I.ctx.pure -= 1
        I.ctx.pure_mark = s.mark
    return P()

  def probe_elem(self, n, elem):
    """Evaluate at an arbitrary index once, for exceptions and obligations."""
    ctx = self.ctx
    if ctx.pick(['continue', 'probe']) == 'probe':
      k = ctx.int('probe')
      ctx.add(z3.And(k >= 0, k < Z(n)))
      ctx.register_index(k)
      if ctx._check() == z3.unsat:
        raise PathEnd()
      elem(k)
      raise PathEnd()

  # -- calls -------------------------------------------------------------------
  def e_Call(self, e, fr):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      return self.lib.Super(fr.cls if fr.cls else fr.fn.cls, fr.self_)
    text = ast.unparse(e.func)
    if text.split('.')[0] == 'logging' or text == 'print':
      return None
    fn = self.eval(e.func, fr)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        args.extend(self.iterate(self.eval(a.value, fr)))
      else:
        args.append(self.eval(a, fr))
    kwargs = {}
    for k in e.keywords:
      if k.arg is None:
        kwargs.update(self.eval(k.value, fr))
      else:
        kwargs[k.arg] = self.eval(k.value, fr)
    return self.call(fn, args, kwargs)

  def call(self, fn, args, kwargs):
    if isinstance(fn, FunctionVal):
      return self.call_function(fn, args, kwargs)
    if isinstance(fn, Bound):
      return self.call(fn.fn, [fn.self_] + list(args), kwargs)
    if isinstance(fn, LibFn):
      return fn.fn(*args, **kwargs)
    if isinstance(fn, ClassVal):
      return self.instantiate(fn, args, kwargs)
    if isinstance(fn, Partial):
      kw = dict(fn.kwargs)
      kw.update(kwargs)
      return self.call(fn.fn, list(fn.args) + list(args), kw)
    if isinstance(fn, Host) and hasattr(fn, 'call_'):
      return fn.call_(self, args, kwargs)
    if isinstance(fn, Obj):
      m, c = fn.cls.lookup('__call__')
      if m is not None:
        return self.call_function(m, [fn] + list(args), kwargs)
    if isinstance(fn, Wrapped) and fn.kind == 'staticmethod':
      return self.call(fn.fn, args, kwargs)
    raise Unsupported('call of %r' % (fn,))

  def bind_args(self, f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    loc = {}
    kwargs = dict(kwargs)
    if len(args) > len(names) and a.vararg is None:
      raise self.exc('TypeError')
    for n, v in zip(names, args):
      loc[n] = v
    if a.vararg is not None:
      loc[a.vararg.arg] = tuple(args[len(names):])
    nd = len(names) - len(f.defaults)
    for i, n in enumerate(names):
      if n in loc:
        if n in kwargs:
          raise self.exc('TypeError')
        continue
      if n in kwargs:
        loc[n] = kwargs.pop(n)
      elif i >= nd:
        loc[n] = f.defaults[i - nd]
      else:
        raise self.exc('TypeError')
    for x, d in zip(a.kwonlyargs, f.kwdefaults):
      n = x.arg
      if n in kwargs:
        loc[n] = kwargs.pop(n)
      elif d is not None or f.node.args.kw_defaults[
          [y.arg for y in a.kwonlyargs].index(n)] is not None:
        loc[n] = d
      else:
        raise self.exc('TypeError')
    if kwargs:
      if a.kwarg is None:
        raise self.exc('TypeError')
      loc[a.kwarg.arg] = self.new_dict(kwargs)
    elif a.kwarg is not None:
      loc[a.kwarg.arg] = self.new_dict()
    return loc

  def call_function(self, f, args, kwargs):
    if f.qualname in self.uses and not self.ctx_skip_contract(f):
      return self.uses[f.qualname].apply(self, f, args, kwargs)
    if self.depth > 60:
      raise Unsupported('call depth')
    loc = self.bind_args(f, args, kwargs)
    fr = Frame(f.module, f.frame if not getattr(f.frame, 'is_module', False)
               else None, f.cls, f)
    fr.locals = loc
    if f.cls is not None and args:
      fr.self_ = args[0]
    if f.module.name.startswith('putting_dune'):
      self.ctx.inlined.add(f.qualname)
    if isinstance(f.node, ast.Lambda):
      return self.eval(f.node.body, fr)
    isgen = getattr(f.node, '_isgen', None)
    if isgen is None:
      isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                  for n in self.own_nodes(f.node))
      f.node._isgen = isgen
    if isgen:
      fr.locals['@yields'] = self.new_list([])
    self.depth += 1
    try:
      self.exec_block(f.node.body, fr)
    except ReturnX as r:
      if not isgen:
        return r.v
    finally:
      self.depth -= 1
    if isgen:
      return fr.locals['@yields']
    return None

  def own_nodes(self, node):
    todo = list(node.body)
    while todo:
      n = todo.pop()
      yield n
      if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        continue
      todo.extend(ast.iter_child_nodes(n))

  def ctx_skip_contract(self, f):
    return getattr(self, 'under_proof', None) == f.qualname

  def instantiate(self, cls, args, kwargs):
    if cls.host is not None and not cls.module:
      o = self.new_obj(cls)
      o.fields['args'] = tuple(args)
      return o
    new = cls.attrs.get('__construct__')
    if new is None:
      new, _ = cls.lookup('__construct__')
    if new is not None:
      return new(self, cls, args, kwargs)
    if cls.is_enum:
      for v in cls.attrs.values():
        if isinstance(v, Obj) and v.cls is cls and self.truth(
            self.cmp_eq(v.fields['value'], args[0])) is True:
          return v
      raise self.exc('ValueError')
    for c in cls.mro:
      for n, v in c.attrs.items():
        fn = v.fn if isinstance(v, Wrapped) else v
        if isinstance(fn, FunctionVal) and fn.is_abstract:
          impl, _ = cls.lookup(n)
          impl = impl.fn if isinstance(impl, Wrapped) else impl
          if isinstance(impl, FunctionVal) and impl.is_abstract:
            raise self.exc('TypeError')
    o = self.new_obj(cls)
    init, owner = cls.lookup('__init__')
    if init is not None and not (cls.dc and owner is not cls and
                                 not self.dc_owner(cls, owner)):
      self.call_function(init, [o] + list(args), kwargs)
      return o
    if cls.dc is not None:
      self.dc_init(o, cls, args, kwargs)
      return o
    if cls.host is None and any(c.host for c in cls.mro):
      o.fields['args'] = tuple(args)
      return o
    if args or kwargs:
      raise self.exc('TypeError')
    return o

  def dc_owner(self, cls, owner):
    """True when an explicit __init__ overrides the generated one."""
    for c in cls.mro:
      if c is owner:
        return True
      if c.dc is not None:
        return False
    return False

  def dc_init(self, o, cls, args, kwargs):
    fields = cls.dc['fields']
    kwargs = dict(kwargs)
    init_fields = []
    for n, d, ann in fields:
      if isinstance(d, self.lib.DCField) and not d.init:
        continue
      init_fields.append((n, d))
    if len(args) > len(init_fields):
      raise self.exc('TypeError')
    vals = {}
    for (n, d), v in zip(init_fields, args):
      vals[n] = v
    for n, d in init_fields:
      if n in vals:
        if n in kwargs:
          raise self.exc('TypeError')
        continue
      if n in kwargs:
        vals[n] = kwargs.pop(n)
      elif isinstance(d, self.lib.DCField):
        if d.factory is not None:
          vals[n] = self.call(d.factory, [], {})
        elif d.default is not UNDEF:
          vals[n] = d.default
        else:
          raise self.exc('TypeError')
      elif d is not UNDEF:
        if isinstance(d, Poison):
          raise Unsupported(d.why)
        vals[n] = d
      else:
        raise self.exc('TypeError')
    if kwargs:
      raise self.exc('TypeError')
    for n, d, ann in fields:
      if isinstance(d, self.lib.DCField) and not d.init:
        if d.factory is not None:
          vals[n] = self.call(d.factory, [], {})
        elif d.default is not UNDEF:
          vals[n] = d.default
    o.fields.update(vals)
    post, _ = cls.lookup('__post_init__')
    if post is not None:
      self.call_function(post, [o], {})

  # -- attributes --------------------------------------------------------------
  def getattr(self, o, name, default=UNDEF):
    try:
      return self.getattr_(o, name)
    except PyExc as e:
      if default is not UNDEF and e.cls.name == 'AttributeError':
        return default
      raise

  def getattr_(self, o, name):
    if isinstance(o, Module):
      if name in o.globals:
        v = o.globals[name]
        if isinstance(v, Poison):
          raise Unsupported('%s.%s: %s' % (o.name, name, v.why))
        return v
      sub = None
      try:
        sub = self.get_module(o.name + '.' + name)
      except Unsupported:
        pass
      if sub is not None:
        return sub
      raise self.exc('AttributeError', name)
    if isinstance(o, LibModule):
      if name in o.attrs:
        return o.attrs[name]
      m = self.lib.submodule(self, o.name, name)
      if m is not None:
        return m
      return LibUnknown(o.name + '.' + name)
    if isinstance(o, LibUnknown):
      return LibUnknown(o.name + '.' + name)
    if isinstance(o, Obj):
      if name in o.fields:
        self.note_read(o, name)
        if isinstance(o.fields[name], Poison):
          raise Unsupported(o.fields[name].why)
        return o.fields[name]
      v, c = o.cls.lookup(name)
      if v is not None or (c is not None):
        return self.bind_attr(v, o, o.cls)
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return dict(o.fields)
      ga, _ = o.cls.lookup('__getattr__')
      if ga is not None:
        return self.call_function(ga, [o, name], {})
      hook, _ = o.cls.lookup('__hostattr__')
      if hook is not None:
        return hook(self, o, name)
      raise self.exc('AttributeError', name)
    if isinstance(o, ClassVal):
      if name in ('__name__', '__qualname__'):
        return o.name
      if name == '__mro__':
        return tuple(o.mro)
      v, c = o.lookup(name)
      if c is not None:
        if isinstance(v, Poison):
          raise Unsupported(v.why)
        if isinstance(v, Wrapped):
          if v.kind == 'classmethod':
            return Bound(v.fn, o)
          if v.kind == 'staticmethod':
            return v.fn
        return v
      raise self.exc('AttributeError', name)
    if isinstance(o, Host):
      return o.getattr_(self, name)
    if isinstance(o, FunctionVal):
      if name == '__name__':
        return o.name
      if name == '__qualname__':
        return o.qualname
      raise self.exc('AttributeError', name)
    return self.lib.value_attr(self, o, name)

  def bind_attr(self, v, o, cls):
    if isinstance(v, Poison):
      raise Unsupported(v.why)
    if isinstance(v, FunctionVal):
      return Bound(v, o)
    if isinstance(v, Wrapped):
      if v.kind == 'property':
        return self.call_function(v.fn, [o], {})
      if v.kind == 'cached_property':
        r = self.call_function(v.fn, [o], {})
        if not self.ctx.pure:
          o.fields[v.fn.name] = r
        return r
      if v.kind == 'classmethod':
        return Bound(v.fn, cls)
      if v.kind == 'staticmethod':
        return v.fn
    if isinstance(v, LibFn) and getattr(v, 'method', False):
      return Bound(v, o)
    return v

  def setattr(self, o, name, v):
    if isinstance(o, Obj):
      c, _ = o.cls.lookup(name)
      if isinstance(c, Wrapped) and c.kind == 'property':
        if c.setter is None:
          raise self.exc('AttributeError', name)
        self.call_function(c.setter, [o, v], {})
        return
      if o.cls.dc and o.cls.dc['frozen']:
        raise self.exc('AttributeError', name)  # FrozenInstanceError
      self.note_write(o, name, v)
      o.fields[name] = v
      return
    if isinstance(o, Host):
      return o.setattr_(self, name, v)
    if isinstance(o, ClassVal):
      o.attrs[name] = v
      return
    raise Unsupported('setattr on %r' % (o,))

  # -- delegated to the library model -----------------------------------------
  def truth(self, v):
    return self.lib.truth(self, v)

  def len_(self, v):
    return self.lib.len_(self, v)

  def iterate(self, v):
    return self.lib.iterate(self, v)

  def iter_len(self, v):
    return self.lib.iter_len(self, v)

  def iter_at(self, v):
    return self.lib.iter_at(self, v)

  def getitem(self, o, k):
    return self.lib.getitem(self, o, k)

  def setitem(self, o, k, v):
    return self.lib.setitem(self, o, k, v)

  def binop(self, op, a, b):
    return self.lib.binop(self, op, a, b)

  def compare(self, op, a, b):
    return self.lib.compare(self, op, a, b)

  def cmp_eq(self, a, b):
    return self.lib.eq(self, a, b)
