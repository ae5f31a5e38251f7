#!/usr/bin/env python3
"""Survey: do the checks stay quiet on rewritten code that behaves the same?
  refactor.py loops,temps [P05 P06 ...] [-j 2] [--show]
Rewrites every function of the repository's Python sources (but the tests) in a scratch copy (SYMX_REPO) and runs the
quick checks on it; anything but exit 0 is printed, to be judged by hand."""
import argparse
import ast
import concurrent.futures
import copy
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


class Base(ast.NodeTransformer):
  """rewrites the bodies of functions (and of the main block of scripts)"""

  def __init__(self):
    self.n = 0
    self.inside = []
    self.extra = []

  def name(self, base):
    self.n += 1
    return '_%s%d' % (base, self.n)

  def visit_FunctionDef(self, n):
    self.inside.append(n)
    n.body = self.block(n.body)
    self.inside.pop()
    return n

  def visit_Lambda(self, n):
    return n

  def visit_Module(self, n):
    out = []
    for s in n.body:
      if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        s = self.visit(s)
      elif isinstance(s, ast.If) and '__name__' in ast.dump(s.test):
        s.body = self.block(s.body)
      out += self.extra + [s]
      self.extra = []
    n.body = out
    return n

  def block(self, body):
    out = []
    for s in body:
      for f in ('body', 'orelse', 'finalbody'):
        if getattr(s, f, None) and not isinstance(s, (ast.ClassDef,)):
          if isinstance(s, ast.FunctionDef):
            continue
          setattr(s, f, self.block(getattr(s, f)))
      for h in getattr(s, 'handlers', []):
        h.body = self.block(h.body)
      if isinstance(s, ast.FunctionDef):
        s = self.visit_FunctionDef(s)
      r = self.statement(s)
      out += r if isinstance(r, list) else [r]
    return out

  def statement(self, s):
    return s


def load(n):
  return ast.Name(n, ast.Load())


def assign(n, v):
  return ast.Assign([ast.Name(n, ast.Store())], v)


class returns(Base):
  """the result gets a name before it is returned"""

  def statement(self, s):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
      n = self.name('result')
      return [assign(n, s.value), ast.Return(load(n))]
    return s


class loops(Base):
  """for loops become while loops over a list"""

  def statement(self, s):
    if isinstance(s, ast.For) and not s.orelse:
      it, i = self.name('items'), self.name('index')
      body = [ast.Assign([s.target], ast.Subscript(load(it), load(i), ast.Load())),
              ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body
      return [assign(it, ast.Call(load('list'), [s.iter], [])), assign(i, ast.Constant(0)),
              ast.While(ast.Compare(load(i), [ast.Lt()], [ast.Call(load('len'), [load(it)], [])]), body, [])]
    return s


class comprehensions(Base):
  """assigned or returned list comprehensions become loops"""

  def statement(self, s):
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
      g = s.value.generators[0]
      n = self.name('collected')
      body = [ast.Expr(ast.Call(ast.Attribute(load(n), 'append', ast.Load()), [s.value.elt], []))]
      for c in reversed(g.ifs):
        body = [ast.If(c, body, [])]
      s.value = load(n)
      return [assign(n, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), s]
    return s


class branches(Base):
  """the branches of an if are swapped"""

  def statement(self, s):
    if isinstance(s, ast.If):
      t = s.test
      if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
      else:
        t = ast.UnaryOp(ast.Not(), t)
      if s.orelse:
        return ast.If(t, s.orelse, s.body)
      return ast.If(t, [ast.Pass()], s.body)
    return s


class early(Base):
  """else after a branch that leaves is dropped"""

  def statement(self, s):
    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
      e, s.orelse = s.orelse, []
      return [s] + e
    return s


class temps(Base):
  """arguments and operands get names"""

  def statement(self, s):
    if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or s.value is None:
      return s
    pre = []

    def out(e):
      if isinstance(e, (ast.Constant, ast.Name, ast.Starred, ast.Lambda)):
        return e
      n = self.name('value')
      pre.append(assign(n, e))
      return load(n)
    v = s.value
    if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and 'super' not in ast.dump(v.func):
      v.args = [out(a) for a in v.args]
      for k in v.keywords:
        k.value = out(k.value)
    elif isinstance(v, ast.BinOp):
      v.left, v.right = out(v.left), out(v.right)
    elif isinstance(v, ast.Tuple):
      v.elts = [out(e) for e in v.elts]
    return pre + [s]


class helpers(Base):
  """expressions move into helper functions"""

  def statement(self, s):
    if not self.inside or not isinstance(s, (ast.Assign, ast.Return)) or s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
      return s
    if len(self.inside) > 1:
      return s
    f = self.inside[0]
    known = {a.arg for a in f.args.args + f.args.kwonlyargs} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if f.args.vararg:
      known.add(f.args.vararg.arg)
    if f.args.kwarg:
      known.add(f.args.kwarg.arg)
    known |= {n.name for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f}
    known |= {a.asname or a.name for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)) or 'super' in ast.dump(s.value):
      return s
    own = {n.id for c in ast.walk(s.value) if isinstance(c, (ast.comprehension,)) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
    own |= {a.arg for c in ast.walk(s.value) if isinstance(c, ast.Lambda) for a in c.args.args}
    if own & known - own:
      return s
    args = sorted({n.id for n in ast.walk(s.value) if isinstance(n, ast.Name) and n.id in known and n.id not in own})
    n = self.name('helper')
    self.extra.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(s.value)], []))
    s.value = ast.Call(load(n), [load(a) for a in args], [])
    return s


class rename(Base):
  """local variables get other names"""

  def visit_FunctionDef(self, f):
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for n in ast.walk(f) if n is not f):
      return f
    params = {a.arg for a in f.args.args + f.args.kwonlyargs}
    own = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and n.id in own:
        n.id = 'the_' + n.id
      if isinstance(n, ast.ExceptHandler) and n.name in own:
        n.name = 'the_' + n.name
    return f


FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class idioms(Base):
  """other spellings of the same expression"""

  def statement(self, s):
    me = self

    class V(ast.NodeTransformer):
      def visit_FunctionDef(self, n):
        return n

      def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
          return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n

      def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.) and isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript)):
          return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n

      def visit_Call(self, n):
        self.generic_visit(n)
        u = ast.unparse(n.func)
        one = len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Subscript))
        if u == 'np.linalg.norm' and one:
          return ast.Call(ast.parse('np.sqrt', mode='eval').body, [ast.Call(ast.parse('np.sum', mode='eval').body,
                          [ast.Call(ast.parse('np.square', mode='eval').body, n.args, [])], [])], [])
        new = {'np.dot': 'np.matmul', 'np.abs': 'np.absolute', 'np.absolute': 'np.abs', 'math.sqrt': 'np.sqrt', 'np.sin': 'math.sin', 'np.cos': 'math.cos',
               'np.fabs': 'np.abs', 'np.amin': 'np.min', 'np.amax': 'np.max', 'np.concatenate': 'np.concatenate', 'xrange': 'range'}.get(u)
        if new in ('math.sin', 'math.cos') or new == 'np.matmul':
          new = None
        if new:
          n.func = ast.parse(new, mode='eval').body
        return n
    for f, v in ast.iter_fields(s):
      if isinstance(v, ast.expr):
        setattr(s, f, V().visit(v))
    return s


class augmented(Base):
  """x += number becomes x = x + number"""

  def statement(self, s):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
      return ast.Assign([s.target], ast.BinOp(load(s.target.id), s.op, s.value))
    return s


class moved(Base):
  """the whole body of a function moves into a helper"""

  def visit_FunctionDef(self, f):
    a = f.args
    if f.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or any(isinstance(n, (ast.Yield, ast.Global)) for n in ast.walk(f)) or 'super' in ast.dump(f):
      return f
    n = self.name('do_' + f.name.strip('_') + '_')
    doc = []
    body = f.body
    if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and len(body) > 1:
      doc, body = body[:1], body[1:]
    h = ast.FunctionDef(n, ast.arguments([], [ast.arg(x.arg) for x in a.args], None, [], [], None, []), body, [])
    self.extra.append(h)
    f.body = doc + [ast.Return(ast.Call(load(n), [load(x.arg) for x in a.args], []))]
    return f


SIGNATURES = {}


class keywords(Base):
  """arguments of the repository's own functions are passed by name"""

  def visit_Module(self, n):
    class V(ast.NodeTransformer):
      def visit_Call(self, c):
        self.generic_visit(c)
        sig = SIGNATURES.get(c.func.id) if isinstance(c.func, ast.Name) else None
        if sig and len(c.args) <= len(sig) and not any(isinstance(a, ast.Starred) for a in c.args):
          c.keywords = [ast.keyword(k, v) for k, v in zip(sig, c.args)] + c.keywords
          c.args = []
        return c
    return V().visit(n)


class positions(Base):
  """arguments of the repository's own functions are passed by position"""

  def visit_Module(self, n):
    class V(ast.NodeTransformer):
      def visit_Call(self, c):
        self.generic_visit(c)
        sig = SIGNATURES.get(c.func.id) if isinstance(c.func, ast.Name) else None
        while sig and len(c.args) < len(sig) and not any(isinstance(a, ast.Starred) for a in c.args):
          k = [k for k in c.keywords if k.arg == sig[len(c.args)]]
          if not k:
            break
          c.keywords.remove(k[0])
          c.args.append(k[0].value)
        return c
    return V().visit(n)


KINDS = {k: v for k, v in globals().items() if isinstance(v, type) and issubclass(v, Base) and v is not Base}


def signatures(texts):
  for t in texts:
    for n in ast.parse(t).body:
      if isinstance(n, ast.FunctionDef):
        a = [x.arg for x in n.args.args]
        SIGNATURES[n.name] = a if SIGNATURES.get(n.name, a) == a and not n.args.vararg else None


def rewrite(text, kinds):
  t = ast.parse(text)
  for k in kinds:
    t = ast.fix_missing_locations(KINDS[k]().visit(t))
  return ast.unparse(t) + '\n'


def main():
  a = argparse.ArgumentParser()
  a.add_argument('kinds')
  a.add_argument('properties', nargs='*')
  a.add_argument('-j', type=int, default=2)
  a.add_argument('--show', action='store_true')
  a = a.parse_args()
  kinds = a.kinds.split(',')
  props = a.properties or sorted(os.path.basename(f)[:3].upper() for f in glob.glob(HERE + '/props/p[0-9][0-9].py'))
  work = tempfile.mkdtemp(prefix='refactor')
  try:
    d = os.path.join(work, 'repo')
    subprocess.check_call(['cp', '-a', REPO, d])
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
    files = subprocess.check_output(['git', '-C', d, 'ls-files'], text=True).split('\n')
    signatures(open(os.path.join(d, f)).read() for f in files if f.endswith('.py'))
    for f in files:
      p = os.path.join(d, f)
      b = os.path.basename(f)
      if not f or not os.path.isfile(p) or os.path.islink(p) or 'test' in b:
        continue
      s = open(p, 'rb').read()
      if not (f.endswith('.py') or s[:40].startswith(b'#!/usr/bin/env python')):
        continue
      s = s.decode()
      new = rewrite(s, kinds)
      open(p, 'w').write((s.split('\n')[0] + '\n' if s.startswith('#!') else '') + new)
    if a.show:
      subprocess.call(['git', '-C', d, 'diff', '--stat'])
    vs = []
    for i in range(a.j):
      v = os.path.join(work, 'v%d' % i)
      shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
      os.makedirs(v + '/evidence')
      vs.append(v)

    def one(p):
      v = vs.pop()
      try:
        env = dict(os.environ, SYMX_REPO=d, SYMX_JOBS=str(max(1, 8 // a.j)))
        r = subprocess.run(['nice', '-n', '10', './check', p, 'quick'], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p, r.returncode, r.stdout
      finally:
        vs.append(v)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
      for p, code, out in ex.map(one, props):
        print(p, code, flush=True)
        if code:
          bad += 1
          print('\n'.join(out.strip().split('\n')[-12:])[:3000], flush=True)
    print('%s: %d of %d checks not quiet' % (a.kinds, bad, len(props)))
  finally:
    shutil.rmtree(work)


if __name__ == '__main__':
  main()
