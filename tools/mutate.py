#!/usr/bin/env python3
"""Survey: which small changes of the functions of a property does its quick check notice?
  mutate.py P05 [-n 40] [-j 4] [--seed 1]
Works on scratch copies of /repo (SYMX_REPO); lists the changes that no harness noticed, to be judged by hand
(many are equivalent: messages, dead branches, tolerances)."""
import argparse
import ast
import concurrent.futures
import copy
import difflib
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
        ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.And: [ast.Or], ast.Or: [ast.And]}


def targets(tree, names):
  out = []
  for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef) and n.name in names:
      out.append(n)
  if 'main' in names:
    out += [n for n in tree.body if isinstance(n, ast.If) and '__name__' in ast.dump(n.test)]
  return out


def skip(n):
  """printing, messages and plots"""
  if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
    return True
  if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
    s = ast.unparse(n.value.func)
    return s == 'print' or 'plot' in s or 'add_argument' in s
  if isinstance(n, ast.If) and re.search('visualize|plot', ast.unparse(n.test)):
    return True
  return isinstance(n, ast.Assert) and False


def sites(fn):
  """(path to the node, description, function changing it)"""
  out = []

  def walk(n):
    if skip(n):
      return
    if isinstance(n, ast.Compare):
      for i, op in enumerate(n.ops):
        for new in SWAP.get(type(op), ()):
          out.append((n, lambda m, i=i, new=new: m.ops.__setitem__(i, new())))
    if isinstance(n, (ast.BinOp, ast.AugAssign, ast.BoolOp)):
      for new in SWAP.get(type(n.op), ()):
        out.append((n, lambda m, new=new: setattr(m, 'op', new())))
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
      out.append((n, lambda m: setattr(m, 'value', m.value + 1)))
      if n.value:
        out.append((n, lambda m: setattr(m, 'value', 0 if m.value == 1 else type(m.value)(m.value * 2))))
      if type(n.value) is int and n.value > 0:
        out.append((n, lambda m: setattr(m, 'value', m.value - 1)))
    if isinstance(n, ast.Constant) and type(n.value) is bool:
      out.append((n, lambda m: setattr(m, 'value', not m.value)))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      out.append((n, lambda m: setattr(m, 'op', ast.UAdd())))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      out.append((n, lambda m: setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand))))
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
      out.append((n, lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])))
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
      if isinstance(n, ast.If):
        out.append((n, lambda m: setattr(m, 'test', ast.Constant(True))))
      out.append((n, lambda m: setattr(m, 'test', ast.Constant(False))))
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(n, ast.Expr):
      if isinstance(n, ast.AugAssign):
        out.append((n, lambda m: setattr(m, 'value', ast.Constant(0)) if isinstance(m.op, (ast.Add, ast.Sub)) else setattr(m, 'value', ast.Constant(1))))
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      out.append((n, lambda m: setattr(m, 'value', ast.Constant(None))))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'inverse', 'conjugate') and not n.args:
      out.append((n, lambda m: m.__dict__.update(func=ast.Name('__same__', ast.Load()), args=[m.func.value])))
    if isinstance(n, ast.Call) and ast.unparse(n.func) in ('copy.deepcopy', 'copy.copy', 'np.abs', 'np.absolute', 'abs', 'np.fabs'):
      out.append((n, lambda m: setattr(m, 'func', ast.Name('__same__', ast.Load()))))
    if isinstance(n, ast.Assert):
      walk(n.test)
      return
    for c in ast.iter_child_nodes(n):
      if isinstance(n, ast.Call) and ast.unparse(n.func) == 'print':
        return
      walk(c)
  for c in fn.body:
    walk(c)
  return out


def mutants(text, names):
  tree = ast.parse(text)
  base = ast.unparse(tree)
  out = []
  n = len([s for f in targets(tree, names) for s in sites(f)])
  for k in range(n):
    t = copy.deepcopy(tree)
    node, change = [s for f in targets(t, names) for s in sites(f)][k]
    change(node)
    new = ast.unparse(ast.fix_missing_locations(t))
    if '__same__' in new:
      i = 0
      lines = new.split('\n')
      while lines[i].startswith(('#', '"""', 'from __future__')) or not lines[i].strip():
        i += 1
      lines.insert(i, '__same__ = lambda x: x')
      new = '\n'.join(lines)
    if new != base:
      out.append((base, new))
  return out


def main():
  a = argparse.ArgumentParser()
  a.add_argument('property')
  a.add_argument('-n', type=int, default=40)
  a.add_argument('-j', type=int, default=4)
  a.add_argument('--seed', type=int, default=1)
  a.add_argument('--only', default='')
  a = a.parse_args()
  prop = [p for p in map(json.loads, open(os.path.join(HERE, 'properties.jsonl'))) if p['id'] == a.property][0]
  names = set()
  for m in prop['anchors']['mechanism']:
    names |= {w.split('.')[-1] for w in re.split('[^A-Za-z0-9_.]+', m['where'])}
  if a.only:
    names = set(a.only.split(','))
  todo = []
  for f in prop['anchors']['files']:
    for base, new in mutants(open(REPO + '/' + f).read(), names):
      todo.append((f, base, new))
  total = len(todo)
  random.Random(a.seed).shuffle(todo)
  todo = todo[:a.n]
  work = tempfile.mkdtemp(prefix='mutate')
  dirs = []
  for i in range(a.j):
    d = os.path.join(work, str(i))
    subprocess.check_call(['cp', '-a', REPO, d])
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
    v = os.path.join(work, 'v%d' % i)
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    os.makedirs(v + '/evidence')
    dirs.append((d, v))

  def one(t):
    f, base, new = t
    d, v = dirs.pop()
    p = os.path.join(d, f)
    old = open(p).read()
    try:
      open(p, 'w').write(new)
      env = dict(os.environ, SYMX_REPO=d, SYMX_JOBS=str(max(1, 8 // a.j)))
      r = subprocess.run(['nice', '-n', '10', './check', a.property, 'quick'], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      return t, r.returncode, r.stdout
    finally:
      open(p, 'w').write(old)
      dirs.append((d, v))
  count = {}
  try:
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
      for (f, base, new), code, out in ex.map(one, todo):
        count[code] = count.get(code, 0) + 1
        if code != 1:
          diff = [l for l in difflib.unified_diff(base.split('\n'), new.split('\n'), lineterm='', n=0) if not l.startswith(('---', '+++')) and '__same__ =' not in l]
          print('--- exit %d %s' % (code, f.split('/')[-1]), '\n'.join(diff), out.strip().split('\n')[-1][:300] if code not in (0, 1) else '', sep='\n', flush=True)
  finally:
    shutil.rmtree(work)
  print('%s: %d of %d changes tried, exit codes %s' % (a.property, len(todo), total, count))


if __name__ == '__main__':
  main()
