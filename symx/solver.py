"""SMT back end: z3 (linear abstraction, nlsat, default) and cvc5."""
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
  sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

from symx.poly import Poly, frac_sqrt, norm_coeff

z3.set_param('smt.random_seed', 1)


TRACE = os.environ.get('SYMX_TRACE')
REPO = 'hand_eye_calibration'


def subst(c, vals):
  """a condition with variables replaced by numbers"""
  if c.op == 'const' or not any(v in vals for v in c.vars()):
    return c
  if c.op in ('and', 'or'):
    out = []
    for x in c.a:
      x = subst(x, vals)
      if x.op == 'const':
        if bool(x.a) == (c.op == 'or'):
          return x
        continue
      out.append(x)
    if not out:
      return type(c)('const', c.op == 'and')
    return out[0] if len(out) == 1 else type(c)(c.op, out)
  t = {}
  for m, k in c.a.t.items():
    rest = []
    for v, e in m:
      if v in vals:
        k = k * vals[v] ** e
      else:
        rest.append((v, e))
    rest = tuple(rest)
    t[rest] = t.get(rest, 0) + k
  p = Poly({m: norm_coeff(k) for m, k in t.items() if k != 0})
  if p.is_const():
    k = p.const_value()
    return type(c)('const', {'<': k < 0, '<=': k <= 0, '=': k == 0, '!=': k != 0}[c.op])
  return type(c)(c.op, p)


class Stats(object):

  def __init__(self):
    self.queries = 0
    self.time = 0.0
    self.sat = self.unsat = self.unknown = 0
    self.by = {}

  def add(self, kind, res, dt):
    if TRACE and dt > 0.5:
      import traceback
      fr = [f for f in traceback.extract_stack() if '/props/' in f.filename or REPO in f.filename]
      sys.stderr.write('%s %s %.1fs at %s\n' % (kind, res, dt, ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-3:]]))
    self.queries += 1
    self.time += dt
    setattr(self, res, getattr(self, res) + 1)
    k = kind + ':' + res
    self.by[k] = self.by.get(k, 0) + 1


class Solver(object):

  def __init__(self, space, stats):
    self.space = space
    self.stats = stats
    self.zv = {}
    self.pz = {}
    self.lz = {}
    self.lmono = {}
    self.cache = {}
    self.incache = {}

  # -- translation --------------------------------------------------------
  def var(self, v):
    r = self.zv.get(v)
    if r is None:
      r = self.zv[v] = z3.Real('v%d_%s' % (v, self.space.vars[v].name.replace('|', '_')))
    return r

  @staticmethod
  def num(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)

  def poly(self, p):
    r = self.pz.get(p)
    if r is None:
      ts = []
      for m, c in p.t.items():
        f = [] if (c == 1 and m) else [self.num(c)]
        for v, e in m:
          f.extend([self.var(v)] * e)
        ts.append(f[0] if len(f) == 1 else z3.Product(f))
      r = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
      self.pz[p] = r
    return r

  def linpoly(self, p, used):
    ts = []
    for m, c in p.t.items():
      if not m:
        ts.append(self.num(c))
        continue
      if len(m) == 1 and m[0][1] == 1:
        x = self.var(m[0][0])
      else:
        x = self.lmono.get(m)
        if x is None:
          x = self.lmono[m] = z3.Real('m%d' % len(self.lmono))
      used.add(m)
      ts.append(x if c == 1 else self.num(c) * x)
    return z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))

  def cond(self, c, lin=None):
    op = c.op
    if op == 'const':
      return z3.BoolVal(bool(c.a))
    if op in ('and', 'or'):
      xs = [self.cond(x, lin) for x in c.a]
      return z3.And(xs) if op == 'and' else z3.Or(xs)
    e = self.poly(c.a) if lin is None else self.linpoly(c.a, lin)
    if op == '<':
      return e < 0
    if op == '<=':
      return e <= 0
    if op == '=':
      return e == 0
    return e != 0

  # -- relevance ----------------------------------------------------------
  def with_defs(self, cs):
    """cs plus the definitions of every variable they mention (transitively)."""
    out = list(cs)
    seen_c = set(out)
    seen_v = set()
    i = 0
    while i < len(out):
      for v in out[i].vars():
        if v in seen_v:
          continue
        seen_v.add(v)
        for d in self.space.vars[v].defs:
          if d not in seen_c:
            seen_c.add(d)
            out.append(d)
      i += 1
    return out, seen_v

  def inputs(self, c):
    """the free variables a condition depends on"""
    r = self.incache.get(c)
    if r is None:
      r = self.incache[c] = frozenset(v for v in self.with_defs([c])[1]
                                      if self.space.vars[v].kind in ('in', 'aux'))
    return r

  def relevant(self, goal, pc):
    """goal with definitions and the path constraints over those variables only"""
    vs = frozenset().union(*[self.inputs(c) for c in goal])
    near = [c for c in pc if self.inputs(c) <= vs]
    return self.with_defs(list(goal) + near)[0], len(near) == len(pc)

  def connected(self, goal, pc):
    vs = set().union(*[self.inputs(c) for c in goal])
    rest = list(pc)
    chosen = list(goal)
    changed = True
    while changed:
      changed = False
      keep = []
      for c in rest:
        if self.inputs(c) & vs or not self.inputs(c):
          chosen.append(c)
          vs |= self.inputs(c)
          changed = True
        else:
          keep.append(c)
      rest = keep
    return self.with_defs(chosen)[0], not rest

  # -- variables with one possible value ------------------------------------
  def fixed(self, cs):
    """the conditions with variables replaced that an equality fixes to a number, and those numbers"""
    vals = {}
    while True:
      new = {}
      for c in cs:
        if c.op != '=':
          continue
        k = self.single(c.a)
        if k is not None and k[0] not in vals:
          new[k[0]] = k[1]
      if not new:
        return cs, vals
      vals.update(new)
      out = []
      for c in cs:
        c = subst(c, new)
        if c.op == 'const' and c.a:
          continue
        out.append(c)
      cs = out

  def single(self, p):
    vs = p.vars()
    if len(vs) != 1:
      return None
    v, = vs
    lin, sq, const = 0, 0, 0
    for m, c in p.t.items():
      if not m:
        const = c
      elif m[0][1] == 1:
        lin = c
      elif m[0][1] == 2:
        sq = c
      else:
        return None
    if not sq:
      return v, -Fraction(const) / Fraction(lin)
    if not lin and self.space.vars[v].kind == 'sqrt':
      r = frac_sqrt(-Fraction(const) / Fraction(sq))
      if r is not None:
        return v, r
    return None

  # -- queries ------------------------------------------------------------
  def _run(self, kind, cs, timeout, want_model):
    t0 = time.time()
    c0 = time.process_time()
    cs, vals = self.fixed(cs)
    if kind == 'lin':
      s = z3.SolverFor('QF_LRA')
      used = set()
      fs = [self.cond(c, used) for c in cs]
      for m in used:
        if len(m) >= 1 and all(e % 2 == 0 for _, e in m):
          fs.append(self.lmono[m] >= 0)
    elif kind == 'nlsat':
      s = z3.Tactic('qfnra-nlsat').solver()
      fs = [self.cond(c) for c in cs]
    elif kind == 'nra':
      s = z3.SolverFor('QF_NRA')
      fs = [self.cond(c) for c in cs]
    else:
      s = z3.Solver()
      fs = [self.cond(c) for c in cs]
    s.set('timeout', int(timeout * 1000))
    try:
      s.add(fs)
      r = s.check()
      wall, cpu = time.time() - t0, time.process_time() - c0
      if r == z3.unknown and wall >= 0.9 * timeout and cpu < 0.75 * timeout:
        # the machine was busy with something else: the time it was meant to have
        s.set('timeout', int(1000 * timeout * min(8., 1.2 * wall / max(cpu, 1e-3))))
        r = s.check()
    except z3.Z3Exception:
      r = z3.unknown
    dt = time.time() - t0
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    if kind == 'lin' and res == 'sat':
      res = 'unknown'
    self.stats.add(kind, res, dt)
    model = None
    if res == 'sat' and want_model:
      model = self.model_values(s.model())
      model.update({v: float(x) for v, x in vals.items()})
    return res, model

  def confirm_equal(self, pairs):
    """are all pairs of polynomials equal for all values?"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(z3.Or([self.poly(a) != self.poly(b) for a, b in pairs]))
    r = s.check()
    res = 'unsat' if r == z3.unsat else 'unknown'
    self.stats.add('smt', res, time.time() - t0)
    return r == z3.unsat

  def model_values(self, m):
    out = {}
    for v, e in self.zv.items():
      val = m.eval(e, model_completion=False)
      if z3.is_rational_value(val):
        out[v] = float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
      elif z3.is_algebraic_value(val):
        a = val.approx(30)
        out[v] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return out

  def cvc5(self, cs, timeout):
    t0 = time.time()
    cs, _ = self.fixed(cs)
    s = z3.Solver()
    s.add([self.cond(c) for c in cs])
    txt = '(set-logic QF_NRA)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    fd, p = tempfile.mkstemp(suffix='.smt2', prefix='symx')
    try:
      with os.fdopen(fd, 'w') as f:
        f.write(txt)
      try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), p],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout + 5).stdout.decode()
      except (subprocess.TimeoutExpired, OSError):
        o = ''
    finally:
      os.unlink(p)
    res = 'unsat' if o.startswith('unsat') else 'sat' if o.startswith('sat') else 'unknown'
    self.stats.add('cvc5', res, time.time() - t0)
    return res

  def linear(self, goal, pc):
    """is goal with pc refuted by linear reasoning over the monomials?"""
    return any(self._run('lin', f(goal, pc)[0], 5, False)[0] == 'unsat'
               for f in (self.relevant, self.connected))

  def refute(self, goal, pc, timeout, strong=True):
    """Is goal (list of SB) together with pc unsatisfiable?
    Returns 'unsat', ('sat', model) or 'unknown'."""
    key = (tuple(goal), tuple(pc), strong)
    if key in self.cache:
      return self.cache[key]
    r = self._refute(goal, pc, timeout, strong)
    self.cache[key] = r
    return r

  def _refute(self, goal, pc, timeout, strong):
    goal = [g for g in goal if g.op != 'const' or not g.a]
    near, all_near = self.relevant(goal, pc)
    conn, all_conn = self.connected(goal, pc)
    sets = [near]
    if len(conn) != len(near):
      sets.append(conn)
    for cs in sets:
      r, _ = self._run('lin', cs, 5, False)
      if r == 'unsat':
        return 'unsat'
    short = min(timeout, 2.0)
    last = len(sets) - 1
    for i, cs in enumerate(sets):
      r, m = self._run('nlsat', cs, short, i == last)
      if r == 'unsat':
        return 'unsat'
      if r == 'sat' and i == last:
        return self.full_model(goal, pc, m, all_conn, strong)
    if not strong:
      return 'unknown'
    for i, cs in enumerate(sets):
      r, m = self._run('smt', cs, short, i == last)
      if r == 'unsat':
        return 'unsat'
      if r == 'sat' and i == last:
        return self.full_model(goal, pc, m, all_conn, strong)
    for i, cs in enumerate(sets):
      for kind in ('cvc5', 'nlsat', 'smt'):
        if kind == 'cvc5':
          r, m = self.cvc5(cs, timeout), None
        else:
          r, m = self._run(kind, cs, timeout, i == last)
        if r == 'unsat':
          return 'unsat'
        if r == 'sat' and i == last and kind != 'cvc5':
          return self.full_model(goal, pc, m, all_conn, strong)
    return 'unknown'

  def full_model(self, goal, pc, m, complete, strong=True):
    """extend the model of the connected part to the whole path"""
    if complete or not strong:
      return ('sat', m)
    # the other constraints share no inputs with it: solve them part by part
    out = dict(m)
    chosen = set(self.connected(goal, pc)[0])
    rest = [c for c in pc if c not in chosen]
    while rest:
      part = set(self.connected(rest[:1], rest[1:])[0])
      cs = [c for c in rest if c in part]
      rest = [c for c in rest if c not in part]
      r = self.part_model(tuple(cs))
      if not isinstance(r, dict):
        return r
      out.update(r)
    return ('sat', out)

  def part_model(self, cs):
    r = self.cache.get(('part', cs))
    if r is None:
      r = 'unknown'
      full, _ = self.with_defs(list(cs))
      for kind in ('nlsat', 'smt'):
        k, m = self._run(kind, full, 5.0, True)
        if k != 'unknown':
          r = m if k == 'sat' else 'unsat'
          break
      self.cache['part', cs] = r
    return r
