"""Depth-first path exploration by re-execution, and proof obligations."""
import math
import time
from fractions import Fraction

import numpy as np

from symx import sym
from symx.poly import Poly
from symx.sym import (SB, Sym, Steer, PathInfeasible, Unsupported, Budget, TRUE, FALSE,
                      b_and, b_or, to_sb, Space, poly_sign)
from symx.solver import Solver, Stats


class Candidate(object):
  """A possible violation: inputs to be replayed on the real code."""

  def __init__(self, label, inputs, choices, how, detail):
    self.label = label
    self.inputs = inputs
    self.choices = choices
    self.how = how
    self.detail = detail


class Context(object):
  """State of one symbolic run of a harness (all paths)."""

  def __init__(self, name, seed=1, max_paths=4000, deadline=600, branch_timeout=1.0,
               prove_timeout=8.0, int_limit=64):
    self.name = name
    self.space = Space(seed)
    self.stats = Stats()
    self.solver = Solver(self.space, self.stats)
    self.max_paths = max_paths
    self.t_end = time.time() + deadline
    self.branch_timeout = branch_timeout
    self.prove_timeout = prove_timeout
    self.int_limit = int_limit
    self.paths = 0
    self.infeasible = 0
    self.decisions_total = 0
    self.obligations = 0
    self.by_identity = 0
    self.by_solver = 0
    self.candidates = []
    self.unknown = []
    self.nonfinite = 0
    self.labels = {}
    self.witnesses = []
    self.aborted = None
    self.covers = {}
    self.concl = {}
    self.reset([])

  # -- one path -----------------------------------------------------------
  def reset(self, prefix):
    self.prefix = prefix
    self.pos = 0
    self.trace = []
    self.pc = []
    self.known = {}
    self.mask = np.ones(self.space.K, bool)
    self.aborted = None
    self.choices = {}
    self.obs = []
    self.hints = []
    self.identities = []
    self.stubs = {}
    self.counters = {}
    self.tokens = []
    self.limits = {}
    self.drawn = []
    self.directions = None
    self.whole_floats = False

  def fresh(self, name, lo=None, hi=None):
    k = self.counters.get(name, 0)
    self.counters[name] = k + 1
    return self.space.real('%s#%d' % (name, k), lo, hi)

  def choose_fresh(self, n, name):
    k = self.counters.get(name, 0)
    if k >= self.limits.get(name, 1 << 30):
      raise PathInfeasible()
    self.counters[name] = k + 1
    return self.choose(n, '%s#%d' % (name, k))

  def token(self, value, spec=''):
    """text standing for a symbolic number; float() of the text gives it back"""
    self.tokens.append((value, spec))
    return '\u27e6%012d\u27e7' % (len(self.tokens) - 1)

  def untoken(self, text):
    value, spec = self.tokens[int(text.strip()[1:-1])]
    if spec:
      # the printed number differs by any rounding of that precision
      import re
      m = re.match(r'^%?[-+ 0#<>^]*\d*(?:\.(\d+))?([feEgG])$', spec)
      if m is None:
        raise Unsupported('reads back a number printed with the format %r' % spec)
      n = int(m.group(1)) if m.group(1) is not None else 6
      if m.group(2) == 'f':
        h = Fraction(1, 2 * 10 ** n)
        return value + self.fresh('rounding', -h, h)
      h = Fraction(1, 2 * 10 ** (n - (m.group(2) in 'gG')))
      return value * (1 + self.fresh('rounding', -h, h))
    return value

  def note_nonfinite(self):
    self.nonfinite += 1

  def tick(self):
    if self.aborted is not None:
      raise self.aborted
    if time.time() > self.t_end:
      raise Budget('time budget of the harness exhausted')

  def add(self, c):
    """assume c on this path"""
    if c.op == 'and':
      for x in c.a:
        self.add(x)
      return
    if c.op == 'const':
      if not c.a:
        raise PathInfeasible()
      return
    if self.known.get(c) is True:
      return
    if self.known.get(c) is False:
      raise PathInfeasible()
    self.pc.append(c)
    self.known[c] = True
    self.known[c.negate()] = False
    self.mask = self.mask & c.neval(self.space)

  def feasible(self, c):
    """can c hold on this path?  (sound: True unless proved impossible)"""
    if (self.mask & c.neval(self.space)).any():
      return True
    r = self.solver.refute([c], self.pc + self.hints, self.branch_timeout, strong=False)
    return r != 'unsat'

  def branch(self, c):
    self.tick()
    if c.op == 'const':
      return bool(c.a)
    k = self.known.get(c)
    if k is not None:
      return k
    if c.op == 'and':
      # short cut when all conjuncts are known
      ks = [self.known.get(x) for x in c.a]
      if any(x is False for x in ks):
        return False
      if all(x is True for x in ks):
        return True
    elif c.op == 'or':
      ks = [self.known.get(x) for x in c.a]
      if any(x is True for x in ks):
        return True
      if all(x is False for x in ks):
        return False
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
    else:
      n = c.negate()
      t = self.feasible(c)
      f = True if not t else self.feasible(n)
      if t and f:
        self.decisions_total += 1
        # explore the side with more sample points first
        self.todo.append(self.trace + [(0, True)])
        d = (1, True)
      else:
        d = (1 if t else 0, False)
    self.pos += 1
    self.trace.append(d)
    val, real = d
    if real:
      self.add(c if val else c.negate())
    else:
      self.known[c] = bool(val)
      self.known[c.negate()] = not val
    return bool(val)

  def choose(self, n, label):
    """n-way nondeterministic choice"""
    self.tick()
    if n <= 0:
      raise PathInfeasible()
    if n == 1:
      v = 0
    else:
      if self.pos < len(self.prefix):
        d = self.prefix[self.pos]
      else:
        for k in range(n - 1, 0, -1):
          self.todo.append(self.trace + [(k, True)])
          self.decisions_total += 1
        d = (0, True)
      self.pos += 1
      self.trace.append(d)
      v = d[0]
    self.choices[label] = v
    return v

  # -- exploration --------------------------------------------------------
  def run(self, fn):
    old = sym.CUR
    sym.CUR = self
    self.todo = [[]]
    try:
      while self.todo:
        if self.paths + self.infeasible >= self.max_paths:
          self.unknown.append(('path budget', '%d paths left' % len(self.todo)))
          break
        if time.time() > self.t_end:
          self.unknown.append(('time budget', '%d paths left' % len(self.todo)))
          break
        if len(self.candidates) >= 12:
          break
        prefix = self.todo.pop()
        self.reset(prefix)
        try:
          fn()
          if self.aborted is not None:
            raise self.aborted
          self.finish_path()
        except PathInfeasible:
          self.infeasible += 1
        except (Budget, Unsupported, OverflowError) as e:
          if self.impossible():
            self.infeasible += 1
          else:
            kind = 'budget' if isinstance(e, Budget) else 'unsupported' if isinstance(e, Unsupported) else 'too large'
            self.unknown.append((kind, str(e)))
    finally:
      sym.CUR = old

  def impossible(self):
    """a path taken only because the solver could not refute one of its branches in time"""
    if self.mask.any() or time.time() > self.t_end:
      return False
    for i in range(len(self.pc) - 1, max(-1, len(self.pc) - 9), -1):
      if self.solver.refute([self.pc[i]], self.pc[:i] + self.pc[i + 1:] + self.hints, self.prove_timeout) == 'unsat':
        return True
    return False

  def finish_path(self):
    self.paths += 1
    if self.identities:
      # the equalities settled by normal forms, put to the solver as one query
      if self.solver.confirm_equal(self.identities):
        self.by_identity -= len(self.identities)
        self.by_solver += len(self.identities)
    idx = np.flatnonzero(self.mask)
    if len(idx):
      # prefer a generic point: the one whose constraints have the largest margin
      best, bi = -1.0, None
      for i in idx[:24]:
        m = self.margin(int(i))
        if m > best:
          best, bi = m, int(i)
      self.witnesses.append(dict(inputs=self.point(bi), choices=dict(self.choices),
                                 margin=best, obs=self.eval_obs(bi)))
    else:
      self.witnesses.append(dict(inputs=None, choices=dict(self.choices), margin=0.0,
                                 obs=None, pc=list(self.pc)))

  def margin(self, i):
    m = 1.0
    for c in self.pc:
      m = min(m, self._margin(c, i))
    return m

  def _margin(self, c, i):
    if c.op == 'and':
      return min(self._margin(x, i) for x in c.a)
    if c.op == 'or':
      return max(self._margin(x, i) for x in c.a)
    if c.op == 'const':
      return 1.0 if c.a else 0.0
    v = float(self.space.evalp(c.a)[i])
    if c.op == '<' or c.op == '<=':
      return max(0.0, -v)
    if c.op == '=':
      return 1.0
    return abs(v)

  def point(self, i):
    return {v.name: float(v.values[i]) for v in self.space.vars
            if v.kind == 'in' and v.values is not None}

  def point_from_model(self, m):
    out = {}
    for v in self.space.vars:
      if v.kind == 'in':
        if v.id in m:
          out[v.name] = m[v.id]
        else:
          out[v.name] = 0.0 if (v.lo is None or v.lo <= 0) and (v.hi is None or v.hi >= 0) else float(
              v.lo if v.lo is not None else v.hi)
    return out

  def eval_obs(self, i):
    out = []
    for label, vals in self.obs:
      r = []
      for x in vals:
        if isinstance(x, Sym):
          r.append(float(x.neval(self.space)[i]))
        elif isinstance(x, SB):
          r.append(float(bool(x.neval(self.space)[i])))
        else:
          try:
            r.append(float(x))
          except (TypeError, ValueError):
            r.append(float('nan'))
      out.append((label, r))
    return out

  # -- obligations --------------------------------------------------------
  def assume(self, c):
    c = to_sb(c)
    self.tick()
    if c.op == 'const':
      if not c.a:
        raise PathInfeasible()
      return
    if not self.feasible(c):
      raise PathInfeasible()
    self.add(c)

  def lemma(self, c):
    """a fact that holds for all values (stated by the harness author, e.g. a sum of
    squares being non-negative); proved on its own before use"""
    c = to_sb(c)
    if c.op == 'const':
      assert c.a, 'false lemma'
      return
    r = self.solver.refute([c.negate()], [], 3.0)
    if r == 'unsat':
      self.hints.append(c)

  def prove(self, c, timeout=None, linear=False):
    """True if c is proved on this path (nothing is reported otherwise)"""
    c = to_sb(c)
    if c.op == 'const':
      return bool(c.a)
    if (self.mask & c.negate().neval(self.space)).any():
      return False
    if linear:
      return self.solver.linear([c.negate()], self.pc + self.hints)
    return self.solver.refute([c.negate()], self.pc + self.hints, timeout or self.prove_timeout) == 'unsat'

  def fact(self, c):
    """an intermediate fact: used in later proofs if it can be proved here"""
    c = to_sb(c)
    if c.op != 'const' and self.prove(c):
      self.hints.append(c)
      return True
    return c.op == 'const' and c.a

  def check_by(self, label, exprs, facts, goal):
    """prove facts(exprs) on this path, then goal from the facts alone with the
    expressions replaced by fresh variables; falls back to the direct check"""
    g = to_sb(goal(*exprs))
    if g.op == 'const' or (self.mask & g.negate().neval(self.space)).any():
      return self.check(g, label)
    if all(isinstance(e, Sym) for e in exprs):
      # equalities among the facts are normal-form identities
      fs = [to_sb(f) for f in facts(*exprs)]
      if all(self.prove(f) for f in fs):
        vs = []
        for i, e in enumerate(exprs):
          vs.append(self.space.real('by%d' % i, kind='aux'))
        ff = [to_sb(f) for f in facts(*vs)]
        n = to_sb(goal(*vs)).negate()
        if self.solver.refute([n], ff, self.prove_timeout) == 'unsat':
          self.obligations += 1
          self.by_solver += 1
          self.labels[label] = self.labels.get(label, 0) + 1
          return True
    return self.check(g, label)

  def check(self, c, label, robust=None):
    """c must hold on every execution of this path.  robust: a stronger form of
    not-c, tried first when looking for a counterexample."""
    self.tick()
    c = to_sb(c)
    self.obligations += 1
    self.labels[label] = self.labels.get(label, 0) + 1
    if c.op == 'const' and c.a:
      self.by_identity += 1
      return True
    if self.known.get(c) is True:
      self.by_identity += 1
      return True
    n = c.negate()
    # sample points first: they only propose, the solver and the replay decide
    bad = self.mask & n.neval(self.space)
    if bad.any():
      pts = np.flatnonzero(bad)
      if robust is not None:
        rb = self.mask & robust.neval(self.space)
        if rb.any():
          pts = np.concatenate([np.flatnonzero(rb), pts])
      done = 0
      for i in pts[:3]:
        how = self.confirm(int(i), n)
        self.candidates.append(Candidate(label, self.point(int(i)), dict(self.choices), how, 'sample-guided'))
        done += 1
      if done:
        return False
    pc = self.pc + self.hints
    if robust is not None:
      r = self.solver.refute([robust], pc, min(5.0, self.prove_timeout))
      if isinstance(r, tuple):
        self.candidates.append(Candidate(label, self.point_from_model(r[1]), dict(self.choices), 'sat', 'solver model'))
        return False
    r = self.solver.refute([n], pc, self.prove_timeout)
    if r == 'unsat':
      self.by_solver += 1
      return True
    if isinstance(r, tuple):
      self.candidates.append(Candidate(label, self.point_from_model(r[1]), dict(self.choices), 'sat', 'solver model'))
      return False
    self.unknown.append((label, 'solver gave no answer'))
    return None

  def confirm(self, i, n):
    """ask the solver whether the sample point (free inputs fixed) is a counterexample"""
    goal = [n]
    rules = self.space.ring.rules
    for v in self.space.vars:
      if v.kind != 'in' or v.values is None:
        continue
      x = float(v.values[i])
      p = Poly.var(v.id)
      if v.id in rules:
        if x:
          goal.append(SB('<', p.neg() if x > 0 else p))
        continue
      goal.append(SB('=', p.sub(Poly.const(Fraction(x).limit_denominator(10 ** 9)))))
    r = self.solver.refute(goal, self.pc, 2.0, strong=False)
    return r[0] if isinstance(r, tuple) else r

  def close(self, a, b, label, tol):
    """|a - b| <= tol (elementwise objects already flattened by the caller)"""
    self.tick()
    if not isinstance(a, Sym) and not isinstance(b, Sym):
      a, b = float(a), float(b)
      ok = (a == b) or abs(a - b) <= float(tol) or (a != a and b != b)
      return self.check(TRUE if ok else FALSE, label)
    A, B = Sym.lift(a), Sym.lift(b)
    if A is None or B is None:
      return self.check(FALSE, label)
    d = A - B
    if d.num.is_zero():
      self.obligations += 1
      self.by_identity += 1
      if A.den == B.den and len(A.num.t) < 1500:
        self.identities.append((A.num, B.num))
      self.labels[label] = self.labels.get(label, 0) + 1
      return True
    tol = Fraction(tol).limit_denominator(10 ** 12)
    c = b_and([d <= Sym.lift(tol), d >= Sym.lift(-tol)])
    big = Sym.lift(max(tol * 4, Fraction(1, 1000)))
    rob = b_or([d > big, d < -big])
    return self.check(c, label, rob)

  def cover(self, label):
    self.covers[label] = self.covers.get(label, 0) + 1
