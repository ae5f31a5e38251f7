"""Symbolic reals and booleans, the variable space and the path explorer."""
import math
import numbers
import random as _random
import time
import zlib
from fractions import Fraction

import numpy as np

from symx.poly import (Poly, mono_div, Ring, ZERO, ONE, div_exact, poly_sqrt, frac_sqrt,
                       norm_coeff)

CUR = None  # current Context


class Steer(BaseException):
  """Base of engine-internal control flow.  The code under test has bare except
  clauses, so the context remembers the exception and raises it again."""

  def __init__(self, *a):
    BaseException.__init__(self, *a)
    if CUR is not None:
      CUR.aborted = self


class PathInfeasible(Steer):
  pass


class Unsupported(Steer):
  pass


class Budget(Steer):
  pass


class Vacuous(Steer):
  pass


def rationalise(x):
  """The rational a float literal stands for: the simplest one within one ulp."""
  f = Fraction(x)
  if f.denominator == 1:
    return f.numerator
  s = f.limit_denominator(100000)
  if s != 0 and abs(s - f) <= abs(f) * Fraction(1, 2 ** 52):
    return norm_coeff(s)
  return norm_coeff(Fraction(repr(float(x))))


_PI_CACHE = {}


def pi_multiple(x):
  """(k, e) with x == k * pi**e for a simple rational k, or None."""
  if x in _PI_CACHE:
    return _PI_CACHE[x]
  r = None
  if x and abs(x) < 1e4 and Fraction(x).denominator > 1 << 20:
    for e in (1, -1):
      k = Fraction(x / math.pi if e == 1 else x * math.pi)
      s = k.limit_denominator(720)
      if s and abs(s.numerator) <= 720 and abs(s - k) <= abs(k) * Fraction(1, 2 ** 51):
        r = (norm_coeff(s), e)
        break
  _PI_CACHE[x] = r
  return r


class Var(object):
  __slots__ = ('id', 'name', 'kind', 'data', 'defs', 'positive', 'nonneg', 'deps',
               'values', 'lo', 'hi')

  def __init__(self, id, name, kind):
    self.id = id
    self.name = name
    self.kind = kind
    self.data = None
    self.defs = []
    self.positive = False
    self.nonneg = False
    self.deps = frozenset()
    self.values = None
    self.lo = self.hi = None


class Space(object):
  """Variables of one harness (shared by all its paths)."""
  K = 192

  def __init__(self, seed):
    self.ring = Ring()
    self.vars = []
    self.by_key = {}
    self.seed = seed
    self.pi = None
    self.evalcache = {}

  def rng(self, name):
    return np.random.RandomState((zlib.crc32(name.encode()) ^ (self.seed * 2654435761)) & 0xffffffff)

  def new(self, key, name, kind):
    v = Var(len(self.vars), name, kind)
    self.vars.append(v)
    self.by_key[key] = v
    return v

  # -- numeric evaluation on the sample pool ---------------------------------
  def val(self, vid):
    v = self.vars[vid]
    if v.values is None:
      with np.errstate(all='ignore'):
        v.values = self._compute(v)
    return v.values

  def _compute(self, v):
    if v.kind == 'sqrt':
      return np.sqrt(self.evalp(v.data))
    if v.kind == 'acos':
      return np.arccos(v.data.neval(self))
    if v.kind == 'cos':
      return np.cos(v.data.neval(self))
    if v.kind == 'sin':
      return np.sin(v.data.neval(self))
    if v.kind == 'log':
      return np.log(v.data.neval(self))
    if v.kind == 'pi':
      return np.full(self.K, math.pi)
    raise AssertionError(v.kind)

  def evalp(self, p):
    r = self.evalcache.get(p)
    if r is None:
      r = np.zeros(self.K)
      with np.errstate(all='ignore'):
        for m, c in p.t.items():
          x = float(c)
          for v, e in m:
            xv = self.val(v)
            x = x * (xv if e == 1 else xv ** e)
          r = r + x
      self.evalcache[p] = r
    return r

  def eval_point(self, p, pt):
    """Evaluate a polynomial at a dict var id -> float (defined vars computed)."""
    r = 0.0
    for m, c in p.t.items():
      x = float(c)
      for v, e in m:
        x *= self.point_val(v, pt) ** e
      r += x
    return r

  def point_val(self, vid, pt):
    if vid in pt:
      return pt[vid]
    v = self.vars[vid]
    if v.kind == 'sqrt':
      a = self.eval_point(v.data, pt)
      r = math.sqrt(a) if a >= 0 else (0.0 if a > -1e-9 else float('nan'))
    elif v.kind == 'acos':
      a = v.data.peval(self, pt)
      r = math.acos(min(1, max(-1, a)))
    elif v.kind == 'cos':
      r = math.cos(v.data.peval(self, pt))
    elif v.kind == 'sin':
      r = math.sin(v.data.peval(self, pt))
    elif v.kind == 'log':
      a = v.data.peval(self, pt)
      r = math.log(a) if a > 0 else float('nan')
    elif v.kind == 'pi':
      r = math.pi
    else:
      r = 0.0
    pt[vid] = r
    return r

  # -- variables -------------------------------------------------------------
  def PI(self):
    if self.pi is None:
      v = self.new('pi', 'PI', 'pi')
      v.positive = True
      self.pi = Sym(Poly.var(v.id))
      p = Poly.var(v.id)
      lo = Poly.const(Fraction(314159265358, 10 ** 11))
      hi = Poly.const(Fraction(314159265359, 10 ** 11))
      v.defs = [SB('<', lo.sub(p)), SB('<', p.sub(hi))]
    return self.pi

  def sample_values(self, v, name, lo, hi):
    r = self.rng(name)
    lo_ = -3.0 if lo is None else float(lo)
    hi_ = 3.0 if hi is None else float(hi)
    if lo is not None and hi is None:
      hi_ = lo_ + 6.0
    if hi is not None and lo is None:
      lo_ = hi_ - 6.0
    a = r.uniform(lo_, hi_, self.K)
    special = [0.0, 1.0, -1.0, 0.5, lo_, hi_, 1e-9, 1e-4, 2.0, 0.3, -0.5]
    special = [s for s in special if lo_ <= s <= hi_]
    pick = r.rand(self.K)
    for i in range(self.K):
      if pick[i] < 0.25:
        a[i] = special[r.randint(len(special))]
      elif pick[i] < 0.35:
        a[i] = lo_ + (hi_ - lo_) * 10 ** r.uniform(-9, 0)
    v.values = a

  def real(self, name, lo=None, hi=None, kind='in'):
    key = (kind, name)
    v = self.by_key.get(key)
    if v is None:
      v = self.new(key, name, kind)
      v.lo, v.hi = lo, hi
      p = Poly.var(v.id)
      if lo is not None:
        lo = norm_coeff(Fraction(lo))
        v.defs.append(SB('<=', Poly.const(lo).sub(p)))
        if lo > 0:
          v.positive = True
        if lo >= 0:
          v.nonneg = True
      if hi is not None:
        hi = norm_coeff(Fraction(hi))
        v.defs.append(SB('<=', p.sub(Poly.const(hi))))
      self.sample_values(v, name, lo, hi)
    return Sym(Poly.var(v.id))

  def unit_vector(self, name, n):
    """n components with unit Euclidean norm; the last one carries the rewrite rule."""
    key = ('unit', name)
    got = self.by_key.get(key)
    if got is None:
      vs = [self.new(('in', '%s[%d]' % (name, i)), '%s[%d]' % (name, i), 'in') for i in range(n)]
      r = self.rng(name)
      a = r.normal(size=(self.K, n))
      for i in range(self.K):
        k = r.rand()
        if k < 0.15:
          a[i] = np.eye(n)[r.randint(n)] * (1 if r.rand() < .5 else -1)
        elif k < 0.3:
          b = np.zeros(n)
          b[n - 1] = 1 if r.rand() < .7 else -1
          a[i] = b + r.normal(size=n) * 10 ** r.uniform(-9, -1)
        elif k < 0.4:
          a[i][r.randint(n)] = 0
        elif k < 0.5:
          a[i][n - 1] = 0
      a /= np.linalg.norm(a, axis=1)[:, None]
      for i in range(n):
        vs[i].values = a[:, i].copy()
        vs[i].lo, vs[i].hi = -1, 1
      ps = [Poly.var(v.id) for v in vs]
      rule = ONE
      raw = ONE.neg()
      for v in vs[:-1]:
        sq = Poly({((v.id, 2),): 1})
        rule = rule.sub(sq)
      for v in vs:
        raw = raw.add(Poly({((v.id, 2),): 1}))
      self.ring.rules[vs[-1].id] = rule
      d = SB('=', raw)
      for v in vs:
        # the bounds follow from the norm; they help the solver
        v.defs = [d, SB('<=', Poly.var(v.id).sub(ONE)), SB('<=', Poly.var(v.id).neg().sub(ONE))]
      got = [Sym(p) for p in ps]
      self.by_key[key] = got
    return list(got)

  def sqrt_var(self, p):
    key = ('sqrt', p)
    v = self.by_key.get(key)
    if v is None:
      v = self.new(key, 'sqrt%d' % len(self.vars), 'sqrt')
      v.data = p
      v.nonneg = True
      v.deps = p.vars()
      self.ring.rules[v.id] = p
      raw = Poly({((v.id, 2),): 1}).sub(p)
      v.defs = [SB('=', raw), SB('<=', Poly.var(v.id).neg())]
    return v


class SB(object):
  """Symbolic boolean: comparison atoms 'poly op 0' and and/or/not combinations."""
  __slots__ = ('op', 'a', '_z', '_vars', '_h')

  def __init__(self, op, a):
    self.op = op      # '<' '<=' '=' '!=' 'and' 'or' 'const' 'bvar'
    self.a = a
    self._z = None
    self._vars = None
    self._h = None

  def __hash__(self):
    if self._h is None:
      self._h = hash((self.op, self.a if not isinstance(self.a, list) else tuple(self.a)))
    return self._h

  def __eq__(self, o):
    if isinstance(o, SB):
      if self is o:
        return True
      return self.op == o.op and self.a == o.a
    if isinstance(o, (bool, np.bool_)):
      return bool(self) == bool(o)
    return NotImplemented

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  def vars(self):
    if self._vars is None:
      if self.op in ('and', 'or'):
        s = frozenset()
        for x in self.a:
          s |= x.vars()
      elif self.op in ('const', 'bvar'):
        s = frozenset() if self.op == 'const' else frozenset([('b', self.a)])
      else:
        s = self.a.vars()
      self._vars = s
    return self._vars

  def negate(self):
    op = self.op
    if op == 'const':
      return SB('const', not self.a)
    if op == '<':
      return atom('<=', self.a.neg())
    if op == '<=':
      return atom('<', self.a.neg())
    if op == '=':
      return SB('!=', self.a)
    if op == '!=':
      return SB('=', self.a)
    if op == 'and':
      return b_or([x.negate() for x in self.a])
    if op == 'or':
      return b_and([x.negate() for x in self.a])
    raise AssertionError(op)

  def __bool__(self):
    return CUR.branch(self)

  def __and__(self, o):
    return b_and([self, to_sb(o)])

  __rand__ = __and__

  def __or__(self, o):
    return b_or([self, to_sb(o)])

  __ror__ = __or__

  def __invert__(self):
    return self.negate()

  def logical_not(self):
    return self.negate()

  def __int__(self):
    return int(bool(self))

  __index__ = __int__

  def __add__(self, o):
    return int(self) + o

  __radd__ = __add__

  def __mul__(self, o):
    return int(self) * o

  __rmul__ = __mul__

  def __repr__(self):
    return '<cond>'

  def __str__(self):
    return str(bool(self))

  def __format__(self, spec):
    return format(bool(self), spec)

  def show(self, sp):
    """readable text, for debugging"""
    if self.op in ('and', 'or'):
      return '(' + (' %s ' % self.op).join(x.show(sp) for x in self.a) + ')'
    if self.op == 'const':
      return str(self.a)
    ts = []
    for m, c in list(self.a.t.items())[:12]:
      ts.append('*'.join(['%.4g' % float(c)] + [sp.vars[v].name + ('^%d' % e if e > 1 else '') for v, e in m]))
    return ' + '.join(ts) + (' +...%d' % len(self.a.t) if len(self.a.t) > 12 else '') + ' ' + self.op + ' 0'

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def all(self, *a, **k):
    return self

  any = all

  def neval(self, space):
    op = self.op
    if op == 'const':
      return np.full(space.K, self.a)
    if op == 'and':
      r = np.full(space.K, True)
      for x in self.a:
        r = r & x.neval(space)
      return r
    if op == 'or':
      r = np.full(space.K, False)
      for x in self.a:
        r = r | x.neval(space)
      return r
    v = space.evalp(self.a)
    with np.errstate(all='ignore'):
      if op == '<':
        return v < 0
      if op == '<=':
        return v <= 0
      if op == '=':
        return v == 0
      return (v != 0) & ~np.isnan(v)

  def peval(self, space, pt, slack=0.0):
    op = self.op
    if op == 'const':
      return self.a
    if op == 'and':
      return all(x.peval(space, pt, slack) for x in self.a)
    if op == 'or':
      return any(x.peval(space, pt, slack) for x in self.a)
    v = space.eval_point(self.a, pt)
    if op == '<':
      return v < slack
    if op == '<=':
      return v <= slack
    if op == '=':
      return abs(v) <= slack
    return v != 0


TRUE = SB('const', True)
FALSE = SB('const', False)


def to_sb(x):
  if isinstance(x, SB):
    return x
  if isinstance(x, Sym):
    return x != 0
  return TRUE if x else FALSE


def b_and(xs):
  out = []
  for x in xs:
    if x.op == 'const':
      if not x.a:
        return FALSE
      continue
    if x.op == 'and':
      out.extend(x.a)
    else:
      out.append(x)
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  return SB('and', out)


def b_or(xs):
  out = []
  for x in xs:
    if x.op == 'const':
      if x.a:
        return TRUE
      continue
    if x.op == 'or':
      out.extend(x.a)
    else:
      out.append(x)
  if not out:
    return FALSE
  if len(out) == 1:
    return out[0]
  return SB('or', out)


def poly_sign(p):
  """Cheap sound sign information: '+', '-', '0+', '0-', '0' or None."""
  if p.is_zero():
    return '0'
  vs = CUR.space.vars if CUR is not None else None
  pos = neg = False
  strict = False
  for m, c in p.t.items():
    st = True
    for v, e in m:
      if vs is not None and vs[v].positive:
        continue
      if e % 2 == 0 or (vs is not None and vs[v].nonneg):
        st = False
        continue
      return None
    if c > 0:
      pos = True
    else:
      neg = True
    strict = strict or st
  if pos and neg:
    return None
  if pos:
    return '+' if strict else '0+'
  return '-' if strict else '0-'


def atom(op, p):
  """poly op 0 with cheap constant folding."""
  if p.is_const():
    c = p.const_value()
    return SB('const', {'<': c < 0, '<=': c <= 0, '=': c == 0, '!=': c != 0}[op])
  s = poly_sign(p)
  if s == '+':
    return SB('const', op == '!=')
  if s == '-':
    return SB('const', op != '=')
  if s == '0+' and op == '<':
    return FALSE
  if s == '0-' and op == '<=':
    return TRUE
  # factors that are positive do not matter
  if len(p.t) > 1:
    fac, _ = monomial_content(p)
    if fac and CUR is not None:
      vs = CUR.space.vars
      fac = tuple((v, e) for v, e in fac if vs[v].positive)
      if fac:
        p = Poly({mono_div(m, fac): c for m, c in p.t.items()})
  # canonical scale
  c = abs(p.t[p.lead()])
  if c != 1:
    p = p.scale(Fraction(1) / c)
  if op in ('=', '!=') and p.t[p.lead()] < 0:
    p = p.neg()
  return SB(op, p)


def is_num(x):
  return isinstance(x, (int, float, Fraction, np.number, np.bool_)) and not isinstance(x, np.ndarray)


class Sym(object):
  """A quotient of polynomials.  den maps monic factor -> exponent."""
  __slots__ = ('num', 'den')

  def __init__(self, num, den=None):
    self.num = num
    self.den = den or None

  # -- construction ------------------------------------------------------
  @staticmethod
  def lift(x):
    if isinstance(x, Sym):
      return x
    if isinstance(x, SB):
      return Sym(Poly.const(int(bool(x))))
    if isinstance(x, (bool, np.bool_)):
      return Sym(Poly.const(int(x)))
    if isinstance(x, (int, np.integer)):
      return Sym(Poly.const(int(x)))
    if isinstance(x, Fraction):
      return Sym(Poly.const(norm_coeff(x)))
    if isinstance(x, (float, np.floating)):
      x = float(x)
      if x != x or x in (math.inf, -math.inf):
        return None
      pm = pi_multiple(x)
      if pm is not None:
        pi = CUR.space.PI()
        return pi * Sym(Poly.const(pm[0])) if pm[1] == 1 else Sym(Poly.const(pm[0])) / pi
      return Sym(Poly.const(rationalise(x)))
    return NotImplemented

  def is_const(self):
    return self.den is None and self.num.is_const()

  def const(self):
    return self.num.const_value()

  # -- numeric ----------------------------------------------------------
  def neval(self, space):
    r = space.evalp(self.num)
    if self.den:
      with np.errstate(all='ignore'):
        for f, e in self.den.items():
          r = r / space.evalp(f) ** e
    return r

  def peval(self, space, pt):
    r = space.eval_point(self.num, pt)
    if self.den:
      for f, e in self.den.items():
        d = space.eval_point(f, pt)
        r = r / d ** e if d else float('nan')
    return r

  # -- arithmetic -------------------------------------------------------
  @staticmethod
  def _arr(o):
    if isinstance(o, (list, tuple)):
      return np.array(o, dtype=object)
    return None

  def _den_poly(self, d):
    ring = CUR.space.ring
    p = ONE
    for f, e in d.items():
      p = ring.mul(p, ring.pow(f, e))
    return p

  def _addsub(self, o, sign):
    ring = CUR.space.ring
    a, b = self, o
    bn = b.num if sign > 0 else b.num.neg()
    if a.den is None and b.den is None:
      return Sym(a.num.add(bn))
    da, db = a.den or {}, b.den or {}
    if da == db:
      return mk(a.num.add(bn), da)
    l = dict(da)
    for f, e in db.items():
      if l.get(f, 0) < e:
        l[f] = e
    na, nb = a.num, bn
    for f, e in l.items():
      k = e - da.get(f, 0)
      if k:
        na = ring.mul(na, ring.pow(f, k))
      k = e - db.get(f, 0)
      if k:
        nb = ring.mul(nb, ring.pow(f, k))
    return mk(na.add(nb), l)

  def _special(self, o, op):
    """arithmetic with a concrete nan/inf"""
    o = float(o)
    if o != o:
      return float('nan')
    if op == '+':
      return o
    if op == '-':
      return -o
    if op == '*':
      s = self > 0
      if bool(s):
        return o
      if bool(self < 0):
        return -o
      return float('nan')
    if op == '/':
      return Sym(ZERO)
    raise Unsupported('arithmetic with inf')

  def _bin(self, o, f, op):
    l = Sym._arr(o)
    if l is not None:
      return f(l)
    if isinstance(o, np.ndarray):
      return NotImplemented
    r = Sym.lift(o)
    if r is NotImplemented:
      return r
    return r

  def __add__(self, o):
    if isinstance(o, Sym):
      return self._addsub(o, 1)
    if isinstance(o, (list, tuple)):
      return np.array(o, dtype=object) + self
    r = Sym.lift(o)
    if r is NotImplemented:
      return r
    if r is None:
      return self._special(o, '+')
    return self._addsub(r, 1)

  __radd__ = __add__

  def __sub__(self, o):
    if isinstance(o, Sym):
      return self._addsub(o, -1)
    if isinstance(o, (list, tuple)):
      return self - np.array(o, dtype=object)
    r = Sym.lift(o)
    if r is NotImplemented:
      return r
    if r is None:
      return self._special(o, '-')
    return self._addsub(r, -1)

  def __rsub__(self, o):
    if isinstance(o, (list, tuple)):
      return np.array(o, dtype=object) - self
    r = Sym.lift(o)
    if r is NotImplemented:
      return r
    if r is None:
      return float(o)
    return r._addsub(self, -1)

  def __mul__(self, o):
    if not isinstance(o, Sym):
      if isinstance(o, (list, tuple)):
        return np.array(o, dtype=object) * self
      r = Sym.lift(o)
      if r is NotImplemented:
        return r
      if r is None:
        return self._special(o, '*')
      o = r
    ring = CUR.space.ring
    n = ring.mul(self.num, o.num)
    if self.den is None and o.den is None:
      return Sym(n)
    d = dict(self.den or {})
    for f, e in (o.den or {}).items():
      d[f] = d.get(f, 0) + e
    return mk(n, d)

  __rmul__ = __mul__

  def reciprocal(self):
    """1/self, assuming self != 0 on this path"""
    ring = CUR.space.ring
    num = self._den_poly(self.den) if self.den else ONE
    if self.num.is_const():
      return mk(num.scale(Fraction(1) / self.num.const_value()), {})
    # pull out common monomial factors so that they cancel individually
    fac, rest = monomial_content(self.num)
    d = {}
    for v, e in fac:
      d[Poly.var(v)] = e
    c = 1
    if rest.is_const():
      c = rest.const_value()
    else:
      rest, c = rest.monic()
      d[rest] = 1
    return mk(num.scale(Fraction(1) / c), d)

  def __truediv__(self, o):
    if not isinstance(o, Sym):
      if isinstance(o, (list, tuple)):
        return self / np.array(o, dtype=object)
      r = Sym.lift(o)
      if r is NotImplemented:
        return r
      if r is None:
        return self._special(o, '/')
      o = r
    return divide(self, o)

  def __rtruediv__(self, o):
    if isinstance(o, (list, tuple)):
      return np.array(o, dtype=object) / self
    r = Sym.lift(o)
    if r is NotImplemented:
      return r
    if r is None:
      return Sym.lift(1)._special(o, '*')
    return divide(r, self)

  __div__ = __truediv__
  __rdiv__ = __rtruediv__

  def __neg__(self):
    return Sym(self.num.neg(), self.den)

  def __pos__(self):
    return self

  def __abs__(self):
    s = sym_sign(self)
    if s in ('+', '0+', '0'):
      return self
    if s in ('-', '0-'):
      return -self
    if bool(self >= 0):
      return self
    return -self

  def __pow__(self, n, mod=None):
    if isinstance(n, Sym):
      if not n.is_const():
        raise Unsupported('symbolic exponent')
      n = n.const()
    if isinstance(n, (float, np.floating)):
      n = rationalise(float(n))
    if isinstance(n, (int, np.integer)):
      n = int(n)
      if n < 0:
        return Sym.lift(1) / (self ** (-n))
      ring = CUR.space.ring
      d = {f: e * n for f, e in self.den.items()} if self.den else {}
      return mk(ring.pow(self.num, n), d) if n else Sym(ONE)
    if n == Fraction(1, 2):
      return fsqrt(self)
    if n == Fraction(-1, 2):
      return Sym.lift(1) / fsqrt(self)
    raise Unsupported('exponent %r' % (n,))

  def __rpow__(self, b):
    raise Unsupported('symbolic exponent')

  def __mod__(self, m):
    m = Sym.lift(m)
    k = 0
    # find k with k*m <= self < (k+1)*m
    if bool(m <= 0):
      raise Unsupported('mod by non-positive')
    if bool(self >= 0):
      for k in range(0, 64):
        if bool(self < m * (k + 1)):
          return self - m * k
    else:
      for k in range(1, 64):
        if bool(self >= m * (-k)):
          return self + m * k
    raise Unsupported('mod out of range')

  def __rmod__(self, o):
    return Sym.lift(o) % self

  def __floordiv__(self, o):
    return (self / o).floor()

  def __rfloordiv__(self, o):
    return (Sym.lift(o) / self).floor()

  def floor(self):
    if self.is_const():
      return Sym(Poly.const(math.floor(self.const())))
    if bool(self >= 0):
      for k in range(0, CUR.int_limit):
        if bool(self < k + 1):
          return Sym(Poly.const(k))
    else:
      for k in range(1, CUR.int_limit):
        if bool(self >= -k):
          return Sym(Poly.const(-k))
    raise Budget('integer part out of the stated range')

  def __floor__(self):
    return int(self.floor())

  def __ceil__(self):
    return -int((-self).floor())

  def ceil(self):
    return -((-self).floor())

  def __trunc__(self):
    if self.is_const():
      return int(self.const())
    if bool(self >= 0):
      return int(self.floor().const())
    return -int((-self).floor().const())

  __int__ = __trunc__

  def __round__(self, n=None):
    if n is not None:
      if self.is_const():
        return Sym(Poly.const(Fraction(round(float(self.const()), n))))
      h = Fraction(1, 2) / Fraction(10) ** n
      return self + CUR.fresh('rounding', -h, h)
    return int((self + Fraction(1, 2)).floor().const())

  def rint(self):
    return Sym(Poly.const(round(self))) if not self.is_const() else Sym(Poly.const(round(self.const())))

  def __divmod__(self, o):
    q = self // o
    return q, self - q * o

  def __index__(self):
    if self.is_const() and isinstance(norm_coeff(self.const()), int):
      # floats are never valid indices
      raise TypeError("'float' object cannot be interpreted as an integer")
    raise TypeError("'float' object cannot be interpreted as an integer")

  def __float__(self):
    if self.is_const():
      return float(self.const())
    raise_steer(Unsupported('symbolic value converted to a C double'))

  def __complex__(self):
    raise_steer(Unsupported('symbolic value converted to complex'))

  # -- comparisons ------------------------------------------------------
  def _cmp(self, o, op):
    if not isinstance(o, Sym):
      if isinstance(o, (list, tuple)):
        raise Unsupported('compare with list')
      r = Sym.lift(o)
      if r is NotImplemented:
        return r
      if r is None:
        o = float(o)
        if o != o:
          return SB('const', op == '!=')
        res = {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '=': False, '!=': True}[op]
        return SB('const', res)
      o = r
    d = self._addsub(o, -1)
    return cmp0(d, op)

  def __lt__(self, o):
    return self._cmp(o, '<')

  def __le__(self, o):
    return self._cmp(o, '<=')

  def __gt__(self, o):
    return self._cmp(o, '>')

  def __ge__(self, o):
    return self._cmp(o, '>=')

  def __eq__(self, o):
    return self._cmp(o, '=')

  def __ne__(self, o):
    return self._cmp(o, '!=')

  def __hash__(self):
    return hash(self.num)

  def __bool__(self):
    return bool(self != 0)

  # -- methods numpy looks for on objects --------------------------------
  def sqrt(self):
    return fsqrt(self)

  def cos(self):
    return fcos(self)

  def sin(self):
    return fsin(self)

  def tan(self):
    return fsin(self) / fcos(self)

  def arccos(self):
    return facos(self)

  def arcsin(self):
    return CUR.space.PI() / 2 - facos(self)

  def arctan(self):
    return fatan2(self, Sym.lift(1))

  def arctan2(self, o):
    return fatan2(self, Sym.lift(o))

  def degrees(self):
    return self * 180 / CUR.space.PI()

  rad2deg = degrees

  def radians(self):
    return self * CUR.space.PI() / 180

  deg2rad = radians

  def fabs(self):
    return abs(self)

  def square(self):
    return self * self

  def log(self):
    return flog(self)

  def sign(self):
    if bool(self > 0):
      return Sym(ONE)
    if bool(self < 0):
      return Sym(ONE.neg())
    return Sym(ZERO)

  def isnan(self):
    return False

  def isfinite(self):
    return True

  def conjugate(self):
    return self

  conj = conjugate

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return Sym(ZERO)

  @property
  def T(self):
    return self

  @property
  def shape(self):
    return ()

  @property
  def ndim(self):
    return 0

  @property
  def size(self):
    return 1

  def copy(self):
    return self

  def item(self):
    return self

  def astype(self, t):
    return self

  def tolist(self):
    return self

  def max(self, *a, **k):
    return self

  min = sum = mean = max

  def is_integer(self):
    return bool(self == self.floor())

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __repr__(self):
    if self.is_const():
      c = self.const()
      f = float(c)
      if Fraction(repr(f)) == c:
        return repr(f)
    return CUR.token(self) if CUR is not None else '<sym>'

  __str__ = __repr__

  def __format__(self, spec):
    if spec == '':
      return repr(self)
    if self.is_const():
      return format(float(self.const()), spec)
    return CUR.token(self, spec)


numbers.Real.register(Sym)


def monomial_content(p):
  it = iter(p.t)
  m0 = dict(next(it))
  for m in it:
    if not m0:
      break
    d = dict(m)
    for v in list(m0):
      e = min(m0[v], d.get(v, 0))
      if e:
        m0[v] = e
      else:
        del m0[v]
  if not m0:
    return (), p
  fac = tuple(sorted(m0.items()))
  return fac, Poly({mono_div(m, fac): c for m, c in p.t.items()})


def mk(num, den):
  """Build num/den in lowest terms as far as cheaply possible."""
  if num.is_zero():
    return Sym(ZERO)
  if not den:
    return Sym(num)
  ring = CUR.space.ring
  d = {}
  for f, e in den.items():
    v = f.is_var()
    if v is not None and v in ring.rules and e > 1:
      base = ring.rules[v]
      if not base.is_zero():
        if e % 2:
          d[f] = d.get(f, 0) + 1
        if base.is_const():
          num = num.scale(Fraction(1) / (base.const_value() ** (e // 2)))
        else:
          fac, rest = monomial_content(base)
          for vv, ee in fac:
            k = Poly.var(vv)
            d[k] = d.get(k, 0) + ee * (e // 2)
          if not rest.is_const():
            rest, c = rest.monic()
            d[rest] = d.get(rest, 0) + e // 2
          else:
            c = rest.const_value()
          num = num.scale(Fraction(1) / (Fraction(c) ** (e // 2)))
        continue
    d[f] = d.get(f, 0) + e
  for f in list(d):
    e = d[f]
    while e > 0:
      q = div_exact(num, f)
      if q is None:
        break
      num = q
      e -= 1
    if e:
      d[f] = e
    else:
      del d[f]
  # num contains s (square root) and den contains its radicand: s/e = 1/s
  for f in list(d):
    e = d.get(f, 0)
    if e and CUR.space.by_key.get(('sqrtmonic', f)) is not None:
      s, c = CUR.space.by_key[('sqrtmonic', f)]
      sp = Poly.var(s)
      while e > 0:
        q = div_exact(num, sp)
        if q is None:
          break
        # num = s*q ; s/(f) with s^2 = c*f  ->  c/s
        num = q.scale(c)
        e -= 1
        d[sp] = d.get(sp, 0) + 1
      if e:
        d[f] = e
      else:
        d.pop(f, None)
  return Sym(num, d or None)


def sym_sign(s):
  a = poly_sign(s.num)
  if a is None or not s.den:
    return a
  for f, e in s.den.items():
    if e % 2 == 0:
      continue
    b = poly_sign(f)
    if b in ('+', '0+'):
      continue
    if b in ('-', '0-'):
      a = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0'}[a]
      continue
    return None
  return a


def cmp0(d, op):
  """d op 0 for a quotient d (denominator non-zero on this path)."""
  ring = CUR.space.ring
  n = d.num
  if d.den and op not in ('=', '!='):
    for f, e in d.den.items():
      if e % 2 == 0:
        continue
      b = poly_sign(f)
      if b in ('+', '0+'):
        continue
      if b in ('-', '0-'):
        n = n.neg()
        continue
      n = ring.mul(n, f)
  if op == '>':
    return atom('<', n.neg())
  if op == '>=':
    return atom('<=', n.neg())
  return atom(op, n)


def divide(a, b):
  if b.num.is_const():
    c = b.num.const_value()
    if c == 0:
      return nonfinite(a)
  elif poly_sign(b.num) not in ('+', '-'):
    if bool(b == 0):
      return nonfinite(a)
  return a * b.reciprocal()


def nonfinite(a):
  CUR.note_nonfinite()
  if bool(a == 0):
    return float('nan')
  if bool(a > 0):
    return float('inf')
  return float('-inf')


def raise_steer(e):
  if CUR is not None:
    CUR.aborted = e
  raise e


# -- functions ---------------------------------------------------------------
def fsqrt(x):
  if not isinstance(x, Sym):
    if is_num(x):
      if x != x or x == math.inf:
        return x
      if x == -math.inf:
        return float('nan')
    x = Sym.lift(x)
  if x.is_const():
    c = x.const()
    if c < 0:
      CUR.note_nonfinite()
      return float('nan')
    s = frac_sqrt(c)
    if s is not None:
      return Sym(Poly.const(s))
  sg = sym_sign(x)
  if sg not in ('+', '0+', '0'):
    if not bool(x >= 0):
      CUR.note_nonfinite()
      return float('nan')
  # numerator and denominator squares
  num, den = x.num, {}
  half = {}
  if x.den:
    ring = CUR.space.ring
    for f, e in x.den.items():
      if e // 2:
        half[f] = e // 2
      if e % 2:
        r = poly_sqrt(f)
        if r is not None and not r.is_const():
          r, c = r.monic()
          half[r] = half.get(r, 0) + 1
          num = num.scale(Fraction(1) / (c * c))
        else:
          # sqrt(n/f) = sqrt(n*f)/f
          num = ring.mul(num, f)
          half[f] = half.get(f, 0) + 1
  root = sqrt_poly(num)
  if not half:
    return root
  r = mk(root.num, dict(half, **{}) if root.den is None else _merge(root.den, half))
  # the denominator root must be taken positive
  for f, e in half.items():
    if e % 2 and poly_sign(f) not in ('+', '0+'):
      if not bool(cmp0(Sym(f), '>')):
        r = -r
  return r


def _merge(a, b):
  d = dict(a)
  for f, e in b.items():
    d[f] = d.get(f, 0) + e
  return d


def sqrt_poly(p):
  """Non-negative square root of a polynomial known to be >= 0 on this path."""
  if p.is_zero():
    return Sym(ZERO)
  q = poly_sqrt(p)
  if q is not None:
    return abs(Sym(q))
  # extract rational square and even monomial content
  fac, rest = monomial_content(p)
  out = {}
  keep = []
  for v, e in fac:
    if e // 2:
      out[v] = e // 2
    if e % 2:
      keep.append((v, 1))
  res = Sym(ONE)
  for v, e in out.items():
    res = res * abs(Sym(Poly.var(v))) ** e
  from symx.poly import mono_mul
  p = Poly({mono_mul(m, tuple(keep)): c for m, c in rest.t.items()})
  q = poly_sqrt(p)
  if q is not None:
    return res * abs(Sym(q))
  mon, lc = p.monic()
  if lc > 0 and not p.is_const():
    q = poly_sqrt(mon)
    if q is not None:
      return res * sqrt_poly(Poly.const(lc)) * abs(Sym(q))
  # factors that are the square of a known variable
  quo, known = p, []
  for v, rule in list(CUR.space.ring.rules.items()):
    while not rule.is_const() and rule.vars() <= quo.vars() and len(rule.t) <= len(quo.t):
      d = div_exact(quo, rule)
      if d is None:
        break
      known.append(v)
      quo = d
  if known:
    q = poly_sqrt(quo)
    if q is not None or poly_sign(quo) in ('+', '0+'):
      for v in known:
        res = res * abs(Sym(Poly.var(v)))
      if q is not None:
        return res * abs(Sym(q))
      p = quo
  # try the content-free square: normalise the leading coefficient to a squarefree scale
  c = abs(p.t[p.lead()])
  s = frac_sqrt(c)
  scale = 1
  if s is not None and s != 1:
    p = p.scale(Fraction(1) / c)
    scale = s
  v = CUR.space.sqrt_var(p)
  mon, lc = p.monic()
  CUR.space.by_key.setdefault(('sqrtmonic', mon), (v.id, lc))
  return res * Sym(Poly.var(v.id)) * scale


def angle_split(e):
  """e = k*theta + m*pi with theta an arc cosine variable; returns (k, theta, m) or None."""
  sp = CUR.space
  k = 0
  th = None
  m = 0
  if e.den:
    return None
  for mono, c in e.num.t.items():
    if len(mono) != 1 or mono[0][1] != 1:
      return None
    v = sp.vars[mono[0][0]]
    if v.kind == 'pi':
      m = c
    elif v.kind == 'acos' and th is None:
      th = v
      k = c
    else:
      return None
  return k, th, m


def trig_pair(e):
  """(cos e, sin e) as Syms"""
  sp = CUR.space
  if e.is_const():
    if e.const() == 0:
      return Sym(ONE), Sym(ZERO)
  s = angle_split(e)
  if s is not None:
    k, th, m = s
    c, sn = Sym(ONE), Sym(ZERO)
    ok = True
    if th is not None:
      ct = th.data
      if k in (1, -1):
        c, sn = ct, fsqrt(1 - ct * ct)
      elif k in (2, -2):
        st = fsqrt(1 - ct * ct)
        c, sn = 2 * ct * ct - 1, 2 * st * ct
      elif k in (Fraction(1, 2), Fraction(-1, 2)):
        c, sn = fsqrt((1 + ct) / 2), fsqrt((1 - ct) / 2)
      else:
        ok = False
      if k < 0:
        sn = -sn
    if ok and (2 * m) == int(2 * m):
      q = int(2 * m) % 4
      for _ in range(q):
        c, sn = -sn, c
      return c, sn
  # split off summands whose sine and cosine are known (addition theorems)
  if e.den is None and len(e.num.t) > 1:
    for mono, c in e.num.t.items():
      if len(mono) == 1 and mono[0][1] == 1 and (
          (sp.vars[mono[0][0]].kind == 'acos' and c in (1, -1, 2, -2, Fraction(1, 2), Fraction(-1, 2))) or
          (sp.vars[mono[0][0]].kind == 'pi' and 2 * c == int(2 * c))):
        p = Poly({mono: c})
        c1, s1 = trig_pair(Sym(p))
        c2, s2 = trig_pair(Sym(e.num.sub(p)))
        return c1 * c2 - s1 * s2, s1 * c2 + c1 * s2
  # generic: the sign in which the angle was first seen
  m = -e
  neg = ('trig', m.num, frozenset((m.den or {}).items())) in sp.by_key
  if neg:
    e = m
  key = ('trig', e.num, frozenset((e.den or {}).items()))
  got = sp.by_key.get(key)
  if got is None:
    c = sp.new(('cosv', key), 'cos%d' % len(sp.vars), 'cos')
    s_ = sp.new(('sinv', key), 'sin%d' % len(sp.vars), 'sin')
    c.data = s_.data = e
    sp.ring.rules[s_.id] = ONE.sub(Poly({((c.id, 2),): 1}))
    raw = Poly({((c.id, 2),): 1, ((s_.id, 2),): 1, (): -1})
    cs, ss = Sym(Poly.var(c.id)), Sym(Poly.var(s_.id))
    pi = sp.PI()
    base = [SB('=', raw)]
    for v in (c, s_):
      p = Poly.var(v.id)
      base.append(SB('<=', p.sub(ONE)))
      base.append(SB('<=', p.neg().sub(ONE)))
    lem = [
        b_or([(e >= 0).negate(), (e <= pi).negate(), ss >= 0]),
        b_or([(e >= 0).negate(), (e <= pi / 2).negate(), cs >= 0]),
        b_or([(e == 0).negate(), cs == 1]),
        b_or([(e > 0).negate(), (e < pi).negate(), ss > 0]),
    ]
    # |cos e| >= 1 - e^2/2 and |sin e| <= |e|
    lem.append(cs >= 1 - e * e / 2)
    lem.append(ss * ss <= e * e)
    # sin e >= 2 e/pi on [0, pi/2]
    lem.append(b_or([(e <= pi / 2).negate(), (e >= 0).negate(), ss >= Fraction(6366, 10000) * e]))
    # cos e <= 1 - 2 e^2/pi^2 on [-pi, pi]
    lem.append(b_or([(e <= pi).negate(), (e >= -pi).negate(), cs <= 1 - Fraction(2026, 10000) * e * e]))
    # the cosine falls on [0, pi]
    for k2, o in list(sp.by_key.items()):
      if isinstance(k2, tuple) and k2[0] == 'cosv' and o is not c:
        oe, oc = o.data, Sym(Poly.var(o.id))
        for a, b, ca, cb in ((e, oe, cs, oc), (oe, e, oc, cs)):
          lem.append(b_or([(a >= 0).negate(), (b <= pi).negate(), (a <= b).negate(), ca >= cb]))
    if e.is_const():
      for v, f in ((cs, math.cos), (ss, math.sin)):
        f = Fraction(f(float(e.const())))
        lem += [v >= f - Fraction(1, 10 ** 14), v <= f + Fraction(1, 10 ** 14)]
    base += [x for x in lem if x.op != 'const']
    c.defs = s_.defs = base
    c.deps = s_.deps = e.num.vars().union(*[f.vars() for f in (e.den or {})])
    # double angle relations with already known pairs
    for k2, o in list(sp.by_key.items()):
      if isinstance(k2, tuple) and k2[0] == 'trig' and isinstance(o, tuple):
        oe = sp.vars[o[0].num.is_var()].data
        for big, small, (cb, sb), (cm, sm) in ((e, oe, (cs, ss), o), (oe, e, o, (cs, ss))):
          if (big - small * 2).num.is_zero():
            c.defs = s_.defs = c.defs + [cb == 2 * cm * cm - 1, sb == 2 * sm * cm]
    got = (cs, ss)
    sp.by_key[key] = got
  c, sn = got
  return c, (-sn if neg else sn)


def fcos(x):
  x = Sym.lift(x)
  if x is None:
    return float('nan')
  return trig_pair(x)[0]


def fsin(x):
  x = Sym.lift(x)
  if x is None:
    return float('nan')
  return trig_pair(x)[1]


def facos(x):
  y = Sym.lift(x)
  if y is None:
    return float('nan')
  x = y
  sp = CUR.space
  pi = sp.PI()
  if x.is_const():
    c = x.const()
    if abs(c) > 1:
      CUR.note_nonfinite()
      return float('nan')
    if c == 1:
      return Sym(ZERO)
    if c == -1:
      return pi
    if c == 0:
      return pi / 2
    if c == Fraction(1, 2):
      return pi / 3
    if c == Fraction(-1, 2):
      return 2 * pi / 3
  if not bool(b_and([x <= 1, x >= -1])):
    CUR.note_nonfinite()
    return float('nan')
  # arccos(cos t) for a known angle variable
  v = x.num.is_var() if not x.den else None
  if v is not None and sp.vars[v].kind == 'cos':
    e = sp.vars[v].data
    if bool(b_and([e >= 0, e <= pi])):
      return e
  lead = x.num.t[x.num.lead()]
  if lead < 0:
    return pi - _acos_var(-x)
  return _acos_var(x)


def _acos_var(x):
  sp = CUR.space
  key = ('acos', x.num, frozenset((x.den or {}).items()))
  v = sp.by_key.get(key)
  if v is None:
    v = sp.new(key, 'acos%d' % len(sp.vars), 'acos')
    v.data = x
    v.nonneg = True
    v.deps = x.num.vars().union(*[f.vars() for f in (x.den or {})])
    th = Sym(Poly.var(v.id))
    pi = sp.PI()
    pid = pi.num
    v.defs = [SB('<=', th.num.neg()), SB('<=', th.num.sub(pid))]
    lem = [
        b_or([(x < 1).negate(), th > 0]),
        b_or([(x == 1).negate(), th == 0]),
        b_or([(x >= 0).negate(), th <= pi / 2]),
        b_or([(x <= 0).negate(), th >= pi / 2]),
        b_or([(x > 0).negate(), th < pi / 2]),
        b_or([(x < 0).negate(), th > pi / 2]),
        b_or([(x > -1).negate(), th < pi]),
        # 1 - th^2/2 <= cos th ; cos th <= 1 - 2 th^2/pi^2 (Jordan)
        x >= 1 - th * th / 2,
        x * pi * pi <= pi * pi - 2 * th * th,
        # the same for the supplementary angle
        -x >= 1 - (pi - th) * (pi - th) / 2,
        -x * pi * pi <= pi * pi - 2 * (pi - th) * (pi - th),
    ]
    v.defs = v.defs + [l for l in lem if l.op != 'const']
    # monotonicity against other arc cosines
    for k2, o in list(sp.by_key.items()):
      if isinstance(k2, tuple) and k2[0] == 'acos' and o is not v:
        ox, ot = o.data, Sym(Poly.var(o.id))
        v.defs.append(b_or([(x <= ox).negate(), th >= ot]))
        v.defs.append(b_or([(x >= ox).negate(), th <= ot]))
  return Sym(Poly.var(v.id))


def fatan2(y, x):
  y, x = Sym.lift(y), Sym.lift(x)
  r = fsqrt(x * x + y * y)
  if bool(r == 0):
    return Sym(ZERO)
  a = facos(x * r.reciprocal())
  if bool(y >= 0):
    return a
  return -a


def flog(x):
  x = Sym.lift(x)
  if x.is_const() and x.const() == 1:
    return Sym(ZERO)
  if not bool(x > 0):
    CUR.note_nonfinite()
    return float('-inf') if bool(x == 0) else float('nan')
  sp = CUR.space
  key = ('log', x.num, frozenset((x.den or {}).items()))
  v = sp.by_key.get(key)
  if v is None:
    v = sp.new(key, 'log%d' % len(sp.vars), 'log')
    v.data = x
    v.deps = x.num.vars().union(*[f.vars() for f in (x.den or {})])
    t = Sym(Poly.var(v.id))
    v.defs = [l for l in [t <= x - 1, x * t >= x - 1] if l.op != 'const']
    if x.is_const():
      val = math.log(float(x.const()))
      lo, hi = Fraction(val) - Fraction(1, 10 ** 9), Fraction(val) + Fraction(1, 10 ** 9)
      v.defs += [t >= Sym(Poly.const(lo)), t <= Sym(Poly.const(hi))]
    # monotonicity against other logarithms, 1 - y/x <= log x - log y <= x/y - 1
    for k2, o in list(sp.by_key.items()):
      if isinstance(k2, tuple) and k2[0] == 'log' and o is not v and not (x.is_const() and o.data.is_const()):
        y, d = o.data, t - Sym(Poly.var(o.id))
        v.deps = v.deps | {o.id} | o.deps
        v.defs += [l for l in [d * y <= x - y, d * x >= x - y] if l.op != 'const']
  return Sym(Poly.var(v.id))
