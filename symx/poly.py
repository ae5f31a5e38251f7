"""Sparse multivariate polynomials over the rationals, reduced modulo the defining
relations v*v = r of rule variables (square roots, sines, unit-norm components)."""
from fractions import Fraction


def norm_coeff(c):
  if isinstance(c, Fraction) and c.denominator == 1:
    return c.numerator
  return c


def mono_mul(a, b):
  if not a:
    return b
  if not b:
    return a
  out = []
  i = j = 0
  la = len(a)
  lb = len(b)
  while i < la and j < lb:
    va, ea = a[i]
    vb, eb = b[j]
    if va == vb:
      out.append((va, ea + eb))
      i += 1
      j += 1
    elif va < vb:
      out.append(a[i])
      i += 1
    else:
      out.append(b[j])
      j += 1
  if i < la:
    out.extend(a[i:])
  if j < lb:
    out.extend(b[j:])
  return tuple(out)


def mono_div(a, b):
  """a / b or None."""
  d = dict(a)
  for v, e in b:
    x = d.get(v, 0) - e
    if x < 0:
      return None
    if x:
      d[v] = x
    else:
      d.pop(v, None)
  return tuple(sorted(d.items()))


def mono_key(m):
  return tuple((-v, e) for v, e in m)


class Poly(object):
  __slots__ = ('t', '_h', '_vars', '_lead')

  def __init__(self, terms):
    self.t = terms
    self._h = None
    self._vars = None
    self._lead = None

  @staticmethod
  def const(c):
    return Poly({(): c} if c else {})

  @staticmethod
  def var(v):
    return Poly({((v, 1),): 1})

  def __hash__(self):
    if self._h is None:
      self._h = hash(frozenset(self.t.items()))
    return self._h

  def __eq__(self, o):
    return self is o or (isinstance(o, Poly) and hash(self) == hash(o) and self.t == o.t)

  def __ne__(self, o):
    return not self == o

  def is_zero(self):
    return not self.t

  def is_const(self):
    return not self.t or (len(self.t) == 1 and () in self.t)

  def const_value(self):
    return self.t.get((), 0)

  def vars(self):
    if self._vars is None:
      s = set()
      for m in self.t:
        for v, _ in m:
          s.add(v)
      self._vars = frozenset(s)
    return self._vars

  def neg(self):
    return Poly({m: -c for m, c in self.t.items()})

  def add(self, o):
    if len(self.t) < len(o.t):
      self, o = o, self
    r = dict(self.t)
    for m, c in o.t.items():
      x = r.get(m)
      if x is None:
        r[m] = c
      else:
        x = x + c
        if x:
          r[m] = norm_coeff(x)
        else:
          del r[m]
    return Poly(r)

  def sub(self, o):
    return self.add(o.neg())

  def scale(self, c):
    if not c:
      return Poly({})
    if c == 1:
      return self
    return Poly({m: norm_coeff(x * c) for m, x in self.t.items()})

  def lead(self):
    if self._lead is None:
      self._lead = max(self.t, key=mono_key)
    return self._lead

  def degree(self):
    return max((sum(e for _, e in m) for m in self.t), default=0)

  def monic(self):
    """(monic polynomial, leading coefficient)"""
    c = self.t[self.lead()]
    if c == 1:
      return self, 1
    inv = Fraction(1) / c
    return self.scale(inv), c

  def is_var(self):
    if len(self.t) == 1:
      (m, c), = self.t.items()
      if c == 1 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    return None


ZERO = Poly({})
ONE = Poly({(): 1})


class Ring(object):
  """Polynomial ring with rewriting rules v^2 -> poly."""

  def __init__(self):
    self.rules = {}
    self.cap = 400000

  def mul(self, a, b):
    if not a.t or not b.t:
      return ZERO
    if a.is_const():
      return b.scale(a.const_value())
    if b.is_const():
      return a.scale(b.const_value())
    r = {}
    get = r.get
    bt = list(b.t.items())
    if len(a.t) * len(bt) > 4000000:
      raise OverflowError('polynomial product too large')
    for m1, c1 in a.t.items():
      for m2, c2 in bt:
        m = mono_mul(m1, m2)
        c = get(m)
        r[m] = c1 * c2 if c is None else c + c1 * c2
    r = {m: norm_coeff(c) for m, c in r.items() if c}
    p = Poly(r)
    return self.reduce(p)

  def reduce(self, p):
    rules = self.rules
    if not rules:
      return p
    todo = [m for m in p.t if any(e > 1 and v in rules for v, e in m)]
    if not todo:
      return p
    r = dict(p.t)
    while todo:
      acc = {}
      for m in todo:
        c = r.pop(m, None)
        if c is None:
          continue
        # reduce the highest-index rule variable first (defined latest)
        for v, e in reversed(m):
          if e > 1 and v in rules:
            break
        rest = tuple(x for x in m if x[0] != v)
        if e % 2:
          rest = mono_mul(rest, ((v, 1),))
        rp = self.power_raw(rules[v], e // 2)
        for m2, c2 in rp.t.items():
          mm = mono_mul(rest, m2)
          acc[mm] = acc.get(mm, 0) + c * c2
      todo = []
      for m, c in acc.items():
        x = r.get(m, 0) + c
        if x:
          r[m] = norm_coeff(x)
        else:
          r.pop(m, None)
      if len(r) > self.cap:
        raise OverflowError('polynomial too large')
      for m in acc:
        if m in r and any(e > 1 and v in rules for v, e in m):
          todo.append(m)
    return Poly(r)

  def power_raw(self, p, n):
    r = ONE
    for _ in range(n):
      t = {}
      for m1, c1 in r.t.items():
        for m2, c2 in p.t.items():
          m = mono_mul(m1, m2)
          t[m] = t.get(m, 0) + c1 * c2
      r = Poly({m: norm_coeff(c) for m, c in t.items() if c})
    return r

  def pow(self, p, n):
    r = ONE
    while n:
      if n & 1:
        r = self.mul(r, p)
      n >>= 1
      if n:
        p = self.mul(p, p)
    return r


def div_exact(p, f):
  """p / f in the free polynomial ring, or None if f does not divide p."""
  if p.is_zero():
    return p
  if f.is_const():
    return p.scale(Fraction(1) / f.const_value())
  if len(f.t) == 1:
    (fm, fc), = f.t.items()
    r = {}
    inv = Fraction(1) / fc
    for m, c in p.t.items():
      d = mono_div(m, fm)
      if d is None:
        return None
      r[d] = norm_coeff(c * inv)
    return Poly(r)
  if not f.vars() <= p.vars():
    return None
  if f.degree() > p.degree() or len(p.t) > 3000:
    return None
  fl = f.lead()
  fc = f.t[fl]
  rem = dict(p.t)
  quo = {}
  steps = 0
  fitems = list(f.t.items())
  while rem:
    m = max(rem, key=mono_key)
    d = mono_div(m, fl)
    if d is None:
      return None
    c = norm_coeff(Fraction(rem[m]) / fc)
    quo[d] = c
    for m2, c2 in fitems:
      mm = mono_mul(d, m2)
      x = rem.get(mm, 0) - c * c2
      if x:
        rem[mm] = norm_coeff(x)
      else:
        rem.pop(mm, None)
    steps += 1
    if steps > 2000:
      return None
  return Poly(quo)


def frac_sqrt(c):
  """exact rational square root or None"""
  from math import isqrt
  c = Fraction(c)
  if c < 0:
    return None
  a, b = isqrt(c.numerator), isqrt(c.denominator)
  if a * a == c.numerator and b * b == c.denominator:
    return norm_coeff(Fraction(a, b))
  return None


def poly_sqrt(p):
  """q with q*q == p in the free ring, or None."""
  if p.is_zero():
    return p
  if p.is_const():
    s = frac_sqrt(p.const_value())
    return None if s is None else Poly.const(s)
  if len(p.t) > 400:
    return None
  lead = p.lead()
  if any(e % 2 for _, e in lead):
    return None
  s = frac_sqrt(p.t[lead])
  if s is None:
    return None
  root_lead = tuple((v, e // 2) for v, e in lead)
  q = {root_lead: s}
  rem = dict(p.t)
  rem.pop(lead)
  steps = 0
  two = 2 * s
  while rem:
    m = max(rem, key=mono_key)
    d = mono_div(m, root_lead)
    if d is None or mono_key(d) >= mono_key(root_lead):
      return None
    c = norm_coeff(Fraction(rem[m]) / two)
    # subtract 2*c*d*q + c^2 d^2
    for m2, c2 in list(q.items()):
      mm = mono_mul(d, m2)
      x = rem.get(mm, 0) - 2 * c * c2
      if x:
        rem[mm] = norm_coeff(x)
      else:
        rem.pop(mm, None)
    mm = mono_mul(d, d)
    x = rem.get(mm, 0) - c * c
    if x:
      rem[mm] = norm_coeff(x)
    else:
      rem.pop(mm, None)
    if d in q:
      return None
    q[d] = c
    steps += 1
    if steps > 60:
      return None
  return Poly(q)
