"""P37 division, equality and norm of dual quaternions"""
from symx.main import Harness
from lib import *

B = 'all eight components in [-10,10], rotation part with norm above 1e-3 where its norm or inverse is taken, divisors of magnitude 1e-3 to 10; exact real arithmetic'


def two(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  a, b = T.vec('a', 8, -10, 10), T.vec('b', 8, -10, 10)
  return D, a, b, D.from_vector(a.copy()), D.from_vector(b.copy())


def same(T, d, a, what):
  T.check_eq(d.dq, a, what + ' leaves its operand alone')


def quotient(T):
  D, a, b, da, db = two(T)
  T.assume(dot(b[:4], b[:4]) >= 1e-6)
  for r in (da / db, da.__div__(db)):
    T.check_eq(dqmul(r.dq, b), a, 'quotient times divisor')
    T.check_eq((r * db).dq, a, 'quotient times divisor')
  same(T, da, a, 'division')
  same(T, db, b, 'division')


def by_itself(T):
  D, a, b, da, db = two(T)
  T.assume(dot(a[:4], a[:4]) >= 1e-6)
  T.check_eq((da / da).dq, [0, 0, 0, 1, 0, 0, 0, 0], 'divided by itself')
  T.check_eq((D.identity() / da).dq, da.inverse().dq, 'one divided by it')
  T.check_eq((da / D.identity()).dq, a, 'divided by one')
  same(T, da, a, 'division')


def by_number(T):
  D, a, b, da, db = two(T)
  k = T.real('k', -10, 10)
  T.assume(T.or_(k >= 1e-3, k <= -1e-3))
  for r in (da / k, da.__div__(k)):
    T.check_eq([x * k for x in r.dq], a, 'divided by a number')
  n = T.choice('n', [1, 2, -4, 7])
  T.check_eq([x * n for x in (da / n).dq], a, 'divided by a whole number')
  same(T, da, a, 'division')
  r = da / k
  r.dq[2] = 3.
  same(T, da, a, 'changing a quotient')


def norm(T):
  D, a, b, da, db = two(T)
  T.assume(dot(a[:4], a[:4]) >= 1e-6)
  real, dual = da.norm()
  T.check(real >= 0, 'real part of the norm is not negative')
  T.check_eq(real * real, dot(a[:4], a[:4]), 'real part of the norm')
  T.check_eq(real * dual, dot(a[:4], a[4:]), 'dual part of the norm')
  same(T, da, a, 'norm')


def norm_of_product(T):
  """as a dual number the norm is multiplicative"""
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  k, l = T.real('k', 1e-2, 10), T.real('l', 1e-2, 10)
  a = [k * x for x in T.unit('a')] + list(T.vec('da', 4, -10, 10))
  b = [l * x for x in T.unit('b')] + list(T.vec('db', 4, -10, 10))
  da, db = D.from_vector(T.np.array(a)), D.from_vector(T.np.array(b))
  (ra, ea), (rb, eb), (r, e) = da.norm(), db.norm(), (da * db).norm()
  T.check_eq(r * r, ra * ra * rb * rb, 'real part of the norm of a product')
  # 2 r e = d(r^2), so the dual parts follow from the squares
  T.check_eq(r * e, ra * ea * rb * rb + rb * eb * ra * ra, 'dual part of the norm of a product')


def unit(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  q, t, s = T.unit('q'), T.vec('t', 3, -10, 10), T.real('s', 1e-3, 10)
  e = T.real('e', -10, 10)
  u = pose_dq(t, q)
  # scaled by s with the dual part pushed along the rotation part by e
  d = D.from_vector(T.np.array([s * x for x in u[:4]] + [s * x + e * y for x, y in zip(u[4:], u[:4])]))
  n = T.truth(d.is_normalized())
  if n:
    T.cover('unit')
    T.check(T.and_(s - 1 <= 1e-6, 1 - s <= 1e-6, e <= 1e-6, -e <= 1e-6), 'reported as unit only if it is')
  else:
    T.cover('not unit')
    T.check(T.not_(T.and_(s - 1 <= 1e-9, 1 - s <= 1e-9, e <= 1e-9, -e <= 1e-9)), 'a unit dual quaternion is reported as unit')


def equal(T):
  D, a, b, da, db = two(T)
  r = T.truth(da == db)
  if r:
    T.cover('equal')
    for x, y in zip(a, b):
      T.check(T.and_(x - y <= 1e-3, y - x <= 1e-3), 'equal only if every component is')
  else:
    T.cover('different')
    T.check(T.or_(*[T.or_(x - y >= 1e-9, y - x >= 1e-9) for x, y in zip(a, b)]), 'equal if every component is')
  same(T, da, a, 'comparison')
  same(T, db, b, 'comparison')


def identical(T):
  D, a, b, da, db = two(T)
  T.check(T.truth(da == D.from_vector(a.copy())), 'equal to itself')
  T.check(T.truth(da == da.copy()), 'equal to its copy')
  i = T.choice('component', list(range(8)))
  d = T.real('d', 1e-3, 1)
  c = a.copy()
  c[i] = c[i] + d
  T.check(not T.truth(da == D.from_vector(c)), 'not equal if one component differs')
  T.check(T.truth(da != D.from_vector(c)), 'unequal if one component differs')
  T.check(not T.truth(da == T.choice('other', [None, 1., 'x', T.mod('hand_eye_calibration.quaternion').Quaternion(q=a[:4])])),
          'not equal to anything but a dual quaternion')


HARNESSES = [Harness(f, bounds=B) for f in (quotient, by_itself, by_number, norm, norm_of_product, identical)]
HARNESSES += [Harness(unit, bounds=B, covers=('unit', 'not unit')), Harness(equal, bounds=B, covers=('equal', 'different'))]
