"""P08 dual quaternion algebra"""
from symx.main import Harness
from lib import *
from p37 import quotient, by_number

B = 'all eight components in [-10,10] (rotation part with norm above 1e-3 where inverted or divided by), scalars in [-10,10], divisors of magnitude 1e-3 to 10; exact real arithmetic'


def _two(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  a, b = T.vec('a', 8, -10, 10), T.vec('b', 8, -10, 10)
  return D, a, b, D.from_vector(a.copy()), D.from_vector(b.copy())


def _same(T, d, a, what):
  T.check_eq(d.dq, a, what + ' leaves its operand alone')


def construct(T):
  D, a, b, da, db = _two(T)
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  T.check_eq(da.dq, a, 'from a vector')
  T.check_eq(D.from_vector(list(a)).dq, a, 'from a list')
  qr, qd = Q(q=a[:4].copy()), Q(q=a[4:].copy())
  d = D(qr, qd)
  T.check_eq(d.dq, a, 'from two quaternions')
  qr.q[0] = 3.
  qd.q[1] = 4.
  T.check_eq(d.dq, a, 'owns its data')
  T.check_eq(da.q_rot.q, a[:4], 'rotation part')
  T.check_eq(da.q_dual.q, a[4:], 'dual part')
  T.check_eq([da.r_x, da.r_y, da.r_z, da.r_w, da.t_x, da.t_y, da.t_z, da.t_w], a, 'component accessors')
  c = da.copy()
  T.check_eq(c.dq, a, 'copy')
  c.dq[3] = 9.
  _same(T, da, a, 'changing a copy')
  T.check_eq(D.identity().dq, [0, 0, 0, 1, 0, 0, 0, 0], 'identity')


def sums(T):
  D, a, b, da, db = _two(T)
  k = T.real('k', -10, 10)
  T.check_eq((da + db).dq, a + b, 'sum')
  T.check_eq((da - db).dq, a - b, 'difference')
  T.check_eq((da * k).dq, [x * k for x in a], 'multiple from the right')
  T.check_eq((k * da).dq, [x * k for x in a], 'multiple from the left')
  _same(T, da, a, 'sums')
  _same(T, db, b, 'sums')


def product(T):
  D, a, b, da, db = _two(T)
  r = da * db
  T.check_eq(r.dq, dqmul(a, b), 'product')
  T.check_eq(r.conjugate().dq, (db.conjugate() * da.conjugate()).dq, 'conjugate of a product')
  r.dq[0] = 5.
  _same(T, da, a, 'product')
  _same(T, db, b, 'product')


def ring(T):
  D, a, b, da, db = _two(T)
  dc = D.from_vector(T.vec('c', 8, -10, 10))
  T.check_eq(((da * db) * dc).dq, (da * (db * dc)).dq, 'associative')
  T.check_eq((da * (db + dc)).dq, (da * db + da * dc).dq, 'left distributive')
  T.check_eq(((da + db) * dc).dq, (da * dc + db * dc).dq, 'right distributive')
  one = D.identity()
  T.check_eq((one * da).dq, a, 'one is neutral')
  T.check_eq((da * one).dq, a, 'one is neutral')


def conjugate(T):
  D, a, b, da, db = _two(T)
  T.check_eq(da.conjugate().dq, qconj(a[:4]) + qconj(a[4:]), 'conjugate')
  s = da.scalar()
  T.check_eq(s.dq, [0, 0, 0, a[3], 0, 0, 0, a[7]], 'scalar part')
  h = 0.5 * (da + da.conjugate())
  T.check_eq(s.dq, h.dq, 'scalar part is half the sum with the conjugate')
  _same(T, da, a, 'conjugate and scalar part')


def inverse(T):
  D, a, b, da, db = _two(T)
  T.assume(dot(a[:4], a[:4]) >= 1e-6)
  i = da.inverse()
  one = [0, 0, 0, 1, 0, 0, 0, 0]
  T.check_eq((da * i).dq, one, 'inverse from the right')
  T.check_eq((i * da).dq, one, 'inverse from the left')
  T.check_eq(dqmul(i.dq, a), one, 'inverse')
  _same(T, da, a, 'inverse')


HARNESSES = [Harness(f, bounds=B) for f in (construct, sums, product, ring, conjugate, inverse, quotient, by_number)]
