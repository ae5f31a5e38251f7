"""P01 quaternion algebra: the operators of Quaternion against Hamilton's definition."""
from symx.main import Harness
from lib import *

B = 'components in [-10,10], scalars in [-10,10] (non-zero where divided by); exact real arithmetic'


def _two(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  a, b = T.vec('a', 4, -10, 10), T.vec('b', 4, -10, 10)
  return Q, a, b, Q(q=a.copy()), Q(q=b.copy())


def _same(T, q, a, what):
  T.check_eq(q.q, a, what + ' leaves its operand alone')


def product(T):
  Q, a, b, qa, qb = _two(T)
  r = qa * qb
  T.check_eq(r.q, qmul(a, b), 'Hamilton product')
  T.check_eq(r.squared_norm(), dot(a, a) * dot(b, b), 'squared norm is multiplicative')
  T.check_eq(r.norm() * r.norm(), dot(a, a) * dot(b, b), 'norm is multiplicative')
  _same(T, qa, a, 'product')
  _same(T, qb, b, 'product')
  # the result owns its data
  r.q[0] = 7.0
  _same(T, qa, a, 'changing the product')


def constructor(T):
  Q, a, b, qa, qb = _two(T)
  q = Q(a[0], a[1], a[2], a[3])
  T.check_eq(q.q, a, 'constructor from components')
  T.check_eq([q.x, q.y, q.z, q.w], a, 'component accessors')
  v = a.copy()
  q = Q(q=v)
  v[1] = 5.0
  T.check_eq(q.q, a, 'constructor copies the array')
  c = qa.copy()
  c.q[2] = 4.0
  _same(T, qa, a, 'changing a copy')
  T.check_eq(Q().q, [0, 0, 0, 1], 'default is one')


def ring(T):
  Q, a, b, qa, qb = _two(T)
  c = T.vec('c', 4, -10, 10)
  qc = Q(q=c)
  T.check_eq(((qa * qb) * qc).q, (qa * (qb * qc)).q, 'associative')
  T.check_eq((qa * (qb + qc)).q, (qa * qb + qa * qc).q, 'left distributive')
  T.check_eq(((qa + qb) * qc).q, (qa * qc + qb * qc).q, 'right distributive')
  one = Q(0., 0., 0., 1.)
  T.check_eq((one * qa).q, a, 'one is neutral')
  T.check_eq((qa * one).q, a, 'one is neutral')


def units(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  i, j, k = Q(1, 0, 0, 0), Q(0, 1, 0, 0), Q(0, 0, 1, 0)
  T.check_eq((i * j).q, k.q, 'i*j=k')
  T.check_eq((j * k).q, i.q, 'j*k=i')
  T.check_eq((k * i).q, j.q, 'k*i=j')
  for u in (i, j, k):
    T.check_eq((u * u).q, [0, 0, 0, -1], 'units square to -1')


def components(T):
  Q, a, b, qa, qb = _two(T)
  T.check_eq((qa + qb).q, [x + y for x, y in zip(a, b)], 'sum')
  T.check_eq((qa - qb).q, [x - y for x, y in zip(a, b)], 'difference')
  T.check_eq((-qa).q, [-x for x in a], 'negation')
  T.check_eq(qa.conjugate().q, qconj(a), 'conjugate')
  T.check_eq((qa.conjugate() * qb.conjugate()).q, (qb * qa).conjugate().q, 'conjugation reverses products')
  T.check_eq(qa.squared_norm(), dot(a, a), 'squared norm')
  _same(T, qa, a, 'sum/difference/negation/conjugation')
  _same(T, qb, b, 'sum/difference')


def scalars(T):
  Q, a, b, qa, qb = _two(T)
  s = T.real('s', -10, 10)
  T.check_eq((qa * s).q, [x * s for x in a], 'scalar from the right')
  T.check_eq((s * qa).q, [x * s for x in a], 'scalar from the left')
  T.check_eq((qa * 3).q, [x * 3 for x in a], 'integer scalar from the right')
  T.check_eq((2 * qa).q, [x * 2 for x in a], 'integer scalar from the left')
  T.assume(T.or_(s > 0.001, s < -0.001))
  T.check_eq((qa / s).q, [x / s for x in a], 'scalar division')
  T.check_eq((qa / 4).q, [x / 4 for x in a], 'integer scalar division')
  _same(T, qa, a, 'scalar multiple')


def inverse(T):
  Q, a, b, qa, qb = _two(T)
  T.assume(dot(a, a) > 0.000001)
  inv = qa.inverse()
  T.check_eq((qa * inv).q, [0, 0, 0, 1], 'right inverse')
  T.check_eq((inv * qa).q, [0, 0, 0, 1], 'left inverse')
  T.check_eq((qb / qa).q, (qb * inv).q, 'division is multiplication by the inverse from the right')
  T.check_eq(((qb / qa) * qa).q, b, 'division undoes multiplication')
  _same(T, qa, a, 'inverse')
  _same(T, qb, b, 'division')


def normalize(T):
  Q, a, b, qa, qb = _two(T)
  n = qa.norm()
  T.check(n >= 0, 'norm is non-negative')
  T.check_eq(n * n, dot(a, a), 'norm')
  T.assume(dot(a, a) > 0.000001)
  qa.normalize()
  T.check_eq(dot(qa.q, qa.q), 1, 'normalising gives unit length')
  T.check_eq(qa.q * n, a, 'normalising keeps the direction')


HARNESSES = [Harness(f, bounds=B) for f in (
    product, constructor, ring, units, components, scalars, inverse, normalize)]
