"""P10 dual quaternions form the group of rigid transformations"""
from symx.main import Harness
from lib import *
from p37 import unit

B = 'positions in [-100,100]^3, all orientations; exact real arithmetic'


def _mod(T):
  return T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion


def _unit(T, d, what):
  T.check_eq(dot(d.dq[:4], d.dq[:4]), 1, what + ' is unit')
  T.check_eq(dot(d.dq[:4], d.dq[4:]), 0, what + ' has an orthogonal dual part')
  T.check(T.truth(d.is_normalized()), what + ' is reported as unit')


def product(T):
  D = _mod(T)
  t1, u1 = T.vec('t1', 3, -100, 100), T.unit('u1')
  t2, u2 = T.vec('t2', 3, -100, 100), T.unit('u2')
  a, b = D.from_vector(pose_dq(t1, u1)), D.from_vector(pose_dq(t2, u2))
  r = a * b
  _unit(T, r, 'product')
  t, q = compose((t1, u1), (t2, u2))
  M = r.to_matrix()
  T.check_eq([M[i, 3] for i in range(3)], t, 'position of the product')
  T.check_eq([[M[i, j] for j in range(3)] for i in range(3)], matmul(rotmat(u1), rotmat(u2)), 'rotation of the product')
  T.check_eq([M[3, j] for j in range(4)], [0, 0, 0, 1], 'last row')
  A, Bm = a.to_matrix(), b.to_matrix()
  P = [[sum(A[i, k] * Bm[k, j] for k in range(4)) for j in range(4)] for i in range(4)]
  T.check_eq(M, P, 'matrix of the product')


def inverse(T):
  D = _mod(T)
  t, u = T.vec('t', 3, -100, 100), T.unit('u')
  d = D.from_vector(pose_dq(t, u))
  i = d.inverse()
  _unit(T, i, 'inverse')
  M, N = d.to_matrix(), i.to_matrix()
  P = [[sum(M[i, k] * N[k, j] for k in range(4)) for j in range(4)] for i in range(4)]
  T.check_eq(P, [[1 if i == j else 0 for j in range(4)] for i in range(4)], 'inverse matrix')
  R = rotmat(u)
  T.check_eq([N[i, 3] for i in range(3)], [-sum(R[k][i] * t[k] for k in range(3)) for i in range(3)], 'position of the inverse')
  T.check_eq([[N[i, j] for j in range(3)] for i in range(3)], [[R[j][i] for j in range(3)] for i in range(3)], 'rotation of the inverse')


def points(T):
  D = _mod(T)
  t, u = T.vec('t', 3, -100, 100), T.unit('u')
  p = T.vec('p', 3, -100, 100)
  v = pose_dq(t, u)
  d = D.from_vector(v)
  q = p.copy()
  x = d.passive_transform_point(q)
  T.check_eq(x, [a + b for a, b in zip(rot(u, p), t)], 'passive: the matrix times the point')
  y = d.active_transform_point(q)
  T.check_eq(y, rot(qconj(u), [a - b for a, b in zip(p, t)]), 'active: the inverse matrix times the point')
  T.check_eq(d.dq, v, 'the transformation is left alone')
  T.check_eq(q, p, 'the point is left alone')
  T.check(len(x) == 3 and len(y) == 3, 'three coordinates')


HARNESSES = [Harness(f, bounds=B) for f in (product, inverse, points)]
HARNESSES += [Harness(unit, bounds='rotation part of length 1e-3 to 10, dual part pushed along it by -10 to 10, positions in [-10,10]^3', covers=('unit', 'not unit'))]
