"""P02 rotation consistency of Quaternion"""
from symx.main import Harness
from lib import *

B = 'all unit quaternions, vectors in [-100,100]^3; exact real arithmetic'


def agree(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  u = T.unit('q')
  v = T.vec('v', 3, -100, 100)
  q = Q(q=u.copy())
  R = rotmat(u)
  want = matvec(R, v)
  T.check_eq(q.rotate_vector(v), want, 'rotate_vector')
  T.check_eq(q.to_rotation_matrix(), R, 'rotation matrix')
  M = q.to_transformation_matrix()
  T.check_eq(M, [R[0] + [0], R[1] + [0], R[2] + [0], [0, 0, 0, 1]], 'transformation matrix')
  p = Q(v[0], v[1], v[2], 0.)
  s = q * p * q.inverse()
  T.check_eq(s.q, want + [0], 'sandwich product')
  T.check_eq(q.q, u, 'quaternion unchanged')
  w = T.np.dot(q.to_rotation_matrix(), v)
  T.check_eq(w, q.rotate_vector(v), 'matrix times vector')


def orthonormal(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  u = T.unit('q')
  M = Q(q=u).to_rotation_matrix()
  T.check_eq(T.np.dot(M, M.T), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'orthonormal')
  c = cross(M[:, 0], M[:, 1])
  T.check_eq(c, M[:, 2], 'determinant +1')
  T.check_eq(Q(q=-u).to_rotation_matrix(), M, 'negated quaternion is the same rotation')


def product(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  u, w = T.unit('q'), T.unit('p')
  a, b = Q(q=u), Q(q=w)
  A, Bm = a.to_rotation_matrix(), b.to_rotation_matrix()
  T.check_eq((a * b).to_rotation_matrix(), T.np.dot(A, Bm), 'matrix of a product')
  v = T.vec('v', 3, -100, 100)
  T.check_eq((a * b).rotate_vector(v), a.rotate_vector(b.rotate_vector(v)), 'rotation by a product')
  T.check_eq(a.inverse().to_rotation_matrix(), A.T, 'matrix of the inverse')


HARNESSES = [Harness(f, bounds=B) for f in (agree, orthonormal, product)]
