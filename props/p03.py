"""P03 rotation matrix -> quaternion"""
from symx.main import Harness
from lib import *

B = 'all proper rotation matrices (matrix of an arbitrary unit quaternion), exact real arithmetic'


def convert(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  u = T.unit('q')
  R = T.np.array(rotmat(u))
  q = Q.from_rotation_matrix(R)
  T.check(T.finite(q.q), 'finite')
  T.check_eq(dot(q.q, q.q), 1, 'unit length')
  T.check(q.w >= -1e-9, 'non-negative scalar part')
  T.check_eq(rotmat(q.q), R, 'same rotation')
  T.check_eq(q.to_rotation_matrix(), R, 'own rotation matrix')


def half_turn(T):
  """scalar part zero"""
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  n = T.unit('n', 3)
  u = [n[0], n[1], n[2], 0]
  R = T.np.array(rotmat(u))
  q = Q.from_rotation_matrix(R)
  T.check(T.finite(q.q), 'finite')
  T.check_eq(dot(q.q, q.q), 1, 'unit length')
  T.check_eq(rotmat(q.q), R, 'same rotation')


HARNESSES = [Harness(f, bounds=B) for f in (convert, half_turn)]
