"""P06 pose error"""
from symx.main import Harness
from lib import *

B = 'positions in [-100,100]^3, all orientations, quaternion scale factors in [1e-3,10] of either sign'
COS = 1 - 3.8e-9   # cos(0.005 deg)


def near(T, u, v, c):
  """|u.v| = c is practically one, because the components (up to sign) are close"""
  label = 'zero angle only for equal orientations'
  for sg in (1, -1):
    d = [x - sg * y for x, y in zip(u, v)]
    w = dot(u, v) * sg
    if not T.symbolic or T.prove(T.and_(*[T.and_(x <= 1.1e-5, x >= -1.1e-5) for x in d]), linear=True):
      T.check_by(label, d + [w, c], lambda a, b, e, f, w, c: [
          x <= 1.1e-5 for x in (a, b, e, f)] + [x >= -1.1e-5 for x in (a, b, e, f)] + [
              2 - 2 * w == a * a + b * b + e * e + f * f, T.or_(c == w, c == -w), c >= 0],
                 lambda a, b, e, f, w, c: c >= COS)
      return
  T.check(c >= COS, label)


def check_angle(T, E, u, v):
  d = dot(u, v)
  c = d if T.truth(d >= 0) else -d
  T.check(T.finite(E), 'angle finite')
  T.check(T.and_(E >= 0, E <= 180 + 1e-9), 'angle within [0,180]')
  if T.truth(E == 0):
    near(T, u, v, c)
  else:
    if not T.symbolic:
      c = min(c, 1.0)
    T.check_eq(T.np.cos(E * T.np.pi / 360), c, 'geodesic angle', tol=1e-8)


def error(T):
  H = T.mod('hand_eye_calibration.dual_quaternion_hand_eye_calibration')
  u, v, r = unit_pair(T)
  a, b = T.vec('a', 3, -100, 100), T.vec('b', 3, -100, 100)
  A, Bp = T.np.array(list(a) + list(u)), T.np.array(list(b) + list(v))
  p, E = H.compute_pose_error(A, Bp)
  d = [x - y for x, y in zip(a, b)]
  T.check(p >= 0, 'distance is non-negative')
  T.check_eq(p * p, dot(d, d), 'Euclidean distance')
  check_angle(T, E, u, v)
  T.check_eq(A, list(a) + list(u), 'first pose unchanged')
  T.check_eq(Bp, list(b) + list(v), 'second pose unchanged')


def scaled(T):
  """sign and length of the quaternions do not matter"""
  H = T.mod('hand_eye_calibration.dual_quaternion_hand_eye_calibration')
  u, v, r = unit_pair(T)
  k, l = T.real('k', 0.001, 10), T.real('l', 0.001, 10)
  k = k * T.choice('sk', [1, -1])
  l = l * T.choice('sl', [1, -1])
  z = [0., 0., 0.]
  p, E = H.compute_pose_error(T.np.array(z + [k * x for x in u]), T.np.array(z + [l * x for x in v]))
  check_angle(T, E, u, v)
  T.check_eq(p, 0, 'no distance')


def symmetric(T):
  H = T.mod('hand_eye_calibration.dual_quaternion_hand_eye_calibration')
  u, v, r = unit_pair(T)
  a = T.vec('a', 3, -100, 100)
  z = [0., 0., 0.]
  A, Bp = T.np.array(list(a) + list(u)), T.np.array(z + list(v))
  p1, e1 = H.compute_pose_error(A, Bp)
  p2, e2 = H.compute_pose_error(Bp, A)
  T.check_eq(p1, p2, 'distance symmetric')
  if T.truth(e1 == 0) or T.truth(e2 == 0):
    d = dot(u, v)
    near(T, u, v, d if T.truth(d >= 0) else -d)
  else:
    T.check_eq(e1, e2, 'angle symmetric', tol=1e-5)


def nearly_unit(T):
  """quaternions whose norm is off by up to 1e-9"""
  M = T.mod('hand_eye_calibration.quaternion')
  u, v, r = unit_pair(T)
  k, l = T.real('k', 1 - 1e-9, 1 + 1e-9), T.real('l', 1 - 1e-9, 1 + 1e-9)
  E = M.angle_between_quaternions(M.Quaternion(q=u * k), M.Quaternion(q=v * l))
  T.check(T.finite(E), 'finite for nearly unit quaternions')


HARNESSES = [Harness(f, bounds=B) for f in (error, scaled, symmetric, nearly_unit)]
