"""P04 angle and axis"""
from symx.main import Harness
from lib import *

B = 'angles in [-7,7] rad, axis components in [-10,10] with length > 1e-3; all unit quaternions'


def build(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  a = T.real('angle', -7, 7)
  n = T.vec('axis', 3, -10, 10)
  T.assume(dot(n, n) > 1e-6)
  keep = n.copy()
  q = Q.from_angle_axis(a, n)
  c, s = T.np.cos(a / 2), T.np.sin(a / 2)
  l = T.np.sqrt(dot(keep, keep))
  T.check_eq(q.w, c, 'scalar part is cos(angle/2)')
  T.check_eq([x * l for x in q.q[0:3]], [s * x for x in keep], 'vector part is sin(angle/2) times the axis')
  T.check_eq(dot(q.q, q.q), 1, 'unit length')
  T.check_eq(n, keep, 'axis unchanged')


def small_axis(T):
  """axes of tiny but non-negligible length"""
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  a = T.real('angle', -7, 7)
  n = T.unit('axis', 3)
  k = T.real('k', 1e-6, 10)
  q = Q.from_angle_axis(a, T.np.array([x * k * 1e-9 for x in n]))
  c, s = T.np.cos(a / 2), T.np.sin(a / 2)
  T.check_eq(q.q, [s * n[0], s * n[1], s * n[2], c], 'axis length does not matter')


def read_back(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  u = T.unit('q')
  r = Q(q=u.copy()).angle_axis()
  T.check(T.finite(r), 'finite')
  T.assume(T.and_(u[3] < 1 - 1e-11, u[3] > -1 + 1e-11))
  ang = r[3]
  T.check(T.and_(ang >= 0, ang <= 2 * T.np.pi), 'angle in [0, 2 pi]')
  T.check_eq(dot(r[0:3], r[0:3]), 1, 'unit axis')
  c, s = T.np.cos(ang / 2), T.np.sin(ang / 2)
  T.check_eq([s * r[0], s * r[1], s * r[2], c], u, 'rebuilds the quaternion', tol=1e-7)


def near_one(sign):
  def f(T):
    """no rotation or a full turn, where the axis is hardly defined"""
    Q = T.mod('hand_eye_calibration.quaternion').Quaternion
    u = T.unit('q')
    T.assume(sign * u[3] >= 1 - 1e-11)
    r = Q(q=u.copy()).angle_axis()
    T.check(T.finite(r), 'finite')
    T.check_eq(dot(r[0:3], r[0:3]), 1, 'unit axis', tol=1e-6)
    lo, hi = (0, 1e-4) if sign > 0 else (2 * T.np.pi - 1e-4, 2 * T.np.pi)
    T.check(T.and_(r[3] >= lo - 1e-9, r[3] <= hi + 1e-9), 'angle of no or a full turn')
  f.__name__ = 'read_back_tiny' if sign > 0 else 'near_minus_one'
  return f


def exactly(T):
  """no rotation and a full turn themselves"""
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  w = T.choice('w', [1., -1.])
  r = Q(0., 0., 0., w).angle_axis()
  T.check_eq(dot(r[0:3], r[0:3]), 1, 'unit axis')
  T.check_eq(r[3], 0 if w > 0 else 2 * T.np.pi, 'angle of no or a full turn')
  q = Q.from_angle_axis(r[3], r[0:3])
  T.check_eq(q.q, [0, 0, 0, w], 'rebuilds the quaternion')


HARNESSES = [Harness(f, bounds=B) for f in (build, small_axis, read_back, near_one(1), near_one(-1), exactly)]
