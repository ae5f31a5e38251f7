"""P07 angular velocity between orientations"""
from symx.main import Harness
from lib import *

B = 'all pairs of unit quaternions, t in [1e-6, 1e6]; exact real arithmetic'


def _setup(T):
  M = T.mod('hand_eye_calibration.quaternion')
  u, v, r = unit_pair(T)
  t = T.real('t', 1e-6, 1e6)
  return M, u, v, t


def rel(T, u, v):
  r = qmul(u, qconj(v))
  if T.truth(r[3] < 0):
    r = [-x for x in r]
  return r


def velocity(T):
  M, u, v, t = _setup(T)
  a, b = M.Quaternion(q=u.copy()), M.Quaternion(q=v.copy())
  w = M.angular_velocity_between_quaternions(a, b, t)
  T.check(T.finite(w), 'finite')
  T.check(len(w) == 3, 'three components')
  r = rel(T, u, v)
  c = r[3]
  if not T.symbolic:
    c = min(c, 1.0)
  if T.truth(c > 1 - 1e-11):
    T.check(dot(w, w) * t * t <= 1e-8, 'practically no rotation')
  else:
    s = T.np.sqrt(1 - c * c)
    th = 2 * T.np.arccos(c)
    T.check_eq([x * t * s for x in w], [th * x for x in r[:3]], 'axis times angle over time')
    T.cover('rotation')
    T.check(dot(w, w) > 0, 'zero only if the rotations agree')
  T.check_eq(a.q, u, 'operand unchanged')
  T.check_eq(b.q, v, 'operand unchanged')


def signs(T):
  M, u, v, t = _setup(T)
  d = dot(u, v)
  T.assume(T.or_(d > 1e-9, d < -1e-9))
  Q = M.Quaternion
  f = M.angular_velocity_between_quaternions
  w = f(Q(q=u.copy()), Q(q=v.copy()), t)
  T.check_eq(f(Q(q=-u), Q(q=v.copy()), t), w, 'sign of the first quaternion')
  T.check_eq(f(Q(q=u.copy()), Q(q=-v), t), w, 'sign of the second quaternion')


def exchanged(T):
  M, u, v, t = _setup(T)
  d = dot(u, v)
  T.assume(d * d < 1 - 1e-9)
  Q = M.Quaternion
  f = M.angular_velocity_between_quaternions
  w = f(Q(q=u.copy()), Q(q=v.copy()), t)
  x = f(Q(q=v.copy()), Q(q=u.copy()), t)
  T.check_eq(x, [-e for e in w], 'reverses when exchanged')


HARNESSES = [Harness(velocity, bounds=B, covers=['rotation']), Harness(signs, bounds=B), Harness(exchanged, bounds=B)]
