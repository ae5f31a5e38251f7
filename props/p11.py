"""P11 screw parameters"""
from symx.main import Harness
from lib import *

B = ('positions in [-100,100]^3; rotations with sin(angle/2) >= 1e-4, or exactly none (either sign of the quaternion); '
     'exact real arithmetic')


def _screw(T, d):
  """checked by hand: returns axis, angle, translation"""
  r = d.screw_axis()
  T.check(len(r) == 3, 'axis, angle and translation')
  a, phi, s = r
  T.check(len(a) == 3, 'axis has three components')
  T.check(T.finite(list(a) + [phi, s]), 'finite')
  return a, phi, s


def rotation(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  t, u = T.vec('t', 3, -100, 100), T.unit('u')
  T.assume(1 - u[3] * u[3] >= 1e-8)
  d = D.from_vector(pose_dq(t, u))
  a, phi, s = _screw(T, d)
  T.check(T.and_(phi >= 0, phi < 360), 'angle in [0,360)')
  T.check_eq(dot(a, a), 1, 'unit axis')
  h = phi * T.np.pi / 360
  T.check_eq(T.np.cos(h), u[3], 'scalar part from the angle')
  sn = T.np.sin(h)
  T.check_eq([x * sn for x in a], u[:3], 'vector part from axis and angle')
  T.check_eq(s, dot(t, a), 'displacement along the axis', tol=1e-4)
  T.check_eq(d.dq, pose_dq(t, u), 'the motion is left alone')


def translation(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  t = T.vec('t', 3, -100, 100)
  sg = T.choice('sign', [1., -1.])
  n2 = dot(t, t)
  d = D.from_vector(pose_dq(t, [0., 0., 0., sg]))
  if T.choice('zero', [False, True]):
    d = D.from_vector([0., 0., 0., sg, 0., 0., 0., 0.])
    a, phi, s = _screw(T, d)
    T.check_eq(phi, 0, 'no rotation')
    T.check_eq(s, 0, 'no translation')
    T.check_eq(a, [0, 0, 0], 'no axis for no motion')
    return
  T.assume(n2 >= 1e-8)
  a, phi, s = _screw(T, d)
  T.check_eq(phi, 0, 'no rotation')
  T.check(s >= 0, 'length of the translation')
  T.check_eq(s * s, n2, 'length of the translation')
  T.check_eq([x * s for x in a], t, 'direction of the translation')


def frame(T):
  """conjugation by a rigid transformation"""
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  t, u = T.vec('t', 3, -10, 10), T.unit('u')
  x, r = T.vec('x', 3, -10, 10), T.unit('r')
  T.assume(1 - u[3] * u[3] >= 1e-8)
  d = D.from_vector(pose_dq(t, u))
  X = D.from_vector(pose_dq(x, r))
  e = X * d * X.inverse()
  T.check_eq(e.scalar().dq, d.scalar().dq, 'scalar part')
  a, phi, s = _screw(T, d)
  b, psi, z = _screw(T, e)
  T.check_eq(psi, phi, 'same angle', tol=1e-4)
  T.check_eq(z, s, 'same translation', tol=1e-4)
  T.check_eq(b, rot(r, a), 'rotated axis')


def frame_translation(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  t = T.vec('t', 3, -10, 10)
  x, r = T.vec('x', 3, -10, 10), T.unit('r')
  T.assume(dot(t, t) >= 1e-4)
  sg = T.choice('sign', [1., -1.])
  d = D.from_vector(pose_dq(t, [0., 0., 0., sg]))
  X = D.from_vector(pose_dq(x, r))
  e = X * d * X.inverse()
  T.check_eq(e.scalar().dq, d.scalar().dq, 'scalar part')
  a, phi, s = _screw(T, d)
  if T.symbolic:
    # only for the exact product: rounding turns it into a tiny rotation
    b, psi, z = _screw(T, e)
    T.check_eq(psi, phi, 'same angle')
    T.check_eq(z, s, 'same translation')
    T.check_eq(b, rot(r, a), 'rotated axis')


def nearly_unit(T):
  """finite when rounding has left the norm off by up to 1e-9"""
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  t, u = T.vec('t', 3, -100, 100), T.unit('u')
  k = T.real('k', 1 - 1e-9, 1 + 1e-9)
  a, phi, s = D.from_vector([x * k for x in pose_dq(t, u)]).screw_axis()
  T.check(T.finite([phi]), 'finite angle for nearly unit dual quaternions')


HARNESSES = [Harness(f, bounds=B) for f in (rotation, translation, frame, nearly_unit)] + [
    Harness(frame_translation, bounds=B, validate=False)]
