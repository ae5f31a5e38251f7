"""P24 calibration files and composition"""
from symx.main import Harness
from lib import *

B = 'all rotations (written as either dual quaternion), positions in [-10,10]^3, offsets in [-1e3,1e3]; numbers in files are exact'


def _calib(T, name):
  E = T.mod('hand_eye_calibration.extrinsic_calibration').ExtrinsicCalibration
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  d = free_dq(T, name)
  o = T.real('offset_' + name, -1000, 1000)
  return E, d, o, E(o, D.from_vector(T.np.array(list(d))))


def roundtrip(w, r):
  def f(T):
    E, d, o, c = _calib(T, 'x')
    T.assume(T.or_(d[3] > 1e-6, d[3] < -1e-6))
    path = T.path('calibration.json')
    if w is None:
      c.writeJson(path)
    else:
      c.writeJson(path, w)
    b = E.fromJson(path) if r is None else E.fromJson(path, r)
    T.check_eq(b.time_offset, o, 'time offset', tol=1e-9)
    if bool(w) == bool(r):
      want = d
    else:
      # inverted rotation, same position
      want = pose_dq([2 * x for x in qmul(d[4:], qconj(d[:4]))[:3]], qconj(d[:4]))
    same_transformation(T, list(b.pose_dq.dq), want, 'transformation')
    same = T.or_(*[T.and_(*[(s * x - y <= 1e-6) & (y - s * x <= 1e-6) for x, y in zip(c.pose_dq.dq, d)]) for s in (1, -1)])
    T.check(same, 'writing leaves the calibration alone')
    T.check_eq(c.time_offset, o, 'writing leaves the offset alone')
  f.__name__ = 'roundtrip_%s_%s' % tuple({None: 'default', True: 'switched', False: 'plain'}[x] for x in (w, r))
  return f


def half_turn(T):
  """rotations by a half turn"""
  E = T.mod('hand_eye_calibration.extrinsic_calibration').ExtrinsicCalibration
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  a = T.unit('a', 3)
  d = pose_dq(T.vec('t', 3, -10, 10), [a[0], a[1], a[2], 0.])
  c = E(T.real('o', -10, 10), D.from_vector(T.np.array(list(d))))
  path = T.path('calibration.json')
  w = T.choice('written', [False, True])
  r = T.choice('read', [False, True])
  c.writeJson(path, w)
  b = E.fromJson(path, r)
  same_transformation(T, list(b.pose_dq.dq), d, 'transformation')


def layout(T):
  """the file holds the rotation and the translation of the transformation under the documented names"""
  import json
  E, d, o, c = _calib(T, 'x')
  T.assume(d[3] > 1e-6)
  c.writeJson(T.path('calibration.json'))
  data = (T.loader.mods['json'] if T.symbolic else json).loads(T.text('calibration.json'))
  T.check_eq(data['delay'], o, 'delay')
  T.check_eq([data['rotation'][k] for k in 'ijkw'], d[:4], 'rotation')
  T.check_eq([data['translation'][k] for k in 'xyz'], [2 * x for x in qmul(d[4:], qconj(d[:4]))[:3]], 'translation')


def written(T):
  """a hand written file with a quaternion of any length"""
  E = T.mod('hand_eye_calibration.extrinsic_calibration').ExtrinsicCalibration
  u, k = T.unit('q'), T.real('k', 0.1, 10)
  t, o = T.vec('t', 3, -10, 10), T.real('o', -10, 10)
  sw = T.choice('switch', [False, True])
  import json
  J = T.loader.mods['json'] if T.symbolic else json
  T.write('c.json', J.dumps({'delay': o, 'rotation': dict(zip('ijkw', [k * x for x in u])), 'translation': dict(zip('xyz', t))}))
  b = E.fromJson(T.path('c.json'), sw)
  want = pose_dq(t, qconj(u) if sw else list(u))
  T.check_eq(b.time_offset, o, 'time offset')
  T.check(T.or_(*[T.and_(*[(s * x - y <= 1e-6) & (y - s * x <= 1e-6) for x, y in zip(b.pose_dq.dq, want)]) for s in (1, -1)]),
          'transformation')


def compose_(T):
  """composition adds the offsets and multiplies the transformations in order"""
  E, d1, o1, c1 = _calib(T, 'x')
  E, d2, o2, c2 = _calib(T, 'y')
  c = c1 * c2
  T.check(isinstance(c, E), 'is a calibration')
  T.check_eq(c.time_offset, o1 + o2, 'offsets add')
  T.check_eq(c.pose_dq.dq, dqmul(d1, d2), 'transformations in order')
  T.check_eq(list(c1.pose_dq.dq) + [c1.time_offset], list(d1) + [o1], 'first operand unchanged')
  T.check_eq(list(c2.pose_dq.dq) + [c2.time_offset], list(d2) + [o2], 'second operand unchanged')


HARNESSES = [Harness(roundtrip(w, r), bounds=B, fs=True) for w, r in (
    (None, None), (True, True), (False, True), (True, False), (None, True))] + [
    Harness(f, bounds=B, fs=True) for f in (half_turn, layout, written, compose_)]
