"""P26 spoiled initial guesses"""
from fractions import Fraction

from symx.main import Harness
from lib import *

B = ('free directions with the identity as original orientation and three directions with three orientations and angle ranges; else all draws (a drawn direction vector is longer than 1e-5 of its range), all calibrations with positions in [-100,100]^3, all ranges '
     'with 0 <= min <= max - 0.001, draws at least 1e-6 of the range away from its ends, angles up to pi, translations up to 10, time offsets up to 10')
SC = 'hand_eye_calibration_experiments/bin/optimization_experiments.py'


def _range(T, name, top, least=0):
  lo = T.real(name + '_min', least, top)
  hi = T.real(name + '_max', 0, top)
  T.assume(lo + 0.001 <= hi)
  return [lo, hi]


def draw(T):
  """random quaternion with an angle range"""
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  lo, hi = _range(T, 'angle', T.np.pi)
  q = Q.get_random(lo, hi)
  T.check_eq(dot(q.q, q.q), 1, 'unit length')
  T.check(q.w <= T.np.cos(lo / 2) + 1e-9, 'angle not below the range')
  T.check(q.w >= T.np.cos(hi / 2) - 1e-9, 'angle not above the range')


def draw_default(T):
  Q = T.mod('hand_eye_calibration.quaternion').Quaternion
  q = Q.get_random()
  T.check_eq(dot(q.q, q.q), 1, 'unit length')
  T.check(T.and_(q.w >= -1e-9, q.w <= 1 + 1e-9), 'angle up to pi')


QS = [[Fraction(x) for x in q.split()] for q in ('0 0 0 1', '2/7 3/7 6/7 0', '-1/2 1/2 1/2 -1/2')]


# where the drawn vectors lie in the cube of all draws
DIRECTIONS = [[Fraction(x) for x in d.split()] for d in ('1/2 1/2 1', '0 3/4 0', '1 1/4 3/4')]


ANGLES = [[0.001, 0.002], [0.1, 0.3], [0.5, 3.1]]


def spoil(which, free=False):
  def f(T):
    if not free:
      T.directions(DIRECTIONS)
    M = T.script(SC, 'spoil')
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    u = [Fraction(x) if T.symbolic else float(x) for x in T.choice('q', QS[:1] if free else QS)]
    p = T.vec('p', 3, -100, 100)
    dq = D.from_pose(p[0], p[1], p[2], u[0], u[1], u[2], u[3])
    t0 = T.real('offset', -10, 10)
    ar = _range(T, 'angle', T.np.pi, 0.001) if 'a' in which and free else T.choice('angles', ANGLES)
    tr = _range(T, 'length', 10) if 't' in which else [0.1, 0.2]
    mr = _range(T, 'time', 10) if 'm' in which else [0.1, 0.2]
    ts, dqs, (tro, ao, to) = M.spoil_initial_guess(t0, dq, ar, tr, mr)
    T.check_eq(ts, t0 + to, 'time offset reported is the one applied')
    m = to if T.truth(to >= 0) else -to
    T.check(T.and_(m >= mr[0] - 1e-9, m <= mr[1] + 1e-9), 'time offset within the range')
    b = dqs.to_pose()
    a = dq.to_pose()
    d = [b[i] - a[i] for i in range(3)]
    T.check_eq(tro, d, 'translation reported is the one applied')
    l = dot(tro, tro)
    T.check(T.and_(l >= tr[0] * tr[0] - 1e-9, l <= tr[1] * tr[1] + 1e-9), 'translation within the range')
    r = dqs.q_rot * dq.q_rot.inverse()
    w = r.w if T.truth(r.w >= 0) else -r.w
    T.check_eq(T.np.cos(ao / 2), w, 'angle reported is the one applied')
    T.check(w <= T.np.cos(ar[0] / 2) + 1e-9, 'rotation not below the range')
    T.check(w >= T.np.cos(ar[1] / 2) - 1e-9, 'rotation not above the range')
  f.__name__ = 'spoil_' + which + ('_any' if free else '')
  return f


HARNESSES = [Harness(f, bounds=B) for f in (draw, draw_default, spoil('t'), spoil('m'), spoil('a', True), spoil('t', True), spoil('m', True))]
