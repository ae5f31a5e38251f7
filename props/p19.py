"""P19 loop closure error"""
from fractions import Fraction

from symx.main import Harness
from lib import *

B = ('2 to 7 pose sets (thorough: 9); calibrations with any positions in [-10,10]^3: without rotation, with fixed rotations, and '
     'for 2 and 3 pose sets with any rotations')
CV = 'hand_eye_calibration.calibration_verification'
ONE = [0, 0, 0, 1, 0, 0, 0, 0]
TURNS = [[F for F in map(Fraction, q)] for q in [
    ('3/5', '0', '0', '4/5'), ('0', '3/5', '0', '-4/5'), ('0', '0', '4/5', '3/5'), ('1/2', '1/2', '-1/2', '1/2'),
    ('12/25', '9/25', '12/25', '16/25'), ('0', '0', '0', '1'), ('-7/25', '0', '0', '24/25'), ('2/3', '-1/3', '0', '2/3')]]


def pairs(n):
  return [(i, j) for i in range(n) for j in range(i + 1, n)]


def chain(calib, n):
  c = ONE
  for i in range(n - 1):
    c = dqmul(c, calib[i, i + 1])
  return c


def row(T, d):
  t = qmul(d[4:], qconj(d[:4]))
  return T.np.array([2 * x for x in t[:3]] + list(d[:4]))


def _loop(T, calib, n):
  M = T.mod(CV)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  ds = [D.from_vector(T.np.array(list(calib[p]))) for p in pairs(n)]
  out = M.compute_loop_error(ds, n)
  for d, p in zip(ds, pairs(n)):
    T.check(T.or_(*[T.and_(*[_near(a, s * b) for a, b in zip(d.dq, calib[p])]) for s in (1, -1)]), 'calibrations keep their meaning')
  return out


def _near(a, b):
  return (a - b <= 1e-9) & (b - a <= 1e-9)


def _turn(T, k):
  q = TURNS[k % len(TURNS)]
  return q if T.symbolic else [float(x) for x in q]


def shifts(n):
  def f(T):
    """pure translations: the error is the length of the sum around the loop"""
    t = {p: T.vec('t%d%d' % p, 3, -10, 10) for p in pairs(n)}
    ep, eo = _loop(T, {p: pose_dq(t[p], [0, 0, 0, 1]) for p in pairs(n)}, n)
    d = [sum(t[i, i + 1][k] for i in range(n - 1)) - t[0, n - 1][k] for k in range(3)]
    T.check(ep >= 0, 'position error not negative')
    T.check_eq(ep * ep, dot(d, d), 'position error', tol=1e-5)
    T.check_eq(eo, 0, 'orientation error')
  f.__name__ = 'shifts%d' % n
  return f


def turned(n, last=None, free=None):
  def f(T):
    """fixed rotations, any positions: the pose error of the chain"""
    H = T.mod(HE)
    calib = {}
    for k, p in enumerate(pairs(n)):
      t = T.vec('t%d%d' % p, 3, -10, 10) if free is None or p in free else [Fraction(1, 2), -k, Fraction(k, 4)]
      if not T.symbolic:
        t = [float(x) for x in t]
      calib[p] = pose_dq(t, _turn(T, k))
    ep, eo = _loop(T, calib, n)
    loop = dqmul(chain(calib, n), conj8(calib[0, n - 1]))
    wp, wo = H.compute_pose_error(T.np.array([0., 0., 0., 0., 0., 0., 1.]), row(T, loop))
    T.check(ep >= 0, 'position error not negative')
    T.check_eq(ep * ep, wp * wp, 'position error of the chain', tol=1e-5)
    T.check_eq(eo, wo, 'orientation error of the chain', tol=1e-4)
  f.__name__ = 'turned%d' % n
  return f


def consistent(n):
  def f(T):
    """any positions, calibrations that agree with each other: no error"""
    frames = [ONE] + [pose_dq(T.vec('f%d' % i, 3, -10, 10), _turn(T, i)) for i in range(1, n)]
    calib = {(i, j): dqmul(conj8(frames[i]), frames[j]) for i, j in pairs(n)}
    ep, eo = _loop(T, calib, n)
    T.check_eq(ep, 0, 'no position error', tol=1e-5)
    T.check_eq(eo, 0, 'no orientation error', tol=1e-4)
  f.__name__ = 'consistent%d' % n
  return f


def any_pair(T):
  """two pose sets: always consistent"""
  x = free_dq(T, 'x')
  ep, eo = _loop(T, {(0, 1): x}, 2)
  T.check_eq(ep, 0, 'no position error', tol=1e-5)
  T.check_eq(eo, 0, 'no orientation error', tol=1e-4)


def any_consistent(T):
  """three pose sets, any calibrations that agree up to the sign of the dual quaternion"""
  x, y = free_dq(T, 'x'), free_dq(T, 'y')
  s = T.choice('sign', [1, -1])
  calib = {(0, 1): x, (1, 2): y, (0, 2): [s * e for e in dqmul(x, y)]}
  ep, eo = _loop(T, calib, 3)
  T.check_eq(ep, 0, 'no position error', tol=1e-5)
  T.check_eq(eo, 0, 'no orientation error', tol=1e-4)


def any_three(T):
  """three pose sets, any calibrations: x y z^-1 with z = e^-1 x y, so that the loop is e"""
  H = T.mod(HE)
  x, y, e = free_dq(T, 'x'), free_dq(T, 'y'), free_dq(T, 'e')
  T.assume(T.or_(e[3] > 1e-6, e[3] < -1e-6))
  calib = {(0, 1): x, (1, 2): y, (0, 2): dqmul(conj8(e), dqmul(x, y))}
  ep, eo = _loop(T, calib, 3)
  wp, wo = H.compute_pose_error(T.np.array([0., 0., 0., 0., 0., 0., 1.]), row(T, e))
  T.check_eq(ep * ep, wp * wp, 'position error of the chain', tol=1e-5)
  T.check_eq(eo, wo, 'orientation error of the chain', tol=1e-4)


HARNESSES = [Harness(shifts(n), bounds=B) for n in (2, 3, 4, 5, 6, 7)] + \
    [Harness(turned(n), bounds=B) for n in (2, 3, 4, 5, 6, 7)] + \
    [Harness(consistent(n), bounds=B) for n in (3, 4, 5, 6)] + \
    [Harness(f, bounds=B) for f in (any_pair, any_consistent, any_three)] + \
    [Harness(f(n), bounds=B, tier='thorough') for n in (8, 9) for f in (shifts, turned, consistent)]
