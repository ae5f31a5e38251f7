"""P15 evaluation of an alignment"""
from symx.main import Harness
from lib import *

B = 'up to 3 pose pairs, or 7 of which one is free, positions in [-10,10]^3, all orientations, thresholds in [0,100]'


def _poses(T, P, want, what):
  T.check(T.np.shape(P) == (len(want), 7), what + ': one row per pair')
  for i, w in enumerate(want):
    d = pose_dq(P[i, :3], list(P[i, 3:]))
    same_transformation(T, d, w, what)


def aligned(n, free=None):
  def f(T):
    """any calibration: the hand path and its prediction from the eye path"""
    H = T.mod(HE)
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    y = free_dq(T, 'y') if free is None else given_dq(13)
    As = [free_dq(T, 'a%d' % i) if free in (None, i) else given_dq(i) for i in range(n)]
    # the eye path whose prediction is r: every path is of this form
    Rs = [[0., 0., 0., 1., 0., 0., 0., 0.]] + [free_dq(T, 'r%d' % i) if free in (None, i) else given_dq(i + 3) for i in range(1, n)]
    c0 = free_dq(T, 'c0') if free is None else given_dq(14)
    Bs = [dqmul(c0, y)] + [dqmul(c0, dqmul(r, y)) for r in Rs[1:]]
    for a in As + Rs[1:]:
      T.assume(T.or_(a[3] > 1e-6, a[3] < -1e-6))
    da, db, dy = [D.from_vector(a) for a in As], [D.from_vector(b) for b in Bs], D.from_vector(y)
    P, Q = H.get_aligned_poses(da, db, dy)
    _poses(T, P, As, 'hand path')
    _poses(T, Q, Rs, 'predicted hand path')
    for i in range(n):
      T.check_eq(db[i].dq, Bs[i], 'eye path left alone')
    T.check_eq(dy.dq, y, 'calibration left alone')
  f.__name__ = 'aligned%d' % n if free is None else 'aligned%d_free%d' % (n, free)
  return f


def exact(T):
  """exact pairs and the true calibration agree"""
  H = T.mod(HE)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  x = free_dq(T, 'x')
  a = free_dq(T, 'a')
  T.assume(T.or_(a[3] > 1e-6, a[3] < -1e-6))
  As = [[0., 0., 0., 1., 0., 0., 0., 0.], a]
  Bs = [eye_motion(x, e) for e in As]
  P, Q = H.get_aligned_poses([D.from_vector(e) for e in As], [D.from_vector(e) for e in Bs], D.from_vector(x))
  for i in range(2):
    T.check_eq(P[i], Q[i], 'exact pairs agree', tol=1e-5)


def _score(T, n, A, Bp, what):
  H = T.mod(HE)
  c = H.HandEyeConfig()
  c.ransac_position_error_threshold_m = T.real('th_p', 0, 100)
  c.ransac_orientation_error_threshold_deg = T.real('th_o', 0, 100)
  rp, ro, flags = H.evaluate_alignment(A, Bp, c)
  es = [H.compute_pose_error(A[i, :], Bp[i, :]) for i in range(n)]
  T.check(T.and_(rp >= 0, ro >= 0), 'not negative')
  T.check_eq(rp * rp * n, sum(e[0] * e[0] for e in es), 'root mean square of the position errors')
  T.check_eq(ro * ro * n, sum(e[1] * e[1] for e in es), 'root mean square of the orientation errors', tol=1e-3)
  T.check(len(flags) == n, 'one flag per pair')
  for i in range(n):
    want = T.and_(es[i][0] < c.ransac_position_error_threshold_m, es[i][1] < c.ransac_orientation_error_threshold_deg)
    if T.truth(flags[i]):
      T.check(want, 'an inlier has both errors below their thresholds')
      T.cover('inlier')
    else:
      T.check(T.not_(want), 'a pair below both thresholds is an inlier')
      T.cover('outlier')


def positions(T):
  n = 3
  A = T.np.array([list(T.vec('a%d' % i, 1, -10, 10)) + [0., 1., 0., 0., 0., 1.] for i in range(n)])
  Bp = T.np.array([list(T.vec('b%d' % i, 1, -10, 10)) + [0., 1., 0., 0., 0., 1.] for i in range(n)])
  _score(T, n, A, Bp, 'positions')


def many(n, k):
  def f(T):
    """one free pair among others"""
    p = [[i, 2. - i, 0.5 * i] + HALVES[(5 * i) % 16] for i in range(n)]
    q = [[i + 0.25, 1. - i, 0.25 * i] + HALVES[(5 * i) % 16] for i in range(n)]
    p[k][:3] = T.vec('a', 3, -10, 10)
    q[k][:3] = T.vec('b', 3, -10, 10)
    _score(T, n, T.np.array(p), T.np.array(q), 'many')
  f.__name__ = 'many%d_%d' % (n, k)
  return f


def orientations(T):
  n = 2
  us = [T.unit('u%d' % i, 2) for i in range(n)]
  A = T.np.array([[1., 2., 3., 0., 0., 0., 1.]] * n)
  Bp = T.np.array([[1., 2., 3., u[0], 0., 0., u[1]] for u in us])
  for u in us:
    T.assume(T.and_(u[1] > 0.001, u[1] < 0.9999))
  _score(T, n, A, Bp, 'orientations')


def both(T):
  n = 1
  u = T.unit('u', 4)
  T.assume(T.and_(u[3] > 0.001, u[3] < 0.9999))
  a, b = T.vec('a', 3, -10, 10), T.vec('b', 3, -10, 10)
  A = T.np.array([list(a) + [0., 0., 0., 1.]])
  Bp = T.np.array([list(b) + list(u)])
  _score(T, n, A, Bp, 'both')


HARNESSES = [Harness(f, bounds=B) for f in (aligned(1), aligned(2), exact)] + [
    Harness(f, bounds=B, covers=['inlier', 'outlier']) for f in (positions, orientations, both, many(7, 0), many(7, 6), many(12, 9))] + [
        Harness(aligned(3), bounds=B, tier='thorough')]
HARNESSES += [Harness(aligned(7, k), bounds=B) for k in (1, 6)]
