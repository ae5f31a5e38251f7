"""P33 evaluation of a calibration on two trajectories"""
from fractions import Fraction

from symx.main import Harness
from lib import *

B = ('3 or 4 (one free pose among 6 or 10) poses a side with equal stamps after the shift, any offset in [-10,10] s, positions in [-10,10]^3; any start poses and any calibration with given '
     'motions or given start poses with any motion on one side (thorough: all of them free); 2 or 3 poses a side (thorough: 3 and 3) without rotation and '
     'with any stamps (steps in [0.001,0.5] s), any offset in [-2,2] s, time alignment as checked by P22; thresholds in [0,100] m and [0,180] degrees, at least 1e-6 m and 0.02 degrees away from the errors')
V = 'hand_eye_calibration.calibration_verification'
ROT = [[Fraction(x) for x in q.split()] for q in ('0 0 3/5 4/5', '2/7 3/7 6/7 0', '1/2 -1/2 1/2 1/2', '-7/25 0 0 24/25', '0 0 0 1', '0 5/13 0 12/13')]


def row(T, t, d):
  """stamped pose of a dual quaternion"""
  return [t] + [2 * x for x in qmul(d[4:], qconj(d[:4]))[:3]] + list(d[:4])


def given(T, name, k):
  q = [x if T.symbolic else float(x) for x in ROT[k]]
  return pose_dq(list(T.vec('t_' + name, 3, -10, 10)), q)


def any_pose(T, name):
  d = free_dq(T, name)
  T.assume(d[3] > 1e-6)
  return d


def config(T):
  c = T.mod(HE).HandEyeConfig()
  c.visualize = False
  c.ransac_position_error_threshold_m = T.real('th_p', 0, 100)
  c.ransac_orientation_error_threshold_deg = T.real('th_o', 0, 180)
  return c


def judge(T, M, out, P, Q, cfg):
  """the result for pose lists P and Q (7 numbers each)"""
  (rp, ro), num = out
  H = T.mod(HE)
  es = [H.compute_pose_error(T.np.array(p), T.np.array(q)) for p, q in zip(P, Q)]
  n = len(P)
  T.check_eq(rp * rp * n, sum(e[0] * e[0] for e in es), 'position error', tol=1e-5)
  T.check(rp >= 0, 'position error not negative')
  T.check(ro >= 0, 'orientation error not negative')
  T.check_eq(ro * ro * n, sum(e[1] * e[1] for e in es), 'orientation error', tol=1e-3)
  want = 0
  for e in es:
    # rounding decides at the thresholds; angles are accurate to 0.01 degree (P06)
    T.assume(T.and_(*[T.or_(x <= y - d, x >= y + d, x == z) for x, y, d, z in (
        (e[0], cfg.ransac_position_error_threshold_m, 1e-6, 0), (e[1], cfg.ransac_orientation_error_threshold_deg, 0.02, -1))]))
    want += 1 if T.truth(T.and_(e[0] < cfg.ransac_position_error_threshold_m, e[1] < cfg.ransac_orientation_error_threshold_deg)) else 0
  T.check_eq(num, want, 'number of inliers')
  T.cover('%d inliers' % want)


def scored(c, a, e, x, r):
  def f(T):
    """same stamps: the last one has no successor, the first two pairs are scored"""
    M = T.mod(V)
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    mk = lambda n, k: any_pose(T, n) if k is None else given(T, n, k)
    dc, da, de, dx, dr = mk('c', c), mk('a', a), mk('e', e), mk('x', x), mk('r', r)
    b = eye_motion(dx, dr)
    off = T.real('offset', -10, 10)
    ts = [T.real('t0', -1, 1)]
    for i in range(2):
      ts.append(ts[-1] + 0.0625)
    hand = [row(T, ts[0], dc), row(T, ts[1], dqmul(dc, da)), row(T, ts[2], dc)]
    eye = [row(T, ts[0] + off, de), row(T, ts[1] + off, dqmul(de, b)), row(T, ts[2] + off, de)]
    cfg = config(T)
    X = D.from_vector(T.np.array(list(dx)))
    out = M.evaluate_calibration(T.np.array(hand), T.np.array(eye), X, off, cfg)
    I = [0., 0., 0., 0., 0., 0., 1.]
    judge(T, M, out, [I, row(T, 0, da)[1:]], [I, row(T, 0, dr)[1:]], cfg)
    T.check_eq(list(X.dq), dx, 'calibration left alone')
  f.__name__ = 'scored_' + '_'.join('any' if k is None else str(k) for k in (c, a, e, x, r))
  return f


def longer(n, j):
  def f(T):
    """n scored pairs: pose j of both trajectories is anywhere, all poses are relative to the first one"""
    M = T.mod(V)
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    dc, de, dx = given(T, 'c', 0), given(T, 'e', 2), given(T, 'x', 3)
    off = T.real('offset', -10, 10)
    t = T.real('t0', -1, 1)
    hand, eye, P, Q = [], [], [], []
    for i in range(n + 1):
      I = pose_dq([0., 0., 0.], [0., 0., 0., 1.])
      k = lambda name, a: I if i == 0 else given(T, '%s%d' % (name, i), a) if i == j else pose_dq([i, 2 - i, i * i], [x if T.symbolic else float(x) for x in ROT[a]])
      da, dr = k('a', i % 4), k('r', (i + 1) % 4)
      hand.append(row(T, t + 0.0625 * i, dqmul(dc, da)))
      eye.append(row(T, t + 0.0625 * i + off, dqmul(de, eye_motion(dx, dr))))
      P.append(row(T, 0, da)[1:])
      Q.append(row(T, 0, dr)[1:])
    cfg = config(T)
    cfg.ransac_orientation_error_threshold_deg = 200.
    out = M.evaluate_calibration(T.np.array(hand), T.np.array(eye), D.from_vector(T.np.array(list(dx))), off, cfg)
    judge(T, M, out, P[:n], Q[:n], cfg)
  f.__name__ = 'longer%d_%d' % (n, j)
  return f


def shifted(early, x):
  def f(T):
    """one trajectory starts first: its poses before the other one are not scored and not the reference"""
    M = T.mod(V)
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    dc, de, dr, du = given(T, 'c', 0), given(T, 'e', 2), given(T, 'r', 5), given(T, 'u', 3)
    da = given(T, 'a', 1)
    dx = any_pose(T, 'x') if x is None else given(T, 'x', x)
    b = eye_motion(dx, dr)
    off = T.real('offset', -10, 10)
    t0 = T.real('t0', -1, 1)
    hand = [row(T, t0, dc), row(T, t0 + 0.0625, dqmul(dc, da)), row(T, t0 + 0.125, dc)]
    eye = [row(T, t0 + off, de), row(T, t0 + 0.0625 + off, dqmul(de, b)), row(T, t0 + 0.125 + off, de)]
    if early == 'hand':
      hand = [row(T, t0 - 0.0625, du)] + hand
    else:
      eye = [row(T, t0 - 0.0625 + off, du)] + eye
    cfg = config(T)
    out = M.evaluate_calibration(T.np.array(hand), T.np.array(eye), D.from_vector(T.np.array(list(dx))), off, cfg)
    I = [0., 0., 0., 0., 0., 0., 1.]
    judge(T, M, out, [I, row(T, 0, da)[1:]], [I, row(T, 0, dr)[1:]], cfg)
  f.__name__ = 'early_%s' % early
  return f


def stamps(n, m, step=None):
  def f(T):
    """any stamps: exactly the time-aligned pairs (as checked by P22) are scored"""
    M = T.mod(V)
    TA = T.mod('hand_eye_calibration.time_alignment')
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    off = T.real('offset', -2, 2)
    tables = []
    for name, k in (('h', n), ('e', m)):
      t = T.real('t_' + name, -1, 1)
      rows = []
      for i in range(k):
        if i:
          t = t + (step or T.real('d_%s%d' % (name, i), 1e-3, 0.5))
        # a straight path without rotation
        rows.append([t, T.real('x_%s%d' % (name, i), -10, 10), 1., -2., 0., 0., 0., 1.])
      tables.append(T.np.array(rows))
    A, C = TA.compute_aligned_poses(tables[0], tables[1], off)
    dx = given(T, 'x', 4)
    cfg = config(T)
    out = M.evaluate_calibration(tables[0], tables[1], D.from_vector(T.np.array(list(dx))), off, cfg)
    if len(A) == 0:
      T.cover('no pair')
      T.check(out[0][0] == float('inf') and out[0][1] == float('inf'), 'infinite errors')
      T.check(out[1] == 0, 'no inliers')
    else:
      T.cover('%d pairs' % len(A))
      P = [[A[i, 1] - A[0, 1], 0., 0., 0., 0., 0., 1.] for i in range(len(A))]
      Q = [[C[i, 1] - C[0, 1], 0., 0., 0., 0., 0., 1.] for i in range(len(A))]
      judge(T, M, out, P, Q, cfg)
  f.__name__ = 'stamps%dx%d' % (n, m)
  return f


SC = ('1 inliers', '2 inliers')
HARNESSES = [Harness(scored(None, 1, None, None, 5), bounds=B, covers=SC), Harness(scored(0, None, 2, 3, 5), bounds=B, covers=SC),
             Harness(scored(0, 1, 2, 3, None), bounds=B, covers=SC),
             Harness(shifted('hand', None), bounds=B, covers=SC), Harness(shifted('eye', None), bounds=B, covers=SC),
             Harness(longer(5, 1), bounds=B), Harness(longer(5, 4), bounds=B), Harness(longer(9, 8), bounds=B),
             Harness(stamps(2, 2), bounds=B, covers=('no pair', '1 pairs')), Harness(stamps(2, 3), bounds=B, covers=('no pair', '1 pairs', '2 pairs')),
             Harness(stamps(3, 2), bounds=B, covers=('no pair', '1 pairs', '2 pairs')),
             Harness(stamps(3, 3), bounds=B, tier='thorough', covers=('no pair', '1 pairs', '2 pairs')),
             Harness(scored(*([None] * 5)), bounds=B, tier='thorough', covers=SC, deadline=600)]
