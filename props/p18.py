"""P18 baseline search"""
from symx.main import Harness
from search import *

B = ('paths of 3 or 4 poses; up to 2 eye poses displaced by any distance in [-3,3] or one turned so that it does not fit, except '
     'within 1e-4 of the matching tolerance; the calibration succeeds or fails with any result and singular values, the RMSE '
     'values are any in [0,10]; minimum number of inliers 1 to 4')
TOL = 1e-2


class Recorder(object):
  """stand-ins for compute_hand_eye_calibration and evaluate_alignment that keep their arguments"""

  def __init__(self, T, fails):
    self.T, self.fails = T, fails
    self.H = T.mod(HE)
    self.D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    self.saved = self.H.compute_hand_eye_calibration, self.H.evaluate_alignment
    self.H.compute_hand_eye_calibration, self.H.evaluate_alignment = [in_place_of(f, g) for f, g in zip(self.saved, (self.calibrate, self.evaluate))]
    self.calibs, self.evals = [], []

  def close(self):
    self.H.compute_hand_eye_calibration, self.H.evaluate_alignment = self.saved

  def calibrate(self, hand, eye, *args, **kw):
    i = len(self.calibs)
    T = self.T
    d = exact([0.125 * (i + 1), 0.5, -0.25], [0.6, 0., 0., 0.8])
    if not T.symbolic:
      d = [float(x) for x in d]
    r = d, T.vec('s%d' % i, 8, 0, 10), T.real('flag%d' % i, 0, 1) > 0.5
    self.calibs.append(([list(x.dq) for x in hand], [list(x.dq) for x in eye], r))
    if self.fails:
      raise AssertionError('calibration refused')
    return self.D.from_vector(r[0]), r[1], r[2]

  def evaluate(self, P, Q, config=None, visualize=False):
    i = len(self.evals)
    r = self.T.real('rp%d' % i, 0, 10), self.T.real('ro%d' % i, 0, 10)
    self.evals.append(([list(x) for x in P], [list(x) for x in Q], r))
    return r[0], r[1], [True] * len(P)


def _turns(ds):
  """the orientations, which are concrete, tell which motions these are"""
  return sorted(key([x for d in p for x in d[:4]]) for p in zip(*ds))


def _same(T, got, want, at, what):
  """the same pairs in any order; at: where the orientation starts in a row"""
  def order(p):
    return key(list(p[0][at:at + 4]) + list(p[1][at:at + 4]))
  got, want = sorted(zip(*got), key=order), sorted(zip(*want), key=order)
  for g, w in zip(got, want):
    T.check_eq(list(g[0]) + list(g[1]), list(w[0]) + list(w[1]), what)


def search(n, exhaustive, only, moved=(), outlier=None, fails=False, least=(1, 2, 3), filtered=False):
  def f(T):
    R = Recorder(T, fails)
    H = R.H
    saved = H.prefilter_using_screw_axis
    try:
      hand, eye = path(T, n, outlier)
      for i in moved:
        e = T.real('e%d' % i, -3, 3)
        eye[i] = dqmul(eye[i], pose_dq([e, e / 2, -e / 4], [0, 0, 0, 1]))
      dh, de = [R.D.from_vector(d) for d in hand], [R.D.from_vector(d) for d in eye]
      cfg = H.HandEyeConfig()
      cfg.prefilter_poses_enabled = filtered
      if filtered:
        H.prefilter_using_screw_axis = in_place_of(saved, lambda a, b, *x: (a[1:], b[1:]))
      cfg.enable_exhaustive_search = exhaustive
      cfg.ransac_evaluate_refined_model_on_inliers_only = only
      cfg.min_num_inliers = T.choice('min_num_inliers', least)
      kept = (hand[1:], eye[1:]) if filtered else (hand, eye)
      # the inlier set of every start pose
      sets = []
      for j in range(len(kept[0])):
        pairs = []
        for a, b in zip(relative(kept[0], j), relative(kept[1], j)):
          d = b[7] - a[7]
          lo, hi = TOL - 1e-4, TOL + 1e-4
          T.assume(T.or_(T.and_(d < lo, -d < lo), d > hi, -d > hi))
          if abs(float(a[3]) - float(b[3])) < TOL and T.truth(T.and_(d < hi, -d < hi)):
            pairs.append((a, b))
        sets.append(([p[0] for p in pairs], [p[1] for p in pairs]))
      sizes = [len(s[0]) for s in sets]
      out, err = T.call(H.compute_hand_eye_calibration_BASELINE, dh, de, cfg)
      if exhaustive:
        most = max(sizes)
        usable = [s for s in sets if len(s[0]) == most] if most >= cfg.min_num_inliers else []
      else:
        usable = [s for s in sets if len(s[0]) > cfg.min_num_inliers][:1]
      if not usable:
        T.check(isinstance(err, AssertionError), 'too few inliers are refused')
        T.cover('refused')
        return
      T.check(err is None, 'no exception: %s' % type(err).__name__)
      if err is not None:
        return
      ok, dq, (rp, ro), num, after, runtime, sv, bad = out
      T.check(len(R.calibs) >= 1, 'calibrates')
      ch, ce, res = R.calibs[-1]
      mine = [s for s in usable if _turns(s) == _turns((ch, ce))]
      T.check(len(mine) > 0, 'calibrates on a qualifying inlier set')
      if not mine:
        return
      _same(T, (ch, ce), mine[0], 0, 'calibrates on exactly the inliers')
      T.check(after == len(kept[0]), 'number of poses after filtering')
      if fails:
        T.check(ok is False and dq is None, 'failing calibration is reported')
        T.cover('fails')
        return
      T.check(T.truth(ok), 'success')
      T.check(num == len(ch), 'number of inliers')
      T.check_eq(dq.dq, res[0], 'calibration is returned')
      T.check_eq(sv, res[1], 'singular values')
      T.check(T.or_(T.and_(bad, res[2]), T.and_(T.not_(bad), T.not_(res[2]))), 'quality flag')
      T.check(T.or_(*[T.and_(rp == e[2][0], ro == e[2][1]) for e in R.evals]), 'RMSE values of an evaluation')
      P, Q, _ = R.evals[-1]
      if only:
        want = [_rows(ch, ce, res[0])]
      else:
        want = [_rows(relative(hand, j), relative(eye, j), res[0]) for j in range(n)]
      want = [w for w in want if _rowturns(w) == _rowturns((P, Q))]
      T.check(len(want) > 0, 'evaluates on ' + ('the inliers' if only else 'all pairs'))
      if want:
        _same(T, (P, Q), want[0], 3, 'evaluated poses')
      T.cover('success')
    finally:
      R.close()
      H.prefilter_using_screw_axis = saved
  f.__name__ = '%s%d%s%s%s%s%s' % ('exhaustive' if exhaustive else 'first', n, '_inliers' if only else '',
                                 ''.join('_moved%d' % i for i in moved), '' if outlier is None else '_outlier%d' % outlier,
                                 '_failing' if fails else '', '_filtered' if filtered else '')
  return f


def _rowturns(ds):
  return sorted(key(list(a[3:]) + list(b[3:])) for a, b in zip(*ds))


def _rows(hand, eye, x):
  """pose rows of the hand path and of its prediction from the eye path"""
  ws = [dqmul(e, conj8(x)) for e in eye]
  return [pos(h) for h in hand], [pos(w) for w in relative(ws, 0)]


C = ['success', 'refused']
HARNESSES = [
    Harness(search(3, True, False, least=(1, 2, 3, 4)), bounds=B, covers=C),
    Harness(search(3, False, False, least=(1, 2, 3)), bounds=B, covers=C),
    Harness(search(4, True, True, outlier=0, least=(2, 3, 4)), bounds=B, covers=C),
    Harness(search(4, False, True, outlier=0, least=(1, 2, 3)), bounds=B, covers=C),
    Harness(search(4, True, False, outlier=3, least=(2,), fails=True), bounds=B, covers=['fails']),
    Harness(search(4, False, False, outlier=1, least=(2,), fails=True), bounds=B, covers=['fails']),
    Harness(search(4, True, False, (0,), least=(3, 4)), bounds=B, covers=C),
    Harness(search(4, True, True, (0, 1), least=(2, 3)), bounds=B, covers=C),
    Harness(search(4, False, True, (0, 1), least=(1, 2)), bounds=B, covers=C),
    Harness(search(4, False, False, (1, 3), least=(1, 2)), bounds=B, covers=C),
    Harness(search(4, True, False, (2,), least=(2, 3), filtered=True), bounds=B, covers=['success']),
    Harness(search(4, False, False, (1,), least=(1, 2), filtered=True), bounds=B, covers=['success']),
]
