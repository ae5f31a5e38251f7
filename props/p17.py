"""P17 sample search"""
from symx.main import Harness
from search import *

B = ('paths of 3 or 4 poses with or without a pair that does not fit, samples of 2, sampling with at most 2 draws '
     '(thorough: 3); the calibration of any set of pairs (result, singular values, quality flag, failure), the RMSE values of any '
     'evaluation (in [0,10]) and the inlier flags are free; minimum number of inliers 1 to 4; filtering that leaves the first 2 or 3 pairs')


def candidate(W, hand, eye, c, cfg):
  """what sample c stands for: None or (calibration, rmse values, inliers)"""
  tol = cfg.ransac_sample_rejection_scalar_part_equality_tolerance
  sh, se = relative([hand[i] for i in c], 0), relative([eye[i] for i in c], 0)
  if not all(match(a, b, tol) for a, b in zip(sh, se)):
    return None
  ah, ae = relative(hand, c[0]), relative(eye, c[0])
  first = None
  if cfg.ransac_inlier_classification == 'rmse_threshold':
    k, first = W.calibration(sh, se)
    W.wanted[k] = W.wanted.get(k, 0) + 1
    if first is None:
      return None
    P, Q = W.predicted(ah, ae, first[0])
    flags = [W.inlier(a, b) for a, b in zip(P, Q)]
    if not all(match(a, b, tol) for a, b, f in zip(ah, ae, flags) if f):
      return None
  else:
    flags = [match(a, b, tol) for a, b in zip(ah, ae)]
  ih, ie = [a for a, f in zip(ah, flags) if f], [a for a, f in zip(ae, flags) if f]
  if len(ih) < cfg.min_num_inliers:
    return None
  if cfg.ransac_model_refinement or first is None:
    k, first = W.calibration(ih, ie)
    W.wanted[k] = W.wanted.get(k, 0) + 1
    if first is None:
      return None
  P, Q = W.predicted(ih, ie, first[0]) if cfg.ransac_evaluate_refined_model_on_inliers_only else W.predicted(ah, ae, first[0])
  return first, W.errors(P, Q), len(ih)


def _judge(T, W, cands, out):
  ok, dq, (rp, ro), num, after, runtime, sv, bad = out
  if not cands:
    T.check(not T.truth(ok), 'failure is reported if no sample qualifies')
    T.check(dq is None, 'no calibration without a qualifying sample')
    T.cover('failure')
    return
  T.check(T.truth(ok), 'success is reported if a sample qualifies')
  T.cover('success')
  if not T.truth(ok):
    return
  mine = [c for c in cands if all(abs(float(a) - float(b)) < 1e-6 for a, b in zip(dq.dq, c[0][0]))]
  T.check(len(mine) > 0, 'the calibration of an evaluated sample is returned')
  if not mine:
    return
  T.check(T.or_(*[T.and_(rp == c[1][0], ro == c[1][1], c[2] == num) for c in mine]),
          'RMSE values and inlier count of the returned calibration')
  T.check_eq(sv, mine[0][0][1], 'singular values of the returned calibration')
  flag = mine[0][0][2]
  T.check(T.or_(T.and_(bad, flag), T.and_(T.not_(bad), T.not_(flag))), 'quality flag of the returned calibration')
  for c in cands:
    T.check(T.or_(c[1][0] >= rp, c[1][1] >= ro), 'no evaluated sample is better in both values')


def _config(T, H, mode, refine, only, least, size=2):
  cfg = H.HandEyeConfig()
  cfg.prefilter_poses_enabled = False
  cfg.ransac_sample_size = size
  cfg.ransac_inlier_classification = mode
  cfg.ransac_model_refinement = refine
  cfg.ransac_evaluate_refined_model_on_inliers_only = only
  cfg.min_num_inliers = T.choice('min_num_inliers', least)
  return cfg


def _paths(T, n, outlier):
  hand, eye = path(T, n, outlier)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  return hand, eye, [D.from_vector(d) for d in hand], [D.from_vector(d) for d in eye]


def _untouched(T, hand, eye, dh, de):
  T.check(len(dh) == len(hand) and len(de) == len(eye), 'paths keep their poses')
  for a, b in zip(dh + de, hand + eye):
    T.check_eq(a.dq, b, 'paths are left unchanged')


def exhaustive(n, mode, refine, only, outlier, may_fail=False, least=(2, 3), free=99, skip=0, size=2):
  def f(T):
    from itertools import combinations
    W = World(T, may_fail, free, skip)
    try:
      hand, eye, dh, de = _paths(T, n, outlier)
      cfg = _config(T, W.H, mode, refine, only, least, size)
      cfg.enable_exhaustive_search = True
      out = W.H.compute_hand_eye_calibration_RANSAC(dh, de, cfg)
      W.wanted = {}
      cands = [candidate(W, hand, eye, c, cfg) for c in combinations(range(n), size)]
      _judge(T, W, [c for c in cands if c is not None], out)
      T.check(all(v <= W.wanted.get(k, 0) for k, v in W.calls.items()), 'no sample is tried twice')
      _untouched(T, hand, eye, dh, de)
    finally:
      W.close()
  f.__name__ = 'exhaustive%d%s_%s%s%s%s%s' % (n, '' if size == 2 else 'by%d' % size, mode[:4], '_refined' if refine else '', '_inliers' if only else '',
                                          '_failing' if may_fail else '',
                                          '' if outlier is None else '_outlier%d' % outlier)
  return f


def sampling(n, draws, mode, refine, outlier, may_fail=False, least=(2, 3), abort=False, free=99, iterations=None, size=2):
  def f(T):
    W = World(T, may_fail, free)
    try:
      hand, eye, dh, de = _paths(T, n, outlier)
      cfg = _config(T, W.H, mode, refine, False, least, size)
      cfg.enable_exhaustive_search = False
      cfg.ransac_max_number_iterations = iterations or draws
      cfg.ransac_enable_early_abort = abort
      T.limit('sample', 2 * draws)
      out = W.H.compute_hand_eye_calibration_RANSAC(dh, de, cfg)
      W.wanted = {}
      cands = [candidate(W, hand, eye, c, cfg) for c in T.drawn()]
      cands = [c for c in cands if c is not None]
      T.check(len(cands) <= cfg.ransac_max_number_iterations, 'no more evaluations than configured')
      _judge(T, W, cands, out)
      _untouched(T, hand, eye, dh, de)
    finally:
      W.close()
  f.__name__ = 'sampling%d%s%s_%s%s%s%s%s' % (draws, '' if size == 2 else 'by%d' % size, 'of%d' % iterations if iterations else '', mode[:4], '_refined' if refine else '', '_abort' if abort else '',
                                        '_failing' if may_fail else '',
                                        '' if outlier is None else '_outlier%d' % outlier)
  return f


def filtered(n, keep, mode, outlier=None, size=2, least=(1, 2)):
  def f(T):
    """samples are drawn from what the filter leaves, here the first pairs"""
    from itertools import combinations
    W = World(T, False, 0)
    real = W.H.prefilter_using_screw_axis
    try:
      hand, eye, dh, de = _paths(T, n, outlier)
      cfg = _config(T, W.H, mode, True, False, least, size)
      cfg.enable_exhaustive_search = True
      cfg.prefilter_poses_enabled = True
      cfg.prefilter_dot_product_threshold = T.real('threshold', 0, 1)
      got = []

      def prefilter(a, b, threshold=0.95):
        got.append(threshold)
        return list(a)[:keep], list(b)[:keep]
      W.H.prefilter_using_screw_axis = in_place_of(real, prefilter)
      out = W.H.compute_hand_eye_calibration_RANSAC(dh, de, cfg)
      T.check(len(got) == 1, 'filters once')
      T.check_eq(got[0], cfg.prefilter_dot_product_threshold, 'threshold of the filter')
      T.check(out[4] == keep, 'number of pairs left by the filter')
      W.wanted = {}
      cands = [candidate(W, hand, eye, c, cfg) for c in combinations(range(keep), size)]
      _judge(T, W, [c for c in cands if c is not None], out)
      T.check(all(v <= W.wanted.get(k, 0) for k, v in W.calls.items()), 'no sample is tried twice')
      _untouched(T, hand, eye, dh, de)
    finally:
      W.H.prefilter_using_screw_axis = real
      W.close()
  f.__name__ = 'filtered%dof%d_%s' % (keep, n, mode[:4])
  return f


R, S = 'rmse_threshold', 'scalar_part_equality'
C = ['success', 'failure']
HARNESSES = [
    Harness(exhaustive(3, S, True, False, None, True, (1, 2, 3, 4), free=1), bounds=B, covers=C),
    Harness(exhaustive(3, S, True, True, 2, True, (1, 2, 3, 4)), bounds=B, covers=C),
    Harness(exhaustive(3, S, True, False, 0, True, (1, 2, 3, 4)), bounds=B, covers=C),
    Harness(exhaustive(3, R, True, False, None, least=(3, 4), free=5), bounds=B, covers=C),
    Harness(exhaustive(3, R, True, True, None, least=(2,), free=4), bounds=B, covers=['success']),
    Harness(exhaustive(3, R, False, False, None, True, (3, 4)), bounds=B, covers=C),
    Harness(exhaustive(3, R, True, True, 1, True, (2, 3)), bounds=B, covers=C),
    Harness(sampling(3, 2, S, True, None, least=(3,), free=1), bounds=B, covers=['success']),
    Harness(sampling(3, 2, S, True, 1, True, iterations=1), bounds=B, covers=['success']),
    Harness(sampling(3, 2, R, True, None, least=(3,), free=3), bounds=B, covers=['success']),
    Harness(sampling(3, 2, R, False, None, least=(2,), abort=True, free=2), bounds=B, covers=['success']),
    Harness(exhaustive(3, S, True, False, 0, least=(1, 2), size=1, free=1), bounds=B, covers=['success']),
    Harness(exhaustive(3, S, True, True, 2, least=(1, 2), size=1), bounds=B, covers=['success']),
    Harness(exhaustive(4, S, True, True, 3, least=(1, 2, 3), size=3), bounds=B),
    Harness(sampling(3, 2, S, True, 2, least=(1,), size=1, free=1), bounds=B, covers=['success']),
    Harness(exhaustive(3, R, True, True, None, least=(2,), free=3, skip=3), name='exhaustive3_rmse_refined_inliers_later', bounds=B, covers=['success']),
    Harness(exhaustive(4, S, True, False, None, least=(4,), free=0), bounds=B, covers=['success']),
    Harness(exhaustive(4, S, True, True, 1, True, least=(3,), free=0), bounds=B),
    Harness(sampling(3, 3, S, True, 2, free=0), bounds=B, covers=['success'], tier='thorough', max_paths=20000),
    Harness(exhaustive(3, R, True, False, None, least=(3,)), name='exhaustive3_all_flags', bounds=B, covers=C, tier='thorough'),
    Harness(exhaustive(4, R, True, False, None, least=(3,), free=5), bounds=B, tier='thorough', max_paths=20000),
    Harness(exhaustive(4, R, True, False, None, least=(2, 4), size=3, free=1), bounds=B, covers=C[:1]),
    Harness(filtered(4, 3, S), bounds=B, covers=C[:1]),
    Harness(filtered(3, 3, R), bounds=B, covers=C[:1]),
    Harness(filtered(4, 2, R, None, least=(2, 4)), bounds=B, covers=C[:1]),
]
