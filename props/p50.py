"""P50 early end of the sample search"""
from fractions import Fraction

from symx.main import Harness
from symx.sym import Sym
from p17 import *
from p17 import _paths

B = ('paths of 3 poses with or without a pair that does not fit, samples of 1 or 2 poses, at most 4 draws, at most 3 or 9 evaluations configured; five given outlier probabilities, '
     'any success probability in [0.01,0.999] that is not within 1e-6 of the chance after some number of evaluations; samples may fail to '
     'calibrate or have too few inliers')


def _setup(T, W, size, probabilities, abort):
  cfg = W.H.HandEyeConfig()
  cfg.prefilter_poses_enabled = False
  cfg.ransac_sample_size = size
  cfg.ransac_inlier_classification = 'scalar_part_equality'
  cfg.ransac_model_refinement = True
  cfg.ransac_evaluate_refined_model_on_inliers_only = False
  cfg.min_num_inliers = 2
  cfg.ransac_enable_early_abort = abort
  p = T.choice('outlier probability', probabilities)
  cfg.ransac_outlier_probability = p
  thr = cfg.ransac_success_probability_threshold = T.real('success', 0.01, 0.999)
  miss = 1 - (1 - Fraction(p)) ** size
  # the chance that one of n samples has inliers only
  chance = [1 - miss ** n for n in range(6)]
  chance = [Sym.lift(c) if T.symbolic else float(c) for c in chance]
  for n, c in enumerate(chance):
    T.assume(T.or_(thr - c > 1e-6, c - thr > 1e-6))
    if T.symbolic and 0 < n:
      # log(miss ** n) next to the logarithm of the code
      a, b = T.math.log(1 - thr), T.math.log(1 - c)
      T.fact(T.or_(c - thr <= 1e-6, a - b >= 5e-7))
      T.fact(T.or_(thr - c <= 1e-6, b - a >= 5e-7))
  return cfg, thr, chance


def _given(W):
  """every evaluation is better than the one before"""
  n = [8.]

  def evaluate(P, Q, config=None, visualize=False):
    n[0] -= 0.25
    return n[0], n[0], [True] * len(P)
  W.H.evaluate_alignment = in_place_of(W.saved[1], evaluate)


def ends(size, most, draws, outlier, probabilities, may_fail=False, abort=True):
  def f(T):
    W = World(T, may_fail, 0)
    try:
      hand, eye, dh, de = _paths(T, 3, outlier)
      cfg, thr, chance = _setup(T, W, size, probabilities, abort)
      cfg.enable_exhaustive_search = False
      cfg.ransac_max_number_iterations = most
      _given(W)
      T.limit('sample', size * draws)
      W.H.compute_hand_eye_calibration_RANSAC(dh, de, cfg)
      W.wanted = {}
      drawn = list(T.drawn())
      n = 0
      for k, c in enumerate(drawn):
        T.check(n < most, 'ends with the configured number of evaluations')
        T.check(not abort or n == 0 or chance[n] <= thr, 'ends as soon as an all-inlier sample is likely enough')
        if candidate(W, hand, eye, c, cfg) is not None:
          n += 1
      T.check(n > 0, 'samples until one is evaluated')
      if n == most:
        T.cover('number of evaluations')
      else:
        T.check(abort, 'ends early only if told to')
        T.check(chance[n] >= thr, 'ends early only if an all-inlier sample is likely enough')
        T.cover('early')
    finally:
      W.close()
  f.__name__ = 'ends%d_%d%s%s%s' % (size, most, '' if abort else '_never_early', '' if outlier is None else '_outlier%d' % outlier, '_failing' if may_fail else '')
  return f


def exhaustive_search(size, outlier):
  def f(T):
    from itertools import combinations
    W = World(T, False, 0)
    try:
      hand, eye, dh, de = _paths(T, 3, outlier)
      cfg, thr, chance = _setup(T, W, size, [0.125, 0.5], True)
      cfg.enable_exhaustive_search = True
      cfg.ransac_max_number_iterations = T.choice('most', [1, 9])
      _given(W)
      W.H.compute_hand_eye_calibration_RANSAC(dh, de, cfg)
      W.wanted = {}
      for c in combinations(range(3), size):
        candidate(W, hand, eye, c, cfg)
      T.check(W.calls == W.wanted, 'exhaustive search does not end early')
    finally:
      W.close()
  f.__name__ = 'exhaustive%d%s' % (size, '' if outlier is None else '_outlier%d' % outlier)
  return f


P = [0.125, 0.5, 0.75]
HARNESSES = [Harness(f, bounds=B, covers=c) for f, c in (
    (ends(2, 2, 3, None, P), ('early', 'number of evaluations')), (ends(1, 3, 4, None, P + [0.25]), ('early', 'number of evaluations')),
    (ends(2, 9, 3, 1, P[:2]), ('early',)), (ends(1, 9, 3, 0, P), ('early',)), (ends(2, 9, 2, None, [0.5, 0.0625], True), ('early',)),
    (ends(1, 3, 3, None, [0.125], abort=False), ('number of evaluations',)), (exhaustive_search(2, None), ()), (exhaustive_search(1, None), ()), (exhaustive_search(2, 2), ()))]
