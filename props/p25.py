"""P25 configurations and result rows"""
from symx.main import Harness
from lib import *

B = ('all flags of all configuration functions as free truth values; result rows for 1, 2 or 9 pose pairs (of the 9, one with free flags) with every number free in '
     '[-100,100], with and without singular values and spoiled guesses')
AC = 'hand_eye_calibration.algorithm_config'
AL = 'hand_eye_calibration_experiments.all_algorithm_configs'
ER = 'hand_eye_calibration_experiments.experiment_results'


def _flag(T, name):
  return T.real(name, 0, 1) > 0.5


def _agrees(T, name, hec, base):
  """the settings are those that the name states"""
  kind = name.split('_')[0]
  T.check(kind in ('baseline', 'RC', 'RS', 'EC', 'ES'), 'known algorithm')
  parts = name[len(kind):]
  if kind in ('EC', 'ES'):
    T.check('filter' not in parts, 'exhaustive search names no filter')
    filtered = True
  else:
    T.check(parts.startswith('_no_filter') or parts.startswith('_filter'), 'name states the filter')
    filtered = parts.startswith('_filter')
  T.check(bool(T.truth(hec.prefilter_poses_enabled)) == filtered, 'pre-filtering as named')
  T.check(bool(T.truth(hec.use_baseline_approach)) == (kind == 'baseline'), 'baseline as named')
  T.check(bool(T.truth(hec.enable_exhaustive_search)) == (kind in ('EC', 'ES')), 'exhaustive search as named')
  if kind in ('RC', 'EC'):
    T.check(hec.ransac_inlier_classification == 'rmse_threshold', 'inlier criterion as named')
  if kind in ('RS', 'ES'):
    T.check(hec.ransac_inlier_classification == 'scalar_part_equality', 'inlier criterion as named')


def _optimised(T, name, oc):
  T.check(name.endswith('_opt'), 'name states the optimisation')
  T.check(bool(T.truth(oc.enable_optimization)) == (not name.endswith('_no_opt')), 'optimisation as named')
  T.check(not T.truth(oc.optimization_only), 'not only optimisation')


SIMPLE = [('get_baseline_config', 'baseline', 1), ('get_RANSAC_classic_config', 'RC', 1),
          ('get_RANSAC_scalar_part_inliers_config', 'RS', 1), ('get_exhaustive_search_pose_inliers_config', 'EC', 0),
          ('get_exhaustive_search_scalar_part_inliers_config', 'ES', 0)]
FULL = [('get_baseline_and_optimization_config', 'baseline', 2), ('get_RC_and_optimization_config', 'RC', 2),
        ('get_RS_and_optimization_config', 'RS', 2), ('get_EC_and_optimization_config', 'EC', 1),
        ('get_ES_and_optimization_config', 'ES', 1)]

ONLY = [('get_optimization_with_spoiled_initial_calibration_config', None, 0)]


def simple(T):
  """algorithm configurations for any flag"""
  M = T.mod(AC)
  fn, kind, nargs = T.choice('config', SIMPLE)
  f = _flag(T, 'filter')
  tac, hec = getattr(M, fn)(*[f][:nargs])
  T.check(hec.algorithm_name.split('_')[0] == kind, 'algorithm as named')
  _agrees(T, hec.algorithm_name, hec, kind)
  if nargs:
    T.check(T.truth(hec.prefilter_poses_enabled) == T.truth(f), 'pre-filtering as requested')


def full(T):
  """experiment configurations for any flags"""
  M = T.mod(AL)
  fn, kind, nargs = T.choice('config', FULL)
  f, o = _flag(T, 'filter'), _flag(T, 'optimise')
  name, tac, hec, oc = getattr(M, fn)(*([f, o] if nargs == 2 else [o]))
  T.check(name.split('_')[0] == kind, 'algorithm as named')
  _agrees(T, name, hec, kind)
  _optimised(T, name, oc)
  T.check(T.truth(oc.enable_optimization) == T.truth(o), 'optimisation as requested')
  if nargs == 2:
    T.check(T.truth(hec.prefilter_poses_enabled) == T.truth(f), 'pre-filtering as requested')


def distinct(T):
  """any two experiment configurations with distinct settings have distinct names"""
  M = T.mod(AL)
  got = []
  for k in (0, 1):
    fn, kind, nargs = T.choice('config%d' % k, FULL)
    f, o = _flag(T, 'filter%d' % k), _flag(T, 'optimise%d' % k)
    name, tac, hec, oc = getattr(M, fn)(*([f, o] if nargs == 2 else [o]))
    f = f if nargs == 2 else (f == f)
    got.append((name, (kind, T.truth(f) if nargs == 2 else True, T.truth(o))))
  T.check((got[0][0] == got[1][0]) == (got[0][1] == got[1][1]), 'same name exactly for same settings')


def listed(T):
  """the list of all configurations and the configuration of the optimisation experiment"""
  M = T.mod(AL)
  cs = M.get_all_configs()
  names = [c[0] for c in cs]
  T.check(len(set(names)) == len(names), 'names in the list are distinct')
  T.check(len(names) == 16, 'all combinations are listed')
  for name, tac, hec, oc in cs:
    _agrees(T, name, hec, None)
    _optimised(T, name, oc)
  name, tac, hec, oc = M.get_optimization_with_spoiled_initial_calibration_config()
  T.check(name not in names, 'name of the optimisation experiment is distinct')
  T.check(bool(oc.enable_optimization) and bool(oc.optimization_only), 'optimisation only')


COLUMNS = ['algorithm_name', 'num_pose_pairs', 'iteration_num', 'prefiltering', 'poses_B_H_csv_file', 'poses_W_E_csv_file', 'success',
           'position_rmse', 'orientation_rmse', 'num_inliers', 'num_input_poses', 'num_posesafter_filtering', 'runtime_s',
           'loop_error_position_m', 'loop_error_orientation_deg', 'singular_values', 'bad_singular_values', 'optimization_enabled',
           'optimization_success', 'optimization_runtime_s', 'spoiled_initial_guess_angle_offset',
           'spoiled_initial_guess_translation_offset', 'spoiled_initial_guess_time_offset']


def row(n, full):
  def f(T):
    """a result row repeats what the entry holds, column by column"""
    M = T.mod(ER)
    A = T.mod(AL)
    E = M.ResultEntry()
    fl, op = _flag(T, 'filter'), _flag(T, 'optimise')
    fn, kind, nargs = T.choice('config', FULL + ONLY if n < 3 else FULL[:2])
    name, tac, hec, oc = getattr(A, fn)(*[[], [op], [fl, op]][nargs])
    it = T.choice('iteration', [0, 3])
    E.init_from_configs(name, it, tac, hec, oc)
    want = []

    def flag(name, i, k):
      # longer results: one pair's flags are free
      return T.choice('%s%d' % (name, i), [True, False]) if n < 3 or i == n - 3 else bool((i >> k) & 1)
    for i in range(n):
      w = {k: T.real('%s%d' % (k, i), -100, 100) for k in COLUMNS if k not in (
          'algorithm_name', 'num_pose_pairs', 'iteration_num', 'prefiltering', 'poses_B_H_csv_file', 'poses_W_E_csv_file', 'success',
          'singular_values', 'bad_singular_values', 'optimization_enabled', 'optimization_success',
          'spoiled_initial_guess_translation_offset', 'num_inliers', 'num_input_poses', 'num_posesafter_filtering')}
      w.update(num_inliers=7 + i, num_input_poses=30 + i, num_posesafter_filtering=20 + i)
      w.update(algorithm_name=name, num_pose_pairs=i, iteration_num=it, prefiltering=hec.prefilter_poses_enabled,
               poses_B_H_csv_file='hand%d.csv' % i, poses_W_E_csv_file='eye%d.csv' % i,
               success=flag('success', i, 0), bad_singular_values=flag('bad', i, 1),
               optimization_enabled=oc.enable_optimization, optimization_success=flag('optimised', i, 2),
               singular_values=T.vec('sv%d' % i, 8, 0, 9) if full else None,
               spoiled_initial_guess_translation_offset=T.vec('st%d' % i, 3, 0, 9) if full else None)
      for k in ('loop_error_position_m', 'loop_error_orientation_deg'):
        w[k] = want[0][k] if want else w[k]
      want.append(w)
      E.dataset_names.append((w['poses_B_H_csv_file'], w['poses_W_E_csv_file']))
      E.success.append(w['success'])
      E.rmse.append((w['position_rmse'], w['orientation_rmse']))
      E.num_inliers.append(w['num_inliers'])
      E.num_initial_poses.append(w['num_input_poses'])
      E.num_poses_kept.append(w['num_posesafter_filtering'])
      E.runtimes.append(w['runtime_s'])
      E.singular_values.append(w['singular_values'])
      E.bad_singular_value.append(w['bad_singular_values'])
      E.optimization_success.append(w['optimization_success'])
      E.optimization_runtime.append(w['optimization_runtime_s'])
      E.spoiled_initial_guess_angle_offset.append(w['spoiled_initial_guess_angle_offset'])
      E.spoiled_initial_guess_translation_offset.append(w['spoiled_initial_guess_translation_offset'])
      E.spoiled_initial_guess_time_offset.append(w['spoiled_initial_guess_time_offset'])
    E.loop_error_position = want[0]['loop_error_position_m']
    E.loop_error_orientation = want[0]['loop_error_orientation_deg']
    E.check_length(n)
    for wrong in (n - 1, n + 1):
      r, e = T.call(E.check_length, wrong)
      T.check(isinstance(e, AssertionError), 'a wrong number of pose pairs is noticed')
    head = E.get_header()
    T.check(head.endswith('\n') and head.count('\n') == 1, 'header is one line')
    head = head.strip().split(',')
    T.check(head == COLUMNS, 'header columns')
    for i in range(n):
      line = E.write_pose_pair_to_csv_line(i)
      T.check(line.endswith('\n') and line.count('\n') == 1, 'row is one line')
      vals = line.strip('\n').split(',')
      T.check(len(vals) == len(head), 'one value per header column')
      if len(vals) != len(head):
        continue
      for k, v in zip(head, vals):
        w = want[i].get(k)
        if w is None:
          T.check(v.strip() in ('', 'None'), k)
        elif isinstance(w, str):
          T.check(v == w, k)
        elif k in ('prefiltering', 'success', 'bad_singular_values', 'optimization_enabled', 'optimization_success'):
          T.check(v.strip() == str(T.truth(w)), k)
        elif k in ('singular_values', 'spoiled_initial_guess_translation_offset'):
          T.check_eq([T.parse(x) for x in v.strip(' []').split()], list(w), k, tol=1e-5)
        else:
          T.check_eq(T.parse(v), w, k)
  f.__name__ = 'row%d%s' % (n, '_full' if full else '')
  return f


HARNESSES = [Harness(f, bounds=B) for f in (simple, full, distinct, listed, row(1, True), row(1, False), row(2, False))]
HARNESSES += [Harness(row(9, True), bounds=B)]
