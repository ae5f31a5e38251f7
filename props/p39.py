"""P39 the optimisation experiments"""
import io
import types

from symx.main import Harness
from lib import *
from batch import *

B = ('2 or 3 pose files (1 or 3 pairs) with and without flags of absolute sensors; any time offsets, initial guesses, perturbed guesses, perturbations and '
     'optimised results (6 rotations, any translation); any one pair fails in the optimiser or in the evaluation, or none; all experiments of the script for '
     '1 or 2 iterations; the steps themselves are stand-ins; numbers in files are exact')
SC = 'hand_eye_calibration_experiments/bin/optimization_experiments.py'


class Perturbed(Experiment):
  """the initial guess of an optimisation is a perturbed one"""

  def spoiled(self, p):
    return self.T.real('spoiled_offset%d' % p, -10, 10), pose_dq(self.T.vec('spoiled%d' % p, 3, -10, 10), [num(self.T, x) for x in ROT[(p + 1) % 6]])

  def perturbation(self, p):
    T = self.T
    return T.vec('d%d' % p, 3, -1, 1), T.real('angle%d' % p, 0, 3), T.real('shift%d' % p, -1, 1)

  def spoil(self, offset, dq, angles, translations, times):
    T = self.T
    p = len(self.spoils)
    T.check(p < len(self.pairs), 'one perturbation per pair')
    T.check((angles, translations, times) == self.ranges, 'perturbs within the given ranges')
    T.check_eq(offset, self.offset(p), 'perturbs the initial time offset')
    T.check_eq(dq.dq, self.guess(0, p), 'perturbs the initial guess')
    self.spoils.append(p)
    o, d = self.spoiled(p)
    return o, T.mod(DQ).DualQuaternion.from_vector(T.np.array(d)), self.perturbation(p)

  def run_of(self, p):
    return 0

  def start(self, k, p):
    return self.spoiled(p)


def module(T, x, flags):
  """the script as a module with the variables of its main part"""
  M = T.script(SC, 'experiments')
  n = x.n
  M.args = types.SimpleNamespace(visualize=False, plot_every_nth_pose=10, result_directory=T.path('out'), num_iterations=1)
  M.num_poses_sets, M.num_pose_pairs = n, len(x.pairs)
  M.set_of_pose_pairs = [(x.files[i], x.files[j]) for i, j in x.pairs]
  M.set_of_is_absolute_sensor_flags = [(bool(flags and flags[i]), bool(flags and flags[j])) for i, j in x.pairs]
  M.iteration = 0
  return M


def template(T, x, config):
  """what the initial guesses gave, in the order of the pairs"""
  e = T.mod(ER).ResultEntry()
  name, fc, hc, oc = config
  e.init_from_configs(name, 0, fc, hc, oc)
  for p, (i, j) in enumerate(x.pairs):
    e.success.append(True)
    e.num_initial_poses.append(2 + p)
    e.num_poses_kept.append(21 + p)
    e.runtimes.append(x.value('runtime', 0, p))
    e.singular_values.append(T.np.array([1., 2.]))
    e.bad_singular_value.append(False)
    e.dataset_names.append((x.files[i], x.files[j]))
  return e


def optimisation(n, flags):
  def f(T):
    step = T.choice('fails', ['ok', 'optimiser', 'inliers'])
    npairs = n * (n - 1) // 2
    where = T.choice('where', list(range(npairs))) if step != 'ok' else None
    iteration = T.choice('iteration', [0, 3])
    with Perturbed(T, n, lambda k, p: step if p == where else 'ok') as x:
      x.flags, x.spoils = flags, []
      x.ranges = ([0.1, 0.2], [0.3, 0.4], [0.5, 0.6])
      config = T.mod(AL).get_optimization_with_spoiled_initial_calibration_config()
      M = module(T, x, flags)
      D = T.mod(DQ).DualQuaternion
      M.set_of_dq_H_E_initial_guess = [D.from_vector(T.np.array(x.guess(0, p))) for p in range(npairs)]
      M.set_of_time_offset_initial_guess = [x.offset(p) for p in range(npairs)]
      M.algorithm_name, M.filtering_config, M.hand_eye_config, M.optimization_config = config
      M.spoil_initial_guess = in_place_of(M.spoil_initial_guess, x.spoil)
      t = template(T, x, config)
      before = {k: list(v) if isinstance(v, list) else v for k, v in t.__dict__.items()}
      e, dqs, poses = M.run_optimization_experiment(x.ranges[2], x.ranges[0], x.ranges[1], iteration, t, (4, 7))
      if x.problem is not None:
        raise x.problem
      T.check(x.spoils == list(range(npairs)) and x.optimised == [(0, p) for p in range(npairs)], 'every pair is perturbed and optimised once')
      T.check(all(c is M.hand_eye_config for k, p, c in x.evaluated), 'evaluates with the configuration')
      T.check(len(dqs) == len(poses) == npairs, 'a result per pair')
      for k, v in before.items():
        w = t.__dict__[k]
        T.check(len(w) == len(v) if isinstance(v, list) else w == v, 'the template stays as it is')
      for p in range(npairs):
        row = e.write_pose_pair_to_csv_line(p).rstrip('\n').split(',')
        judge_row(T, x, row, p, step if p == where else 'ok', iteration, step == 'ok', config)
        o = step if p == where else 'ok'
        if o == 'optimiser':
          T.check(dqs[p] is None and poses[p] is None, 'no result of a failed optimisation')
        else:
          d = x.optimum(0, p)
          T.check_eq(dqs[p].dq, d, 'optimised transformation')
          T.check_eq(poses[p], [2 * v for v in qmul(d[4:], qconj(d[:4]))[:3]] + d[:4], 'optimised pose')
      T.check(len(x.loops) == (1 if step == 'ok' else 0), 'loop error of complete results only')
      for l in x.loops:
        T.check_eq(l, [x.optimum(0, p) for p in range(npairs)], 'loop of the optimised results')
      T.cover(step)
  f.__name__ = 'optimisation%d%s' % (n, '_flags' if flags else '')
  return f


def judge_row(T, x, row, p, o, iteration, complete, config):
  T.check(len(row) == COLUMNS, 'columns')
  i, j = x.pairs[p]
  T.check(row[:7] == [config[0], str(p), str(iteration), str(config[2].prefilter_poses_enabled), x.files[i], x.files[j], 'True'],
          'configuration, pair and iteration of a row')
  T.check(row[9:12] == [str(31 + p if o == 'ok' else 0), str(2 + p), str(21 + p)], 'counts of a row')
  T.check(row[16:19] == ['False', 'True', str(o == 'ok')], 'flags of a row')
  T.check_eq(T.parse(row[12]), x.value('runtime', 0, p), 'runtime of the search')
  if o == 'ok':
    T.check_eq(T.parse(row[7]), x.value('position_optimised', 0, p), 'position error')
    T.check_eq(T.parse(row[8]), x.value('orientation_optimised', 0, p), 'orientation error')
  else:
    T.check(all(v in ('None', 'inf', 'nan', '-1') for v in row[7:9]), 'no error of a failed optimisation')
  if complete:
    T.check_eq(T.parse(row[13]), x.value('loop_position', 0, 0), 'loop error in position')
    T.check_eq(T.parse(row[14]), x.value('loop_orientation', 0, 0), 'loop error in orientation')
  else:
    T.check(row[13] == row[14] == '-1', 'no loop error of incomplete results')
  T.check(T.parse(row[19]) >= 0, 'runtime of the optimisation')
  d, angle, shift = x.perturbation(p)
  T.check_eq(T.parse(row[20]), angle, 'perturbing angle')
  T.check_eq(T.parse(row[22]), shift, 'perturbing time')
  vec = [T.parse(v) for v in row[21].strip(' []').split()]
  T.check_eq(vec, d, 'perturbing translation')


def initial(n, baseline):
  def f(T):
    npairs = n * (n - 1) // 2
    with Experiment(T, n, lambda k, p: 'ok') as x:
      A = T.mod(AL)
      configs = {c[0]: c for c in A.get_all_configs()}
      config = configs['baseline_filter_opt'] if baseline else A.get_optimization_with_spoiled_initial_calibration_config()
      M = module(T, x, None)
      name, fc, hc, oc = config
      x.base(hc)
      dqs, offsets, e = M.compute_initial_guess_for_all_pairs(M.set_of_pose_pairs, name, hc, fc, oc)
      T.check_eq([d.dq for d in dqs], [x.guess(0, p) for p in range(npairs)], 'initial guess of every pair')
      T.check_eq(list(offsets), [x.offset(p) for p in range(npairs)], 'time offset of every pair')
      T.check([(s[0], s[3]) for s in x.searches] == [('BASELINE' if baseline else 'RANSAC', p) for p in range(npairs)], 'one search per pair')
      T.check([(id(c), p) for c, p in x.estimates] == [(id(fc), p) for p in range(npairs)], 'time offset with the configured filter')
      T.check(e.algorithm_name == name and e.optimization_enabled == oc.enable_optimization and e.iteration_num == 0, 'configuration of the template')
      for p, (i, j) in enumerate(x.pairs):
        T.check((e.success[p], e.num_initial_poses[p], e.num_poses_kept[p], e.bad_singular_value[p], tuple(e.dataset_names[p])) ==
                (True, 2 + p, 21 + p, False, (x.files[i], x.files[j])), 'results of the initial guess')
        T.check_eq(e.runtimes[p], x.value('runtime', 0, p), 'runtime of the initial guess')
        T.check_eq(list(e.singular_values[p]), [1, 2], 'singular values of the initial guess')
  f.__name__ = 'initial%d%s' % (n, '_baseline' if baseline else '')
  return f


def whole(n):
  def f(T):
    """the main part: every combination of perturbations is run as often as asked for and every result is written"""
    iterations = T.choice('iterations', [1, 2])
    flags = T.choice('flags', [None, [True] + [False] * (n - 1)])
    inputs = []
    with Experiment(T, n, lambda k, p: 'ok') as x:
      npairs = len(x.pairs)
      config = T.mod(AL).get_optimization_with_spoiled_initial_calibration_config()
      x.replace(AL, 'get_optimization_with_spoiled_initial_calibration_config', lambda: config)
      x.base(config[2])

      class Pool(object):
        """stand-in for the processes: each experiment gives a result of its own"""

        def __init__(self, *a, **k):
          pass

        def map(self, func, data, *a):
          out = []
          for k, d in enumerate(data):
            inputs.append(d)
            e = template(T, x, config)
            e.iteration_num = d[3]
            for p in range(npairs):
              e.rmse.append((x.T.real('rmse%d' % p, 0, 10) + k, k))
              e.num_inliers.append(p)
              e.optimization_success.append(True)
              e.optimization_runtime.append(0.)
              e.spoiled_initial_guess_angle_offset.append(0.)
              e.spoiled_initial_guess_translation_offset.append(T.np.array([0., 0., 0.]))
              e.spoiled_initial_guess_time_offset.append(0.)
            out.append((e, [], []))
          return out

        def close(self):
          pass

        join = terminate = close

        def __enter__(self):
          return self

        def __exit__(self, *a):
          pass
      T.module('multiprocessing', Pool=Pool)
      args = ['--aligned_poses_B_H_csv_files'] + x.files + ['--result_directory', T.path('out'), '--num_iterations', str(iterations)]
      if flags:
        args += ['--is_absolute_pose_sensor'] + [str(int(b)) for b in flags]
      M = T.run(SC, args)
      for v in list(vars(M).values()):
        if isinstance(v, io.IOBase):
          v.close()  # as at the end of the process
      pi = T.np.pi if T.symbolic else 3.141592653589793
      seen = {}
      for d in inputs:
        key = tuple(float(v) for v in (d[0][0], d[0][1], d[2][0], d[2][1])) + (round(float(d[1][0] / pi * 180)), round(float(d[1][1] / pi * 180)))
        seen.setdefault(key, []).append(d[3])
      want = {}
      for a in range(0, 180, 15):
        for t in range(10):
          want[(0., 0., t / 10., (t + 1) / 10., a, a + 15)] = list(range(iterations))
      T.check(seen == want, 'every combination of ranges as often as asked for')
      T.check([d[5] for d in inputs] == [(k, len(inputs)) for k in range(len(inputs))], 'every experiment has its own number')
      T.check(len(x.searches) == npairs, 'one initial guess per pair')
      T.check(M.set_of_is_absolute_sensor_flags == [(bool(flags and flags[i]), bool(flags and flags[j])) for i, j in x.pairs], 'flags of the pairs')
      header, rows = rows_of(T, 'out/results_optimization.csv')
      T.check(header is not None and header + '\n' == T.mod(ER).ResultEntry().get_header(), 'header of the result file')
      T.check(len(rows) == npairs * len(inputs), 'one row per experiment and pair')
      for k, d in enumerate(inputs):
        for p in range(npairs):
          row = rows[k * npairs + p]
          T.check(row[1:3] == [str(p), str(d[3])] and row[8] == str(k), 'rows in the order of the experiments')
          if k in (0, 7, len(inputs) - 1):
            T.check_eq(T.parse(row[7]), x.T.real('rmse%d' % p, 0, 10) + k, 'rows hold their own results')
  f.__name__ = 'whole%d' % n
  return f


HARNESSES = [Harness(optimisation(n, flags), fs=True, bounds=B, covers=('ok', 'optimiser', 'inliers')) for n, flags in
             ((2, None), (2, [True, False]), (3, [False, True, False]))]
HARNESSES += [Harness(initial(*a), fs=True, bounds=B) for a in ((2, False), (3, False), (2, True))]
HARNESSES += [Harness(whole(2), fs=True, bounds=B), Harness(whole(3), fs=True, bounds=B)]
