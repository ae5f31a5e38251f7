"""P38 the calibration experiments"""
from symx.main import Harness
from lib import *
from batch import *

B = ('2 or 3 pose files (1 or 3 pairs) with and without flags of absolute sensors, 1 or 2 configurations out of the 16, 1 or 2 iterations; any time offsets, '
     'transformations (6 rotations, any translation), errors and runtimes; any one pair fails in the search, in the optimiser or in the evaluation, or none; '
     'the steps themselves are stand-ins; numbers in files are exact')
SC = 'hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py'
STEPS = ('ok', 'search', 'optimiser', 'inliers')


def experiment(n, names, iterations, flags, name, outcomes=STEPS):
  def f(T):
    step = T.choice('fails', list(outcomes))
    npairs = n * (n - 1) // 2
    where = (0, 0)
    if step != 'ok':
      where = T.choice('where', [(k, p) for k in range(2) for p in range(npairs) if k < 1 or iterations > 1])
    with Experiment(T, n, lambda k, p: step if (k % 10, p) == where and k < 10 else 'ok') as x:
      x.flags = flags
      A = T.mod(AL)
      configs = {c[0]: c for c in A.get_all_configs()}
      T.check(all(c in configs for c in names), 'known configurations')
      chosen = [configs[c] for c in names]
      x.replace(AL, 'get_all_configs', lambda: chosen)
      for c in chosen:
        x.base(c[2])
      args = ['--aligned_poses_B_H_csv_files'] + x.files + ['--result_directory', T.path('out'), '--num_iterations', str(iterations)]
      if flags:
        args += ['--is_absolute_pose_sensor'] + [str(int(b)) for b in flags]
      T.run(SC, args)
      if x.problem is not None:
        raise x.problem
      judge(T, x, chosen, iterations)
  f.__name__ = name
  return f


def near(T, text, want, what):
  if want is None:
    T.check(text in ('None', 'inf', 'nan', '-1'), what)
  else:
    T.check_eq(T.parse(text), want, what)


def judge(T, x, chosen, iterations):
  header, rows = rows_of(T, 'out/results.csv')
  T.check(header is not None and header + '\n' == T.mod(ER).ResultEntry().get_header(), 'header of the result file')
  passes = []
  for (name, fc, hc, oc) in chosen:
    for i in range(1 if hc.enable_exhaustive_search or hc.use_baseline_approach else iterations):
      passes.append((name, fc, hc, oc, i, x.base(hc) + i))
  npairs = len(x.pairs)
  T.check(len(rows) == npairs * len(passes), 'one row per configuration, iteration and pair')
  T.check([(c, k, p) for n, c, k, p in x.searches] == [(q[2], q[5], p) for q in passes for p in range(npairs)], 'one search per row')
  for n, c, k, p in x.searches:
    T.check(n == ('BASELINE' if c.use_baseline_approach else 'RANSAC'), 'the configured search')
  T.check([(id(c), p) for c, p in x.estimates] == [(id(q[1]), p) for q in passes for p in range(npairs)], 'time offset with the configured filter')
  loops = 0
  lines = {}
  for q, (name, fc, hc, oc, i, k) in enumerate(passes):
    complete = True
    results = []
    for p in range(npairs):
      o = x.outcome(k, p)
      row = rows[q * npairs + p]
      T.check(len(row) == COLUMNS, 'columns')
      if len(row) != COLUMNS:
        return
      T.cover(o if oc.enable_optimization or o == 'search' else 'ok')
      a, b = x.pairs[p]
      T.check(row[:6] == [name, str(p), str(i), str(hc.prefilter_poses_enabled), x.files[a], x.files[b]], 'configuration, pair and iteration of a row')
      T.check(row[6] == str(o != 'search'), 'success of the search')
      T.check(row[10] == str(2 + p), 'number of poses')
      T.check(row[11] == str(1 if o == 'search' else 21 + p), 'number of poses kept')
      near(T, row[12], x.value('runtime', k, p), 'runtime of the search')
      if o != 'search':
        T.check(row[16] == 'False', 'singular values of the search')
      T.check(row[17] == str(oc.enable_optimization), 'whether there is an optimisation')
      T.check(row[20:] == ['None'] * 3, 'no perturbation')
      if oc.enable_optimization:
        good = o == 'ok'
        T.check(row[18] == str(good), 'success of the optimisation')
        want = (x.value('position_optimised', k, p), x.value('orientation_optimised', k, p)) if good else (None, None)
        inliers = 31 + p if good else 0
        results.append(x.optimum(k, p) if o in ('ok', 'inliers') else None)
        T.check(T.parse(row[19]) >= 0, 'runtime of the optimisation')
        T.check(((k, p) in x.optimised) == (o != 'search'), 'optimises what the search found')
      else:
        good = o != 'search'
        T.check(row[18] == 'True', 'nothing fails without optimisation')
        T.check_eq(T.parse(row[19]), 0, 'no runtime without optimisation')
        want = (x.value('position', k, p), x.value('orientation', k, p)) if good else (None, None)
        inliers = 11 + p if good else None
        results.append(x.guess(k, p) if good else None)
        T.check((k, p) not in x.optimised, 'nothing is optimised unless configured')
      near(T, row[7], want[0], 'position error of the final result')
      near(T, row[8], want[1], 'orientation error of the final result')
      if inliers is not None:
        T.check(row[9] == str(inliers), 'inliers of the final result')
      complete = complete and good
    if complete:
      T.check(loops < len(x.loops), 'loop error of complete results')
      if loops < len(x.loops):
        T.check_eq(x.loops[loops], results, 'loop of the final results')
    for p in range(npairs):
      row = rows[q * npairs + p]
      near(T, row[13], x.value('loop_position', loops, 0) if complete else None, 'loop error in position')
      near(T, row[14], x.value('loop_orientation', loops, 0) if complete else None, 'loop error in orientation')
      lines.setdefault((name, p), []).append(results[p])
    loops += complete
  T.check(len(x.loops) == loops, 'loop error of complete results only')
  for (name, p), want in lines.items():
    text = T.text('out/dq_H_E/%s_pose_pair_%d_dq_H_E.txt' % (name, p))
    pose = T.text('out/poses_H_E/%s_pose_pair_%d_pose_H_E.txt' % (name, p))
    T.check(text is not None and pose is not None, 'files of the final results')
    want = [w for w in want if w is not None]
    for t, n in ((text, 8), (pose, 7)):
      have = [[T.parse(v) for v in l.strip(' []').split()] for l in (t or '').splitlines()]
      T.check(len(have) == len(want), 'one line per final result')
      for h, w in zip(have, want):
        T.check_eq(h, w if n == 8 else [2 * e for e in qmul(w[4:], qconj(w[:4]))[:3]] + list(w[:4]), 'final result')


H = [(2, ['RC_filter_no_opt'], 2, None, 'plain2', ('ok', 'search')), (2, ['RS_no_filter_opt'], 2, [True, False], 'optimised2', STEPS),
     (3, ['EC_opt'], 2, [False, True, True], 'optimised3', STEPS), (3, ['ES_no_opt'], 1, None, 'plain3', ('ok', 'search')),
     (2, ['baseline_filter_no_opt', 'RC_no_filter_opt'], 2, None, 'mixed2', ('ok', 'search')),
     (2, ['baseline_no_filter_opt', 'RS_filter_no_opt'], 1, [False, True], 'baseline2', STEPS)]
HARNESSES = [Harness(experiment(*h), fs=True, bounds=B, covers=h[5]) for h in H]
