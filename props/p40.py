"""P40 reading result files"""
from symx.main import Harness
from lib import *

B = ('1 or 2 files with 1 to 4 result rows in total, or 3 files with 18 rows of given methods and data sets, every combination of success and bad singular values, one or two methods and data sets in every '
     'arrangement, any errors and runtimes in [0,1000] and perturbations in [-10,10]; all 17 method names; numbers in files are exact')
ET = 'hand_eye_calibration_experiments.experiment_plotting_tools'
ER = 'hand_eye_calibration_experiments.experiment_results'
LABELS = {'optimization_w_spoiled_init_calibration': 'S_PF_ES_O'}
for short, name in (('B', 'baseline'), ('RC', 'RC'), ('RS', 'RS')):
  for f in (True, False):
    for o in (True, False):
      LABELS[name + ('_filter' if f else '_no_filter') + ('_opt' if o else '_no_opt')] = ('PF_' if f else '') + short + ('_O' if o else '')
for short in ('EC', 'ES'):
  for o in (True, False):
    LABELS[short + ('_opt' if o else '_no_opt')] = 'PF_' + short + ('_O' if o else '')


class Row(object):
  """one row of a result file"""

  def __init__(self, T, k, method, dataset, success=True, bad=False, spoiled=True):
    self.method, self.dataset, self.success, self.bad, self.spoiled = method, dataset, success, bad, spoiled
    for n in ('position', 'orientation', 'runtime', 'loop_position', 'loop_orientation', 'optimisation'):
      setattr(self, n, T.real('%s%d' % (n, k), 0, 1000))
    if spoiled:
      self.angle, self.time = T.real('angle%d' % k, -10, 10), T.real('time%d' % k, -10, 10)
      self.translation = list(T.vec('translation%d' % k, 3, -10, 10))
    self.k = k

  def text(self, T):
    n = T.number
    vec = '[' + ' '.join(n(x) for x in self.translation) + ']' if self.spoiled else 'None'
    cells = [self.method, str(self.k), '0', 'True', 'a%d.csv' % self.k, 'b%d.csv' % self.k, str(self.success), n(self.position), n(self.orientation),
             '7', '9', '8', n(self.runtime), n(self.loop_position), n(self.loop_orientation), '[ 0.5  1.   2. ]', str(self.bad), 'True', 'False',
             n(self.optimisation), n(self.angle) if self.spoiled else 'None', vec, n(self.time) if self.spoiled else 'None', self.dataset]
    return ','.join(cells) + '\n'


def collect(T, files):
  """files: lists of rows"""
  head = T.mod(ER).ResultEntry().get_header().rstrip('\n') + ',dataset\n'
  names = []
  for i, rows in enumerate(files):
    T.write('r%d.csv' % i, head + ''.join(r.text(T) for r in rows))
    names.append(T.path('r%d.csv' % i))
  got = T.mod(ET).collect_data_from_csv(names)
  T.check(len(got) == 9, 'nine results')
  return got


def judge(T, got, rows):
  methods, datasets, ppos, pori, pos, ori, run, prun, spoiled = got
  good = [r for r in rows if r.success and not r.bad]
  m, d = [], []
  for r in good:
    m += [LABELS[r.method]] if LABELS[r.method] not in m else []
    d += [r.dataset] if r.dataset not in d else []
  T.check([str(x) for x in methods] == m, 'the methods in the order of their first good result')
  T.check([str(x) for x in datasets] == d, 'the data sets in the order of their first good result')
  T.cover('%d methods' % len(m))
  for what, per, flat, of in (('position error', ppos, pos, lambda r: r.position), ('orientation error', pori, ori, lambda r: r.orientation),
                              ('runtime', prun, run, lambda r: r.runtime + r.optimisation)):
    T.check(sorted(str(x) for x in per) == sorted(d), what + ' for every data set')
    T.check(len(flat) == len(m), what + ' for every method')
    for i, label in enumerate(m):
      want = [of(r) for r in good if LABELS[r.method] == label]
      T.check(len(flat[i]) == len(want), what + ' of all good results of a method')
      T.check_eq(list(flat[i]), want, what + ' by method')
    for ds in d:
      mine = [r for r in good if r.dataset == ds]
      labels = sorted(set(LABELS[r.method] for r in mine))
      T.check(sorted(str(x) for x in per[ds]) == labels, what + ' for every method of a data set')
      for label in labels:
        T.check_eq(list(per[ds][label]), [of(r) for r in mine if LABELS[r.method] == label], what + ' by data set and method')
  T.check(len(spoiled) == 5, 'five lists of perturbed results')
  lp, lo, angle, trans, time = spoiled
  T.check_eq(list(lp), [r.loop_position for r in good], 'loop errors in position')
  T.check_eq(list(lo), [r.loop_orientation for r in good], 'loop errors in orientation')
  T.check(len(angle) == len(trans) == len(time) == len(good), 'perturbations of all good results')
  for r, a, v, t in zip(good, angle, trans, time):
    if r.spoiled:
      T.check_eq(a, r.angle, 'perturbing angle')
      T.check_eq(t, r.time, 'perturbing time')
      T.check(v >= 0, 'size of the perturbing translation')
      T.check_eq(v * v, dot(r.translation, r.translation), 'size of the perturbing translation')
    else:
      T.check_eq([a, v, t], [0, 0, 0], 'no perturbation')


def one_file(spoiled):
  def f(T):
    names = T.choice('methods', [('ES_opt', 'ES_opt'), ('ES_opt', 'RC_no_filter_no_opt'), ('RS_filter_opt', 'RS_no_filter_opt')])
    sets = T.choice('data sets', [('one', 'one'), ('one', 'two')])
    flags = [(T.choice('success%d' % k, [True, False]), T.choice('bad%d' % k, [False, True])) for k in range(2)]
    rows = [Row(T, k, names[k], sets[k], flags[k][0], flags[k][1], spoiled) for k in range(2)]
    judge(T, collect(T, [rows]), rows)
  f.__name__ = 'one_file' + ('' if spoiled else '_plain')
  return f


def two_files(T):
  names = T.choice('methods', [('ES_opt',) * 4, ('ES_opt', 'EC_opt', 'ES_opt', 'EC_opt'), ('EC_opt', 'EC_opt', 'ES_opt', 'B')])
  names = [n if n != 'B' else 'baseline_filter_no_opt' for n in names]
  sets = T.choice('data sets', [('one', 'one', 'two', 'two'), ('one', 'two', 'one', 'two'), ('two', 'one', 'one', 'one')])
  lost = T.choice('lost', [None, 0, 2, 3])
  rows = [Row(T, k, names[k], sets[k], k != lost or k == 2, k == lost and k == 2) for k in range(4)]
  judge(T, collect(T, [rows[:2], rows[2:]]), rows)


def three_rows(T):
  """methods and data sets that come back"""
  names = [T.choice('method%d' % k, ['ES_opt', 'RC_filter_no_opt']) for k in range(3)]
  sets = [T.choice('data set%d' % k, ['one', 'two']) for k in range(3)]
  bad = T.choice('bad', [None, 0, 1, 2])
  rows = [Row(T, k, names[k], sets[k], k != bad, False, k == 1) for k in range(3)]
  judge(T, collect(T, [rows]), rows)


def longer(T):
  """three files of six results each, four methods, three data sets, some of them failed"""
  methods, sets = ['ES_opt', 'RC_filter_no_opt', 'baseline_no_filter_opt', 'EC_no_opt'], ['one', 'two', 'three']
  lost = T.choice('lost', [None, 0, 5, 6, 17])
  rows = [Row(T, k, methods[(k * k + k // 5) % 4], sets[(k // 2 + k // 7) % 3], k not in (lost, 4), k in (8, 9), k % 3 != 0) for k in range(18)]
  judge(T, collect(T, [rows[:6], rows[6:12], rows[12:]]), rows)


def single(T):
  """files with a single result"""
  n = T.choice('files', [1, 2])
  rows = [Row(T, k, 'ES_opt', 'one', T.choice('success%d' % k, [True, False]), False, T.choice('spoiled%d' % k, [True, False])) for k in range(n)]
  judge(T, collect(T, [[r] for r in rows]), rows)


def every_method(T):
  """all methods are known under their own label"""
  name = T.choice('method', sorted(LABELS))
  rows = [Row(T, 0, name, 'one'), Row(T, 1, T.choice('other', ['EC_opt', 'baseline_filter_opt']), 'one')]
  judge(T, collect(T, [rows]), rows)


def configured(T):
  """whatever is configured can be read"""
  A = T.mod('hand_eye_calibration_experiments.all_algorithm_configs')
  names = [c[0] for c in A.get_all_configs()] + [A.get_optimization_with_spoiled_initial_calibration_config()[0]]
  i = T.choice('i', list(range(0, len(names) - 1, 2)))
  rows = [Row(T, 0, names[i], 'one'), Row(T, 1, names[i + 1], 'one')]
  got = collect(T, [rows])
  T.check(len(set(got[0])) == 2, 'every configuration has a label of its own')


HARNESSES = [Harness(one_file(True), fs=True, bounds=B, covers=('0 methods', '1 methods', '2 methods')), Harness(one_file(False), fs=True, bounds=B),
             Harness(single, fs=True, bounds=B), Harness(two_files, fs=True, bounds=B), Harness(three_rows, fs=True, bounds=B), Harness(every_method, fs=True, bounds=B),
             Harness(configured, fs=True, bounds=B), Harness(longer, fs=True, bounds=B)]
