"""Stand-ins and oracles shared by the checks of the experiment scripts (P38, P39)"""
import itertools
import os as real_os
import sys
import types
from fractions import Fraction

from lib import *
from symx.sym import Sym

TA = 'hand_eye_calibration.time_alignment'
CV = 'hand_eye_calibration.calibration_verification'
BU = 'hand_eye_calibration.bash_utils'
AL = 'hand_eye_calibration_experiments.all_algorithm_configs'
ER = 'hand_eye_calibration_experiments.experiment_results'
DQ = 'hand_eye_calibration.dual_quaternion'
# rotations with positive scalar part
ROT = [[Fraction(x) for x in q.split()] for q in ('0 0 3/5 4/5', '2/7 3/7 0 6/7', '1/2 -1/2 1/2 1/2', '-7/25 0 0 24/25', '0 5/13 0 12/13', '1/9 4/9 0 8/9')]
COLUMNS = 23


def num(T, x):
  return Sym.lift(x) if T.symbolic else float(x)


def fake_os(T):
  """stand-in for the file system part of os in symbolic runs; concrete runs work in the scratch directory"""
  if not T.symbolic:
    return
  dirs = set()
  path = types.ModuleType('path')
  path.__dict__.update({k: v for k, v in real_os.path.__dict__.items() if not k.startswith('__')})
  path.exists = path.lexists = lambda p: str(p) in T.fs.files or str(p) in dirs
  path.isfile = lambda p: str(p) in T.fs.files
  path.isdir = lambda p: str(p) in dirs

  def makedirs(p, mode=0o777, exist_ok=False):
    if path.exists(p) and not exist_ok:
      raise FileExistsError(17, 'File exists', p)
    p = str(p)
    while p and p != '/':
      dirs.add(p)
      p = path.dirname(p)
  attrs = {k: v for k, v in real_os.__dict__.items() if not k.startswith('__')}
  attrs.update(path=path, makedirs=makedirs, mkdir=makedirs)
  T.module('os', **attrs)
  T.module('os.path', **path.__dict__)


class Experiment(object):
  """stand-ins for the steps that other properties check: time offset, alignment, search, optimiser, evaluation, loop error.

  Every pair of pose files has its own results, so that mixing them up shows."""

  def __init__(self, T, n, outcome):
    """outcome(run, pair) of a search and optimisation: ok, search, optimiser or inliers (the step that fails)"""
    self.T = T
    self.n = n
    self.pairs = list(itertools.combinations(range(n), 2))
    self.outcome = outcome
    self.files = [self.pose_file(i) for i in range(n)]
    self.runs = {}
    self.searches, self.optimised, self.evaluated, self.loops = [], [], [], []
    self.flags = None
    self.problem = None
    self.saved = []

  def pose_file(self, i):
    T = self.T
    rows = [[num(T, Fraction(100 * i + k)), num(T, Fraction(10 * i + k)), num(T, Fraction(k, 2)), num(T, Fraction(-i))] + [num(T, x) for x in ROT[k % 6]]
            for k in range(2)]
    return write_rows(T, 'poses%d.csv' % i, rows)

  def which(self, poses):
    """number of the file that the poses come from"""
    x = poses[0][1]
    for i in range(self.n):
      if self.T.truth(self.T.and_(x - 10 * i <= 1e-6, 10 * i - x <= 1e-6)):
        return i
    return None

  # free results of pair p in run r; a run is one pass over all pairs
  def offset(self, p):
    return self.T.real('offset%d' % p, -10, 10)

  def guess(self, r, p):
    return pose_dq(self.T.vec('guess%d_%d' % (r, p), 3, -10, 10), [num(self.T, x) for x in ROT[p % 6]])

  def optimum(self, r, p):
    return pose_dq(self.T.vec('optimum%d_%d' % (r, p), 3, -10, 10), [num(self.T, x) for x in ROT[(p + 3) % 6]])

  def value(self, name, r, p, hi=100):
    return self.T.real('%s%d_%d' % (name, r, p), 0, hi)

  # stand-ins
  def align(self, a, b, offset, plot=False):
    T = self.T
    i, j = self.which(a), self.which(b)
    T.check((i, j) in self.pairs, 'poses of a pair of files')
    p = self.pairs.index((i, j))
    T.check_eq(offset, self.offset(p), 'aligned with the time offset of the pair')
    out = []
    for s in (0, 1):
      rows = [[num(T, Fraction(k)), num(T, Fraction(100 * (s + 1) + p)), num(T, Fraction(k * (3 * p + s + 1))), num(T, Fraction(0))] + [num(T, x) for x in ROT[0]]
              for k in range(2 + p)]
      out.append(T.np.array(rows))
    return tuple(out)

  def estimate(self, ta, qa, tb, qb, config, plot=False):
    T = self.T
    pair = tuple([i for i in range(self.n) if T.truth(T.and_(t[0] - 100 * i <= 1e-6, 100 * i - t[0] <= 1e-6))] for t in (ta, tb))
    T.check(all(len(i) == 1 for i in pair), 'time offset of a pair of files')
    pair = pair[0][0], pair[1][0]
    T.check(pair in self.pairs, 'time offset of a pair of files')
    T.check(len(ta) == len(qa) == len(tb) == len(qb) == 2, 'time offset from all poses')
    p = self.pairs.index(pair)
    self.estimates.append((config, p))
    return self.offset(p)

  def search(self, name):
    def f(hand, eye, config):
      T = self.T
      p = len(hand) - 2
      T.check(0 <= p < len(self.pairs) and len(eye) == len(hand), 'searches with the aligned poses of a pair')
      for d in (hand[0], eye[0]):
        T.check_eq(d.dq, [0, 0, 0, 1, 0, 0, 0, 0], 'searches motions relative to the first pose')
      for s, path in enumerate((hand, eye)):
        for i in range(1, len(path)):
          t = rot(qconj(ROT[0]), [0, i * (3 * p + s + 1), 0])
          T.check_eq(path[i].dq, pose_dq([num(T, x) for x in t], [num(T, x) for x in (0, 0, 0, 1)]), 'searches the motions of hand and eye relative to the first pose')
      r = self.runs.get((id(config), p), 0)
      self.runs[(id(config), p)] = r + 1
      k = self.base(config) + r
      self.searches.append((name, config, k, p))
      D = T.mod(DQ).DualQuaternion
      o = self.outcome(k, p)
      if o == 'search':
        if name == 'BASELINE':
          return False, None, (None, None), None, 1, self.value('runtime', k, p), None, None
        return False, None, (float('inf'), float('inf')), 0, 1, self.value('runtime', k, p), None, True
      return (True, D.from_vector(T.np.array(self.guess(k, p))), (self.value('position', k, p), self.value('orientation', k, p)), 11 + p, 21 + p,
              self.value('runtime', k, p), T.np.array([1., 2.]), False)
    return f

  def base(self, config):
    """number of the first run with a configuration"""
    if id(config) not in self.bases:
      self.bases[id(config)] = 10 * len(self.bases)
      self.configs.append(config)
    return self.bases[id(config)]

  def optimiser(self, words):
    """stand-in for the external optimiser"""
    T = self.T
    J = T.loader.mods['json'] if T.symbolic else __import__('json')
    o = dict(w[2:].split('=', 1) for w in words if w.startswith('--') and '=' in w)
    T.check('batch_estimator' in words, 'runs the optimiser')
    pair = tuple(self.files.index(o.get(x)) if o.get(x) in self.files else None for x in ('pose1_csv', 'pose2_csv'))
    T.check(pair in self.pairs, 'optimises a pair of files')
    p = self.pairs.index(pair)
    k = self.run_of(p)
    text = [str(bool(self.flags and self.flags[i])).lower() for i in pair]
    T.check(o.get('model_config') == 'pose1/absoluteMeasurements=%s,pose2/absoluteMeasurements=%s' % tuple(text), 'tells which sensors are absolute')
    guess = self.read(o.get('init_guess_file'))
    T.check(guess is not None, 'has an initial guess')
    off, d = self.start(k, p)
    g = J.loads(guess)
    T.check_eq(g['delay'], off, 'initial time offset')
    T.check_eq([g['rotation'][c] for c in 'ijkw'], d[:4], 'initial rotation')
    T.check_eq([g['translation'][c] for c in 'xyz'], [2 * x for x in qmul(d[4:], qconj(d[:4]))[:3]], 'initial translation')
    self.optimised.append((k, p))
    if self.outcome(k, p) == 'optimiser':
      return 1
    d = self.optimum(k, p)
    t = [2 * x for x in qmul(d[4:], qconj(d[:4]))[:3]]
    self.put(o.get('output_file'), J.dumps({'delay': self.value('delay', k, p), 'rotation': dict(zip('ijkw', d[:4])),
                                             'translation': dict(zip('xyz', t))}))
    return 0

  def run_of(self, p):
    return [k for n, c, k, q in self.searches if q == p][-1]

  def start(self, k, p):
    return self.offset(p), self.guess(k, p)

  def read(self, path):
    T = self.T
    if T.symbolic:
      return T.fs.files.get(path)
    try:
      with open(path) as f:
        return f.read()
    except (OSError, TypeError):
      return None

  def put(self, path, text):
    if self.T.symbolic:
      self.T.fs.files[path] = text
    else:
      with open(path, 'w') as f:
        f.write(text)

  def evaluate(self, a, b, dq, offset, config):
    T = self.T
    pair = self.which(a), self.which(b)
    T.check(pair in self.pairs, 'evaluates a pair of files')
    p = self.pairs.index(pair)
    T.check(self.optimised and self.optimised[-1][1] == p, 'evaluates what was optimised')
    k = self.optimised[-1][0]
    T.check_eq(dq.dq, self.optimum(k, p), 'evaluates the optimised transformation')
    T.check_eq(offset, self.value('delay', k, p), 'evaluates the optimised time offset')
    self.evaluated.append((k, p, config))
    if self.outcome(k, p) == 'inliers':
      return (None, None), 0
    return (self.value('position_optimised', k, p), self.value('orientation_optimised', k, p)), 31 + p

  def loop_error(self, dqs, n, visualize=False):
    T = self.T
    T.check(n == self.n, 'loop over all files')
    T.check(len(dqs) == len(self.pairs) and all(d is not None for d in dqs), 'loop error of complete results only')
    self.loops.append([list(d.dq) for d in dqs])
    k = len(self.loops) - 1
    return self.value('loop_position', k, 0), self.value('loop_orientation', k, 0)

  def __enter__(self):
    T = self.T
    from p42 import processes
    if not T.symbolic:
      # loaded before parts are replaced
      for m in (TA, CV, AL, ER, HE, BU):
        T.mod(m)
      real_os.chdir(real_os.path.dirname(T.path('x')))
    fake_os(T)
    self.estimates, self.bases, self.configs = [], {}, []
    me = self

    class Popen(object):

      def __init__(self, words, **k):
        self.words = words

      def wait(self, *a):
        try:
          return me.optimiser(self.words)
        except Exception as e:  # the script takes any exception for a failed optimisation
          me.problem = me.problem or e
          raise
    T.module('subprocess', Popen=Popen, call=lambda w, **k: Popen(w).wait())
    for mod, name, f in ((TA, 'calculate_time_offset', self.estimate), (TA, 'compute_aligned_poses', self.align),
                         (HE, 'compute_hand_eye_calibration_RANSAC', self.search('RANSAC')),
                         (HE, 'compute_hand_eye_calibration_BASELINE', self.search('BASELINE')),
                         (CV, 'evaluate_calibration', self.evaluate), (CV, 'compute_loop_error', self.loop_error)):
      m = T.mod(mod)
      self.saved.append((m, name, getattr(m, name)))
      setattr(m, name, in_place_of(getattr(m, name), f))
    return self

  def replace(self, mod, name, f):
    m = self.T.mod(mod)
    self.saved.append((m, name, getattr(m, name)))
    setattr(m, name, in_place_of(getattr(m, name), f))

  def __exit__(self, *a):
    for m, name, f in reversed(self.saved):
      setattr(m, name, f)
    if not self.T.symbolic:
      real_os.chdir('/')


def rows_of(T, name):
  """the rows of a result file after its header"""
  text = T.text(name)
  if text is None:
    return None, []
  lines = text.splitlines()
  return lines[0] if lines else None, [l.split(',') for l in lines[1:]]
