"""P31 the calibration command"""
from symx.main import Harness
from lib import *

B = ('2 pose pairs (thorough: 3), or 8 of which one is free, with any positions in [-10,10]^3 and any orientations, either sign of every quaternion, each input given directly or '
     'inverted, every combination of outputs; the search returns any transformation or none; numbers in files are exact')
SC = 'hand_eye_calibration/bin/compute_hand_eye_calibration.py'


class Search(object):
  """stand-in for the searches: records its inputs and returns any transformation"""

  def __init__(self, T, result):
    self.T = T
    self.H = T.mod(HE)
    self.calls = []
    self.result = result
    self.names = [n for n in ('compute_hand_eye_calibration_RANSAC', 'compute_hand_eye_calibration_BASELINE')]
    self.saved = [getattr(self.H, n) for n in self.names]
    for n in self.names:
      setattr(self.H, n, in_place_of(getattr(self.H, n), self.search))

  def close(self):
    for n, f in zip(self.names, self.saved):
      setattr(self.H, n, f)

  def search(self, hand, eye, config):
    self.T.check(isinstance(config, self.H.HandEyeConfig), 'searches with a configuration')
    self.calls.append(([list(d.dq) for d in hand], [list(d.dq) for d in eye]))
    if self.result is None:
      inf = float('inf')
      return False, None, (inf, inf), 0, len(hand), 0.5, None, True
    D = self.T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    return True, D.from_vector(self.T.np.array(list(self.result))), (0.25, 0.5), 2, len(hand), 0.5, [1., 2.], False


def run_command(T, args, result=None):
  s = Search(T, result)
  try:
    T.run(SC, args)
  finally:
    s.close()
  T.check(len(s.calls) == 1, 'one search')
  return s.calls[-1]


def path_of(T, name, n, free=None):
  """poses (t, q) of one input"""
  return [(T.vec('t_%s%d' % (name, i), 3, -10, 10), T.unit('%s%d' % (name, i))) if free in (None, i) else
          ([i - 3., 0.5 * i, 2. - i * i], HALVES[(5 * i + len(name)) % 16]) for i in range(n)]


def inverted(p):
  t, q = p
  return [-x for x in rot(qconj(q), t)], qconj(q)


def rows_of(T, name, poses, invert):
  rows = []
  for i, p in enumerate(poses):
    t, q = inverted(p) if invert else p
    rows.append([T.real('s_%s%d' % (name, i), 0, 100)] + list(t) + list(q))
  return write_rows(T, name + '.csv', rows)


def motions(hand_inverted, eye_inverted, n, free=None):
  def f(T):
    hand, eye = path_of(T, 'h', n, free), path_of(T, 'e', n, free)
    args = ['--aligned_poses_%s_csv_file' % ('H_B' if hand_inverted else 'B_H'), rows_of(T, 'hand', hand, hand_inverted),
            '--aligned_poses_%s_csv_file' % ('E_W' if eye_inverted else 'W_E'), rows_of(T, 'eye', eye, eye_inverted)]
    got = run_command(T, args, pose_dq([1., 2., 3.], [0., 0., 0., 1.]))
    for what, have, poses in (('hand', got[0], hand), ('eye', got[1], eye)):
      T.check(len(have) == n, 'one motion per pose')
      d = [pose_dq(*p) for p in poses]
      for i in range(min(n, len(have))):
        same_transformation(T, have[i], dqmul(conj8(d[0]), d[i]), what + ' motions relative to the first pose')
  f.__name__ = 'motions%d_%s_%s' % (n, 'H_B' if hand_inverted else 'B_H', 'E_W' if eye_inverted else 'W_E') + ('' if free is None else '_free%d' % free)
  return f


ARGS = {'c': ['--extrinsics_output_csv_file', 'x.csv'], 't': ['--time_offset_input_csv_file', 'offset.csv'],
        'j': ['--calibration_output_json_file', 'x.json']}


def fixed_inputs(T):
  rows = [[0., 1., 2., 3., 0., 0., 0., 1.], [1., 2., 2., 3., 0., 0., 1., 0.]]
  return ['--aligned_poses_B_H_csv_file', write_rows(T, 'hand.csv', rows), '--aligned_poses_W_E_csv_file', write_rows(T, 'eye.csv', rows)]


def option(T, kinds):
  out = []
  for k in kinds:
    out += [ARGS[k][0], T.path(ARGS[k][1])]
  return out


def same_pose(T, pose, t, q, what):
  T.check_eq(pose[:3], t, what + ': position')
  if T.truth(q[3] > 0):
    T.check_eq(pose[3:], q, what + ': orientation')
  elif T.truth(q[3] < 0):
    T.check_eq(pose[3:], [-e for e in q], what + ': orientation')
  else:
    T.check(T.or_(*[T.and_(*[(s * a - b <= 1e-6) & (b - s * a <= 1e-6) for a, b in zip(pose[3:], q)]) for s in (1, -1)]),
            what + ': orientation')


def outputs(half):
  def f(T):
    import json
    if half:
      a = T.unit('a', 3)
      q = [a[0], a[1], a[2], 0.]
    else:
      q = list(T.unit('x'))
      T.assume(T.or_(q[3] > 1e-6, q[3] < -1e-6))
    t = list(T.vec('t', 3, -10, 10))
    x = pose_dq(t, q)
    offset = T.real('offset', -1000, 1000)
    kinds = T.choice('outputs', ['', 'c', 't', 'ct', 'tj', 'ctj', 'jtc'])
    write_rows(T, 'offset.csv', [[offset]])
    run_command(T, fixed_inputs(T) + option(T, kinds), x)
    if 'c' in kinds:
      T.cover('extrinsics')
      rows = read_rows(T, 'x.csv')
      pose = [e for r in rows or [] for e in r]
      T.check(len(pose) == 7, 'position and orientation')
      if len(pose) == 7:
        same_pose(T, pose, t, q, 'extrinsics file')
    else:
      T.check(T.text('x.csv') is None, 'no extrinsics file unless asked for')
    if 'j' in kinds:
      T.cover('calibration')
      J = T.loader.mods['json'] if T.symbolic else json
      c = J.loads(T.text('x.json')) if T.text('x.json') is not None else None
      T.check(c is not None and sorted(c) == ['delay', 'rotation', 'translation'], 'calibration file')
      if c is not None:
        T.check_eq(c['delay'], offset, 'time offset', tol=1e-9)
        same_pose(T, [c['translation'][k] for k in 'xyz'] + [c['rotation'][k] for k in 'ijkw'], t, q, 'calibration file')
    else:
      T.check(T.text('x.json') is None, 'no calibration file unless asked for')
  f.__name__ = 'outputs_half_turn' if half else 'outputs'
  return f


def failed(T):
  """nothing is written as a transformation found if there is none"""
  kinds = T.choice('outputs', ['', 'c', 'tj', 'ctj'])
  write_rows(T, 'offset.csv', [[T.real('offset', -10, 10)]])
  try:
    run_command(T, fixed_inputs(T) + option(T, kinds), None)
  except (AttributeError, AssertionError, RuntimeError, ValueError, SystemExit):
    T.cover('reported')
  for n in ('x.csv', 'x.json'):
    T.check(not (T.text(n) or '').strip(), 'no pose without a search result')


def refused(T):
  """options that contradict each other or are incomplete"""
  p = fixed_inputs(T)
  args = T.choice('options', [p + ['--aligned_poses_H_B_csv_file', p[1]], p + ['--aligned_poses_E_W_csv_file', p[3]], p[:2], p[2:],
                              p + option(T, 'j')])
  s = Search(T, pose_dq([1., 2., 3.], [0., 0., 0., 1.]))
  refused = False
  try:
    T.run(SC, args)
  except (AssertionError, SystemExit, ValueError):
    refused = True
  finally:
    s.close()
  T.check(refused, 'ambiguous or incomplete options are refused')
  T.check(not s.calls, 'nothing is searched')


C = [(a, b) for a in (False, True) for b in (False, True)]
HARNESSES = [Harness(motions(a, b, 2), fs=True, bounds=B) for a, b in C]
HARNESSES += [Harness(motions(a, b, 3), fs=True, bounds=B, tier='thorough') for a, b in C]
HARNESSES += [Harness(motions(a, b, 8, k), fs=True, bounds=B) for a, b, k in ((False, False, 6), (True, False, 7), (False, True, 5), (True, True, 3))]
HARNESSES += [Harness(outputs(False), fs=True, bounds=B, covers=('extrinsics', 'calibration')),
              Harness(outputs(True), fs=True, bounds=B, covers=('extrinsics', 'calibration')),
              Harness(failed, fs=True, bounds=B), Harness(refused, fs=True, bounds=B)]
