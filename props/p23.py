"""P23 reading pose files"""
from symx.main import Harness
from lib import *

B = ('files of 1 to 3 lines (thorough: 6) or of 30 lines of which one is free, times and positions in [-100,100] or near unix time, quaternions of any length in [0.1,10] and any direction; '
     'the text of a number stands for its exact value')
CSV = 'hand_eye_calibration.csv_io'


def read(n, declared, base=0, sep=',', free=None):
  def f(T):
    M = T.mod(CSV)
    rows, units = [], []
    for i in range(n):
      if free in (None, i):
        u = T.unit('q%d' % i)
        k = T.real('k%d' % i, 0.1, 10)
        rows.append([T.real('t%d' % i, -100, 100) + base] + list(T.vec('p%d' % i, 3, -100, 100)) + [k * x for x in u])
      else:
        u = HALVES[(7 * i) % 16]
        rows.append([0.25 * i, 1. - i, 0.5 * i, 2.] + [2 * x for x in u])
      units.append(u)
    path = write_rows(T, 'poses.csv', rows, sep)
    if declared is None:
      out = M.read_time_stamped_poses_from_csv_file(path)
    else:
      out = M.read_time_stamped_poses_from_csv_file(path, declared)
    table, times, quats = out
    T.check(T.np.shape(table) == (n, 8), 'one row per line')
    T.check(len(times) == n and len(quats) == n, 'one time and one quaternion per line')
    s = -1 if declared else 1
    for i in range(n):
      want = [s * x for x in units[i][:3]] + [units[i][3]]
      T.check_eq(times[i], rows[i][0], 'times', tol=1e-9)
      T.check_eq(table[i][0], rows[i][0], 'times in the table', tol=1e-9)
      T.check_eq(table[i][1:4], rows[i][1:4], 'positions', tol=1e-9)
      T.check_eq(quats[i].q, want, 'quaternions')
      T.check_eq(table[i][4:], want, 'quaternions in the table')
  f.__name__ = 'read%d_%s%s%s' % (n, {None: 'default', False: 'Hamilton', True: 'JPL'}[declared], '_unix' if base else '',
                                 '_spaces' if sep != ',' else '') + ('' if free is None else '_free%d' % free)
  return f


HARNESSES = [Harness(f, bounds=B, fs=True) for f in (
    read(1, None), read(1, True), read(2, None, 1500000000), read(2, True), read(3, False), read(3, True), read(2, False, 0, ', '),
    read(2, True, 0, ', '))] + [Harness(read(6, x), bounds=B, fs=True, tier='thorough') for x in (False, True)]
HARNESSES += [Harness(read(30, x, free=k), bounds=B, fs=True) for x, k in ((False, 0), (True, 17), (None, 29))]
