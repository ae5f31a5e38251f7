"""P32 the alignment command"""
from fractions import Fraction

from symx.main import Harness
from lib import *

B = ('trajectories of 2 or 3 poses with any positions in [-10,10]^3, steps in [0.001,0.5] s, any start within 1 s, any fixed orientation per trajectory or '
     'three given ones, both quaternion formats, with and without an offset file; the estimate is any offset in [-2,2] s; alignment itself as '
     'checked by P22; numbers in files are exact')
SC = 'hand_eye_calibration/bin/compute_aligned_poses.py'
TA = 'hand_eye_calibration.time_alignment'
ROT = [[Fraction(x) for x in q.split()] for q in ('0 0 3/5 4/5', '2/7 3/7 6/7 0', '1/2 -1/2 1/2 1/2', '-7/25 0 0 24/25', '0 0 0 1', '0 5/13 0 12/13')]


def trajectory(T, name, n, given):
  """rows [t, x, y, z, qx, qy, qz, qw] with Hamilton quaternions"""
  t = T.real('t_' + name, -1, 1)
  q = None if given else list(T.unit('q_' + name))
  rows = []
  for i in range(n):
    if i:
      t = t + T.real('d_%s%d' % (name, i), 1e-3, 0.5)
    if given:
      q = [x if T.symbolic else float(x) for x in ROT[(i + (3 if name == 'b' else 0)) % 6]]
    rows.append([t] + list(T.vec('p_%s%d' % (name, i), 3, -10, 10)) + q)
  return rows


def command(n, m, given):
  def f(T):
    M = T.mod(TA)
    fmt = T.choice('format', [None, 'Hamilton', 'JPL'])
    with_offset = T.choice('offset file', [True, False])
    rows = [trajectory(T, 'a', n, given), trajectory(T, 'b', m, given)]
    offset = T.real('offset', -2, 2)
    paths = []
    for name, rr in zip(('a', 'b'), rows):
      s = -1 if fmt == 'JPL' else 1
      paths.append(write_rows(T, name + '.csv', [r[:4] + [s * x for x in r[4:7]] + [r[7]] for r in rr]))
    calls = []

    def estimate(ta, qa, tb, qb, config, plot=False):
      T.check(isinstance(config, M.FilteringConfig), 'estimates with a filter configuration')
      calls.append((list(ta), [list(q.q) for q in qa], list(tb), [list(q.q) for q in qb]))
      return offset
    saved = M.calculate_time_offset
    M.calculate_time_offset = in_place_of(saved, estimate)
    args = ['--poses_B_H_csv_file', paths[0], '--poses_W_E_csv_file', paths[1], '--aligned_poses_B_H_csv_file', T.path('oa.csv'),
            '--aligned_poses_W_E_csv_file', T.path('ob.csv')]
    if fmt:
      args += ['--quaternion_format', fmt]
    if with_offset:
      args += ['--time_offset_output_csv_file', T.path('o.csv')]
    try:
      T.run(SC, args)
    finally:
      M.calculate_time_offset = saved
    T.check(len(calls) == 1, 'one estimate')
    for c in calls[:1]:
      for what, ts, qs, rr in (('first', c[0], c[1], rows[0]), ('second', c[2], c[3], rows[1])):
        T.check(len(ts) == len(qs) == len(rr), 'estimate from all poses')
        for t, q, r in zip(ts, qs, rr):
          T.check_eq(t, r[0], what + ' stamps of the estimate', tol=1e-9)
          T.check_eq(q, r[4:], what + ' orientations of the estimate')
    want = M.compute_aligned_poses(T.np.array(rows[0]), T.np.array(rows[1]), offset)
    for what, name, w in (('first', 'oa.csv', want[0]), ('second', 'ob.csv', want[1])):
      got = read_rows(T, name)
      T.check(got is not None and len(got) == len(w), what + ' output has all aligned poses')
      for a, b in zip(got or [], w):
        T.check(len(a) == 8, 'stamp, position and orientation')
        T.check_eq(a, list(b), what + ' output')
    T.cover('%d aligned' % min(1, len(want[0])))
    if with_offset:
      o = read_rows(T, 'o.csv')
      T.check(o is not None and len(o) == 1 and len(o[0]) == 1, 'offset file')
      if o and len(o[0]) == 1:
        T.check_eq(o[0][0], offset, 'offset', tol=1e-9)
    else:
      T.check(T.text('o.csv') is None, 'no offset file unless asked for')
    for name, rr in zip(('a', 'b'), rows):
      s = -1 if fmt == 'JPL' else 1
      T.check_eq(read_rows(T, name + '.csv'), [r[:4] + [s * x for x in r[4:7]] + [r[7]] for r in rr], 'inputs stay', tol=1e-9)
  f.__name__ = 'align%dx%d%s' % (n, m, '_given' if given else '')
  return f


def refused(T):
  """an unknown quaternion format"""
  M = T.mod(TA)
  saved = M.calculate_time_offset
  M.calculate_time_offset = lambda *a, **k: 0.25
  rows = [trajectory(T, 'a', 2, True), trajectory(T, 'b', 2, True)]
  args = ['--poses_B_H_csv_file', write_rows(T, 'a.csv', rows[0]), '--poses_W_E_csv_file', write_rows(T, 'b.csv', rows[1]),
          '--aligned_poses_B_H_csv_file', T.path('oa.csv'), '--aligned_poses_W_E_csv_file', T.path('ob.csv'),
          '--quaternion_format', T.choice('format', ['jpl', 'hamilton', ''])]
  no = False
  try:
    T.run(SC, args)
  except (AssertionError, SystemExit, ValueError):
    no = True
  finally:
    M.calculate_time_offset = saved
  T.check(no, 'an unknown format is refused')
  T.check(T.text('oa.csv') is None and T.text('ob.csv') is None, 'nothing is written')


HARNESSES = [Harness(command(2, 2, True), fs=True, bounds=B, covers=('0 aligned', '1 aligned')),
             Harness(command(2, 2, False), fs=True, bounds=B, covers=('0 aligned', '1 aligned')),
             Harness(command(2, 3, True), fs=True, bounds=B, covers=('0 aligned', '1 aligned')),
             Harness(command(3, 2, False), fs=True, bounds=B, covers=('0 aligned', '1 aligned')),
             Harness(refused, fs=True, bounds=B)]
