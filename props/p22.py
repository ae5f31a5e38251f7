"""P22 time alignment of two trajectories"""
from symx.main import Harness
from lib import *

B = ('2 to 4 poses per trajectory with steps in [0.001,3] s, any start within 2 s, offset in [-2,2] s, with and without a common base '
     'of unix time; the positions are any numbers in [-10,10] in one coordinate, orientations fixed; up to 8 poses with '
     'seven fixed patterns of steps, gaps up to 40 s')
TA = 'hand_eye_calibration.time_alignment'
GAP = 0.1


def _traj(T, name, n, base, x=True, steps=None):
  t = [T.real('t_%s' % name, -1, 1) + base]
  for i in range(1, n):
    t.append(t[-1] + (steps[i - 1] if steps else T.real('d_%s%d' % (name, i), 1e-3, 3)))
  v = [T.real('x_%s%d' % (name, i), -10, 10) if x else 0.25 * i for i in range(n)]
  return t, v


def _median(T, d):
  d = list(d)
  out = []
  while d:
    k = 0
    for i in range(1, len(d)):
      if T.truth(d[i] < d[k]):
        k = i
    out.append(d.pop(k))
  h = len(out) // 2
  return out[h] if len(out) % 2 else (out[h - 1] + out[h]) / 2


def _linear(T, ts, xs, s):
  """(d, x d) of the linear interpolation at s"""
  i = 0
  while i < len(ts) - 2 and T.truth(s > ts[i + 1]):
    i += 1
  return ts[i + 1] - ts[i], xs[i] * (ts[i + 1] - s) + xs[i + 1] * (s - ts[i])


def align(n, m, base=0, values=True, steps=(None, None), name=None):
  def f(T):
    M = T.mod(TA)
    ta, xa = _traj(T, 'a', n, base, values, steps[0])
    tb, xb = _traj(T, 'b', m, base, values, steps[1])
    off = T.real('offset', -2, 2)
    qa, qb = [0., 0.6, 0., 0.8], [0., 0., 0., 1.]
    rows_a = [[t, x, 1., -2.] + qa for t, x in zip(ta, xa)]
    rows_b = [[t, x, 0.5, 3.] + qb for t, x in zip(tb, xb)]
    A, Bp = T.np.array(rows_a), T.np.array(rows_b)
    oa, ob = M.compute_aligned_poses(A, Bp, off)
    sa = [t + off for t in ta]
    low, high = (sa, tb) if T.truth(_median(T, [y - x for x, y in zip(sa, sa[1:])]) >=
                                    _median(T, [y - x for x, y in zip(tb, tb[1:])])) else (tb, sa)
    want = []
    for s in low:
      if not T.truth(T.and_(s >= high[0], s <= high[-2])):
        continue
      i = 0
      while T.truth(high[i + 1] <= s):
        i += 1
        if i == len(high) - 2:
          break
      if T.truth(T.or_(high[i] == s, T.and_(s - high[i] < GAP, high[i + 1] - s <= GAP))):
        want.append(s)
    T.check(len(oa) == len(want) and len(ob) == len(want), 'the stamps with support are kept')
    if len(oa) == len(want) == len(ob):
      for k, s in enumerate(want):
        T.check_eq(oa[k, 0], s, 'time stamps of the first trajectory', tol=1e-9)
        T.check_eq(ob[k, 0], s, 'time stamps of the second trajectory', tol=1e-9)
        if values:
          for o, ts, xs in ((oa, sa, xa), (ob, tb, xb)):
            d, e = _linear(T, ts, xs, s)
            T.check_eq(o[k, 1] * d, e, 'position at the time stamp', tol=1e-4 if base else 1e-6)
        T.check_eq(oa[k, 2:], [1., -2.] + qa, 'first trajectory')
        T.check_eq(ob[k, 2:], [0.5, 3.] + qb, 'second trajectory')
      T.cover('%d kept' % len(want))
    T.check_eq(A, rows_a, 'first input unchanged', tol=1e-9)
    T.check_eq(Bp, rows_b, 'second input unchanged', tol=1e-9)
  f.__name__ = name or 'align%dx%d%s%s' % (n, m, '_unix' if base else '', '' if values else '_times')
  return f


def steps(a, b, name):
  return align(len(a) + 1, len(b) + 1, 0, False, (a, b), name)


HARNESSES = [
    Harness(align(2, 2), bounds=B), Harness(align(3, 2), bounds=B), Harness(align(2, 3), bounds=B),
    Harness(align(3, 3), bounds=B), Harness(align(2, 3, 1500000000), bounds=B),
    Harness(steps([0.0625, 0.0625, 0.3125, 0.0625], [0.03125] * 5 + [0.25, 0.03125], 'gaps'), bounds=B),
    Harness(steps([0.03125] * 5 + [0.25, 0.03125], [0.0625, 0.0625, 0.3125, 0.0625], 'gaps_swapped'), bounds=B),
    Harness(steps([0.125] * 3, [0.125] * 4, 'equal'), bounds=B),
    Harness(steps([0.0625, 0.5, 0.0625], [0.125, 0.125, 0.125], 'median'), bounds=B),
    Harness(steps([0.125, 0.125, 0.125], [0.0625, 0.5, 0.0625], 'median_swapped'), bounds=B),
    Harness(steps([0.0625, 0.0625, 2.375] + [0.0625] * 3, [0.03125] * 4 + [2.375, 0.03125, 0.03125, 0.03125], 'long_gap'), bounds=B),
    Harness(steps([0.03125] * 3 + [40.5] + [0.03125] * 4, [0.0625, 0.0625, 40.5, 0.0625, 0.0625], 'longer_gap'), bounds=B),
    Harness(align(4, 3, 0, False), bounds=B, tier='thorough', max_paths=10000),
    Harness(align(3, 4, 0, False), bounds=B, tier='thorough', max_paths=10000),
]
