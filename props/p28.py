"""P28 smoothing of angular velocities"""
from symx.main import Harness
from lib import *

B = ('signals of 12 or 30 samples with one free value; signals of 1 to 4 samples with one free component and the other two zero, of 1 sample with three free components and of 2 samples '
     'with two free ones; all values in [-10,10]; kernel sizes 1 to 5 (longer signals: up to 25); percentiles 0, 50, 90 and 100')
TA = 'hand_eye_calibration.time_alignment'


def _percentile(T, values, p):
  """linear interpolation between the sorted values"""
  v = []
  for x in values:
    i = 0
    while i < len(v) and T.truth(v[i] <= x):
      i += 1
    v.insert(i, x)
  pos = p * (len(v) - 1)
  i = pos // 100
  if i >= len(v) - 1:
    return v[-1]
  f = pos - 100 * i
  return v[i] + (v[i + 1] - v[i]) * f / 100


def _mag(T, x):
  return x if T.truth(x >= 0) else -x


def smooth(n, cols, kernels, ps, at=None):
  def f(T):
    M = T.mod(TA)
    sig = T.np.zeros((n, 3))
    for i in range(n):
      for c in cols:
        sig[i, c] = T.real('v%d%d' % (i, c), -10, 10) if at in (None, (i, c)) else 0.25 * ((7 * i + 5 * c) % 23) - 2.5 - 0.125 * c
    keep = [[sig[i, c] for c in range(3)] for i in range(n)]
    k = T.choice('kernel', kernels)
    p = T.choice('percentile', ps)
    r = M.filter_and_smooth_angular_velocity(sig, k, p)
    T.check(tuple(r.shape) == (n, 3), 'length kept')
    m = _percentile(T, [_mag(T, x) for row in keep for x in row], p)
    lim = [[m if T.truth(x > m) else -m if T.truth(x < -m) else x for x in row] for row in keep]
    left = (k - 1) - (k - 1) // 2
    want = [[0] * 3 for _ in range(n)]
    for i in range(n):
      for c in range(3):
        s = 0
        for j in range(i - left, i - left + k):
          if 0 <= j < n:
            s = s + lim[j][c]
        want[i][c] = s / k
    T.check_eq(r, want, 'centred average of the limited values')
    if k == 1:
      for i in range(n):
        for c in range(3):
          T.check(_mag(T, r[i, c]) <= _mag(T, keep[i][c]) + 1e-9, 'no value enlarged')
    T.check_eq(sig, keep, 'signal unchanged')
  f.__name__ = 'smooth%d_%s_%s' % (n, ''.join('xyz'[c] for c in cols), ''.join(str(k) for k in kernels))
  if at is not None:
    f.__name__ += '_at%d' % at[0]
  return f


def negated(n, cols, ks):
  def f(T):
    """negating the signal negates the result"""
    M = T.mod(TA)
    sig, neg = T.np.zeros((n, 3)), T.np.zeros((n, 3))
    for i in range(n):
      for c in cols:
        x = T.real('v%d%d' % (i, c), -10, 10)
        sig[i, c] = x
        neg[i, c] = -x
    k = T.choice('kernel', ks)
    p = T.choice('percentile', [0, 50, 90, 100])
    a = M.filter_and_smooth_angular_velocity(sig, k, p)
    b = M.filter_and_smooth_angular_velocity(neg, k, p)
    T.check_eq(b, [[-a[i, c] for c in range(3)] for i in range(n)], 'negated result')
  f.__name__ = 'negated%d_%s' % (n, ''.join('xyz'[c] for c in cols))
  return f


P = [0, 50, 90, 100]
HARNESSES = [Harness(f, bounds=B) for f in (
    smooth(1, [0, 1, 2], [1, 2, 3], P), smooth(2, [1], [1, 2, 3, 4, 5], P), smooth(3, [0], [1, 2, 3], P), smooth(3, [2], [4, 5], P),
    smooth(2, [0, 2], [3], [90]), negated(2, [0], [1, 3]), negated(1, [0, 1, 2], [1]), negated(3, [2], [2, 3]))]
HARNESSES += [Harness(f, bounds=B, tier='thorough') for f in (smooth(2, [0, 1], [1, 2], [90]), smooth(4, [0], [1, 3, 5], [90]), smooth(4, [1], [2, 4], [50]))]
HARNESSES += [Harness(smooth(n, [0, 1, 2], k, p, at), bounds=B) for n, k, p, at in (
    (12, [4, 5], [50], (3, 1)), (12, [13], [90], (11, 0)), (12, [1], [99], (0, 2)), (30, [25], [99], (20, 1)))]
