"""P29 resampling and velocity signals"""
from fractions import Fraction

from symx.main import Harness
from lib import *

B = ('trajectories of 2 or 3 fixed distinct orientations with any stamps (steps in [0.01,10] s), any step dt giving up to 4 samples (duration/dt '
     'not within 1e-6 below a whole number), or of up to 10 with given steps but for one, giving up to 13 samples; velocity signals of up to 4 fixed orientations with any stamps, kernel sizes 1 to 3, or of up to 12 with given steps but for one, kernel sizes up to 8; the full '
     'estimate for 2 or 3 orientations a side, any stamps on the first and any start on the second side (whole seconds between them), up to two '
     'filter settings that differ between the sides; samples are at least 1e-6 s away from inner stamps')
TA = 'hand_eye_calibration.time_alignment'
QM = 'hand_eye_calibration.quaternion'

ROT = [[Fraction(x) for x in q.split()] for q in (
    '0 0 0 1', '0 0 3/5 4/5', '2/7 3/7 6/7 0', '1/2 -1/2 1/2 1/2', '-7/25 0 0 24/25', '0 0 -7/25 24/25', '0 0 5/13 12/13')]


def _quats(T, idx):
  Q = T.mod(QM).Quaternion
  return [Q(q=T.np.array([x if T.symbolic else float(x) for x in ROT[i]])) for i in idx]


def _times(T, n, name, free=None):
  """any stamps; with free: any start, given steps but for the one before the given stamp"""
  t = [T.real(name + '0', -10, 10)]
  for i in range(1, n):
    t.append(t[-1] + (T.real('%sd%d' % (name, i), 0.01, 10) if free in (None, i) else 0.5 * i))
  return t


def resample(idx, m, free=None):
  def f(T):
    M = T.mod(TA)
    S = T.mod(QM).quaternion_slerp
    n = len(idx)
    ts, qs = _times(T, n, 't', free), _quats(T, idx)
    dt = T.real('dt', 0.001, 40)
    # m samples
    dur = ts[-1] - ts[0]
    T.assume(T.and_(dur >= (m - 1) * dt, dur <= (m - 1e-6) * dt))
    for k in range(1, m - 1):
      for t in ts[1:-1]:
        # samples keep away from the inner stamps, where two interpolations meet
        d = ts[0] + dur * k / (m - 1) - t
        T.assume(T.or_(d >= 1e-6, d <= -1e-6))
    out, samples = M.resample_quaternions(T.np.array(ts), qs, dt)
    T.check(len(samples) == m, 'number of samples')
    T.check(len(out) == m, 'one orientation per sample')
    if len(samples) != m or len(out) != m:
      return
    T.check_eq(samples[0], ts[0], 'starts with the first stamp')
    if m == 1:
      T.check_eq(out[0].q, qs[0].q, 'first orientation')
      return
    T.check_eq(samples[-1], ts[-1], 'ends with the last stamp')
    for k in range(m):
      s = ts[0] + dur * k / (m - 1)
      T.check_eq(samples[k], s, 'equally spaced')
      i = 0
      while i < n - 2 and T.truth(s > ts[i + 1]):
        i += 1
      want = S(qs[i], qs[i + 1], (s - ts[i]) / (ts[i + 1] - ts[i]))
      T.check_eq(out[k].q, want.q, 'interpolated orientation', tol=1e-5)
  f.__name__ = 'resample_%s_%d' % (''.join(map(str, idx)), m) + ('' if free is None else '_free%d' % free)
  return f


def _norms(T, qs, ts, k):
  """lengths of the smoothed velocities between neighbours; nothing is clipped"""
  V = T.mod(QM).angular_velocity_between_quaternions
  w = [V(qs[i], qs[i + 1], ts[i + 1] - ts[i]) for i in range(len(qs) - 1)]
  left = (k - 1) - (k - 1) // 2
  out = []
  for i in range(len(w)):
    s = [0, 0, 0]
    for j in range(i - left, i - left + k):
      if 0 <= j < len(w):
        s = [x + y / k for x, y in zip(s, w[j])]
    out.append(dot(s, s))
  return out


def velocities(idx, kernels, free=None):
  def f(T):
    M = T.mod(TA)
    n = len(idx)
    ts, qs = _times(T, n, 't', free), _quats(T, idx)
    k = T.choice('kernel', kernels)
    r = M.compute_angular_velocity_norms(qs, T.np.array(ts), k, 100)
    T.check(len(r) == n - 1, 'one value per interval')
    want = _norms(T, qs, ts, k)
    for x, w in zip(r, want):
      T.check(x >= 0, 'a length')
      T.check_eq(x * x, w, 'length of the smoothed velocity')
  f.__name__ = 'velocities_%s_%s' % (''.join(map(str, idx)), ''.join(map(str, kernels))) + ('' if free is None else '_free%d' % free)
  return f


def estimate(ia, ib, top, even=False, filters=((1, 2, 100, 100), (3, 1, 100, 100))):
  def f(T):
    """the full estimate is the one of the signals, at the start times of their intervals"""
    M = T.mod(TA)
    ta, qa = _times(T, len(ia), 'a'), _quats(T, ia)
    if even:
      ta = [ta[0] + (ta[1] - ta[0]) * i for i in range(len(ia))]
    ta = T.np.array(ta)
    b0 = T.real('b0', -10, 10)
    tb, qb = T.np.array([b0 + i for i in range(len(ib))]), _quats(T, ib)
    da, db = (ta[-1] - ta[0]) / (len(ia) - 1), (tb[-1] - tb[0]) / (len(ib) - 1)
    dt = da if T.truth(da >= db) else db
    for t, least in ((ta, 2), (tb, 1)):
      d = (t[-1] - t[0]) / dt
      # two intervals of the first signal, one of the second; stay away from where rounding decides the number
      T.assume(T.and_(d >= least, d <= top - 1e-3))
      T.assume(T.and_(*[T.or_(d == j, d >= j + 1e-3, d <= j - 1e-3) for j in range(1, top)]))
    C = M.FilteringConfig()
    (C.smoothing_kernel_size_A, C.smoothing_kernel_size_B, C.clipping_percentile_A, C.clipping_percentile_B) = T.choice(
        'filter', filters)
    r = M.calculate_time_offset(ta, qa, tb, qb, C)
    sig = []
    for t, q, k, p in ((ta, qa, C.smoothing_kernel_size_A, C.clipping_percentile_A),
                       (tb, qb, C.smoothing_kernel_size_B, C.clipping_percentile_B)):
      qs, ss = M.resample_quaternions(t, q, dt)
      v = M.compute_angular_velocity_norms(qs, ss, k, p)
      sig.append((ss[:len(v)], v))
    want = M.calculate_time_offset_from_signals(sig[0][0], sig[0][1], sig[1][0], sig[1][1])
    T.check_eq(r, want, 'offset of the two signals')
  f.__name__ = 'estimate_%s_%s' % (''.join(map(str, ia)), ''.join(map(str, ib))) + ('' if filters[0][2:] == (100, 100) else '_clipped')
  return f


HARNESSES = [Harness(f, bounds=B) for f in (
    resample([0, 1], 1), resample([0, 1], 2), resample([1, 2], 3), resample([0, 2], 4), resample([0, 1, 2], 2), resample([1, 3, 0], 3),
    velocities([0, 1], [1, 2]), velocities([0, 1, 0], [1, 2, 3]), velocities([2, 4, 1], [1]), velocities([1, 0, 1, 0], [3]),
    estimate([0, 1, 5], [1, 6, 5], 3, False, [(2, 1, 100, 100)]), estimate([0, 1, 0, 5], [1, 6], 3, True),
    estimate([5, 0, 1, 0], [1, 6], 3, True, ((1, 1, 100, 0), (1, 1, 0, 100))))]
HARNESSES += [Harness(f, bounds=B, tier='thorough') for f in (estimate([0, 1, 5], [1, 5, 6], 3), estimate([0, 1, 0, 5, 1], [1, 6], 4, True))]
HARNESSES += [Harness(f, bounds=B) for f in (resample([0, 1, 0, 5, 6, 1], 7, 3), resample([2, 1, 3, 0, 4, 1, 6, 5], 4, 2), velocities([0, 1, 0, 1, 0, 1, 0], [1, 3, 4], 4),
    resample([0, 1, 0, 5, 6, 1, 2, 4, 3, 0], 13, 5), velocities([0, 1] * 6, [1, 5, 8], 7))]
