"""P20 time offset from signals"""
from symx.main import Harness
from lib import *

B = ('signals of 2 to 8 (thorough: 12) values in [-10,10], start times in [-1e3,1e3], sampling step in [1e-3,10] (for the '
     'dependence on unix time also a start time of 1.5e9)')
TA = 'hand_eye_calibration.time_alignment'


def _times(T, name, n, dt, base=0):
  t0 = T.real(name, -1000, 1000) + base
  return T.np.array([t0 + i * dt for i in range(n)])


def correlation(A, Bs, lag):
  """sum of A at i times B at i + lag"""
  s = 0
  for i, a in enumerate(A):
    if 0 <= i + lag < len(Bs):
      s = s + a * Bs[i + lag]
  return s


def best(n, m, lists=False, base=0):
  def f(T):
    """any two signals: the offset belongs to a lag of maximal correlation"""
    M = T.mod(TA)
    dt = T.real('dt', 1e-3, 10)
    A, Bs = T.vec('a', n, -10, 10), T.vec('b', m, -10, 10)
    ta, tb = _times(T, 'ta', n, dt, base), _times(T, 'tb', m, dt, base)
    if lists:
      out = M.calculate_time_offset_from_signals(ta, list(A), tb, list(Bs))
    else:
      out = M.calculate_time_offset_from_signals(ta, A, tb, Bs)
    lags = range(-n + 1, m)
    cs = {l: correlation(A, Bs, l) for l in lags}
    tol = 1e-5
    T.check(T.or_(*[T.and_(out - (l * dt + tb[0] - ta[0]) <= tol, (l * dt + tb[0] - ta[0]) - out <= tol,
                           *[cs[l] + 1e-9 >= cs[k] for k in lags if k != l]) for l in lags]), 'lag of maximal correlation')
    T.observe(out, 'offset')
  f.__name__ = 'best%dx%d%s%s' % (n, m, '_lists' if lists else '', '_unix' if base else '')
  return f


def delayed(n, k, tail):
  def f(T):
    """the second signal is the first one delayed by k samples"""
    M = T.mod(TA)
    dt = T.real('dt', 1e-3, 10)
    A = T.vec('a', n, -10, 10)
    T.assume(dot(A, A) >= 1e-2)
    Bs = T.np.array([0.] * max(k, 0) + list(A[max(-k, 0):]) + [0.] * tail)
    if k < 0:
      # the values cut off are zero
      for i in range(-k):
        T.assume(A[i] == 0)
    ta, tb = _times(T, 'ta', n, dt), _times(T, 'tb', len(Bs), dt)
    out = M.calculate_time_offset_from_signals(ta, A, tb, Bs)
    T.check_eq(out, k * dt + tb[0] - ta[0], 'offset is the delay')
  f.__name__ = 'delayed%d_by%d%s' % (n, k, '_tail%d' % tail if tail else '')
  return f


def moved(n, m):
  def f(T):
    """moving the time stamps moves the offset, scaling the signals does not"""
    M = T.mod(TA)
    dt = T.real('dt', 1e-3, 10)
    A, Bs = T.vec('a', n, -10, 10), T.vec('b', m, -10, 10)
    ta, tb = _times(T, 'ta', n, dt), _times(T, 'tb', m, dt)
    da, db = T.real('da', -1000, 1000), T.real('db', -1000, 1000)
    o1 = M.calculate_time_offset_from_signals(ta, A, tb, Bs)
    o2 = M.calculate_time_offset_from_signals(ta + da, A, tb, Bs)
    o3 = M.calculate_time_offset_from_signals(ta, A, tb + db, Bs)
    T.check_eq(o2, o1 - da, 'moving the first time stamps')
    T.check_eq(o3, o1 + db, 'moving the second time stamps')
  f.__name__ = 'moved%dx%d' % (n, m)
  return f


def scaled(n, m, which):
  def f(T):
    M = T.mod(TA)
    A, Bs = T.vec('a', n, -10, 10), T.vec('b', m, -10, 10)
    k = T.real('k', 1e-3, 100)
    ta, tb = _times(T, 'ta', n, 0.5), _times(T, 'tb', m, 0.5)
    lags = range(-n + 1, m)
    cs = [correlation(A, Bs, l) for l in lags]
    # rounding decides between equal correlations
    for i in range(len(cs)):
      for j in range(i):
        T.assume(T.or_(cs[i] - cs[j] > 1e-3, cs[j] - cs[i] > 1e-3))
    o1 = M.calculate_time_offset_from_signals(ta, A, tb, Bs)
    if which == 'A':
      o2 = M.calculate_time_offset_from_signals(ta, A * k, tb, Bs)
    else:
      o2 = M.calculate_time_offset_from_signals(ta, A, tb, Bs * k)
    T.check_eq(o2, o1, 'scaling a signal changes nothing')
  f.__name__ = 'scaled%s_%dx%d' % (which, n, m)
  return f


HARNESSES = [
    Harness(best(2, 2), bounds=B), Harness(best(3, 3), bounds=B), Harness(best(2, 4), bounds=B), Harness(best(4, 2), bounds=B),
    Harness(best(3, 2, base=1.5e9), bounds=B), Harness(best(4, 4, True), bounds=B),
    Harness(delayed(3, 0, 0), bounds=B), Harness(delayed(3, 1, 0), bounds=B), Harness(delayed(3, 2, 1), bounds=B),
    Harness(delayed(4, -1, 0), bounds=B), Harness(delayed(4, -2, 1), bounds=B), Harness(delayed(4, 1, 2), bounds=B),
    Harness(moved(2, 2), bounds=B), Harness(moved(3, 2), bounds=B),
    Harness(scaled(3, 3, 'A'), bounds=B), Harness(scaled(3, 2, 'B'), bounds=B),
    Harness(best(5, 6), bounds=B), Harness(delayed(5, 1, 1), bounds=B), Harness(delayed(5, -1, 2), bounds=B),
    Harness(best(8, 8), bounds=B), Harness(delayed(6, 2, 1), bounds=B), Harness(scaled(4, 4, 'A'), bounds=B), Harness(moved(5, 5), bounds=B),
    Harness(best(12, 11), bounds=B, tier='thorough'), Harness(delayed(7, 3, 1), bounds=B, tier='thorough'),
    Harness(scaled(8, 8, 'B'), bounds=B, tier='thorough'), Harness(moved(8, 8), bounds=B, tier='thorough'),
]
