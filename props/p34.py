"""P34 data drops"""
from symx.main import Harness
from lib import *

B = ('lists of 3 to 6 entries of any value, shares of 2 to 5 entries (whole numbers of them), single drops of 1 to 4 entries, removal and blanking, all sequences '
     'of up to 2 or 3 drops including empty and overlapping ones; random.randint takes whole floats as before Python 3.12, except for '
     'the known finding')
TT = 'hand_eye_calibration.test_tools'


def make(T, n, k, s):
  """drop k of n entries, at most s at once"""
  M = T.mod(TT)
  c = M.DataDropConfig()
  c.overall_drop_percentage = 100.0 * k / n
  c.max_percentage_for_single_drop = 100.0 * s / n
  vals = [T.real('x%d' % i, i * 10, i * 10 + 5) for i in range(n)]
  return M, c, vals


def drops(n, k, s, draws):
  def f(T):
    T.whole_floats()
    T.limit('randint', 2 * draws)
    M, c, vals = make(T, n, k, s)
    blank = T.choice('blank', [None, False, True])
    data = list(vals)
    if blank is None:
      M.introduce_data_drops(data, c)
    else:
      M.introduce_data_drops(data, c, blank)
    if blank:
      T.check(len(data) == n, 'blanking keeps the length')
      T.check(sum(1 for x in data if x is None) == k, 'exactly the requested number is blanked')
      for x, v in zip(data, vals):
        if x is not None:
          T.check_eq(x, v, 'remaining entries', tol=1e-9)
    else:
      T.check(len(data) == n - k, 'exactly the requested number is removed')
      # entry i lies in [10 i, 10 i + 5]: each remaining one is an original, in order
      last = -1
      for x in data:
        T.check(x is not None, 'remaining entries')
        i = [j for j in range(last + 1, n) if T.truth(x >= 10 * j - 2) and T.truth(x <= 10 * j + 7)]
        T.check(len(i) == 1, 'remaining entries in order')
        if len(i) != 1:
          return
        T.check_eq(x, vals[i[0]], 'remaining entries', tol=1e-9)
        last = i[0]
    T.cover('blanked' if blank else 'removed')
  f.__name__ = 'drop%dof%d_single%d_draws%d' % (k, n, s, draws)
  return f


def nothing(T):
  """a share of no entries changes nothing"""
  M, c, vals = make(T, 4, 0, -1)
  data = list(vals)
  M.introduce_data_drops(data, c, T.choice('blank', [False, True]))
  T.check_eq(data, vals, 'nothing is dropped', tol=1e-9)


def whole(T):
  """with the random numbers of this Python version"""
  T.limit('randint', 2)
  M, c, vals = make(T, 4, 2, 1)
  M.introduce_data_drops(list(vals), c)


def refused(T):
  """a single drop must be smaller than the share"""
  T.whole_floats()
  T.limit('randint', 4)
  M, c, vals = make(T, 4, 1, T.choice('single', [1, 2]))
  data = list(vals)
  no = False
  try:
    M.introduce_data_drops(data, c)
  except (AssertionError, ValueError):
    no = True
  T.check(no, 'refused')
  T.check_eq(data, vals, 'nothing is dropped', tol=1e-9)


def inner(n, k, s, draws, tier='quick'):
  return Harness(drops(n, k, s, draws), bounds=B, covers=('blanked', 'removed'), max_paths=40000, tier=tier)


HARNESSES = [inner(3, 2, 1, 3), inner(4, 2, 1, 3), inner(4, 3, 2, 3), inner(5, 2, 1, 3), inner(5, 4, 3, 2), inner(6, 2, 1, 2), inner(6, 3, 2, 2),
             inner(6, 5, 4, 2), Harness(nothing, bounds=B), Harness(refused, bounds=B), Harness(whole, bounds=B)]
HARNESSES += [inner(*x, tier='thorough') for x in [(5, 3, 2, 3), (6, 3, 1, 3), (6, 4, 2, 3), (6, 5, 4, 3)]]
