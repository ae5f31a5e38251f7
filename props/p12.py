"""P12 path alignment"""
from symx.main import Harness
from lib import *

B = 'paths of up to 3 poses (4 in the thorough tier), paths of 9 poses of which one is free, every index, positions in [-10,10]^3, all orientations'


def _path(T, n, free=None):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  v = [free_dq(T, 'p%d' % i) if free in (None, i) else given_dq(i) for i in range(n)]
  return D, v, [D.from_vector(x) for x in v]


def align(n, free=None):
  def f(T):
    H = T.mod(HE)
    D, v, p = _path(T, n, free)
    k = T.choice('index', list(range(n)))
    keep = list(p)
    flag = T.choice('enforce', ['yes', 'no', 'default'])
    if flag == 'default':
      r = H.align_paths_at_index(p, k) if k else H.align_paths_at_index(p)
    else:
      r = H.align_paths_at_index(p, k, flag == 'yes')
    T.check(len(r) == n, 'one result per pose')
    inv = conj8(v[k])
    for i in range(n):
      want = dqmul(inv, v[(k + i) % n])
      got = list(r[i].dq)
      if i == 0:
        T.check_eq(got, [0, 0, 0, 1, 0, 0, 0, 0], 'starts at the identity')
      elif flag == 'no':
        T.check_eq(got, want, 'relative motion')
      else:
        T.check(got[3] >= 0, 'scalar part not negative')
        if T.truth(want[3] < 0):
          want = [-x for x in want]
        T.check_eq(got, want, 'relative motion with non-negative scalar part')
    T.check(len(p) == n and all(a is b for a, b in zip(p, keep)), 'the list is left alone')
    for i in range(n):
      T.check_eq(p[i].dq, v[i], 'the poses are left alone')
    r[-1].dq[0] = 7.
    for i in range(n):
      T.check_eq(p[i].dq, v[i], 'the result owns its data')
  f.__name__ = 'align%d' % n if free is None else 'align%d_free%d' % (n, free)
  return f


def offset(T, n=2, free=None):
  H = T.mod(HE)
  D, v, p = _path(T, n, free)
  x, b = free_dq(T, 'x'), free_dq(T, 'b')
  dx, db = D.from_vector(x), D.from_vector(b)
  r = H.compute_dual_quaternions_with_offset(p, dx, db)
  T.check(len(r) == n, 'one result per pose')
  for i in range(n):
    T.check_eq(r[i].dq, dqmul(dqmul(conj8(b), v[i]), x), 'base^-1 hand hand-eye')
  for i in range(n):
    T.check_eq(p[i].dq, v[i], 'the poses are left alone')
  T.check_eq(dx.dq, x, 'hand-eye is left alone')
  T.check_eq(db.dq, b, 'base is left alone')


def offset_long(T):
  offset(T, 9, 7)


def related(T):
  """the aligned paths are related by the hand-eye transformation alone"""
  H = T.mod(HE)
  n = 2
  D, v, p = _path(T, n)
  x, b = free_dq(T, 'x'), free_dq(T, 'b')
  w = H.compute_dual_quaternions_with_offset(p, D.from_vector(x), D.from_vector(b))
  k = T.choice('index', [0, 1])
  A = H.align_paths_at_index(p, k, False)
  Bm = H.align_paths_at_index(w, k, False)
  for i in range(n):
    T.check_eq(dqmul(list(A[i].dq), x), dqmul(x, list(Bm[i].dq)), 'A X = X B', tol=1e-4)


HARNESSES = [Harness(align(1), bounds=B), Harness(align(2), bounds=B), Harness(align(3), bounds=B), Harness(align(4), bounds=B, tier='thorough'),
             Harness(offset, bounds=B), Harness(related, bounds=B)]
HARNESSES += [Harness(align(9, k), bounds=B) for k in (0, 4, 8)] + [Harness(offset_long, bounds=B)]
