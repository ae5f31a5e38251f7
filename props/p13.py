"""P13 the linear system of motion pairs"""
from symx.main import Harness
from lib import *

B = 'all motions and hand-eye transformations with positions in [-10,10]^3; 2 pairs (thorough: 3), or 7 of which one and the hand-eye transformation are free'


def _pair(T, x, name):
  a = free_dq(T, name)
  return a, eye_motion(x, a)


def _null(T, rows, x, what):
  for r in rows:
    T.check_eq(dot(list(r), x), 0, what + ' annihilates the hand-eye transformation', tol=1e-5)
    T.check_eq(dot(list(r)[4:], x[:4]), 0, what + ' annihilates the rotation in the dual slot', tol=1e-5)


def block(T):
  H = T.mod(HE)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  x = free_dq(T, 'x')
  a, b = _pair(T, x, 'a')
  sg = T.choice('sign', [1, -1])
  da, db = D.from_vector([sg * e for e in a]), D.from_vector([sg * e for e in b])
  S = H.setup_s_matrix(da, db)
  T.check(T.np.shape(S) == (6, 8), '6x8 block')
  _null(T, S, x, 'block')
  T.check_eq(da.dq, [sg * e for e in a], 'operands are left alone')
  T.check_eq(db.dq, [sg * e for e in b], 'operands are left alone')


def rows(T):
  """the block is the one of the paper, also for inexact pairs"""
  H = T.mod(HE)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  a, b = T.vec('a', 8, -2, 2), T.vec('b', 8, -2, 2)
  T.assume(T.and_(a[3] - b[3] < 0.04, b[3] - a[3] < 0.04, a[7] - b[7] < 0.04, b[7] - a[7] < 0.04))
  S = H.setup_s_matrix(D.from_vector(a), D.from_vector(b))
  x = T.vec('x', 8, -2, 2)
  # imaginary part of a x - x b, less the scalar parts: [a]_s + [b]_s acting on x
  ar, ad, br, bd = a[:3], a[4:7], b[:3], b[4:7]

  def act(p, q, v):
    w = cross([i + j for i, j in zip(p, q)], v[:3])
    return [w[i] + (p[i] - q[i]) * v[3] for i in range(3)]
  want = act(ar, br, x[:4]) + [i + j for i, j in zip(act(ad, bd, x[:4]), act(ar, br, x[4:]))]
  T.check_eq([dot(list(r), x) for r in S], want, 'rows of the block')


def stacked(n, free=None):
  def f(T):
    H = T.mod(HE)
    D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    x = free_dq(T, 'x')
    ps = [_pair(T, x, 'a%d' % i) if free in (None, i) else (given_dq(i), eye_motion(x, given_dq(i))) for i in range(n)]
    As, Bs = [D.from_vector(a) for a, _ in ps], [D.from_vector(b) for _, b in ps]
    if not T.symbolic:
      blocks = [H.setup_s_matrix(a, b) for a, b in zip(As, Bs)]
      M = H.setup_t_matrix(As, Bs)
    else:
      blocks = [H.setup_s_matrix(a, b) for a, b in zip(As, Bs)]
      M = H.setup_t_matrix(As, Bs)
    T.check(T.np.shape(M) == (6 * n, 8), '6n x 8 matrix')
    for i in range(n):
      T.check_eq(M[6 * i:6 * i + 6, :], blocks[i], 'block of each pair in order')
    _null(T, M, x, 'matrix')
  f.__name__ = 'stacked%d' % n if free is None else 'stacked%d_free%d' % (n, free)
  return f


def refused(T):
  H = T.mod(HE)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  a, b = T.vec('a', 8, -2, 2), T.vec('b', 8, -2, 2)
  k = T.choice('slot', [3, 7])
  d = a[k] - b[k]
  T.assume(T.or_(d > 0.051, d < -0.051))
  if T.choice('where', ['block', 'matrix']) == 'block':
    r, e = T.call(H.setup_s_matrix, D.from_vector(a), D.from_vector(b))
  else:
    one = D.identity()
    r, e = T.call(H.setup_t_matrix, [one, D.from_vector(a)], [one, D.from_vector(b)])
  T.check(e is not None, 'differing scalar parts are refused')


HARNESSES = [Harness(f, bounds=B) for f in (block, rows, stacked(2), refused)] + [Harness(stacked(3), bounds=B, tier='thorough')]
HARNESSES += [Harness(stacked(7, k), bounds=B) for k in (0, 5)]
