"""P14 the calibration recovers the hand-eye transformation"""
from symx.main import Harness
from lib import *

B = ('hand-eye transformations and motions with positions in [-10,10]^3, all orientations, two motion pairs besides the '
     'identity or seven of which one is free; every orthonormal basis of the null space (numpy.linalg.svd is replaced by its contract)')


def _system(T, x, n=2, free=True):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  As, Bs = [[0., 0., 0., 1., 0., 0., 0., 0.]], [[0., 0., 0., 1., 0., 0., 0., 0.]]
  for i in range(n):
    a = free_dq(T, 'a%d' % i) if free is True or free == i else given_dq(i)
    As.append(a)
    Bs.append(eye_motion(x, a))
  return D, As, Bs


def _svd(T, x, s, kinds=None):
  """any orthonormal basis of span{x, (0, x_rot)}: rotate the one at hand by any angle"""
  # angles in [-90,90] degrees by the tangent of the half angle, the others by the sign
  h = T.real('tan', -1, 1)
  sg, k = kinds or (T.choice('orientation', [1, -1]), T.choice('half', [1, -1]))
  cs = [k * (1 - h * h) / (1 + h * h), k * 2 * h / (1 + h * h)]
  m = dot(x[4:], x[4:])
  R = T.np.sqrt(1 + m)
  e1 = [e / R for e in x]
  e2 = [0., 0., 0., 0.] + list(x[:4])
  v7 = [cs[0] * p + cs[1] * q for p, q in zip(e1, e2)]
  v8 = [sg * (-cs[1] * p + cs[0] * q) for p, q in zip(e1, e2)]

  def svd(M, *args, **kw):
    for r in M:
      T.check_eq(dot(list(r), v7), 0, 'the decomposed matrix has that null space', tol=1e-5)
      T.check_eq(dot(list(r), v8), 0, 'the decomposed matrix has that null space', tol=1e-5)
    V = T.np.zeros((8, 8))
    V[6, :] = v7
    V[7, :] = v8
    return None, T.np.array(s), V
  T.stub('svd', svd)


def recover(sg, k):
  def f(T):
    _recover(T, (sg, k))
  f.__name__ = 'recover%d%d' % ((1 - sg) // 2, (1 - k) // 2)
  return f


def longer(k):
  def f(T):
    _recover(T, (1, 1), 7, k)
  f.__name__ = 'longer_free%s' % k
  return f


def _recover(T, kinds, n=2, free=True):
  H = T.mod(HE)
  x = free_dq(T, 'x') if free in (True, None) else given_dq(9)
  D, As, Bs = _system(T, x, n, free)
  s = [3., 3., 3., 2., 2., 1., 0., 0.]
  _svd(T, x, s, kinds)
  da, db = [D.from_vector(a) for a in As], [D.from_vector(b) for b in Bs]
  r, sv, bad = H.compute_hand_eye_calibration(da, db)
  T.check_eq(dot(r.dq[:4], r.dq[:4]), 1, 'unit rotation part')
  T.check_eq(dot(r.dq[:4], r.dq[4:]), 0, 'orthogonal dual part')
  same_transformation(T, list(r.dq), x, 'the hand-eye transformation')
  T.check_eq(sv, s, 'singular values')
  T.check(not bad, 'quality flag')


def signs(T):
  """the eye motions may come with the opposite sign"""
  H = T.mod(HE)
  x = free_dq(T, 'x')
  D, As, Bs = _system(T, x, 1)
  s = [3., 3., 3., 2., 2., 1., 0., 0.]
  _svd(T, x, s)
  k = T.choice('sign', [1, -1])
  T.assume(T.or_(As[1][3] > 1e-6, As[1][3] < -1e-6))
  da = [D.from_vector(a) for a in As]
  db = [D.from_vector(Bs[0]), D.from_vector([k * e for e in Bs[1]])]
  r, sv, bad = H.compute_hand_eye_calibration(da, db)
  same_transformation(T, list(r.dq), x, 'the hand-eye transformation')


def quality(T):
  """the flag and the singular values"""
  H = T.mod(HE)
  x = pose_dq([1., 2., 3.], [0.5, 0.5, 0.5, 0.5])
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  one = [0., 0., 0., 1., 0., 0., 0., 0.]
  a = pose_dq([0.5, 0., 1.], [0.6, 0., 0., 0.8])
  s = list(T.vec('s', 8, 0, 100))
  for i in range(7):
    T.assume(s[i] >= s[i + 1])
  _svd2(T, x, s)
  r, sv, bad = H.compute_hand_eye_calibration([D.from_vector(one), D.from_vector(a)],
                                              [D.from_vector(one), D.from_vector(eye_motion(x, a))])
  T.check_eq(sv, s, 'singular values unchanged')
  want = T.or_(*([e < 0.5 for e in s[:6]] + [e > 0.5 for e in s[6:]]))
  if T.truth(bad):
    T.check(want, 'flag raised only for bad singular values')
    T.cover('bad')
  else:
    T.check(T.not_(want), 'flag raised for every bad singular value')
    T.cover('good')


def _svd2(T, x, s):
  R = T.np.sqrt(1 + dot(x[4:], x[4:]))
  e1 = [e / R for e in x]
  e2 = [0., 0., 0., 0.] + list(x[:4])

  def svd(M, *args, **kw):
    V = T.np.zeros((8, 8))
    V[6, :] = [0.6 * p + 0.8 * q for p, q in zip(e1, e2)]
    V[7, :] = [-0.8 * p + 0.6 * q for p, q in zip(e1, e2)]
    return None, T.np.array(s), V
  T.stub('svd', svd)


def refused(T):
  """paths not starting at the identity or with differing scalar parts"""
  H = T.mod(HE)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  one = D.identity
  tol = T.real('tol', 0, 1)
  a, b = free_dq(T, 'a'), free_dq(T, 'b')
  d, e = a[3] - b[3], a[7] - b[7]
  far = tol + 0.001
  T.assume(T.and_(a[3] > 0.001, b[3] > 0.001, T.or_(d > far, d < -far, e > far, e < -far)))
  r, ex = T.call(H.compute_hand_eye_calibration, [one(), D.from_vector(a)], [one(), D.from_vector(b)], tol)
  T.check(ex is not None, 'differing scalar parts are refused')


HARNESSES = [Harness(f, bounds=B) for f in (recover(1, 1), recover(1, -1), recover(-1, 1), recover(-1, -1),
                                               signs, quality, refused)]
HARNESSES += [Harness(longer(k), bounds=B) for k in (0, 5)]
