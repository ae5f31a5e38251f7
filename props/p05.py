"""P05 interpolation of quaternions"""
from symx.main import Harness
from lib import *

B = 'all pairs of unit quaternions, all fractions; exact real arithmetic (endpoints closer than 1e-7: to 1e-6)'


def same_rotation(T, a, b, label):
  """a and b (4-vectors of unit length) are equal up to sign"""
  for i in range(4):
    for j in range(i + 1, 4):
      T.check_eq(a[i] * b[j], a[j] * b[i], label)


def _pair(T):
  M = T.mod('hand_eye_calibration.quaternion')
  u, v, r = unit_pair(T)
  return M, u, v


def slerp(T):
  M, u, v = _pair(T)
  f = T.real('f', 0, 1)
  r = M.quaternion_slerp(M.Quaternion(q=u.copy()), M.Quaternion(q=v.copy()), f).q
  T.check(T.finite(r), 'finite')
  T.assume(T.and_(f > 0, f < 1))
  c = dot(u, v)
  s1 = u
  if T.truth(c < 0):
    c, s1 = -c, [-x for x in u]
  if not T.symbolic and c > 1:
    c = 1.0
  s = T.np.sqrt(1 - c * c)
  th = T.np.arccos(c)
  C, S = T.np.cos(th * f), T.np.sin(th * f)
  if T.truth(s > 2e-8):
    # sin(theta) * slerp = sin((1-f) theta) p + sin(f theta) q
    want = [((s * C - c * S) * x + S * y) / s for x, y in zip(s1, v)]
    T.check_eq(dot(r, r), 1, 'unit length')
    same_rotation(T, r, want, 'point at the fraction of the shorter arc')
    T.cover('proper arc')
  else:
    # |r - s1|^2 = |r|^2 + 1 - 2 r.s1 is tiny
    n, d = dot(r, r), dot(r, s1)
    T.fact(1 - c <= 4.1e-16)
    T.fact(th <= 1e-7)
    T.fact(C >= 1 - 1e-13)
    T.fact(S * S <= 1e-13)
    T.check(T.and_(d >= 1 - 1e-12, d <= 1 + 1e-12), 'close endpoints: direction')
    T.check(T.and_(n >= 1 - 1e-12, n <= 1 + 1e-12), 'close endpoints: length')


def ends(T):
  M, u, v = _pair(T)
  f = T.choice('f', [0, 1])
  r = M.quaternion_slerp(M.Quaternion(q=u.copy()), M.Quaternion(q=v.copy()), float(f)).q
  T.check_eq(r, v if f else u, 'endpoint')


def slerp_sign(T):
  """negating an endpoint gives the same rotation"""
  M, u, v = _pair(T)
  f = T.real('f', 0, 1)
  c = dot(u, v)
  T.assume(T.and_(c * c < 1 - 1e-12, T.or_(c > 0, c < 0)))
  Q = M.Quaternion
  a = M.quaternion_slerp(Q(q=u.copy()), Q(q=v.copy()), f).q
  b = M.quaternion_slerp(Q(q=-u), Q(q=v.copy()), f).q
  d = M.quaternion_slerp(Q(q=u.copy()), Q(q=-v), f).q
  same_rotation(T, a, b, 'sign of the first endpoint')
  same_rotation(T, a, d, 'sign of the second endpoint')


def slerp_operands(T):
  M, u, v = _pair(T)
  f = T.real('f', 0, 1)
  a, b = M.Quaternion(q=u.copy()), M.Quaternion(q=v.copy())
  M.quaternion_slerp(a, b, f)
  T.check_eq(a.q, u, 'first endpoint unchanged')
  T.check_eq(b.q, v, 'second endpoint unchanged')


def refused(T):
  M, u, v = _pair(T)
  f = T.real('f', -10, 10)
  T.assume(T.or_(f < 0, f > 1))
  a, b = M.Quaternion(q=u.copy()), M.Quaternion(q=v.copy())
  for g in (M.quaternion_slerp, M.quaternion_lerp, M.quaternion_nlerp):
    r, e = T.call(g, a, b, f)
    T.check(e is not None, 'fraction outside [0,1] is refused')


def lerp(T):
  M, u, v = _pair(T)
  f = T.real('f', 0, 1)
  a, b = M.Quaternion(q=u.copy()), M.Quaternion(q=v.copy())
  want = [x + f * (y - x) for x, y in zip(u, v)]
  T.check_eq(M.quaternion_lerp(a, b, f).q, want, 'point of the chord')
  n2 = dot(want, want)
  T.assume(n2 > 1e-12)
  n = M.quaternion_nlerp(a, b, f).q
  T.check_eq(dot(n, n), 1, 'normalised point has unit length')
  l = T.np.sqrt(n2)
  T.check_eq([x * l for x in n], want, 'normalised point of the chord')
  T.check_eq(a.q, u, 'operand unchanged')
  T.check_eq(b.q, v, 'operand unchanged')


def times(T):
  """interpolation at times: every time is mapped to its own fraction (pure x-rotations)"""
  M = T.mod('hand_eye_calibration.quaternion')
  Q = M.Quaternion
  p = T.unit('p2', 2)
  q = T.unit('q2', 2)
  T.assume(T.and_(dot(p, q) > 0.1, dot(p, q) < 0.999))
  tl = T.real('tl', -10, 10)
  dt = T.real('dt', 1e-5, 100)
  f = [T.real('f0', 0.01, 0.99), T.real('f1', 0.01, 0.99)]
  a, b = Q(p[0], 0., 0., p[1]), Q(q[0], 0., 0., q[1])
  r = M.quaternions_interpolate(a, tl, b, tl + dt, T.np.array([tl + x * dt for x in f]))
  T.check(len(r) == 2, 'one result per time')
  for x, y in zip(r, f):
    T.check_eq(x.q, M.quaternion_slerp(a, b, y).q, 'time to fraction')
  T.check_eq(a.q, [p[0], 0., 0., p[1]], 'left endpoint unchanged')
  T.check_eq(b.q, [q[0], 0., 0., q[1]], 'right endpoint unchanged')


def fractions(T):
  """the fractions asked of the interpolation, when that is left to quaternion_slerp"""
  M = T.mod('hand_eye_calibration.quaternion')
  a, b = M.Quaternion(0.6, 0., 0., 0.8), M.Quaternion(0., 0., 0., 1.)
  tl = T.real('tl', -10, 10)
  dt = T.real('dt', 1e-5, 100)
  f = [T.real('f%d' % i, 0, 1) for i in range(3)]
  asked = []

  def slerp(q_1, q_2, fraction):
    asked.append((q_1.q.copy(), q_2.q.copy(), fraction))
    return real(q_1, q_2, 0.5)
  real, M.quaternion_slerp = M.quaternion_slerp, in_place_of(M.quaternion_slerp, slerp)
  try:
    r = M.quaternions_interpolate(a, tl, b, tl + dt, T.np.array([tl + x * dt for x in f]))
  finally:
    M.quaternion_slerp = real
  T.check(len(r) == 3, 'one result per time')
  if len(asked) == 3:
    for (p, q, x), y in zip(asked, f):
      T.check_eq(p, a.q, 'left endpoint')
      T.check_eq(q, b.q, 'right endpoint')
      T.check_eq(x, y, 'fraction of the time', tol=1e-6)


HARNESSES = [Harness(slerp, bounds=B, covers=['proper arc', 'close endpoints: length'])] + [
    Harness(f, bounds=B) for f in (ends, slerp_sign, slerp_operands, refused, lerp, times, fractions)]
