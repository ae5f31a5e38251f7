"""Oracles shared by the harnesses, written independently of the repository."""
import inspect

import numpy as np


def qmul(a, b):
  """Hamilton product, [x y z w]"""
  ax, ay, az, aw = a
  bx, by, bz, bw = b
  return [aw * bx + ax * bw + ay * bz - az * by,
          aw * by - ax * bz + ay * bw + az * bx,
          aw * bz + ax * by - ay * bx + az * bw,
          aw * bw - ax * bx - ay * by - az * bz]


def qconj(a):
  return [-a[0], -a[1], -a[2], a[3]]


def rotmat(q):
  """rotation matrix of a unit quaternion from the columns q e_i q*"""
  cols = []
  for i in range(3):
    e = [0, 0, 0, 0]
    e[i] = 1
    cols.append(qmul(qmul(q, e), qconj(q))[:3])
  return [[cols[j][i] for j in range(3)] for i in range(3)]


def rot(q, v):
  return qmul(qmul(q, [v[0], v[1], v[2], 0]), qconj(q))[:3]


def matvec(M, v):
  return [sum(M[i][j] * v[j] for j in range(len(v))) for i in range(len(M))]


def matmul(A, B):
  return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))]
          for i in range(len(A))]


def dot(a, b):
  s = a[0] * b[0]
  for x, y in zip(a[1:], b[1:]):
    s = s + x * y
  return s


def cross(a, b):
  return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def pose_dq(t, q):
  """unit dual quaternion of the pose (t, q): real part q, dual part 1/2 t q"""
  d = qmul([t[0], t[1], t[2], 0], q)
  return list(q) + [x / 2 for x in d]


def dqmul(a, b):
  r = qmul(a[:4], b[:4])
  d1, d2 = qmul(a[:4], b[4:]), qmul(a[4:], b[:4])
  return list(r) + [x + y for x, y in zip(d1, d2)]


def compose(p1, p2):
  """(t, q) pairs"""
  t1, q1 = p1
  t2, q2 = p2
  r = rot(q1, t2)
  return [t1[i] + r[i] for i in range(3)], qmul(q1, q2)


def unit_pair(T):
  """all pairs (p, q) of unit quaternions, as p = r q with r, q free unit quaternions, so
  that the scalar product of p and q is the scalar part of r"""
  r, q = T.unit('r'), T.unit('q')
  p = T.np.array(qmul(r, q))
  return p, q, r


HE = 'hand_eye_calibration.dual_quaternion_hand_eye_calibration'


def conj8(a):
  """inverse of a unit dual quaternion"""
  return qconj(a[:4]) + qconj(a[4:])


def free_dq(T, name, lim=10):
  """all unit dual quaternions with position within lim"""
  return pose_dq(T.vec('t_' + name, 3, -lim, lim), T.unit(name))


HALVES = [[a / 2., b / 2., c / 2., d / 2.] for a in (1, -1) for b in (1, -1) for c in (1, -1) for d in (1, -1)]


def given_dq(i):
  """different poses with exactly representable numbers"""
  return pose_dq([i - 2.5, 0.5 * i + 1, 3 - 0.25 * i * i], HALVES[(7 * i + 2) % 16])


def eye_motion(x, a):
  """the eye motion X^-1 A X that the hand-eye transformation X induces from A"""
  return dqmul(dqmul(conj8(x), a), x)


def same_transformation(T, r, x, what):
  """unit dual quaternions r and x agree up to sign and r has a non-negative scalar part"""
  T.check(r[3] >= 0, what + ': scalar part not negative')
  if T.truth(x[3] > 0):
    T.check_eq(r, x, what)
  elif T.truth(x[3] < 0):
    T.check_eq(r, [-e for e in x], what)
  else:
    T.check_eq([[a * b for b in r] for a in r[:4]], [[a * b for b in x] for a in x[:4]], what)


def in_place_of(real, fake):
  """a stand-in that gets its arguments by position, whether the code passes them by position or by name"""
  sig = inspect.signature(real)

  def f(*args, **kw):
    b = sig.bind(*args, **kw)
    return fake(*b.args, **b.kwargs)
  f.__signature__ = sig
  return f


def write_rows(T, name, rows, sep=','):
  """a file of numbers"""
  T.write(name, ''.join(sep.join(T.number(x) for x in r) + '\n' for r in rows))
  return T.path(name)


def read_rows(T, name):
  """the numbers of a file"""
  text = T.text(name)
  if text is None:
    return None
  return [[T.parse(x) for x in line.split(',')] for line in text.splitlines() if line.strip()]


class PyFloat(object):
  """a symbolic number that behaves like python's own float: dividing by zero raises"""

  def __init__(self, v):
    self.v = v

  @staticmethod
  def of(T, v):
    return PyFloat(v) if T.symbolic else float(v)

  @staticmethod
  def raw(x):
    return x.v if isinstance(x, PyFloat) else x

  def __add__(self, o):
    return PyFloat(self.v + self.raw(o))

  __radd__ = __add__

  def __sub__(self, o):
    return PyFloat(self.v - self.raw(o))

  def __rsub__(self, o):
    return PyFloat(self.raw(o) - self.v)

  def __mul__(self, o):
    return PyFloat(self.v * self.raw(o))

  __rmul__ = __mul__

  def _div(self, a, b):
    if b == 0:
      raise ZeroDivisionError('float division by zero')
    return PyFloat(a / b)

  def __truediv__(self, o):
    return self._div(self.v, self.raw(o))

  def __rtruediv__(self, o):
    return self._div(self.raw(o), self.v)

  def __neg__(self):
    return PyFloat(-self.v)

  def __abs__(self):
    return PyFloat(abs(self.v))

  def __lt__(self, o):
    return self.v < self.raw(o)

  def __le__(self, o):
    return self.v <= self.raw(o)

  def __gt__(self, o):
    return self.v > self.raw(o)

  def __ge__(self, o):
    return self.v >= self.raw(o)

  def __eq__(self, o):
    return self.v == self.raw(o)

  def __ne__(self, o):
    return self.v != self.raw(o)

  __hash__ = None

  def __str__(self):
    return str(self.v)

  __repr__ = __str__

  def __format__(self, spec):
    return format(self.v, spec)
