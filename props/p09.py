"""P09 conversions between poses, matrices and dual quaternions"""
from symx.main import Harness
from lib import *

B = 'positions in [-100,100]^3, all orientations, quaternion length in [1e-3,10], scale factors in [1e-3,10] of either sign'


def _in(T):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  return D, T.vec('t', 3, -100, 100), T.unit('u')


def upper(T, u):
  """the representative with non-negative scalar part"""
  return [-x for x in u] if T.truth(u[3] < 0) else list(u)


def same_pose(T, p, t, u, what):
  T.check_eq(p[:3], t, what + ': position')
  if T.truth(u[3] == 0):
    # a half turn: both signs are the same orientation
    T.check_eq(p[6], 0, what + ': orientation of a half turn')
    T.check_eq([[a * b for b in p[3:6]] for a in p[3:6]], [[a * b for b in u[:3]] for a in u[:3]],
               what + ': orientation of a half turn')
  else:
    T.check_eq(p[3:], upper(T, u), what + ': orientation, scalar part not negative')
  T.check(len(p) == 7, what + ': seven numbers')


def pose(T):
  D, t, u = _in(T)
  k = T.real('k', 0.001, 10)
  q = [x * k for x in u]
  form = T.choice('form', ['vector', 'arguments', 'list'])
  if form == 'vector':
    v = T.np.array(list(t) + q)
    d = D.from_pose_vector(v)
    T.check_eq(v, list(t) + q, 'the pose is left alone')
  elif form == 'list':
    d = D.from_pose_vector(list(t) + q)
  else:
    d = D.from_pose(*(list(t) + q))
  T.check_eq(dot(d.dq[:4], d.dq[:4]), 1, 'unit rotation part')
  T.check_eq(dot(d.dq[:4], d.dq[4:]), 0, 'orthogonal dual part')
  T.check_eq(d.norm()[0], 1, 'norm')
  T.check_eq(d.norm()[1], 0, 'norm')
  T.check(d.is_normalized(), 'reported as normalised')
  T.check_eq(d.dq, pose_dq(t, u), 'unit dual quaternion of the pose')
  same_pose(T, d.to_pose(), t, u, 'pose read back')
  same_pose(T, d.to_pose(), t, u, 'pose read back again')


def matrix(T):
  D, t, u = _in(T)
  d = D.from_vector(pose_dq(t, u))
  M = d.to_matrix()
  T.check(T.np.shape(M) == (4, 4), '4x4')
  R = rotmat(u)
  T.check_eq([[M[i, j] for j in range(3)] for i in range(3)], R, 'rotation block')
  T.check_eq([M[i, 3] for i in range(3)], t, 'position column')
  T.check_eq([M[3, j] for j in range(4)], [0, 0, 0, 1], 'last row')
  same_pose(T, d.to_pose(), t, u, 'pose after reading the matrix')


def from_matrix(T):
  D, t, u = _in(T)
  R = rotmat(u)
  M = T.np.array([list(R[i]) + [t[i]] for i in range(3)] + [[0., 0., 0., 1.]])
  before = M.copy()
  d = D.from_transformation_matrix(M)
  p = d.to_pose()
  T.check_eq(p[:3], t, 'position')
  q = p[3:]
  T.check_eq(dot(q, q), 1, 'unit orientation')
  T.check(q[3] >= 0, 'scalar part not negative')
  T.check_eq(rotmat(q), R, 'rotation')
  T.check_eq(M, before, 'the matrix is left alone')


def unchanged(T):
  """normalising, sign and scale do not change the transformation"""
  D, t, u = _in(T)
  k = T.real('k', 0.001, 10) * T.choice('s', [1, -1])
  d = D.from_vector([x * k for x in pose_dq(t, u)])
  op = T.choice('op', ['none', 'normalize', 'positive', 'both', 'number'])
  if op in ('normalize', 'both'):
    d.normalize()
    T.check_eq(dot(d.dq[:4], d.dq[:4]), 1, 'unit after normalising')
  if op in ('positive', 'both'):
    d.enforce_positive_q_rot_w()
    T.check(d.dq[3] >= 0, 'scalar part not negative')
  if op == 'number':
    d = d * 2.5
  what = 'transformation'
  same_pose(T, d.to_pose(), t, u, what)


HARNESSES = [Harness(f, bounds=B) for f in (pose, matrix, from_matrix, unchanged)]
