"""Shared by P17 and P18: concrete paths, and stand-ins for the calibration and its evaluation whose results are free
values that depend on nothing but their arguments."""
from fractions import Fraction

from lib import *


def exact(t, q):
  return pose_dq([Fraction(str(x)) for x in t], [Fraction(str(x)) for x in q])


BASE = exact([0.5, -1., 2.], [0.5, -0.5, 0.5, 0.5])
TRUE = exact([0.1, 0.2, -0.3], [0.6, 0., 0., 0.8])
HAND = [exact([0., 0., 0.], [0., 0., 0., 1.]),
        exact([1., 0.5, 0.], [0., 0.6, 0., 0.8]),
        exact([0., 1., 2.], [0.48, 0.36, 0.48, 0.64]),
        exact([-1., 0.25, 1.], [-0.28, 0., 0., 0.96])]


def path(T, n, outlier=None):
  """hand and eye paths of n poses; the eye pose of the outlier does not fit to its hand pose"""
  hand = HAND[:n]
  eye = [dqmul(dqmul(conj8(BASE), h), TRUE) for h in hand]
  if outlier is not None:
    eye[outlier] = dqmul(eye[outlier], exact([3., 0., 0.], [0., 0., 0.8, 0.6]))
  if not T.symbolic:
    hand, eye = [[float(x) for x in d] for d in hand], [[float(x) for x in d] for d in eye]
  return hand, eye


def relative(ds, i):
  """motions relative to pose i, starting with it, with non-negative scalar parts"""
  out = []
  for d in ds[i:] + ds[:i]:
    r = dqmul(conj8(ds[i]), d)
    out.append(r if r[3] >= 0 else [-x for x in r])
  return out


def match(a, b, tol):
  return abs(a[3] - b[3]) <= tol and abs(a[7] - b[7]) <= tol


def pos(d):
  """pose row of a dual quaternion"""
  t = qmul(d[4:], qconj(d[:4]))
  s = 1 if d[3] >= 0 else -1
  return [2 * x for x in t[:3]] + [s * x for x in d[:4]]


def key(vals):
  return tuple(0.0 if abs(float(x)) < 5e-6 else round(float(x), 5) for x in vals)


class World(object):
  """stand-ins for compute_hand_eye_calibration and evaluate_alignment"""

  def __init__(self, T, may_fail=True, free=99, skip=0):
    self.T = T
    self.H = T.mod(HE)
    self.D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
    self.may_fail = may_fail
    self.free = free
    self.skip = skip
    self.calibs = {}
    self.evals = {}
    self.flagged = {}
    self.calls = {}
    self.saved = self.H.compute_hand_eye_calibration, self.H.evaluate_alignment
    self.H.compute_hand_eye_calibration, self.H.evaluate_alignment = [in_place_of(f, g) for f, g in zip(self.saved, (self.calibrate, self.evaluate))]

  def close(self):
    self.H.compute_hand_eye_calibration, self.H.evaluate_alignment = self.saved

  def calibration(self, hand, eye):
    """result for motion pairs (lists of 8 numbers): None or (dual quaternion, singular values, flag)"""
    k = tuple(sorted(key(list(a) + list(b)) for a, b in zip(hand, eye)))
    if k not in self.calibs:
      i = len(self.calibs)
      T = self.T
      ok = not self.may_fail or T.choice('calibration%d' % i, ['ok', 'fails']) == 'ok'
      # every result is another transformation
      d = exact([0.125 * (i + 1), 0.5, -0.25], [0.6, 0., 0., 0.8])
      if not T.symbolic:
        d = [float(x) for x in d]
      self.calibs[k] = (d, T.vec('s%d' % i, 8, 0, 10), T.real('flag%d' % i, 0, 1) > 0.5) if ok else None
    return k, self.calibs[k]

  def calibrate(self, hand, eye, *args, **kw):
    k, r = self.calibration([d.dq for d in hand], [d.dq for d in eye])
    self.calls[k] = self.calls.get(k, 0) + 1
    if r is None:
      raise AssertionError('calibration refused')
    return self.D.from_vector(r[0]), r[1], r[2]

  def errors(self, P, Q):
    """(rmse position, rmse orientation) of pose lists"""
    k = tuple(sorted(key(list(a) + list(b)) for a, b in zip(P, Q)))
    if k not in self.evals:
      i = len(self.evals)
      self.evals[k] = (self.T.real('rp%d' % i, 0, 10), self.T.real('ro%d' % i, 0, 10))
    return self.evals[k]

  def inlier(self, a, b):
    """is a pose pair an inlier? one that agrees is"""
    k = key(list(a) + list(b))
    if k not in self.flagged:
      same = all(abs(float(x) - float(y)) < 1e-6 for x, y in zip(a, b))
      i = len(self.flagged) - self.skip
      self.flagged[k] = self.T.choice('inlier%d' % i, [True, False]) if not same and 0 <= i < self.free else True
    return self.flagged[k]

  def evaluate(self, P, Q, config=None, visualize=False):
    P, Q = [list(r) for r in P], [list(r) for r in Q]
    rp, ro = self.errors(P, Q)
    return rp, ro, [self.inlier(a, b) for a, b in zip(P, Q)]

  def predicted(self, hand, eye, x):
    """pose rows of the hand path and of its prediction from the eye path"""
    ws = []
    for h, e in zip(hand, eye):
      w = dqmul(e, conj8(x))
      ws.append(w)
    return [pos(h) for h in hand], [pos(w) for w in relative(ws, 0)]
