"""P45 synthetic paths"""
import types
from fractions import Fraction

from symx.main import Harness
from lib import *
from symx.sym import Sym

B = ('paths of 1 to 3 poses, and of 9 given orientations with any hand-eye and base position; orientations of the curve are any rotations (three of them in the tests with noise), hand-eye and base transformations with any position in '
     '[-10,10]^3 and six rotations; every draw of noise and outliers, drawn directions not nearly zero')
HT = 'hand_eye_calibration.hand_eye_test_helpers'
ROT = [[Fraction(x) for x in q.split()] for q in ('0 0 3/5 4/5', '2/7 3/7 0 6/7', '1/2 -1/2 1/2 1/2', '-7/25 0 0 24/25', '0 5/13 0 -12/13', '1/9 4/9 0 8/9')]


def num(T, x):
  return Sym.lift(x) if T.symbolic else float(x)


def helpers(T, free):
  """the helpers with a stand-in for tf: the orientation along the curve is any function of the angles"""
  known = []

  def quaternion_from_euler(a, b, c, axes='sxyz'):
    for k, q in known:
      if all(T.truth(T.and_(x - y <= 1e-9, y - x <= 1e-9)) for x, y in zip(k, (a, b, c))):
        return T.np.array(q)
    i = len(known)
    q = list(T.unit('q%d' % i)) if i < free else [num(T, x) for x in ROT[i % 6]]
    known.append(((a, b, c), q))
    return T.np.array(q)
  tr = types.ModuleType('tf.transformations')
  tr.quaternion_from_euler = quaternion_from_euler
  T.module('tf', transformations=tr)
  if not T.symbolic:
    import sys
    for m in (HT,):
      sys.modules.pop(m, None)
  return T.mod(HT)


def given(T, name, i):
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  d = pose_dq(T.vec(name, 3, -10, 10), [num(T, x) for x in ROT[i]])
  return D.from_vector(T.np.array(d)), d


def judge_units(T, path, n):
  T.check(len(path) == n, 'number of poses')
  for d in path:
    T.check_eq(dot(d.dq[:4], d.dq[:4]), 1, 'unit length')
    T.check_eq(dot(d.dq[:4], d.dq[4:]), 0, 'rigid transformation')
    T.check(d.dq[3] >= -1e-9, 'scalar part not negative')


def curve(n):
  def f(T):
    M = helpers(T, n)
    path = M.generate_test_path(n)
    judge_units(T, path, n)
  f.__name__ = 'curve%d' % n
  return f


def related(n):
  def f(T):
    M = helpers(T, 1 if n < 3 else 0)
    x, dx = given(T, 'x', T.choice('hand_eye', [0, 1, 4]))
    b, db = given(T, 'b', T.choice('base', [2, 3]))
    hand, eye = M.generate_test_paths(n, x, b)
    judge_units(T, hand, n)
    T.check(len(eye) == n, 'number of poses')
    T.check_eq(hand[0].dq, [0, 0, 0, 1, 0, 0, 0, 0], 'starts at the origin')
    T.check_eq(eye[0].dq, [0, 0, 0, 1, 0, 0, 0, 0], 'starts at the origin')
    for h, e in zip(hand, eye):
      got, want = list(e.dq), dqmul(dqmul(conj8(dx), list(h.dq)), dx)
      if T.truth(got[3] * want[3] < 0):
        want = [-v for v in want]
      T.check_eq(got, want, 'related by the hand-eye transformation')
    T.check_eq(x.dq, dx, 'transformations are left alone')
    T.check_eq(b.dq, db, 'transformations are left alone')
  f.__name__ = 'related%d' % n
  return f


def elsewhere(T):
  """paths that need not start at the origin"""
  M = helpers(T, 1)
  x, dx = given(T, 'x', 0)
  b, db = given(T, 'b', 2)
  hand, eye = M.generate_test_paths(2, x, b, paths_start_at_origin=False)
  for h, e in zip(hand, eye):
    got, want = list(e.dq), dqmul(dqmul(conj8(db), list(h.dq)), dx)
    if T.truth(dot(got[:4], want[:4]) < 0):
      want = [-v for v in want]
    T.check_eq(got, want, 'related by both transformations')


def spoiled(what, n):
  def f(T):
    """noise or outliers of one path leave the other alone"""
    T.directions([[Fraction(1, 2), Fraction(1, 2), Fraction(1)], [Fraction(0), Fraction(3, 4), Fraction(1)]])
    M = helpers(T, 0)
    x, dx = given(T, 'x', 1)
    b, db = given(T, 'b', 2)
    clean = M.generate_test_paths(n, x, b)
    which = T.choice('path', ['B_H', 'W_E'])
    hand, eye = M.generate_test_paths(n, x, b, **{'include_%s_%s' % (what, which): True})
    T.check(len(hand) == len(eye) == n, 'number of poses')
    for p, q in zip(clean[1] if which == 'B_H' else clean[0], eye if which == 'B_H' else hand):
      T.check_eq(p.dq, q.dq, 'the other path is as it was')
  f.__name__ = '%s%d' % (what, n)
  return f


def one_spoiled(what):
  def f(T):
    M = helpers(T, 1)
    judge_units(T, M.generate_test_path(1, **{'include_' + what: True}), 1)
  f.__name__ = 'one_with_' + what
  return f


HARNESSES = [Harness(curve(n), bounds=B) for n in (1, 2, 3, 9)]
HARNESSES += [Harness(related(n), bounds=B, tier='thorough' if n == 3 else 'quick') for n in (1, 2, 3, 9)]
HARNESSES += [Harness(elsewhere, bounds=B), Harness(spoiled('outliers', 2), bounds=B), Harness(spoiled('noise', 1), bounds=B), Harness(one_spoiled('outliers'), bounds=B),
              Harness(one_spoiled('noise'), bounds=B)]
