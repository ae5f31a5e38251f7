"""P43 bounding box of poses"""
from symx.main import Harness
from lib import *

B = '1 to 3 trajectories of 1 to 4 poses with any positions in [-100,100]^3 and any orientation numbers in [-1,1]; one longer trajectory with one free pose'
PT = 'hand_eye_calibration.hand_eye_calibration_plotting_tools'


def poses(T, name, n):
  return T.np.array([list(T.vec('%s%d' % (name, i), 3, -100, 100)) + list(T.vec('q%s%d' % (name, i), 4, -1, 1)) for i in range(n)])


def judge(T, lists):
  before = [[list(r) for r in l] for l in lists]
  big, small = T.mod(PT).compute_bbox_3D(lists)
  T.check(len(big) == 3 and len(small) == 3, 'three extents')
  for k in range(3):
    vals = [r[k] for l in before for r in l]
    for v in vals:
      T.check(v <= big[k] + 1e-9, 'no pose beyond the upper corner')
      T.check(v >= small[k] - 1e-9, 'no pose below the lower corner')
    T.check(T.or_(*[T.and_(v - big[k] <= 1e-9, big[k] - v <= 1e-9) for v in vals]), 'a pose at the upper corner')
    T.check(T.or_(*[T.and_(v - small[k] <= 1e-9, small[k] - v <= 1e-9) for v in vals]), 'a pose at the lower corner')
  for l, b in zip(lists, before):
    T.check_eq(l, b, 'poses are left alone')


def box(*sizes):
  def f(T):
    judge(T, [poses(T, 'abc'[i], n) for i, n in enumerate(sizes)])
  f.__name__ = 'box' + '_'.join(str(n) for n in sizes)
  return f


def longer(where, n):
  def f(T):
    """one free pose among given ones"""
    rows = [[float((7 * i) % 5 - 2), float((3 * i) % 7 - 3), float(i % 4) - 1.5, 0., 0., 0., 1.] for i in range(n)]
    p = T.vec('p', 3, -100, 100)
    rows = [[T.np.float64(x) if not T.symbolic else x for x in r] for r in rows]
    rows[where] = list(p) + rows[where][3:]
    judge(T, [T.np.array(rows), T.np.array([[0., 0., 0., 0., 0., 0., 1.]])])
  f.__name__ = 'longer%d_%d' % (n, where)
  return f


HARNESSES = [Harness(box(*s), bounds=B) for s in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1))]
HARNESSES += [Harness(longer(w, n), bounds=B) for w, n in ((0, 12), (6, 12), (11, 12))]
HARNESSES += [Harness(box(*s), bounds=B, tier='thorough') for s in ((4,), (2, 2), (3, 1))]
