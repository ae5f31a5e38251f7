"""P16 pre-filtering by screw axis"""
from symx.main import Harness
from lib import *

B = 'up to 4 pairs (thorough: 5), or 8 of which one is free; translations of length in [0.001,10] in all directions, or 2 pairs of general motions rotating by more than 0.01 degree with positions in [-10,10]^3; zero motions at any place; thresholds in [-1,1]'


def _expected(T, axes, thr):
  """greedy selection: indices of the kept pairs; axes is a list of (axis, axis) or None"""
  kept = []
  for i, a in enumerate(axes):
    if a is None:
      continue
    if any(T.truth(dot(axes[k][0], a[0]) > thr) or T.truth(dot(axes[k][1], a[1]) > thr) for k in kept):
      continue
    kept.append(i)
  return kept


def _run(T, Ws, Bs, axes, default=False):
  H = T.mod(HE)
  D = T.mod('hand_eye_calibration.dual_quaternion').DualQuaternion
  thr = 0.95 if default else T.real('thr', -1, 1)
  dw, db = [D.from_vector(d) for d in Ws], [D.from_vector(d) for d in Bs]
  lw, lb = list(dw), list(db)
  args = () if default else (thr,)
  r, e = T.call(H.prefilter_using_screw_axis, lw, lb, *args)
  kept = _expected(T, axes, thr)
  T.check(len(lw) == len(Ws) and all(x is y for x, y in zip(lw, dw)), 'first list left alone')
  T.check(len(lb) == len(Bs) and all(x is y for x, y in zip(lb, db)), 'second list left alone')
  for i in range(len(Ws)):
    T.check_eq(dw[i].dq, Ws[i], 'poses of the first list left alone')
    T.check_eq(db[i].dq, Bs[i], 'poses of the second list left alone')
  if len(kept) < 2:
    T.check(e is not None, 'fewer than two pairs are refused')
    T.cover('refused')
    return
  T.check(e is None, 'enough pairs are accepted')
  if e is not None:
    return
  rw, rb = r
  T.check(len(rw) == len(kept) and len(rb) == len(kept), 'number of kept pairs')
  if len(rw) == len(kept) == len(rb):
    for k, i in enumerate(kept):
      T.check_eq(rw[k].dq, Ws[i], 'kept pairs in order, first partner')
      T.check_eq(rb[k].dq, Bs[i], 'kept pairs in order, second partner')
  T.cover('kept %d of %d' % (len(kept), len(Ws)))


ONE = [0., 0., 0., 1., 0., 0., 0., 0.]


def _shift(T, name):
  """a translation of any length along any direction"""
  u = T.unit(name, 3)
  l = T.real('l_' + name, 0.001, 10)
  s = T.choice('sign_' + name, [1., -1.]) if name == 'w0' else 1.
  d = pose_dq([l * u[0], l * u[1], l * u[2]], [0., 0., 0., 1.])
  return [s * x for x in d], [u[0], u[1], u[2]]


def shifts(n, default=False, zeros=True):
  def f(T):
    Ws, Bs, axes = [], [], []
    for i in range(n):
      k = T.choice('kind%d' % i, ['both', 'no hand motion', 'no eye motion']) if zeros else 'both'
      w, a = _shift(T, 'w%d' % i)
      b, c = _shift(T, 'b%d' % i)
      Ws.append(ONE if k == 'no eye motion' else w)
      Bs.append(ONE if k == 'no hand motion' else b)
      axes.append((a, c) if k == 'both' else None)
    _run(T, Ws, Bs, axes, default)
  f.__name__ = 'shifts%d%s' % (n, '_default' if default else '')
  return f


def many(n, free):
  def f(T):
    """translations along given directions but for one pair"""
    Ws, Bs, axes = [], [], []
    dirs = [[1., 0., 0.], [0., 0.6, 0.8], [0., -1., 0.], [0.8, 0., -0.6], [0., 0., 1.], [-1., 0., 0.], [0.6, 0.8, 0.], [0., -0.6, 0.8]]
    for i in range(n):
      if i == free:
        w, a = _shift(T, 'w')
        b, c = _shift(T, 'b')
      else:
        a, c = dirs[i % 8], dirs[(3 * i + 1) % 8]
        w, b = [pose_dq([(i + 1) * x for x in u], [0., 0., 0., 1.]) for u in (a, c)]
      Ws.append(w)
      Bs.append(b)
      axes.append((a, c))
    _run(T, Ws, Bs, axes, True)
  f.__name__ = 'many%d_%d' % (n, free)
  return f


def turns(T):
  """general motions: the axis is the direction of the vector part"""
  Ws, Bs, axes = [], [], []
  for i in range(2):
    row = []
    for name in ('w%d' % i, 'b%d' % i):
      d = free_dq(T, name)
      v2 = dot(d[:3], d[:3])
      T.assume(v2 > 1e-8)
      n = T.np.sqrt(1 - d[3] * d[3]) if T.symbolic else T.np.sqrt(v2)
      row.append((d, [x / n for x in d[:3]]))
    Ws.append(row[0][0])
    Bs.append(row[1][0])
    axes.append((row[0][1], row[1][1]))
  _run(T, Ws, Bs, axes)


HARNESSES = [Harness(shifts(2, True), bounds=B, covers=['refused', 'kept 2 of 2']),
             Harness(shifts(2), bounds=B, covers=['refused', 'kept 2 of 2']),
             Harness(shifts(3), bounds=B, covers=['refused', 'kept 2 of 3', 'kept 3 of 3']),
             Harness(turns, bounds=B, covers=['refused', 'kept 2 of 2']),
             Harness(shifts(4), bounds=B), Harness(shifts(5), bounds=B, tier="thorough")]
HARNESSES += [Harness(many(8, k), bounds=B) for k in (0, 4, 7)]
