"""P46 plots of signals, poses and errors show the data"""
import sys

from drawing import Board, Stub
from symx.main import Harness
from lib import *

B = ('signals, pose lists, angular velocities, quaternions and errors of 1 to 3 entries (signals: up to 3 and 1) and, but for signals, of up to 12 entries with any numbers in [-100,100], any time offset in [-10,10], blocking or not, '
     'with and without the Tk window manager')
TP = 'hand_eye_calibration.time_alignment_plotting_tools'
HP = 'hand_eye_calibration.hand_eye_calibration_plotting_tools'


def board(T, mod):
  b = Board(T, T.choice('backend', ['agg', 'TkAgg']))
  T.mod(mod)
  del (T.loader.repo_mods if T.symbolic else sys.modules)[mod]
  b.install()
  return b, T.mod(mod)


def given(T, name, n, m=0):
  return T.vec(name, n, -100, 100) if not m else T.np.array([list(T.vec('%s%d' % (name, i), m, -100, 100)) for i in range(n)])


def subplots(T, b, block, grid):
  """the curves of the one figure that was shown, by place"""
  T.check(len(b.figures) == 1 and len(b.shown) == 1, 'one figure is shown')
  T.check(b.shown[0][1] is block, 'blocking as asked')
  axes = b.figures[0].axes
  T.check(sorted(x.place for x in axes) == sorted(grid), 'the plots of the figure')
  return {x.place: x.curves for x in axes}


def curves(T, got, want, label):
  """want: list of (colour or None, xs or None, ys)"""
  T.check(len(got) == len(want), label + ': number of curves')
  got = list(got)
  for c, xs, ys in want:
    same = [g for g in got if c is None or g.colour == c]
    T.check(len(same) >= 1, label + ': colour')
    g = same[0]
    got.remove(g)
    T.check(len(g.ys) == len(ys), label + ': number of points')
    T.check_eq(g.ys, ys, label)
    T.check_eq(g.xs, list(range(len(ys))) if xs is None else xs, label + ': where')


def smallest(T, vals):
  m = vals[0]
  for v in vals[1:]:
    if T.truth(v < m):
      m = v
  return m


def results(na, nb):
  def f(T):
    b, M = board(T, TP)
    ta, tb = given(T, 'ta', na), given(T, 'tb', nb)
    sa, sb, con = given(T, 'sa', na), given(T, 'sb', nb), given(T, 'con', na + nb - 1)
    off = T.real('off', -10, 10)
    before = [list(v) for v in (ta, tb, sa, sb, con)]
    block = T.choice('block', [True, False])
    M.plot_results(ta, tb, sa, sb, con, off, block=block)
    got = subplots(T, b, block, [(1, 3, 1), (1, 3, 2), (1, 3, 3)])
    a, c = before[0], before[1]
    m = smallest(T, a + c)
    curves(T, got[1, 3, 1], [('r', [x - m for x in a], before[2]), ('b', [x - m for x in c], before[3])], 'signals before alignment')
    curves(T, got[1, 3, 2], [(None, list(range(1 - na, nb)), before[4])], 'correlation')
    a = [x + off for x in a]
    m = smallest(T, a + c)
    curves(T, got[1, 3, 3], [('r', [x - m for x in a], before[2]), ('b', [x - m for x in c], before[3])], 'signals after alignment')
    for v, w in zip((ta, tb, sa, sb, con), before):
      T.check_eq(v, w, 'data is left alone')
  f.__name__ = 'results%d_%d' % (na, nb)
  return f


def columns(rows, first, colours):
  return [(c, None, [r[first + i] for r in rows]) for i, c in enumerate(colours)]


def poses(na, nb):
  def f(T):
    b, M = board(T, TP)
    pa, pb = given(T, 'a', na, 8), given(T, 'b', nb, 8)
    before = [[list(r) for r in v] for v in (pa, pb)]
    block = T.choice('block', [True, False])
    M.plot_time_stamped_poses('title', pa, pb, block=block)
    got = subplots(T, b, block, [(2, 2, i) for i in (1, 2, 3, 4)])
    for i, rows in enumerate(before):
      curves(T, got[2, 2, 2 * i + 1], columns(rows, 4, 'rgbc'), 'orientations of ' + 'AB'[i])
      curves(T, got[2, 2, 2 * i + 2], columns(rows, 1, 'rgb'), 'positions of ' + 'AB'[i])
    T.check_eq(pa, before[0], 'data is left alone')
    T.check_eq(pb, before[1], 'data is left alone')
  f.__name__ = 'poses%d_%d' % (na, nb)
  return f


def velocities(na, nb):
  def f(T):
    b, M = board(T, TP)
    pa, pb = given(T, 'a', na, 3), given(T, 'b', nb, 3)
    before = [[list(r) for r in v] for v in (pa, pb)]
    block = T.choice('block', [True, False])
    M.plot_angular_velocities('title', pa, pb, block=block)
    got = subplots(T, b, block, [(1, 2, 1), (1, 2, 2)])
    for i, rows in enumerate(before):
      curves(T, got[1, 2, i + 1], columns(rows, 0, 'rgb'), 'velocities ' + ('before', 'after')[i] + ' filtering')
    T.check_eq(pa, before[0], 'data is left alone')
    T.check_eq(pb, before[1], 'data is left alone')
  f.__name__ = 'velocities%d_%d' % (na, nb)
  return f


def inputs(*sizes):
  def f(T):
    b, M = board(T, TP)
    Q = T.mod('hand_eye_calibration.quaternion').Quaternion
    rows = [[T.vec('q%d_%d' % (k, i), 4, -1, 1) for i in range(n)] for k, n in enumerate(sizes[:4])]
    qs = [[Q(q=r.copy()) for r in rs] for rs in rows]
    norms = [T.vec('n%d' % k, n, 0, 100) for k, n in enumerate(sizes[4:])]
    before = [list(v) for v in norms]
    block = T.choice('block', [True, False])
    M.plot_input_data(*(qs + norms + [block]))
    got = subplots(T, b, block, [(2, 4, i) for i in range(1, 9)])
    for i, (k, c) in enumerate((('A', 'r'), ('B', 'b'))):
      curves(T, got[2, 4, 4 * i + 1], columns(rows[i], 0, 'rgbc'), 'quaternions of ' + k)
      curves(T, got[2, 4, 4 * i + 2], columns(rows[i + 2], 0, 'rgbc'), 'interpolated quaternions of ' + k)
      curves(T, got[2, 4, 4 * i + 3], [(c, None, before[i])], 'norms of ' + k)
      curves(T, got[2, 4, 4 * i + 4], [(c, None, before[i + 2])], 'filtered norms of ' + k)
    for rs, q in zip(rows, qs):
      for r, x in zip(rs, q):
        T.check_eq(x.q, r, 'data is left alone')
    for v, w in zip(norms, before):
      T.check_eq(v, w, 'data is left alone')
  f.__name__ = 'inputs%d' % sum(sizes)
  return f


def errors(n):
  def f(T):
    b, M = board(T, HP)
    ep, eo = given(T, 'p', n), given(T, 'o', n)
    rp, ro = T.real('rp', 0, 100), T.real('ro', 0, 180)
    before = [list(v) for v in (ep, eo)]
    block = T.choice('block', [True, False])
    M.plot_alignment_errors(ep, rp, eo, ro, blocking=block)
    got = subplots(T, b, block, [(2, 1, 1), (2, 1, 2)])
    for i, (e, r) in enumerate(zip(before, (rp, ro))):
      curves(T, got[2, 1, i + 1], [('r', None, e), ('k', None, [r] * n)], ('position', 'orientation')[i] + ' errors')
    T.check_eq(ep, before[0], 'data is left alone')
    T.check_eq(eo, before[1], 'data is left alone')
  f.__name__ = 'errors%d' % n
  return f


HARNESSES = [Harness(results(*s), bounds=B) for s in ((1, 1), (2, 1), (1, 2), (2, 2))]
HARNESSES += [Harness(poses(*s), bounds=B) for s in ((1, 1), (3, 2), (2, 3))]
HARNESSES += [Harness(velocities(*s), bounds=B) for s in ((1, 1), (3, 2))]
HARNESSES += [Harness(inputs(*s), bounds=B) for s in ((1,) * 8, (3, 2, 1, 2, 1, 3, 2, 2))]
HARNESSES += [Harness(errors(n), bounds=B) for n in (1, 2, 3)]
HARNESSES += [Harness(results(*s), bounds=B, tier='thorough') for s in ((3, 2), (2, 3), (3, 3))]
HARNESSES += [Harness(f, bounds=B) for f in (results(3, 1), results(1, 3), poses(12, 9), velocities(9, 12), inputs(9, 8, 7, 6, 5, 4, 10, 3), errors(9))]
