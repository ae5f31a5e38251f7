"""P47 the plot of poses"""
import sys
import types

from drawing import Axes, Board, Figure, Quiet
from symx.main import Harness
from lib import *

B = ('1 or 2 trajectories of 1 or 2 poses (thorough: up to 3 of up to 3; without arrows also one of 8 and two of 5 and 6), the first at any position in [-100,100]^3 (with arrows and several poses, of one order) and the others at given ones, two with any unit '
     'quaternions, with and without arrows, blocking or not; any projection of the view')
HP = 'hand_eye_calibration.hand_eye_calibration_plotting_tools'


class Board3D(Board):
  """draws like the installed matplotlib: only axes of the figure, arrows by do_3d_projection and draw"""

  def __init__(self, T):
    Board.__init__(self, T)
    self.arrows, self.made = [], []
    self.a = T.vec('view', 2, -2, 2)
    board = self

    class FancyArrowPatch(Quiet):

      def __init__(self, posA=None, posB=None, *a, **k):
        self.ends, self.style, self.axes = (posA, posB), k, None
        board.made.append(self)

      def set_positions(self, a, b):
        self.ends = (a, b)

      def draw(self, renderer):
        board.arrows.append((self.style.get('color', self.style.get('fc')), self.ends))
    self.extra['patches'] = dict(FancyArrowPatch=FancyArrowPatch)

    def axes3d(fig, *a, **k):
      return self.prepare(Axes((1, 1, 1), 3))

    def proj_transform(xs, ys, zs, m):
      if m is not self.view:
        raise TypeError('not a projection')
      return (T.np.array([x + self.a[0] * z for x, z in zip(xs, zs)]), T.np.array([y + self.a[1] * z for y, z in zip(ys, zs)]),
              T.np.array([0.5 + i for i, z in enumerate(zs)]))
    self.view = object()
    self.toolkit = dict(Axes3D=axes3d, proj3d=types.SimpleNamespace(proj_transform=proj_transform))

  def prepare(self, ax):
    ax.M = self.view
    ax.get_proj = lambda: self.view
    return ax

  def figure(self, *a, **k):
    f = Board.figure(self)
    add = f.add_subplot
    f.add_subplot = lambda *a, **k: self.prepare(add(*a, **k))
    return f

  def draw(self, ax):
    for a in ax.artists:
      if 'do_3d_projection' not in dir(a):
        raise AttributeError('do_3d_projection')
      a.do_3d_projection()
      a.draw(types.SimpleNamespace())

  def install(self):
    Board.install(self)
    self.T.module('mpl_toolkits.mplot3d', **self.toolkit)
    m = (self.T.loader.mods if self.T.symbolic else sys.modules)['mpl_toolkits.mplot3d']
    self.T.module('mpl_toolkits', mplot3d=m)


def board(T):
  b = Board3D(T)
  T.mod(HP)
  del (T.loader.repo_mods if T.symbolic else sys.modules)[HP]
  b.install()
  return b, T.mod(HP)


def extreme(T, vals, sign):
  m = vals[0]
  for v in vals[1:]:
    if T.truth(sign * v > sign * m):
      m = v
  return m


def judge(T, lists, arrows, any_title):
  b, M = board(T)
  before = [[list(r) for r in l] for l in lists]
  block = T.choice('block', [True, False]) if any_title else True
  M.plot_poses(lists, plot_arrows=arrows, title=T.choice('title', ['', 'poses']) if any_title else '', blocking=block)
  T.check(len(b.figures) == 1 and b.shown == [(1, block)], 'one figure is shown, blocking as asked')
  T.check(len(b.figures[0].axes) == 1, 'the figure has the plot')
  ax = b.figures[0].axes[0]
  # limits: the extreme coordinates
  lo = [extreme(T, [r[k] for l in before for r in l], -1) for k in range(3)]
  hi = [extreme(T, [r[k] for l in before for r in l], 1) for k in range(3)]
  least, greatest = extreme(T, lo, -1), extreme(T, hi, 1)
  T.check(set(ax.limits) == set('xyz'), 'limits of the axes')
  for k in 'xyz':
    T.check_eq(list(ax.limits[k]), [least, greatest], 'all positions fit')
  lines = [c for c in ax.curves if not c.marker]
  points = [c for c in ax.curves if c.marker]
  T.check(len(lines) == len(before), 'one line per trajectory')
  T.check(len(set(c.colour for c in lines)) == len(lines) and None not in [c.colour for c in lines], 'a colour of its own')
  for c, l in zip(lines, before):
    T.check(len(c.xs) == len(l), 'line through all positions')
    T.check_eq([c.xs, c.ys, c.zs], [[r[k] for r in l] for k in range(3)], 'line through the positions')
    mine = [p for p in points if p.colour == c.colour]
    xyz = [[v for p in mine for v in p.xs], [v for p in mine for v in p.ys], [v for p in mine for v in p.zs]]
    T.check(len(xyz[0]) == len(l), 'one point per pose')
    T.check_eq(xyz, [[r[k] for r in l] for k in range(3)], 'points at the positions')
  drawn = {c: [e for k, e in b.arrows if {'red': 'r', 'green': 'g', 'blue': 'b'}.get(k, k) == c] for c in 'rgb'}
  n = sum(len(l) for l in before)
  T.check(len(b.arrows) == (3 * n if arrows else 0), 'three arrows per pose if asked')
  if arrows:
    d = [x - y for x, y in zip(hi, lo)]
    size = T.np.sqrt(dot(d, d)) * 0.05
    for k, c in enumerate('rgb'):
      T.check(len(drawn[c]) == n, 'one arrow per axis and pose')
      for (s, e), r in zip(drawn[c], [r for l in before for r in l]):
        axis = [x[k] for x in rotmat(r[3:])]
        tip = [r[i] + size * axis[i] for i in range(3)]
        for got, want in ((s, r), (e, tip)):
          T.check_eq([got[0], got[1]], [want[0] + b.a[0] * want[2], want[1] + b.a[1] * want[2]], 'arrow along the turned axis', tol=1e-6)
  for l, w in zip(lists, before):
    T.check_eq(l, w, 'poses are left alone')


def trajectories(arrows, *sizes):
  """with arrows, the first pose of every trajectory after the first, and all orientations but those of two poses, are given"""
  def f(T):
    lists, free = [], 0
    for i, n in enumerate(sizes):
      rows = []
      for j in range(n):
        name = '%d%d' % (i, j)
        first = i == 0 and j == 0
        if first:
          p = T.vec('p', 3, -100, 100)
          if arrows and sum(sizes) > 1:
            T.assume(T.and_(p[0] < -60, p[1] > -20, p[1] < 60, p[2] > 80))
        elif i + j == 1:
          p = T.choice('second', [[3, -20, 7], [0, 0, 0], [-60, 80, 70]]) if not arrows else [-60, 80, 70]
        else:
          p = [50 - 20 * i, 11 * j, -30 + i]
        if not arrows:
          q = T.vec('q' + name, 4, -1, 1)
        elif free < 2:
          free, q = free + 1, T.unit('q' + name)
        else:
          q = [0, 0.6, 0, -0.8]
        rows.append([x if first else num(T, x) for x in p] + [num(T, x) for x in q])
      lists.append(T.np.array(rows))
    judge(T, lists, arrows, sum(sizes) == 1)
  f.__name__ = ('arrows' if arrows else 'points') + '_'.join(str(n) for n in sizes)
  return f


def num(T, x):
  return x if T.symbolic else float(x)


HARNESSES = [Harness(trajectories(a, *s), bounds=B) for a in (False, True) for s in ((1,), (2,), (1, 1))]
HARNESSES += [Harness(trajectories(a, *s), bounds=B, tier='thorough') for a in (False, True) for s in ((3,), (2, 1), (1, 2, 1))]
HARNESSES += [Harness(trajectories(False, *s), bounds=B) for s in ((8,), (5, 6))]
