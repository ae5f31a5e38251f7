"""P48 plots of errors and runtimes of the methods"""
import sys

import numpy as real_np

from drawing import Board, Stub, colour
from symx.main import Harness
from lib import *

B = ('1 to 3 methods, 1 to 3 data sets, 1 to 3 or 5 to 7 results each with any errors and runtimes in [0,1000]; the whole script with two methods and two data sets, '
     'one method possibly without results for a data set, and the perturbations of its fixed bins')
SC = 'hand_eye_calibration_experiments/bin/generate_plots.py'
ET = 'hand_eye_calibration_experiments.experiment_plotting_tools'
PARTS = ('boxes', 'whiskers', 'fliers', 'caps', 'medians')


class Plots(Board):

  def __init__(self, T):
    Board.__init__(self, T)
    board = self
    self.maps = []

    class Patch(object):

      def __init__(self, *a, **k):
        self.colour, self.label = colour(k.get('color', k.get('facecolor', k.get('fc')))), k.get('label')
    self.extra['patches'] = dict(Patch=Patch)

  def install(self):
    Board.install(self)
    self.T.module('mpl_toolkits.axes_grid1', make_axes_locatable=Stub())
    m = (self.T.loader.mods if self.T.symbolic else sys.modules)['mpl_toolkits.axes_grid1']
    self.T.module('mpl_toolkits', axes_grid1=m)


def script(T):
  b = Plots(T)
  b.install()
  return b, T.script(SC, 'plots')


def lists(T, name, sizes):
  return [list(T.vec('%s%d' % (name, i), n, 0, 1000)) for i, n in enumerate(sizes)]


def same(T, got, want, label):
  T.check([len(x) for x in got] == [len(x) for x in want], label + ': number of values')
  for x, y in zip(got, want):
    if y:
      T.check_eq(x, y, label)


def close(x, y):
  return abs(float(x) - float(y)) < 1e-9


def layout(T, sets, ticks):
  """sets: positions and widths of the boxes of every method; every box is nearest to the tick of its method and no two overlap"""
  spans = []
  for s in sets:
    T.check(len(s.positions) == len(ticks), 'one box per method')
    w = s.widths if not hasattr(s.widths, '__len__') else s.widths[0]
    for k, p in enumerate(s.positions):
      near = min(range(len(ticks)), key=lambda i: abs(float(ticks[i]) - float(p)))
      T.check(near == k, 'box at its method')
      spans.append((float(p) - float(w) / 2, float(p) + float(w) / 2))
  spans.sort()
  for a, c in zip(spans, spans[1:]):
    T.check(a[1] <= c[0] + 1e-9, 'boxes do not overlap')
  return spans


def ticks_of(T, b, i, methods):
  t = b.ticks[i]
  T.check([str(x) for x in t[1]] == methods, 'methods below their boxes')
  T.check(len(t[0]) == len(methods), 'one tick per method')
  return t[0]


def judge_box(T, b, i, fig, methods, pos, ori):
  axes = fig.axes
  T.check(len(axes) == 1 and len(axes[0].twins) == 1, 'two scales')
  left, right = axes[0], axes[0].twins[0]
  T.check(len(left.boxes) == 1 and len(right.boxes) == 1, 'one set of boxes of each kind')
  p, o = left.boxes[0], right.boxes[0]
  same(T, p.data, pos, 'position errors')
  same(T, o.data, ori, 'orientation errors')
  spans = layout(T, [p, o], ticks_of(T, b, i, methods))
  for s, c in ((p, 'b'), (o, 'g')):
    T.check(all(s.colours.get(n) == c for n in PARTS), 'colour of the errors')
  lo, hi = b.xlims[i]
  T.check(float(lo) <= spans[0][0] and float(hi) >= spans[-1][1], 'all boxes visible')


def judge_time(T, b, i, fig, methods, datasets, runtimes, colors):
  T.check(len(fig.axes) == 1, 'one plot of the runtimes')
  sets = fig.axes[0].boxes
  T.check(len(sets) == len(datasets), 'one set of boxes per data set')
  for k, d in enumerate(datasets):
    same(T, sets[k].data, [runtimes[d].get(m, []) for m in methods], 'runtimes')
    T.check(all(sets[k].colours.get(n) == colors[k] for n in PARTS), 'colour of the data set')
  T.check(len(b.legends) == 1 and [(h.colour, h.label) for h in b.legends[0]] == [(colors[k], d) for k, d in enumerate(datasets)], 'legend of the data sets')
  spans = layout(T, sets, ticks_of(T, b, i, methods))
  lo, hi = b.xlims[i]
  T.check(float(lo) <= spans[0][0] and float(hi) >= spans[-1][1], 'all boxes visible')


def box(*sizes):
  def f(T):
    b, M = script(T)
    methods = ['A', 'PF_B', 'C_O'][:len(sizes)]
    pos, ori = lists(T, 'p', sizes), lists(T, 'o', sizes)
    M.generate_box_plot('set', methods, [list(x) for x in pos], [list(x) for x in ori])
    T.check(len(b.figures) == 1 and len(b.shown) == 1, 'one figure is shown')
    judge_box(T, b, 0, b.figures[0], methods, pos, ori)
  f.__name__ = 'box' + '_'.join(str(n) for n in sizes)
  return f


def runtime(nm, nd):
  def f(T):
    b, M = script(T)
    methods, datasets = ['A', 'PF_B', 'C_O'][:nm], ['s1', 's2', 's3'][:nd]
    rt = {d: {m: list(T.vec('t%s%s' % (d, m), 1 + (i + j) % 3, 0, 1000)) for j, m in enumerate(methods)} for i, d in enumerate(datasets)}
    colors = T.choice('colours', [['b', 'g', 'c', 'm'], ['k', 'y', 'r', 'g']])
    M.generate_time_plot(methods, datasets, {d: {m: list(v) for m, v in x.items()} for d, x in rt.items()}, colors)
    T.check(len(b.figures) == 1 and len(b.shown) == 1, 'one figure is shown')
    judge_time(T, b, 0, b.figures[0], methods, datasets, rt, colors)
  f.__name__ = 'runtime%d_%d' % (nm, nd)
  return f


def whole(missing):
  def f(T):
    """the script, with the reading of the files replaced"""
    b = Plots(T)
    b.install()
    methods, datasets = ['A', 'PF_B'], ['s1', 's2']
    res = []
    for what in 'por':
      res.append({d: {m: list(T.vec(what + d + m, 1 + (i != j), 0, 1000)) for j, m in enumerate(methods) if not (missing and d == 's2' and m == 'A')}
                  for i, d in enumerate(datasets)})
    step = 15.0 / 180 * real_np.pi
    angles = len(real_np.arange(0.0, 120.0 / 180 * real_np.pi + step, step)) - 1
    times = len(real_np.arange(0.0, 0.23 + 0.03, 0.03)) - 1
    cells = [(i, j) for i in range(angles) for j in range(times)] * 60
    errors = [1.0] * len(cells)
    errors[0] = T.real('e', 0, 1000)
    spoiled = [list(errors), list(errors), [(i + 0.5) * step for i, j in cells], [0.05] * len(cells), [(j + 0.5) * 0.03 for i, j in cells]]
    asked = []

    def collect(names, get_header=True):
      asked.append(list(names))
      per = [{d: {m: list(v) for m, v in x.items()} for d, x in r.items()} for r in res]
      flat = [[v for d in datasets for v in r[d].get(m, [])] for r in res for m in methods]
      return [list(methods), list(datasets), per[0], per[1], flat[:2], flat[2:4], flat[4:], per[2], spoiled]
    E = T.mod(ET)
    real, E.collect_data_from_csv = E.collect_data_from_csv, in_place_of(E.collect_data_from_csv, collect)
    try:
      T.run(SC, ['--csv_file_names', 'r1.csv', 'r2.csv'])
    finally:
      E.collect_data_from_csv = real
    T.check(asked == [['r1.csv', 'r2.csv']], 'the named files are read')
    T.check(len(b.figures) == len(datasets) + 2 and len(b.shown) == len(b.figures), 'one figure per data set, one of the runtimes, one of the perturbations')
    for i, d in enumerate(datasets):
      judge_box(T, b, i, b.figures[i], methods, [res[0][d].get(m, []) for m in methods], [res[1][d].get(m, []) for m in methods])
    k = len(datasets)
    judge_time(T, b, k, b.figures[k], methods, datasets, res[2], ['b', 'g', 'c', 'm', 'y', 'k', 'r'])
    maps = [m for ax in b.figures[k + 1].axes for m in ax.images]
    T.check(len(maps) == 2 and all(tuple(m.shape) == (times, angles) for m in maps), 'maps of both loop errors')
    for m in maps:
      T.check_eq(m[0, 0] * 60, errors[0] + 59, 'mean error of a bin')
      T.check_eq([m[j, i] for i in range(angles) for j in range(times) if i + j], [1] * (angles * times - 1), 'mean error of a bin')
  f.__name__ = 'script_missing' if missing else 'script'
  return f


HARNESSES = [Harness(box(*s), fs=True, bounds=B) for s in ((1,), (3,), (1, 2), (2, 2, 1))]
HARNESSES += [Harness(runtime(*s), fs=True, bounds=B) for s in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 3))]
HARNESSES += [Harness(whole(m), fs=True, bounds=B) for m in (False, True)]
HARNESSES += [Harness(box(6, 5, 7), fs=True, bounds=B), Harness(runtime(7, 6), fs=True, bounds=B)]
