"""P44 loop errors over perturbations"""
import itertools
import types

from symx.env import Stub
from symx.main import Harness
from lib import *

B = ('2 to 5 measurements with any perturbations and any errors in [0,1000] over 2 bins along two of angle, time and translation or 3 and 1, or one bin, in every order '
     'and for the three plot orders; bin edges are multiples of 1/8; one measurement outside the range or in a bin that has enough')
SC = 'hand_eye_calibration_experiments/bin/generate_plots.py'
NAMES = ('angle', 'time', 'translation')
# plot order: along x, along y, one figure each
ORDERS = {'translation_time_angle': ('angle', 'time', 'translation'), 'angle_time_translation': ('translation', 'time', 'angle'),
          'time_translation_angle': ('angle', 'translation', 'time')}


class Recorder(object):
  """stand-in for a figure's axes: records the matrices shown"""

  def __init__(self, shown):
    self.shown = shown

  def imshow(self, m, **k):
    self.shown.append(m)
    return Stub()

  matshow = imshow

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return Stub()


def plotting(T):
  figures = []

  def subplots(*a, **k):
    left, right = [], []
    figures.append((left, right))
    return Stub(), (Recorder(left), Recorder(right))
  S = Stub
  names = dict(subplots=subplots, setp=S(), show=S(), plot=S(), rc=S(), xticks=S(), xlim=S(), legend=S(), tight_layout=S(), savefig=S())
  mods = {'matplotlib.' + n: dict(names) for n in ('pylab', 'pyplot')}
  mods['matplotlib.font_manager'] = dict(FontProperties=S())
  mods['matplotlib.patches'] = dict(Patch=S())
  mods['mpl_toolkits.axes_grid1'] = dict(make_axes_locatable=S())
  for n, a in mods.items():
    T.module(n, **a)
  sub = {n.split('.')[1]: types.SimpleNamespace(**a) for n, a in mods.items()}
  T.module('matplotlib', rc=S(), **{k: v for k, v in sub.items() if k != 'axes_grid1'})
  T.module('mpl_toolkits', axes_grid1=sub['axes_grid1'])
  return figures


def step_of(name):
  return {'angle': 0.5, 'time': 0.25, 'translation': 0.125}[name]


def ranges(bins):
  r = {n: {'start': 0., 'end': bins[n] * step_of(n), 'step': step_of(n)} for n in NAMES}
  return r['time'], r['translation'], r['angle']


def measurement(T, k, cell):
  """any perturbation of a bin; angle and time may have either sign"""
  m = {}
  for n in NAMES:
    w = step_of(n)
    u = T.real('%s%d' % (n, k), cell[n] * w, (cell[n] + 1) * w)
    T.assume(u < (cell[n] + 1) * w)
    m[n] = u
  m['p'] = T.real('p%d' % k, 0, 1000)
  m['o'] = T.real('o%d' % k, 0, 1000)
  return m


def plot(T, order, bins, ms, per_bin):
  figures = plotting(T)
  M = T.script(SC, 'plots')
  data = [[m['p'] for m in ms], [m['o'] for m in ms], [m['angle'] for m in ms], [m['translation'] for m in ms], [m['time'] for m in ms]]
  r, e = T.call(M.generate_optimization_circle_error_plot, *(ranges(bins) + (data, order, per_bin)))
  return figures, e


def cells_of(order, bins):
  x, y, z = ORDERS[order]
  return [{x: i, y: j, z: k} for k in range(bins[z]) for j in range(bins[y]) for i in range(bins[x])]


def means(order, bins, per_bin, name):
  def f(T):
    cells = cells_of(order, bins) * per_bin
    n = len(cells)
    orders = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(range(n))[::-1], tuple(list(range(1, n)) + [0]),
                                                                     tuple(list(range(0, n, 2)) + list(range(1, n, 2)))]
    ms = [measurement(T, k, cells[c]) for k, c in enumerate(T.choice('order', orders))]
    signs = T.choice('signs', [1, -1])
    for m in ms[:1]:
      m['time'] = signs * m['time']
    figures, e = plot(T, order, bins, ms, per_bin)
    if e is not None:
      raise e
    x, y, z = ORDERS[order]
    T.check(len(figures) == bins[z], 'one figure per bin')
    for k, (left, right) in enumerate(figures[:bins[z]]):
      T.check(len(left) == 1 and len(right) == 1, 'one map of each error')
      for what, shown, key in (('position', left, 'p'), ('orientation', right, 'o')):
        for m in shown[:1]:
          T.check(tuple(m.shape) == (bins[y], bins[x]), 'one cell per bin')
          for j in range(bins[y]):
            for i in range(bins[x]):
              vals = [v[key] for v in ms if inside(T, v, {x: i, y: j, z: k})]
              T.check_eq(m[j, i] * len(vals), sum(vals[1:], vals[0]), what + ' error of a bin')
  f.__name__ = 'means_' + name
  return f


def inside(T, v, cell):
  for n in NAMES:
    a = v[n] if T.truth(v[n] >= 0) else -v[n]
    if not T.truth(T.and_(a >= cell[n] * step_of(n), a < (cell[n] + 1) * step_of(n))):
      return False
  return True


def refused(order, bins, name):
  def f(T):
    """a measurement outside the range, or a bin with the wrong number of measurements"""
    cells = cells_of(order, bins)
    ms = [measurement(T, k, c) for k, c in enumerate(cells)]
    k = T.choice('which', [0, len(cells) - 1])
    n = T.choice('along', list(NAMES))
    ms[k][n] = T.real('far', 0, 20)
    T.assume(T.or_(ms[k][n] < cells[k][n] * step_of(n), ms[k][n] >= (cells[k][n] + 1) * step_of(n)))
    figures, e = plot(T, order, bins, ms, 1)
    T.check(e is not None, 'a bin without its measurement is reported')
  f.__name__ = 'refused_' + name
  return f


def b(angle, time, translation):
  return dict(angle=angle, time=time, translation=translation)


HARNESSES = []
for order, s in (('translation_time_angle', 'translation'), ('angle_time_translation', 'angle'), ('time_translation_angle', 'time')):
  for bins in (b(2, 2, 1), b(1, 2, 2), b(2, 1, 2), b(3, 1, 1), b(1, 3, 1), b(1, 1, 3)):
    t = 'quick' if 2 in bins.values() else 'thorough'
    HARNESSES.append(Harness(means(order, bins, 1, s + '%(angle)d%(time)d%(translation)d' % bins), fs=True, tier=t, bounds=B))
  HARNESSES.append(Harness(means(order, b(2, 1, 1), 2, s + '_two'), fs=True, bounds=B))
  HARNESSES.append(Harness(means(order, b(1, 1, 1), 5, s + '_five'), fs=True, bounds=B))
  HARNESSES.append(Harness(refused(order, b(2, 2, 1), s), fs=True, bounds=B))
