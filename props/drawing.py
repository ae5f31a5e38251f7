"""A stand-in for matplotlib that records what is drawn where. Names that the installed matplotlib does not offer are refused."""
import os
import re
import sys
import types

from symx.env import Stub, StubModule

COLOURS = {'red': 'r', 'green': 'g', 'blue': 'b', 'cyan': 'c', 'black': 'k', 'magenta': 'm', 'yellow': 'y', 'white': 'w'}
_names = []


def installed():
  """names that matplotlib.pyplot and pylab offer"""
  if not _names:
    found = set()
    for d in sys.path:
      f = os.path.join(d, 'matplotlib', 'pyplot.py')
      if os.path.exists(f):
        with open(f) as h:
          text = h.read()
        found = set(re.findall(r'^\s*(?:def|class) (\w+)', text, re.M)) | set(re.findall(r'^    (\w+),$', text, re.M)) | set(re.findall(r'import .*?(\w+)$', text, re.M))
        break
    _names.append(found)
  return _names[0]


def colour(c):
  return COLOURS.get(c, c)


def column(v):
  """the numbers of a curve"""
  return [x[0] if hasattr(x, '__len__') and not isinstance(x, str) else x for x in v]


class Quiet(object):

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return Stub()


class Curve(object):

  def __init__(self, xs, ys, zs, fmt, k):
    self.xs, self.ys, self.zs = xs, ys, zs
    c = k.get('c', k.get('color'))
    if c is None:
      c = ([x for x in fmt if x in 'rgbcmykw'] + [None])[0]
    self.colour = colour(c)
    self.marker = k.get('marker') or ([x for x in fmt if x in 'o.+x*'] + [None])[0]
    self.line = k.get('linestyle', k.get('ls')) or ('-' if '-' in fmt or not self.marker else None)


class Axes(Quiet):

  def __init__(self, place, dims=2):
    self.place, self.dims = place, dims
    self.curves, self.artists, self.limits, self.boxes, self.twins = [], [], {}, [], []
    self.labels, self.images = {}, []

  def imshow(self, m, *a, **k):
    self.images.append(m)
    return Stub()

  matshow = imshow

  def plot(self, *a, **k):
    a = list(a)
    fmt = a.pop() if a and isinstance(a[-1], str) else ''
    given = [k.pop(n, None) for n in ('xs', 'ys', 'zs')]
    given = a + [g for g in given if g is not None][0 if not a else len(given):]
    cols = [column(v) for v in given]
    if self.dims == 2 and len(cols) == 1:
      cols = [list(range(len(cols[0])))] + cols
    if len(cols) != self.dims:
      raise TypeError('%d coordinates for a curve' % len(cols))
    if len(set(len(c) for c in cols)) != 1:
      raise ValueError('x and y must have same first dimension')
    self.curves.append(Curve(cols[0], cols[1], cols[2] if self.dims == 3 else None, fmt, k))
    return [Stub()]

  def scatter(self, xs, ys, zs=None, *a, **k):
    for i in range(len(xs)):
      self.plot(*([[v[i]] for v in (xs, ys, zs)[:self.dims]] + ['o']), **{n: v for n, v in k.items() if n in ('c', 'color')})

  def add_artist(self, a):
    a.axes = self
    self.artists.append(a)
    return a

  add_patch = add_artist

  def boxplot(self, x, *a, **k):
    b = {n: (self, len(self.boxes), n) for n in ('boxes', 'whiskers', 'fliers', 'caps', 'medians', 'means')}
    self.boxes.append(types.SimpleNamespace(data=[list(v) for v in x], positions=k.get('positions'), widths=k.get('widths'), colours={}))
    return b

  def twinx(self):
    t = Axes(self.place, self.dims)
    self.twins.append(t)
    return t

  def set_xlim3d(self, *a, **k):
    self.limits['x'] = limits(a, k, 'x')

  def set_ylim3d(self, *a, **k):
    self.limits['y'] = limits(a, k, 'y')

  def set_zlim3d(self, *a, **k):
    self.limits['z'] = limits(a, k, 'z')

  set_xlim, set_ylim, set_zlim = set_xlim3d, set_ylim3d, set_zlim3d

  def auto_scale_xyz(self, x, y, z, **k):
    pass

  def set_title(self, text, *a, **k):
    self.labels['title'] = text


def limits(a, k, n):
  if not a:
    a = (k.get('left', k.get('bottom', k.get(n + 'min'))), k.get('right', k.get('top', k.get(n + 'max'))))
  return tuple(a[0]) if len(a) == 1 else tuple(a[:2])


class Figure(Quiet):

  def __init__(self, board):
    self.axes, self.board, self.current = [], board, None

  def add_subplot(self, *a, **k):
    place = tuple(int(c) for c in str(a[0])) if len(a) == 1 else tuple(a) or (1, 1, 1)
    for x in self.axes:
      if x.place == place:
        self.current = x
        return x
    self.current = Axes(place, 3 if k.get('projection') == '3d' else 2)
    self.axes.append(self.current)
    return self.current

  def add_axes(self, ax, *a, **k):
    if not isinstance(ax, Axes):
      ax = Axes((1, 1, 1), 3 if k.get('projection') == '3d' else 2)
    if ax not in self.axes:
      self.axes.append(ax)
    self.current = ax
    return ax

  def subplots(self, rows=1, cols=1, **k):
    grid = [[self.add_subplot(rows, cols, r * cols + c + 1) for c in range(cols)] for r in range(rows)]
    if rows == 1 or cols == 1:
      flat = [x for r in grid for x in r]
      return flat[0] if len(flat) == 1 else flat
    return Grid(grid)

  def clf(self, *a, **k):
    self.axes, self.current = [], None

  clear = clf

  def show(self, *a, **k):
    self.board.show(*a, **k)


class Grid(list):

  def __getitem__(self, i):
    return list.__getitem__(self, i[0])[i[1]] if isinstance(i, tuple) else list.__getitem__(self, i)


class Board(object):
  """all figures, and what was shown"""

  def __init__(self, T, backend='agg'):
    self.T, self.backend = T, backend
    self.params, self.extra = {}, {}
    self.figures, self.shown, self.resized, self.ticks, self.xlims, self.legends = [], [], [], [], [], []

  def figure(self, *a, **k):
    self.figures.append(Figure(self))
    return self.figures[-1]

  def gcf(self):
    return self.figures[-1] if self.figures else self.figure()

  def gca(self, *a, **k):
    f = self.gcf()
    return f.current or f.add_subplot(1, 1, 1)

  def subplot(self, *a, **k):
    return self.gcf().add_subplot(*a, **k)

  def subplots(self, *a, **k):
    f = self.figure()
    return f, f.subplots(*a, **{n: v for n, v in k.items() if n in ('nrows', 'ncols')})

  def plot(self, *a, **k):
    return self.gca().plot(*a, **k)

  def clf(self):
    self.gcf().clf()

  def setp(self, obj, *a, **k):
    if isinstance(obj, tuple) and len(obj) == 3 and isinstance(obj[0], Axes):
      ax, i, n = obj
      ax.boxes[i].colours[n] = colour(k.get('color'))

  def show(self, *a, **k):
    block = k.get('block', a[0] if a else None)
    self.shown.append((len(self.figures), block))
    for f in self.figures:
      for x in f.axes:
        self.draw(x)

  def draw(self, ax):
    pass

  def xticks(self, *a, **k):
    self.ticks.append(a)

  def xlim(self, *a, **k):
    self.xlims.append(limits(a, k, 'x'))

  def legend(self, *a, **k):
    self.legends.append(k.get('handles', a[0] if a else None))

  def get_backend(self):
    return self.backend

  def get_current_fig_manager(self):
    board = self

    class Manager(Quiet):

      def resize(self, *a):
        board.resized.append(a)

    m = Manager()
    m.window = types.SimpleNamespace(maxsize=lambda: (1920, 1080))
    return m

  def names(self):
    own = {n: getattr(self, n) for n in ('figure', 'gcf', 'gca', 'subplot', 'subplots', 'plot', 'clf', 'setp', 'show', 'xticks', 'xlim', 'legend', 'get_backend',
                                         'get_current_fig_manager')}
    return own

  def install(self, reload=()):
    """T.mod after this sees the stand-ins"""
    T = self.T
    own = self.names()

    class Module(types.ModuleType):

      def __getattr__(self, k):
        if k in installed() and not k.startswith('__'):
          return Stub()
        raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, k))
    mods = {}
    for n in ('matplotlib.pylab', 'matplotlib.pyplot', 'pylab'):
      T.module(n, **own)
      m = T.loader.mods[n] if T.symbolic else sys.modules[n]
      m.__class__ = Module
      mods[n.split('.')[-1]] = m
    for n in ('font_manager', 'patches'):
      m = StubModule('matplotlib.' + n)
      m.__dict__.update(self.extra.get(n, {}))
      mods[n] = m
      if T.symbolic:
        T.loader.mods['matplotlib.' + n] = m
      else:
        T.module('matplotlib.' + n)
        sys.modules['matplotlib.' + n] = m
    T.module('matplotlib', rcParams=self.params, rc=Stub(), use=Stub(), get_backend=self.get_backend, **{n: mods[n] for n in ('pylab', 'pyplot', 'font_manager', 'patches')})
    return mods
