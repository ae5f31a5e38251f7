"""What a harness sees: the same function runs symbolically and on concrete values."""
import math
import sys
import traceback
from fractions import Fraction

import numpy as np

from symx import sym
from symx.sym import Sym, SB, Steer, to_sb, b_and, b_or, PathInfeasible, Unsupported


class Skip(Exception):
  """concrete run: the assumptions of the harness do not hold for this input"""


class Violated(Exception):

  def __init__(self, label, detail=''):
    Exception.__init__(self, label)
    self.label = label
    self.detail = detail


def flat(x):
  if isinstance(x, (list, tuple)):
    out = []
    for i in x:
      out.extend(flat(i))
    return out
  if isinstance(x, np.ndarray):
    return list(x.ravel()) if x.ndim else [x[()]]
  return [x]


def shape_of(x):
  if isinstance(x, np.ndarray):
    return x.shape
  if isinstance(x, (list, tuple)):
    return (len(x),) + (shape_of(x[0]) if len(x) else ())
  return ()


class SymT(object):
  symbolic = True

  def __init__(self, ctx, loader):
    self.ctx = ctx
    self.loader = loader
    self.np = loader.np
    from symx import npshim
    self.math = npshim.mathshim

  def mod(self, name):
    return self.loader.load(name)

  def script(self, rel, name='__main__', **extra):
    return self.loader.script(rel, name, **extra)

  def real(self, name, lo=None, hi=None):
    return self.ctx.space.real(name, lo, hi)

  def vec(self, name, n, lo=None, hi=None):
    a = np.empty(n, dtype=object)
    for i in range(n):
      a[i] = self.real('%s.%d' % (name, i), lo, hi)
    return a

  def unit(self, name, n=4):
    a = np.empty(n, dtype=object)
    a[:] = self.ctx.space.unit_vector(name, n)
    return a

  def choice(self, name, options):
    return options[self.ctx.choose(len(options), name)]

  def assume(self, c):
    self.ctx.assume(c)

  def check(self, c, label):
    if isinstance(c, np.ndarray):
      c = b_and([to_sb(x) for x in c.ravel()])
    self.ctx.check(c, label)

  def check_eq(self, a, b, label, tol=1e-6):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
      self.ctx.check(sym.FALSE, label + ': shape')
      return
    self.ctx.obs.append((label, list(fa)))
    for x, y in zip(fa, fb):
      if _notnum(x) or _notnum(y):
        self.ctx.check(sym.FALSE, label + ': not a number')
        continue
      self.ctx.close(x, y, label, tol)

  def observe(self, a, label):
    self.ctx.obs.append((label, flat(a)))

  def cover(self, label):
    self.ctx.cover(label)

  def lemma(self, c):
    self.ctx.lemma(c)

  def fact(self, c):
    return self.ctx.fact(c)

  def prove(self, c, linear=False):
    """whether c can be proved here; only steers the proof"""
    return self.ctx.prove(c, linear=linear)

  def check_by(self, label, exprs, facts, goal):
    self.ctx.check_by(label, exprs, facts, goal)

  def call(self, fn, *a, **k):
    """(result, None) or (None, exception)"""
    try:
      r = fn(*a, **k)
    except Exception as e:  # code under test
      self.ctx.tick()
      return None, e
    self.ctx.tick()
    return r, None

  def stub(self, name, fn):
    self.ctx.stubs[name] = fn

  # files
  def path(self, name):
    return '/files/' + name

  def write(self, name, text):
    self.fs.files[self.path(name)] = text

  def number(self, x):
    """text of a number in a file"""
    return str(Sym.lift(x))

  def text(self, name):
    """content of a file or None"""
    return self.fs.files.get(self.path(name))

  def parse(self, text):
    from symx import npshim
    return npshim.SymFloat(text)

  def run(self, rel, args, **extra):
    """run a script of the repository as the main program"""
    old = sys.argv
    sys.argv = [rel] + list(args)
    try:
      return self.loader.script(rel, '__main__', **extra)
    finally:
      sys.argv = old

  def module(self, name, /, **attrs):
    """a stand-in for an external module that scripts import"""
    import types
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    self.loader.mods[name] = m

  def limit(self, name, n):
    """explore only runs with at most n random draws of that kind"""
    self.ctx.limits[name] = n

  def whole_floats(self):
    """random.randint takes whole floats, as it did before Python 3.12"""
    self.ctx.whole_floats = True

  def directions(self, ds):
    """drawn vectors of three components are among these fractions of the range"""
    self.ctx.directions = ds

  def drawn(self):
    """the samples drawn so far"""
    return self.ctx.drawn

  def and_(self, *c):
    return b_and([to_sb(x) for x in c])

  def or_(self, *c):
    return b_or([to_sb(x) for x in c])

  def not_(self, c):
    return to_sb(c).negate()

  def truth(self, c):
    """a python bool; forks"""
    return bool(c)

  def finite(self, x):
    return all(isinstance(e, (Sym, int, np.integer)) or (isinstance(e, float) and math.isfinite(e))
               for e in flat(x))


def _notnum(x):
  if isinstance(x, (Sym, SB, int, float, np.number, np.bool_, Fraction, bool)):
    return False
  return True


class ConcT(object):
  symbolic = False

  def __init__(self, inputs, choices, strict):
    from symx import env
    env.setup_concrete()
    self.inputs = inputs
    self.choices = choices
    self.strict = strict
    self.np = np
    self.math = math
    self.obs = []
    self.counters = {}
    self.failed = []
    self.limits = {}
    self.samples = []
    self.replaced = {}

  def mod(self, name):
    import importlib
    return importlib.import_module(name)

  def script(self, rel, name='__main__', **extra):
    import types
    from symx import env
    import os
    p = os.path.join(env.REPO, rel)
    m = types.ModuleType(name)
    m.__file__ = p
    m.__dict__.update(extra)
    with open(p, encoding='utf-8') as f:
      exec(compile(f.read(), p, 'exec'), m.__dict__)
    return m

  def real(self, name, lo=None, hi=None):
    v = self.inputs.get(name)
    if v is None:
      v = 0.0
      if lo is not None:
        v = max(v, float(lo))
      if hi is not None:
        v = min(v, float(hi))
    return np.float64(v)

  def vec(self, name, n, lo=None, hi=None):
    return np.array([self.real('%s.%d' % (name, i), lo, hi) for i in range(n)])

  def unit(self, name, n=4):
    a = np.array([self.inputs.get('%s[%d]' % (name, i), 0.0) for i in range(n)], dtype=float)
    k = np.linalg.norm(a)
    if k < 0.5:
      a = np.zeros(n)
      a[-1] = 1.
      k = 1.
    return a / k

  def choice(self, name, options):
    return options[self.choices.get(name, 0)]

  def assume(self, c):
    if not c:
      raise Skip()

  def check(self, c, label):
    if isinstance(c, np.ndarray):
      c = c.all()
    if not c:
      raise Violated(label)

  def check_eq(self, a, b, label, tol=1e-6):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
      raise Violated(label + ': shape', '%r vs %r' % (a, b))
    vals = []
    for x, y in zip(fa, fb):
      try:
        x, y = float(x), float(y)
      except (TypeError, ValueError):
        raise Violated(label + ': not a number', '%r vs %r' % (x, y))
      vals.append(x)
      t = float(tol) * (0.5 if self.strict else 10.) * max(1.0, min(abs(y), 1e3))
      if not self.strict:
        t = max(t, 1e-6)
      if not (x == y or abs(x - y) <= t):
        raise Violated(label, '%r vs %r' % (x, y))
    self.obs.append((label, vals))

  def observe(self, a, label):
    self.obs.append((label, [float(x) for x in flat(a)]))

  def cover(self, label):
    pass

  def lemma(self, c):
    pass

  def fact(self, c):
    return True

  def prove(self, c, linear=False):
    return True

  def check_by(self, label, exprs, facts, goal):
    self.check(goal(*exprs), label)

  def call(self, fn, *a, **k):
    try:
      return fn(*a, **k), None
    except Exception as e:
      return None, e

  # files, in a scratch directory
  scratch = None

  def path(self, name):
    import tempfile
    import os
    if self.scratch is None:
      self.scratch = tempfile.mkdtemp(prefix='symx')
    return os.path.join(self.scratch, name)

  def write(self, name, text):
    with open(self.path(name), 'w') as f:
      f.write(text)

  def number(self, x):
    return repr(float(x))

  def text(self, name):
    try:
      with open(self.path(name)) as f:
        return f.read()
    except FileNotFoundError:
      return None

  def parse(self, text):
    return float(text)

  def run(self, rel, args, **extra):
    old = sys.argv
    sys.argv = [rel] + list(args)
    try:
      return self.script(rel, '__main__', **extra)
    finally:
      sys.argv = old

  def stub(self, name, fn):
    """numpy.linalg.svd is replaced in concrete runs too (any orthonormal basis is legal)"""
    if name == 'svd':
      np.linalg.svd = lambda a, *x, **k: fn(a)

  def and_(self, *c):
    return all(bool(x) for x in c)

  def or_(self, *c):
    return any(bool(x) for x in c)

  def not_(self, c):
    return not c

  def truth(self, c):
    return bool(c)

  def finite(self, x):
    return all(math.isfinite(float(e)) for e in flat(x))

  # random draws replay the recorded values
  def fresh(self, name):
    k = self.counters.get(name, 0)
    self.counters[name] = k + 1
    return float(self.inputs.get('%s#%d' % (name, k), 0.5))

  def module(self, name, /, **attrs):
    import types
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    if name not in self.replaced:
      self.replaced[name] = sys.modules.get(name)
    sys.modules[name] = m

  dirs = None
  whole = False

  def whole_floats(self):
    self.whole = True

  def limit(self, name, n):
    self.limits[name] = n

  def directions(self, ds):
    self.dirs = ds

  def drawn(self):
    return self.samples

  def choose_fresh(self, n, name):
    k = self.counters.get(name, 0)
    if k >= self.limits.get(name, 1 << 30):
      raise Skip()
    self.counters[name] = k + 1
    return min(self.choices.get('%s#%d' % (name, k), 0), n - 1)



_CURT = None


def patch_random():
  """random draws of the real code replay the recorded values"""
  import collections.abc
  import random

  def uniform(a, b):
    return a + (b - a) * _CURT.fresh('u')

  def npuniform(low=0.0, high=1.0, size=None):
    if size is None:
      return uniform(low, high)
    n = int(np.prod(size))
    if n == 3 and _CURT.dirs:
      d = _CURT.dirs[_CURT.choose_fresh(len(_CURT.dirs), 'direction')]
      return np.array([low + float(x) * (high - low) for x in d]).reshape(size)
    return np.array([uniform(low, high) for _ in range(n)]).reshape(size)

  def randint(a, b):
    for x in (a, b):
      if not hasattr(x, '__index__'):
        if not _CURT.whole:
          raise TypeError("'float' object cannot be interpreted as an integer")
        if int(x) != x:
          raise ValueError('non-integer arg for randrange()')
    a, b = int(a), int(b)
    if b < a:
      raise ValueError('empty range')
    return a + _CURT.choose_fresh(b - a + 1, 'randint')

  def sample(pop, k, **kw):
    if not isinstance(pop, collections.abc.Sequence):
      raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
    pop = list(pop)
    if not 0 <= k <= len(pop):
      raise ValueError('Sample larger than population or is negative')
    out = [pop.pop(_CURT.choose_fresh(len(pop), 'sample')) for _ in range(k)]
    _CURT.samples.append(list(out))
    return out

  def shuffle(seq):
    rest = list(seq)
    for i in range(len(rest)):
      seq[i] = rest.pop(_CURT.choose_fresh(len(rest), 'shuffle'))
  random.uniform = uniform
  random.randint = randint
  random.randrange = lambda a, b=None: randint(0, a - 1) if b is None else randint(a, b - 1)
  random.sample = sample
  random.random = lambda: _CURT.fresh('u')
  random.shuffle = shuffle
  random.choice = lambda s: s[_CURT.choose_fresh(len(s), 'choice')]
  np.random.uniform = npuniform
  random.choices = lambda s, weights=None, cum_weights=None, k=1: [random.choice(s) for _ in range(k)]
  random.gauss = random.normalvariate = lambda mu=0., sigma=1.: mu + sigma * _CURT.fresh('g')

  def many(size, f):
    return f() if size is None else np.array([f() for _ in range(int(np.prod(size)))]).reshape(size)

  def normal(loc=0., scale=1., size=None):
    return many(size, lambda: loc + scale * _CURT.fresh('g'))

  def npint(low, high=None, size=None, dtype=int):
    low, high = (0, low) if high is None else (low, high)
    low, high = int(low), int(high)
    if high <= low:
      raise ValueError('low >= high')
    return many(size, lambda: low + _CURT.choose_fresh(high - low, 'randint'))

  def npchoice(a, size=None, replace=True, p=None):
    pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
    if size is None:
      return random.choice(pop)
    n = int(np.prod(size))
    if replace:
      return np.array([random.choice(pop) for _ in range(n)]).reshape(size)
    if n > len(pop):
      raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    out = [pop.pop(_CURT.choose_fresh(len(pop), 'sample')) for _ in range(n)]
    _CURT.samples.append(list(out))
    return np.array(out).reshape(size)

  def permutation(a):
    out = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
    shuffle(out)
    return np.array(out)
  np.random.normal = normal
  np.random.rand = lambda *s: npuniform(0., 1., s if s else None)
  np.random.randn = lambda *s: normal(0., 1., s if s else None)
  np.random.standard_normal = lambda size=None: normal(0., 1., size)
  np.random.random = np.random.random_sample = lambda size=None: npuniform(0., 1., size)
  np.random.randint = npint
  np.random.choice = npchoice
  np.random.shuffle = shuffle
  np.random.permutation = permutation

  # a generator of its own replays the same values
  own = {k: staticmethod(getattr(np.random, k)) for k in (
      'uniform', 'normal', 'rand', 'randn', 'standard_normal', 'random', 'random_sample', 'randint', 'choice', 'shuffle', 'permutation')}
  own['integers'] = staticmethod(npint)
  generator = type('Generator', (np.random.Generator,), own)
  real = np.random.default_rng

  def default_rng(*a):
    if sys._getframe(1).f_globals.get('__name__', '').startswith(('scipy', 'importlib', 'numpy')):
      return real(*a)
    return generator(np.random.PCG64(0))
  np.random.default_rng = default_rng


def run_concrete(fn, inputs, choices, strict):
  T = ConcT(inputs, choices, strict)
  global _CURT
  _CURT = T
  if np.random.uniform.__module__ != __name__:
    patch_random()
  out = dict(status='ok', label=None, detail='', obs=T.obs)
  svd = np.linalg.svd
  try:
    with np.errstate(all='ignore'):
      fn(T)
  except Skip:
    out['status'] = 'skip'
  except Violated as v:
    out.update(status='violation', label=v.label, detail=str(v.detail))
  except Exception as e:
    out.update(status='violation', label='exception: ' + type(e).__name__,
               detail=traceback.format_exc()[-1500:])
  finally:
    np.linalg.svd = svd
    for n, m in T.replaced.items():
      if m is None:
        sys.modules.pop(n, None)
      else:
        sys.modules[n] = m
    if T.scratch is not None:
      import shutil
      shutil.rmtree(T.scratch, ignore_errors=True)
  return out
