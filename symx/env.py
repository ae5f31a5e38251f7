"""Loads the repository's modules.  Symbolic mode: the current source text of each module
is compiled and executed with shims for numpy & co.  Concrete mode: ordinary import."""
import ast
import builtins
import io
import os
import re
import sys
import types
import warnings

# escapes in labels of plots
warnings.filterwarnings('ignore', category=SyntaxWarning)
warnings.filterwarnings('ignore', category=DeprecationWarning, message='invalid escape')
warnings.filterwarnings('ignore', category=FutureWarning)
REPO = os.environ.get('SYMX_REPO', '/repo')
ROOTS = [os.path.join(REPO, 'hand_eye_calibration/python'),
         os.path.join(REPO, 'hand_eye_calibration_experiments/python')]
PKGS = ('hand_eye_calibration', 'hand_eye_calibration_experiments')


class StubMeta(type):

  def __getattr__(cls, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return StubMeta(k, (Stub,), {})

  def __call__(cls, *a, **k):
    return type.__call__(cls)


class Stub(object, metaclass=StubMeta):
  """placeholder for plotting / ROS names that the checked code paths never use"""

  def __init__(self, *a, **k):
    pass

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return Stub()

  def __call__(self, *a, **k):
    return Stub()

  def __iter__(self):
    return iter(())

  def __getitem__(self, k):
    return Stub()


class StubModule(types.ModuleType):

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return StubMeta(k, (Stub,), {})


STUBBED = ('matplotlib', 'mpl_toolkits', 'tf', 'rospy', 'rosbag', 'tf2_msgs', 'pylab')


class FakeFS(object):
  """in-memory files"""

  def __init__(self):
    self.files = {}
    self.mtime = {}

  def open(self, path, mode='r', *a, **k):
    path = str(path)
    fs = self

    class W(io.StringIO):
      name = path

      def close(self):
        if not self.closed:
          self.flush()
        io.StringIO.close(self)

      def flush(self):
        if 'a' in mode:
          # appends to what the file holds then
          fs.files[path] = fs.files.get(path, '') + self.getvalue()
          self.seek(0)
          self.truncate()
        elif 'w' in mode or '+' in mode:
          fs.files[path] = self.getvalue()
    if 'r' in mode and path not in self.files:
      raise FileNotFoundError(2, 'No such file or directory', path)
    text = self.files.get(path, '') if 'r' in mode else ''
    if 'x' in mode and path in self.files:
      raise FileExistsError(17, 'File exists', path)
    f = W(text)
    if 'a' in mode:
      self.files.setdefault(path, '')
    if 'w' in mode or 'x' in mode:
      self.files[path] = ''
      if 'x' in mode:
        mode = 'w'
    return f


class Loader(object):
  """symbolic-mode module loader"""

  def __init__(self, overrides=None, fs=None):
    from symx import npshim
    self.fs = fs
    self.np = npshim.NumpyShim(fs)
    self.random = npshim.RandomShim()
    sig = types.ModuleType('scipy.signal')
    sig.correlate = npshim.correlate
    sig.convolve = npshim.convolve
    sp = types.ModuleType('scipy')
    sp.signal = sig
    sp.__path__ = []
    npmod = self.np
    self.mods = {
        'numpy': self.np, 'numpy.linalg': npshim.linalg, 'numpy.testing': npshim.testing,
        'numpy.random': npshim.OVER['random'], 'math': npshim.mathshim, 'random': self.random,
        'scipy': sp, 'scipy.signal': sig, 'json': npshim.json_shim(), 'ast': npshim.ast_shim(),
    }
    if overrides:
      self.mods.update(overrides)
    self.repo_mods = {}
    self.files_loaded = []
    b = types.ModuleType('builtins')
    b.__dict__.update(builtins.__dict__)
    b.__import__ = self._import
    b.print = lambda *a, **k: None
    b.float = npshim.SymFloat
    b.isinstance = _isinstance
    b.sum = _sum
    b.round = _round
    if fs is not None:
      b.open = fs.open
    b.__symx_percent__ = _percent
    self.builtins = b

  def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
    if level:
      pkg = globals.get('__package__') or globals.get('__name__', '').rpartition('.')[0]
      for _ in range(level - 1):
        pkg = pkg.rpartition('.')[0]
      name = pkg + ('.' + name if name else '')
    top = name.split('.')[0]
    if top in PKGS:
      m = self.load(name)
      if fromlist:
        for f in fromlist:
          if not hasattr(m, f) and getattr(m, '__path__', None) is not None:
            sub = name + '.' + f
            if self.path_of(sub) is not None:
              setattr(m, f, self.load(sub))
        return m
      return self.load(top)
    if name in self.mods:
      return self.mods[name] if (fromlist or '.' not in name) else self.mods[top]
    if top in STUBBED and top not in self.mods:
      m = StubModule(name)
      m.__path__ = []
      return m
    if name.startswith('numpy.') and not fromlist:
      return self.np
    return builtins.__import__(name, globals, locals, fromlist, level)

  def path_of(self, name):
    rel = name.replace('.', '/')
    for r in ROOTS:
      for p in (os.path.join(r, rel + '.py'), os.path.join(r, rel, '__init__.py')):
        if os.path.isfile(p):
          return p
    return None

  def load(self, name):
    m = self.repo_mods.get(name)
    if m is not None:
      return m
    p = self.path_of(name)
    if p is None:
      raise ImportError('No module named %s' % name)
    if '.' in name:
      self.load(name.rpartition('.')[0])
    m = types.ModuleType(name)
    m.__file__ = p
    m.__builtins__ = self.builtins.__dict__
    if p.endswith('__init__.py'):
      m.__path__ = [os.path.dirname(p)]
      m.__package__ = name
    else:
      m.__package__ = name.rpartition('.')[0]
    self.repo_mods[name] = m
    try:
      with builtins.open(p, encoding='utf-8') as f:
        src = f.read()
      exec(_compiled(src, p), m.__dict__)
    except BaseException:
      del self.repo_mods[name]
      raise
    self.files_loaded.append(p)
    if '.' in name:
      par, _, leaf = name.rpartition('.')
      setattr(self.repo_mods[par], leaf, m)
    return m

  def script(self, relpath, name='__main__', **extra):
    """execute a script file; returns its module"""
    p = os.path.join(REPO, relpath)
    m = types.ModuleType(name)
    m.__file__ = p
    m.__builtins__ = self.builtins.__dict__
    m.__dict__.update(extra)
    with builtins.open(p, encoding='utf-8') as f:
      src = f.read()
    exec(_compiled(src, p), m.__dict__)
    return m


class _Percent(ast.NodeTransformer):
  """a % b becomes a call, because formatting a symbolic number cannot be intercepted otherwise"""

  def visit_BinOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Mod) and not (isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str)):
      return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__symx_percent__', ast.Load()), n), [n.left, n.right], []), n)
    return n


def _compiled(src, p):
  return compile(ast.fix_missing_locations(_Percent().visit(ast.parse(src, p))), p, 'exec')


_SPEC = re.compile(r'%(?:%|(\(\w+\))?([-+ 0#]*(?:\d+|\*)?(?:\.(?:\d+|\*))?)([a-zA-Z]))')


def _percent(a, b):
  from symx import sym
  if not isinstance(a, str):
    return a % b
  vals = list(b) if type(b) is tuple else [b]
  if type(b) is dict:
    vals = list(b.values())
  if not any(type(v) is sym.Sym for v in vals):
    return a % b
  it = iter(vals)

  def one(m):
    if m.group(0) == '%%':
      return '%'
    if '*' in m.group(2):
      raise sym.Unsupported('format %r' % a)
    v = b[m.group(1)[1:-1]] if m.group(1) else next(it)
    k = m.group(3)
    if type(v) is sym.Sym and not v.is_const():
      if k in 'feEgGF':
        return sym.CUR.token(v, '%' + m.group(2) + k)
      if k in 'di':
        v = int(v)
      elif k not in 'sr' or m.group(2):
        raise sym.Unsupported('format %r' % a)
    elif type(v) is sym.Sym and k not in 'sr':
      v = float(v)
    return ('%' + m.group(2) + k) % (v,)
  out = _SPEC.sub(one, a)
  if type(b) is not dict and next(it, it) is not it:
    raise TypeError('not all arguments converted during string formatting')
  return out


def _isinstance(x, t):
  from symx.sym import Sym, SB
  if type(x) is Sym:
    from symx.npshim import SymFloat
    ts = t if type(t) is tuple else (t,)
    import numbers
    for u in ts:
      if u is SymFloat or u is float or u is Sym or u is object or u in (
          numbers.Number, numbers.Real, numbers.Complex):
        return True
      if type(u) is tuple and _isinstance(x, u):
        return True
    return False
  if type(x) is SB:
    ts = t if type(t) is tuple else (t,)
    return any(u in (bool, int, SB, object) for u in ts)
  return isinstance(x, t)


def _sum(xs, start=0):
  for x in xs:
    start = start + x
  return start


def _round(x, n=None):
  return round(x) if n is None else round(x, n)


# -- concrete mode ---------------------------------------------------------------
def setup_concrete():
  sys.dont_write_bytecode = True
  os.environ.setdefault('MPLBACKEND', 'Agg')
  for r in reversed(ROOTS):
    if r not in sys.path:
      sys.path.insert(0, r)
  for n in ('tf', 'rospy', 'rosbag', 'tf2_msgs', 'tf2_msgs.msg'):
    if n not in sys.modules:
      m = StubModule(n)
      m.__path__ = []
      sys.modules[n] = m
  for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.patches', 'matplotlib.pylab',
            'matplotlib.font_manager', 'mpl_toolkits', 'mpl_toolkits.mplot3d',
            'mpl_toolkits.axes_grid1'):
    m = StubModule(n)
    m.__path__ = []
    sys.modules.setdefault(n, m)
