"""numpy / math / random / scipy.signal as seen by the code under test when it runs on
symbolic values.  Everything not listed here is forwarded to the real numpy (object
arrays), so names that numpy no longer has fail exactly as they do for a user."""
import math as _math
import types
from fractions import Fraction

import numpy as _np

from symx import sym
from symx.poly import Poly, ONE, ZERO
from symx.sym import (Sym, SB, TRUE, FALSE, b_and, b_or, to_sb, fsqrt, fcos, fsin, facos,
                      fatan2, flog, Unsupported, is_num)

NAN = float('nan')


def lift(x):
  """number -> Sym (nan/inf stay floats)"""
  if isinstance(x, Sym):
    return x
  if isinstance(x, (float, _np.floating, int, _np.integer, Fraction, bool, _np.bool_)):
    r = Sym.lift(x)
    return float(x) if r is None else r
  return x


def _lift_el(x):
  if isinstance(x, (float, _np.floating, int, _np.integer, Fraction, _np.bool_, bool)):
    return lift(x)
  return x


def lift_arr(a):
  """object array with every number lifted"""
  a = _np.asarray(a) if not isinstance(a, _np.ndarray) else a
  out = _np.empty(a.shape, dtype=object)
  if a.ndim == 0:
    out[()] = _lift_el(a.item() if a.dtype != object else a[()])
    return out
  o = out.ravel()
  for i, x in enumerate(a.ravel().tolist() if a.dtype != object else a.ravel()):
    o[i] = _lift_el(x)
  return o.reshape(a.shape)


def has_sym(x):
  if isinstance(x, (Sym, SB)):
    return True
  if isinstance(x, _np.ndarray):
    return x.dtype == object
  if isinstance(x, (list, tuple)):
    return any(has_sym(i) for i in x)
  return False


def has_float(x):
  if isinstance(x, (float, _np.floating, Fraction)):
    return True
  if isinstance(x, _np.ndarray):
    return x.dtype.kind == 'f'
  if isinstance(x, (list, tuple)):
    return any(has_float(i) for i in x)
  return False


def has_str(x):
  if isinstance(x, (str, bytes)):
    return True
  if isinstance(x, _np.ndarray):
    return x.dtype.kind in 'US'
  if isinstance(x, (list, tuple)):
    return any(has_str(i) for i in x)
  return False


def emap(f, x):
  if isinstance(x, (list, tuple)):
    x = array(x)
  if isinstance(x, _np.ndarray):
    out = _np.empty(x.shape, dtype=object)
    if x.ndim == 0:
      return f(x.item() if x.dtype != object else x[()])
    o = out.ravel()
    for i, e in enumerate(x.ravel().tolist() if x.dtype != object else x.ravel()):
      o[i] = f(e)
    return o.reshape(x.shape)
  return f(x)


def emap2(f, x, y):
  if isinstance(x, (list, tuple)):
    x = array(x)
  if isinstance(y, (list, tuple)):
    y = array(y)
  if isinstance(x, _np.ndarray) or isinstance(y, _np.ndarray):
    xa, ya = _np.broadcast_arrays(_obj(x), _obj(y))
    out = _np.empty(xa.shape, dtype=object)
    o = out.reshape(-1) if out.shape else out
    if not out.shape:
      return f(xa[()], ya[()])
    for i, (p, q) in enumerate(zip(xa.ravel(), ya.ravel())):
      o[i] = f(p, q)
    return o.reshape(xa.shape)
  return f(x, y)


def _obj(x):
  if isinstance(x, _np.ndarray):
    return x if x.dtype == object else lift_arr(x)
  a = _np.empty((), dtype=object)
  a[()] = x
  return a


def _is_float_dtype(d):
  if d is None:
    return False
  if isinstance(d, type) and getattr(d, '_symx_float', False):
    return True
  try:
    return _np.dtype(d).kind in 'fO'
  except TypeError:
    return False


def _dt(d):
  return object if _is_float_dtype(d) else d


class StrArray(_np.ndarray):
  """array of texts; numbers among them may stand for symbolic ones"""

  def astype(self, dtype, *a, **k):
    if _is_float_dtype(dtype):
      return emap(SymFloat, _np.asarray(self))
    return _np.asarray(self).astype(dtype, *a, **k)


def array(x, dtype=None, copy=True, ndmin=0, **k):
  if dtype is not None and not _is_float_dtype(dtype):
    if has_sym(x):
      k_ = _np.dtype(dtype).kind
      if k_ in 'iu':
        return _np.array(emap(int, _np.array(x, dtype=object)), dtype=dtype)
      if k_ == 'b':
        return _np.array(emap(bool, _np.array(x, dtype=object)), dtype=dtype)
    return _np.array(x, dtype=dtype, **k)
  if isinstance(x, types.GeneratorType) or has_str(x):
    if dtype is not None:
      def tofloat(e):
        return SymFloat(e) if isinstance(e, str) else lift(e)
      return emap(tofloat, _np.array(x, dtype=object))
    a = _np.array(x, **k)
    return a.view(StrArray) if a.dtype.kind == 'U' else a
  if has_sym(x) or has_float(x) or dtype is not None or (isinstance(x, (list, tuple)) and len(x) == 0):
    if isinstance(x, (list, tuple)) and has_sym(x):
      a = _np.array(_to_lists(x), dtype=object)
    else:
      a = _np.array(x, dtype=object if not isinstance(x, _np.ndarray) else None)
    a = lift_arr(a)
    if isinstance(x, _np.matrix):
      a = _np.asmatrix(a)
    if ndmin > a.ndim:
      a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a
  return _np.array(x, ndmin=ndmin, **k)


def _to_lists(x):
  if isinstance(x, _np.ndarray):
    return x.tolist() if x.dtype != object else [_to_lists(i) for i in x] if x.ndim else x[()]
  if isinstance(x, (list, tuple)):
    return [_to_lists(i) for i in x]
  return x


def asarray(x, dtype=None, **k):
  if isinstance(x, _np.ndarray) and not isinstance(x, _np.matrix):
    if x.dtype == object or (x.dtype.kind in 'iubUS' and dtype is None):
      return x
  if isinstance(x, _np.matrix):
    return _np.asarray(x) if x.dtype == object else lift_arr(_np.asarray(x))
  return array(x, dtype=dtype)


def _full(shape, v):
  a = _np.empty(shape, dtype=object)
  a.fill(v)
  return a


def zeros(shape, dtype=None, **k):
  if dtype is not None and not _is_float_dtype(dtype):
    return _np.zeros(shape, dtype=dtype)
  return _full(shape, Sym(ZERO))


def ones(shape, dtype=None, **k):
  if dtype is not None and not _is_float_dtype(dtype):
    return _np.ones(shape, dtype=dtype)
  return _full(shape, Sym(ONE))


def full(shape, v, dtype=None, **k):
  if isinstance(v, (bool, int, _np.integer)) and not _is_float_dtype(dtype):
    return _np.full(shape, v, dtype=dtype)
  return _full(shape, lift(v))


def eye(n, m=None, k=0, dtype=None, **kw):
  if dtype is not None and not _is_float_dtype(dtype):
    return _np.eye(n, m, k, dtype=dtype)
  return lift_arr(_np.eye(n, m, k))


# -- closeness as one condition ----------------------------------------------
def close_cond(a, b, rtol, atol):
  a, b = lift(a), lift(b)
  if not isinstance(a, Sym) or not isinstance(b, Sym):
    if isinstance(a, Sym) or isinstance(b, Sym):
      return FALSE
    return TRUE if (a == b and not _math.isnan(a)) else FALSE
  rtol, atol = lift(rtol), lift(atol)
  d = a - b
  if d.num.is_zero():
    return TRUE
  s = sym.sym_sign(b)
  rb = rtol * b
  if rtol.is_const() and rtol.const() == 0:
    return b_and([d <= atol, -d <= atol])
  if s in ('+', '0+', '0'):
    return b_and([d <= atol + rb, -d <= atol + rb])
  if s in ('-', '0-'):
    return b_and([d <= atol - rb, -d <= atol - rb])
  return b_and([b_or([d <= atol + rb, d <= atol - rb]),
                b_or([-d <= atol + rb, -d <= atol - rb])])


def isclose(a, b, rtol=1.e-5, atol=1.e-8, equal_nan=False):
  return emap2(lambda x, y: close_cond(x, y, rtol, atol), a, b)


def allclose(a, b, rtol=1.e-5, atol=1.e-8, equal_nan=False):
  r = isclose(a, b, rtol, atol)
  if isinstance(r, _np.ndarray):
    return b_and([to_sb(x) for x in r.ravel()])
  return r


def _all(a, axis=None, **k):
  if isinstance(a, (SB, bool)):
    return a
  a = _np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a
  if axis is None and a.dtype == object:
    return b_and([to_sb(x) for x in a.ravel()])
  return _np.all(a, axis=axis, **k)


def _any(a, axis=None, **k):
  if isinstance(a, (SB, bool)):
    return a
  a = _np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a
  if axis is None and a.dtype == object:
    return b_or([to_sb(x) for x in a.ravel()])
  return _np.any(a, axis=axis, **k)


def _absolute(x):
  return emap(lambda e: abs(lift(e)), x)


def _clip1(x, lo, hi):
  x = lift(x)
  if not isinstance(x, Sym) and x != x:
    return x
  if lo is not None and bool(lift(lo) > x):
    x = lift(lo)
  if hi is not None and bool(lift(hi) < x):
    x = lift(hi)
  return x


def clip(a, a_min=None, a_max=None, **k):
  if isinstance(a_min, _np.ndarray) or isinstance(a_max, _np.ndarray):
    r = emap2(lambda x, m: _clip1(x, m, None), a, a_min)
    return emap2(lambda x, m: _clip1(x, None, m), r, a_max)
  return emap(lambda x: _clip1(x, a_min, a_max), a)


def _isnan1(x):
  return (not isinstance(x, Sym)) and isinstance(x, float) and x != x


def isnan(x):
  r = emap(_isnan1, x)
  return r.astype(bool) if isinstance(r, _np.ndarray) else r


def isfinite(x):
  def f(e):
    return isinstance(e, Sym) or not (_math.isnan(e) or _math.isinf(e))
  r = emap(f, x)
  return r.astype(bool) if isinstance(r, _np.ndarray) else r


def isinf(x):
  def f(e):
    return not isinstance(e, Sym) and _math.isinf(e)
  r = emap(f, x)
  return r.astype(bool) if isinstance(r, _np.ndarray) else r


def _sum(a, axis=None, **k):
  if isinstance(a, (list, tuple)):
    a = array(a)
  if isinstance(a, _np.ndarray) and a.dtype == object and a.size == 0 and axis is None:
    return lift(0)
  return _np.sum(a, axis=axis, **k)


def mean(a, axis=None, **k):
  if isinstance(a, (list, tuple)):
    a = array(a)
  if a.dtype != object:
    a = lift_arr(a)
  if axis is None:
    if a.size == 0:
      return NAN
    return lift(_np.sum(a)) / a.size
  return _np.sum(a, axis=axis) / a.shape[axis]


def _sorted_syms(v):
  """ascending order; forks on comparisons"""
  out = []
  for x in v:
    i = len(out)
    while i > 0 and bool(out[i - 1] > x):
      i -= 1
    out.insert(i, x)
  return out


def median(a, axis=None, **k):
  a = asarray(a)
  if axis is not None:
    raise Unsupported('median axis')
  if a.size == 0:
    return NAN
  v = _sorted_syms([lift(x) for x in a.ravel()])
  n = len(v)
  if n % 2:
    return v[n // 2]
  return (v[n // 2 - 1] + v[n // 2]) / 2


def percentile(a, q, axis=None, **k):
  c = sym.CUR
  h = c.stubs.get('percentile')
  if h is not None:
    return h(a, q)
  v = [lift(x) for x in asarray(a).ravel()]
  if not isinstance(q, Sym) and q == 100 and v:
    m = v[0]
    for x in v[1:]:
      m = _mx(m, x)
    return m
  v = _sorted_syms(v)
  pos = lift(q) / 100 * (len(v) - 1)
  i = int(pos)
  if i >= len(v) - 1:
    return v[-1]
  return v[i] + (v[i + 1] - v[i]) * (pos - i)


def norm(x, ord=None, axis=None, **k):
  if isinstance(x, (list, tuple)):
    x = array(x)
  if isinstance(x, _np.ndarray) and x.ndim == 1 and ord in (1, _np.inf) and axis in (None, 0):
    return _sum(_absolute(x)) if ord == 1 else _max(_absolute(x))
  if ord not in (None, 2, 'fro'):
    raise Unsupported('norm ord')
  if ord == 2 and isinstance(x, _np.ndarray) and x.ndim > 1 and axis is None:
    raise Unsupported('spectral norm')
  if not isinstance(x, _np.ndarray):
    return abs(lift(x))
  x = lift_arr(x)
  if axis is None:
    s = lift(0)
    for e in x.ravel():
      s = s + e * e
    return fsqrt(s)
  return emap(fsqrt, _np.sum(x * x, axis=axis))


class Opaque(object):
  """a value the harness does not model; using it is an engine limit, not a verdict"""

  def __init__(self, what):
    object.__setattr__(self, '_what', what)

  def _die(self, *a, **k):
    raise Unsupported('uses the unmodelled value %s' % self._what)

  __getattr__ = __getitem__ = __iter__ = __len__ = __bool__ = __float__ = __add__ = __mul__ = _die
  __lt__ = __gt__ = __le__ = __ge__ = __sub__ = __truediv__ = __neg__ = _die

  def __repr__(self):
    return '<unmodelled>'

  def __format__(self, s):
    return '<unmodelled>'


def svd(a, *x, **k):
  h = sym.CUR.stubs.get('svd')
  if h is not None:
    return h(a)
  return Opaque('svd U'), Opaque('svd s'), Opaque('svd V')


def matrix_rank(a, tol=None, **k):
  h = sym.CUR.stubs.get('matrix_rank')
  if h is not None:
    return h(a)
  return Rank(min(a.shape))


class Rank(object):
  """some integer in [0, n]"""

  def __init__(self, n):
    self.n = n

  def _cmp(self, o, f):
    vals = set(f(i, o) for i in range(self.n + 1))
    if len(vals) == 1:
      return vals.pop()
    raise Unsupported('depends on a matrix rank')

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  def __ne__(self, o):
    return self._cmp(o, lambda a, b: a != b)

  def __hash__(self):
    return 7

  def __format__(self, s):
    return '<rank>'


def det(a):
  a = asarray(a)
  n = a.shape[0]
  if n == 1:
    return lift(a[0, 0])
  s = lift(0)
  for j in range(n):
    m = _np.delete(_np.delete(a, 0, 0), j, 1)
    s = s + (1 if j % 2 == 0 else -1) * lift(a[0, j]) * det(m)
  return s


def inv(a):
  a = asarray(a)
  n = a.shape[0]
  d = det(a)
  if bool(lift(d) == 0):
    raise _np.linalg.LinAlgError('Singular matrix')
  out = zeros((n, n))
  for i in range(n):
    for j in range(n):
      m = _np.delete(_np.delete(a, i, 0), j, 1)
      out[j, i] = (1 if (i + j) % 2 == 0 else -1) * (det(m) if n > 1 else lift(1)) / d
  return out


def _interp1(x, xp, fp, left, right):
  n = len(xp)
  x = lift(x)
  if bool(x < xp[0]):
    return fp[0] if left is None else lift(left)
  if bool(x > xp[n - 1]):
    return fp[n - 1] if right is None else lift(right)
  if bool(x == xp[n - 1]):
    return fp[n - 1]
  j = 0
  while j < n - 2 and bool(x >= xp[j + 1]):
    j += 1
  if bool(x == xp[j]):
    return fp[j]
  return (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j]) * (x - xp[j]) + fp[j]


def interp(x, xp, fp, left=None, right=None, period=None):
  xp = [lift(e) for e in asarray(xp).ravel()]
  fp = [lift(e) for e in asarray(fp).ravel()]
  if len(xp) != len(fp):
    raise ValueError('fp and xp are not of the same length.')
  if not xp:
    raise ValueError('array of sample points is empty')
  return emap(lambda e: _interp1(e, xp, fp, left, right), x)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
  if isinstance(num, (Sym, float)) or not hasattr(num, '__index__'):
    raise TypeError("'%s' object cannot be interpreted as an integer" % (
        'numpy.float64' if isinstance(num, Sym) else type(num).__name__))
  num = num.__index__()
  if num < 0:
    raise ValueError('Number of samples, %s, must be non-negative.' % num)
  start, stop = lift(start), lift(stop)
  div = num - 1 if endpoint else num
  out = zeros(num)
  for i in range(num):
    out[i] = start + (stop - start) * Fraction(i, div) if div > 0 else start
  if endpoint and num > 1:
    out[-1] = stop
  if retstep:
    return out, (stop - start) / div
  return out


def arange(*a, **k):
  if any(isinstance(x, Sym) for x in a):
    if len(a) == 1:
      start, stop, step = lift(0), lift(a[0]), lift(1)
    else:
      start, stop = lift(a[0]), lift(a[1])
      step = lift(a[2]) if len(a) > 2 else lift(1)
    n = _math.ceil((stop - start) / step)
    return array([start + step * i for i in range(max(0, n))])
  r = _np.arange(*a, **k)
  return lift_arr(r) if r.dtype.kind == 'f' else r


def diff(a, n=1, axis=-1, **k):
  a = asarray(a)
  return _np.diff(a, n=n, axis=axis, **k)


def argmax(a, axis=None, **k):
  a = asarray(a)
  if axis is not None or a.dtype != object:
    return _np.argmax(a, axis=axis)
  v = [lift(x) for x in a.ravel()]
  return argbest(v, lambda x, y: x > y, 'argmax')


def argmin(a, axis=None, **k):
  a = asarray(a)
  if axis is not None or a.dtype != object:
    return _np.argmin(a, axis=axis)
  v = [lift(x) for x in a.ravel()]
  return argbest(v, lambda x, y: x < y, 'argmin')


def argbest(v, better, what):
  """first extremal index, one fork per candidate index"""
  c = sym.CUR
  for i in range(len(v) - 1):
    cond = b_and([to_sb(better(v[i], v[j])) for j in range(i)] +
                 [to_sb(better(v[j], v[i])).negate() for j in range(i + 1, len(v))])
    if bool(cond):
      return i
  return len(v) - 1


def _max(a, axis=None, **k):
  a = asarray(a)
  if axis is None and a.dtype == object:
    v = [lift(x) for x in a.ravel()]
    return v[argbest(v, lambda x, y: x > y, 'max')]
  return _np.max(a, axis=axis, **k)


def _min(a, axis=None, **k):
  a = asarray(a)
  if axis is None and a.dtype == object:
    v = [lift(x) for x in a.ravel()]
    return v[argbest(v, lambda x, y: x < y, 'min')]
  return _np.min(a, axis=axis, **k)


def _mx(x, y):
  x, y = lift(x), lift(y)
  if _isnan1(x) or _isnan1(y):
    return NAN
  return x if bool(to_sb(x >= y)) else y


def _mn(x, y):
  x, y = lift(x), lift(y)
  if _isnan1(x) or _isnan1(y):
    return NAN
  return x if bool(to_sb(x <= y)) else y


def array_equal(a, b, **k):
  a, b = asarray(a), asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype != object and b.dtype != object:
    return _np.array_equal(a, b)
  return b_and([to_sb(x == y) for x, y in zip(a.ravel(), b.ravel())])


def _floor1(x):
  x = lift(x)
  return x.floor() if isinstance(x, Sym) else x


def _ceil1(x):
  x = lift(x)
  return x.ceil() if isinstance(x, Sym) else x


def _var(a, axis=None, ddof=0, **k):
  a = lift_arr(asarray(a))
  if axis is not None:
    return _np.apply_along_axis(lambda v: _var(v, ddof=ddof), axis, a)
  m = mean(a)
  return _sum((a - m) * (a - m)) / (a.size - ddof)


def _std(a, axis=None, ddof=0, **k):
  return emap(fsqrt, _var(a, axis, ddof))


class _Extremum(object):
  """numpy.maximum and minimum"""

  def __init__(self, two, one):
    self.two, self.one = two, one

  def __call__(self, a, b):
    return emap2(self.two, a, b)

  def reduce(self, a, axis=0):
    return self.one(a, axis=None if _np.ndim(a) == 1 else axis)

  def accumulate(self, a, axis=0):
    a = lift_arr(asarray(a))
    if a.ndim != 1:
      raise Unsupported('accumulate')
    out = [a[0]]
    for x in a[1:]:
      out.append(self.two(out[-1], x))
    return array(out)


def _fromiter(it, dtype=None, count=-1):
  return array(list(it), dtype=dtype)


def _dot(a, b, **k):
  return _np.dot(asarray(a) if isinstance(a, (list, tuple, _np.ndarray)) else a,
                 asarray(b) if isinstance(b, (list, tuple, _np.ndarray)) else b)


def _power(a, b):
  return emap(lambda x: x if _isnan1(x) else lift(x) ** b, a)


def _append(a, v, axis=None):
  return _np.append(asarray(a), asarray(v), axis=axis)


def _mod(a, m):
  return emap(lambda x: x if not isinstance(lift(x), Sym) else lift(x) % m, a)


def _around(a, decimals=0, out=None):
  return emap(lambda x: x if not isinstance(lift(x), Sym) else lift(x).rint() if not decimals else round(lift(x), decimals), a)


def _copysign(x, y):
  x, y = lift(x), lift(y)
  x = x if bool(x >= 0) else -x
  return x if bool(y >= 0) else -x


def _fmod(x, y):
  x, y = lift(x), lift(y)
  return x - y * int(x / y)


def _average(a, axis=None, weights=None, **k):
  if weights is None:
    return mean(a, axis)
  if axis is not None:
    raise Unsupported('weighted average along an axis')
  a, w = asarray(a), asarray(weights)
  return lift(_np.sum(a * w)) / lift(_np.sum(w))


def _exp1(x):
  x = lift(x)
  if x.is_const() and x.const() == 0:
    return lift(1)
  raise Unsupported('exp')


def solve(a, b):
  return _np.dot(inv(a), asarray(b))


def _unary(f):
  def g(x, *a, **k):
    return emap(lambda e: f(lift(e)), x)
  return g


def _deg(x):
  return x if not isinstance(x, Sym) else x.degrees()


def _rad(x):
  return x if not isinstance(x, Sym) else x.radians()


class FloatMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (float, Sym, _np.floating))

  def __call__(cls, x=0.0, *a):
    if isinstance(x, str):
      if x.strip().startswith('\u27e6'):
        return sym.CUR.untoken(x)
      return lift(float(x))
    if isinstance(x, _np.ndarray) and x.size == 1:
      x = x.ravel()[0]
    if isinstance(x, (Sym,)):
      return x
    if isinstance(x, _np.ndarray):
      return lift_arr(x)
    if isinstance(x, (Opaque,)):
      return x
    return lift(float(x))


class SymFloat(metaclass=FloatMeta):
  _symx_float = True
  dtype = _np.dtype(object)


class NS(object):

  def __init__(self, base, name, **kw):
    self.__dict__['_base'] = base
    self.__dict__['__name__'] = name
    self.__dict__.update(kw)

  def __getattr__(self, k):
    return getattr(self._base, k)


# draws keep away from the ends of their range, where rounding decides comparisons
U = (Fraction(1, 10 ** 6), 1 - Fraction(1, 10 ** 6))


class _Random(object):
  """numpy.random / random: every draw is an unconstrained value of its documented range"""

  @staticmethod
  def uniform(low=0.0, high=1.0, size=None):
    c = sym.CUR

    def one():
      return lift(low) + c.fresh('u', *U) * (lift(high) - lift(low))
    if size is None:
      return one()
    n = size if isinstance(size, int) else int(_np.prod(size))
    a = _np.empty(n, dtype=object)
    if n == 3 and c.directions:
      d = c.directions[c.choose_fresh(len(c.directions), 'direction')]
      for i in range(n):
        a[i] = lift(low) + Fraction(d[i]) * (lift(high) - lift(low))
      return a.reshape(size)
    for i in range(n):
      a[i] = one()
    if n > 1:
      # a drawn vector is not (nearly) zero
      r = lift(high) - lift(low)
      c.assume(sum((x * x for x in a), lift(0)) >= r * r * Fraction(1, 10 ** 10))
    return a.reshape(size)

  @staticmethod
  def rand(*shape):
    return _Random.uniform(0., 1., shape if shape else None)

  @staticmethod
  def _many(size, f):
    if size is None:
      return f()
    n = size if isinstance(size, int) else int(_np.prod(size))
    v = [f() for _ in range(n)]
    if any(isinstance(x, Sym) for x in v):
      a = _np.empty(n, dtype=object)
      a[:] = v
    else:
      a = _np.array(v)
    return a.reshape(size)

  @staticmethod
  def normal(loc=0.0, scale=1.0, size=None):
    # any value within eight standard deviations
    return _Random._many(size, lambda: lift(loc) + sym.CUR.fresh('g', -8, 8) * lift(scale))

  @staticmethod
  def standard_normal(size=None):
    return _Random.normal(0., 1., size)

  @staticmethod
  def randn(*shape):
    return _Random.normal(0., 1., shape if shape else None)

  @staticmethod
  def random(size=None):
    return _Random.uniform(0., 1., size)

  random_sample = random

  @staticmethod
  def randint(low, high=None, size=None, dtype=int):
    low, high = (0, low) if high is None else (low, high)
    low, high = int(low), int(high)
    if high <= low:
      raise ValueError('low >= high')
    return _Random._many(size, lambda: low + sym.CUR.choose_fresh(high - low, 'randint'))

  integers = randint

  @staticmethod
  def choice(a, size=None, replace=True, p=None):
    if p is not None:
      raise Unsupported('choice with probabilities')
    pop = list(range(a)) if isinstance(a, (int, _np.integer)) else list(a)
    if size is None:
      return pop[sym.CUR.choose_fresh(len(pop), 'choice')]
    n = size if isinstance(size, int) else int(_np.prod(size))
    if replace:
      out = [pop[sym.CUR.choose_fresh(len(pop), 'choice')] for _ in range(n)]
    else:
      if n > len(pop):
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
      out = [pop.pop(sym.CUR.choose_fresh(len(pop), 'sample')) for _ in range(n)]
      sym.CUR.drawn.append(list(out))
    return array(out).reshape(size)

  @staticmethod
  def shuffle(seq):
    rest = list(seq)
    for i in range(len(rest)):
      seq[i] = rest.pop(sym.CUR.choose_fresh(len(rest), 'shuffle'))

  @staticmethod
  def permutation(a):
    out = list(range(a)) if isinstance(a, (int, _np.integer)) else list(a)
    _Random.shuffle(out)
    return array(out)

  @staticmethod
  def seed(*a):
    return None

  @staticmethod
  def default_rng(*a):
    return _Random()

  def __getattr__(self, k):
    raise Unsupported('random.' + k)


linalg = NS(_np.linalg, 'numpy.linalg', norm=norm, svd=svd, matrix_rank=matrix_rank, det=det, inv=inv, solve=solve)


def assert_allclose(actual, desired, rtol=1e-7, atol=0, equal_nan=True, err_msg='', verbose=True):
  a, d = actual, desired
  r = isclose(a, d, rtol, atol)
  c = b_and([to_sb(x) for x in r.ravel()]) if isinstance(r, _np.ndarray) else r
  if not bool(c):
    raise AssertionError('Not equal to tolerance rtol=%s, atol=%s' % (rtol, atol))


def assert_almost_equal(a, d, decimal=7, **k):
  assert_allclose(a, d, rtol=0, atol=1.5 * 10 ** -decimal)


testing = NS(_np.testing, 'numpy.testing', assert_allclose=assert_allclose,
             assert_almost_equal=assert_almost_equal, assert_array_almost_equal=assert_almost_equal)

class CharArray(object):
  """numpy.char.array: texts of numbers, either str or bytes, joined element by element"""

  def __init__(self, items, text):
    self.items = items
    self.text = text
    self.shape = (len(items),)

  def _with(self, o, swap):
    if isinstance(o, (str, bytes)):
      other, text = [o] * len(self.items), isinstance(o, str)
    elif isinstance(o, CharArray):
      other, text = o.items, o.text
      if len(other) != len(self.items):
        raise ValueError('operands could not be broadcast together')
    elif isinstance(o, (list, _np.ndarray)) and all(isinstance(x, str) for x in o):
      other, text = list(o), True
    else:
      return NotImplemented
    if text != self.text:
      raise TypeError('np.char.add() requires both arrays of the same dtype kind')
    return CharArray([(b + a if swap else a + b) for a, b in zip(self.items, other)], text)

  def __add__(self, o):
    return self._with(o, False)

  def __radd__(self, o):
    return self._with(o, True)

  def __iter__(self):
    return iter(self.items)

  def __len__(self):
    return len(self.items)

  def __getitem__(self, k):
    return self.items[k] if isinstance(k, int) else CharArray(self.items[k], self.text)

  def tolist(self):
    return list(self.items)


def _char_array(obj, itemsize=None, copy=True, unicode=None, order=None):
  if isinstance(obj, CharArray):
    return CharArray(list(obj.items), obj.text)
  a = asarray(obj)
  if a.ndim != 1:
    raise Unsupported('text arrays of %d dimensions' % a.ndim)
  text = bool(unicode) if unicode is not None else any(isinstance(x, str) for x in a)
  items = [x if isinstance(x, str) else str(float(x)) if isinstance(x, Sym) and x.is_const() else str(x) for x in a]
  return CharArray(items if text else [x.encode('utf-8') for x in items], text)


class StructRow(object):
  """one record"""

  def __init__(self, names, values):
    self.names = names
    self.values = values

  def __getitem__(self, k):
    if isinstance(k, str):
      if k not in self.names:
        raise ValueError('no field of name ' + k)
      k = self.names.index(k)
    return self.values[k]

  def __setitem__(self, k, v):
    self.values[self.names.index(k) if isinstance(k, str) else k] = v

  def __len__(self):
    return len(self.values)

  def __iter__(self):
    return iter(self.values)

  def item(self):
    return tuple(self.values)

  def copy(self):
    return StructRow(self.names, list(self.values))


class StructArray(object):
  """a record array; a single record read from a file has no dimension, as in numpy"""

  def __init__(self, dtype, rows, scalar=False):
    self.dtype = dtype
    self.rows = rows
    self.scalar = scalar
    self.shape = () if scalar else (len(rows),)
    self.ndim = len(self.shape)
    self.size = len(rows)

  def copy(self):
    return StructArray(self.dtype, [r.copy() for r in self.rows], self.scalar)

  def __len__(self):
    if self.scalar:
      raise TypeError('len() of unsized object')
    return len(self.rows)

  def __iter__(self):
    if self.scalar:
      raise TypeError('iteration over a 0-d array')
    return iter(self.rows)

  def __getitem__(self, k):
    if isinstance(k, str):
      v = [r[k] for r in self.rows]
      return v[0] if self.scalar else array(v)
    if self.scalar:
      raise IndexError('too many indices for array')
    if isinstance(k, int):
      return self.rows[k]
    if isinstance(k, slice):
      return StructArray(self.dtype, self.rows[k])
    return StructArray(self.dtype, [r for r, m in zip(self.rows, k) if m])

  def ravel(self):
    return StructArray(self.dtype, self.rows)

  flatten = ravel

  def reshape(self, *a):
    if a not in ((-1,), ((-1,),), (len(self.rows),)):
      raise Unsupported('shape %r of a record array' % (a,))
    return self.ravel()

  def tolist(self):
    return [tuple(r) for r in self.rows]


def _with_records(f, of_list):
  def g(a, *r, **k):
    if of_list:
      if any(isinstance(x, StructArray) for x in a):
        return StructArray(a[0].dtype, [y for x in a for y in x.rows])
    elif isinstance(a, StructArray) or any(isinstance(x, StructArray) for x in r[:1]):
      b = [x for x in (a,) + r if isinstance(x, StructArray)]
      if len(b) != 1 + len(r):
        raise Unsupported('records together with something else')
      return StructArray(b[0].dtype, [y for x in b for y in x.rows])
    return f(a, *r, **k)
  return g


OVER = dict(
    char=NS(_np.char, 'char', array=_char_array, asarray=_char_array),
    atleast_1d=_with_records(_np.atleast_1d, False), concatenate=_with_records(_np.concatenate, True), hstack=_with_records(_np.hstack, True),
    array=array, asarray=asarray, zeros=zeros, ones=ones, empty=zeros, full=full,
    identity=lambda n, dtype=None: eye(n, dtype=dtype), eye=eye,
    zeros_like=lambda a, **k: zeros(_np.shape(a)), ones_like=lambda a, **k: ones(_np.shape(a)),
    empty_like=lambda a, **k: zeros(_np.shape(a)),
    sqrt=_unary(fsqrt), cos=_unary(fcos), sin=_unary(fsin), arccos=_unary(facos),
    tan=_unary(lambda x: fsin(x) / fcos(x)),
    arcsin=_unary(lambda x: lift(x).arcsin() if isinstance(x, Sym) else NAN),
    arctan=_unary(lambda x: fatan2(x, lift(1))),
    arctan2=lambda y, x: emap2(lambda a, b: fatan2(lift(a), lift(b)), y, x),
    log=_unary(flog), log1p=_unary(lambda x: flog(1 + x)), log2=_unary(lambda x: flog(x) / flog(lift(2))), log10=_unary(lambda x: flog(x) / flog(lift(10))),
    degrees=_unary(_deg), rad2deg=_unary(_deg), radians=_unary(_rad), deg2rad=_unary(_rad),
    isclose=isclose, allclose=allclose, all=_all, any=_any, absolute=_absolute, abs=_absolute,
    fabs=_absolute, clip=clip, isnan=isnan, isfinite=isfinite, isinf=isinf, sum=_sum, mean=mean,
    average=_average, median=median, percentile=percentile, linalg=linalg, testing=testing,
    interp=interp, linspace=linspace, arange=arange, diff=diff, argmax=argmax, argmin=argmin,
    max=_max, min=_min, amax=_max, amin=_min,
    maximum=_Extremum(_mx, _max), minimum=_Extremum(_mn, _min), fmax=_Extremum(_mx, _max), fmin=_Extremum(_mn, _min),
    fromiter=_fromiter, asfarray=lambda a, dtype=None: asarray(a, dtype=float), float_power=_power,
    divmod=lambda a, m: (emap2(lambda x, y: lift(x) // lift(y), a, m), _mod(a, m)),
    array_equal=array_equal, floor=_unary(_floor1), ceil=_unary(_ceil1), std=_std, var=_var,
    dot=_dot, power=_power, square=lambda x: emap(lambda e: e if _isnan1(e) else lift(e) * lift(e), x),
    round=_around, around=_around, round_=_around, rint=_around, exp=_unary(_exp1),
    hypot=lambda a, b: emap2(lambda x, y: fsqrt(lift(x) * lift(x) + lift(y) * lift(y)), a, b),
    copysign=lambda a, b: emap2(_copysign, a, b), fmod=lambda a, b: emap2(_fmod, a, b),
    append=_with_records(_append, False), mod=_mod, remainder=_mod, float64=SymFloat, float32=SymFloat, float_=SymFloat,
    double=SymFloat, random=_Random(),
)


def _opened(fs, f, mode):
  if fs is None:
    raise Unsupported('file access')
  if hasattr(f, 'read') or hasattr(f, 'write'):
    return f, False
  return fs.open(f, mode), True


def text_io(fs):
  """numpy's text files"""
  import re
  spec = re.compile(r'%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z]')

  def fmt1(f, v):
    m = spec.search(f)
    if m is None:
      raise ValueError('invalid fmt: %r' % f)
    v = lift(v)
    t = (m.group(0) % float(v.const())) if v.is_const() else sym.CUR.token(v, m.group(0))
    return f[:m.start()] + t + f[m.end():]

  def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
    X = asarray(X)
    if X.ndim == 0 or X.ndim > 2:
      raise ValueError('Expected 1D or 2D array, got %dD array instead' % X.ndim)
    if X.ndim == 1:
      X = X.reshape(-1, 1)
    n = X.shape[1]
    fh, own = _opened(fs, fname, 'w')
    if header:
      fh.write(comments + header.replace('\n', '\n' + comments) + newline)
    for row in X:
      if isinstance(fmt, (list, tuple)):
        if len(fmt) != n:
          raise AttributeError('fmt has wrong shape.  %s' % str(fmt))
        fh.write(delimiter.join(fmt1(f, v) for f, v in zip(fmt, row)) + newline)
      elif len(spec.findall(fmt)) == 1:
        fh.write(delimiter.join(fmt1(fmt, v) for v in row) + newline)
      else:
        text = ''
        rest = fmt
        for v in row:
          m = spec.search(rest)
          if m is None:
            raise ValueError('fmt has wrong number of %% formats:  %s' % fmt)
          text += fmt1(rest[:m.end()], v)
          rest = rest[m.end():]
        fh.write(text + rest + newline)
    if footer:
      fh.write(comments + footer.replace('\n', '\n' + comments) + newline)
    if own:
      fh.close()

  def loadtxt(fname, dtype=float, comments='#', delimiter=None, skiprows=0, ndmin=0, **k):
    if k:
      raise Unsupported('loadtxt with %s' % sorted(k))
    fh, own = _opened(fs, fname, 'r')
    rows = []
    for i, line in enumerate(fh):
      if i < skiprows:
        continue
      if comments:
        line = line.split(comments)[0]
      line = line.strip()
      if line:
        rows.append([SymFloat(x) for x in line.split(delimiter)])
    if own:
      fh.close()
    a = array(rows)
    if ndmin < 2 and a.ndim == 2:
      a = a.reshape(-1) if 1 in a.shape else a
    if ndmin == 0 and a.size == 1:
      a = a.reshape(())
    return a

  def genfromtxt(fname, dtype=float, comments='#', delimiter=None, skip_header=0, max_rows=None, **k):
    k = {a: b for a, b in k.items() if b is not None and a != 'encoding'}
    names = getattr(dtype, 'names', None)
    if dtype is not str and dtype is not _np.str_ and names is None and max_rows is None:
      return loadtxt(fname, dtype, comments, delimiter, skip_header, **k)
    if k:
      raise Unsupported('genfromtxt with %s' % sorted(k))
    fh, own = _opened(fs, fname, 'r')
    rows = []
    for i, line in enumerate(fh):
      line = (line.split(comments)[0] if comments else line).rstrip('\r\n')
      if i >= skip_header and line.strip() and (max_rows is None or len(rows) < max_rows):
        rows.append(line.split(delimiter))
    if own:
      fh.close()
    if names is None:
      if any(len(r) != len(rows[0]) for r in rows):
        raise ValueError('Some errors were detected !')
      a = _np.array(rows, dtype=object)
      return a.reshape(()) if a.size == 1 else a.reshape(-1) if 1 in a.shape else a
    kinds = [dtype.fields[n][0] for n in names]
    if any(len(r) != len(names) for r in rows):
      raise ValueError('Some errors were detected !')
    return StructArray(dtype, [StructRow(names, [_field(d, x) for d, x in zip(kinds, r)]) for r in rows], len(rows) == 1)

  def _field(d, x):
    if d.kind == 'U':
      return x[:d.itemsize // 4]
    if d.kind == 'b':
      if x.strip().upper() in ('TRUE', 'FALSE'):
        return x.strip().upper() == 'TRUE'
      if x.strip() == '':
        return False
      raise Unsupported('%r read as a truth value' % x)
    if d.kind in 'iu':
      v = x.strip()
      if v.startswith('\u27e6'):
        return SymFloat(v)
      try:
        return int(v)
      except ValueError:
        raise Unsupported('%r read as a whole number' % x)
    if d.kind in 'fO':
      try:
        return SymFloat(x)
      except ValueError:
        return NAN
    raise Unsupported('record field of kind %s' % d.kind)
  return dict(savetxt=savetxt, loadtxt=loadtxt, genfromtxt=genfromtxt)


def ast_shim():
  """ast.literal_eval of texts that contain symbolic numbers"""
  import ast
  import re
  m = types.ModuleType('ast')
  m.__dict__.update(ast.__dict__)

  def literal_eval(text):
    if not isinstance(text, str) or '\u27e6' not in text:
      return ast.literal_eval(text)
    found = []

    def name(t):
      found.append(sym.CUR.untoken(t.group(0)))
      return ' "\u27e6%d" ' % (len(found) - 1)

    def back(o):
      if isinstance(o, (list, tuple)):
        return type(o)(back(x) for x in o)
      if isinstance(o, str) and o.startswith('\u27e6'):
        return found[int(o[1:])]
      return o
    return back(ast.literal_eval(re.sub('\u27e6[0-9]*\u27e7', name, text)))
  m.literal_eval = literal_eval
  return m


def json_shim():
  """json with symbolic numbers kept as texts that stand for them"""
  import json

  def enc(o):
    if isinstance(o, Sym):
      c = o.const() if o.is_const() else None
      return float(c) if c is not None and Fraction(float(c)) == c else '\u27e6json' + sym.CUR.token(o)
    if isinstance(o, dict):
      return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
      return [enc(v) for v in o]
    return o

  def dec(o):
    if isinstance(o, str) and o.startswith('\u27e6json'):
      return sym.CUR.untoken(o[5:])
    if isinstance(o, dict):
      return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
      return [dec(v) for v in o]
    return lift(o) if isinstance(o, float) else o
  m = types.ModuleType('json')
  m.__dict__.update(json.__dict__)
  m.dump = lambda o, f, **k: f.write(json.dumps(enc(o), **k))
  m.dumps = lambda o, **k: json.dumps(enc(o), **k)
  m.load = lambda f, **k: dec(json.loads(f.read(), **k))
  m.loads = lambda s, **k: dec(json.loads(s, **k))
  return m


class NumpyShim(types.ModuleType):

  def __init__(self, fs=None):
    types.ModuleType.__init__(self, 'numpy')
    self.__dict__.update(OVER)
    self.__dict__.update(text_io(fs))
    self.__path__ = []

  def __getattr__(self, k):
    if k == 'math':
      return mathshim
    return getattr(_np, k)


# -- math ----------------------------------------------------------------------
def _scalar(x):
  if isinstance(x, _np.ndarray):
    if x.size != 1:
      raise TypeError('only length-1 arrays can be converted to Python scalars')
    x = x.ravel()[0]
  if not isinstance(x, Sym) and not is_num(x) and not isinstance(x, SB):
    if isinstance(x, Opaque):
      x._die()
    raise TypeError('must be real number, not %s' % type(x).__name__)
  return lift(x)


def _m(f, dom=None):
  def g(x):
    x = _scalar(x)
    if dom is not None and isinstance(x, Sym) and not bool(to_sb(dom(x))):
      raise ValueError('math domain error')
    return f(x)
  return g


mathshim = NS(_math, 'math',
              sqrt=_m(fsqrt, lambda x: x >= 0), cos=_m(fcos), sin=_m(fsin),
              acos=_m(facos, lambda x: b_and([x <= 1, x >= -1])),
              asin=_m(lambda x: x.arcsin(), lambda x: b_and([x <= 1, x >= -1])),
              atan2=lambda y, x: fatan2(_scalar(y), _scalar(x)),
              atan=_m(lambda x: fatan2(x, lift(1))),
              tan=_m(lambda x: fsin(x) / fcos(x)),
              degrees=_m(_deg), radians=_m(_rad), fabs=_m(lambda x: abs(x)),
              log=lambda x, *b: _m(flog, lambda x: x > 0)(x) / (flog(lift(b[0])) if b else 1),
              log1p=_m(lambda x: flog(1 + x), lambda x: x > -1), log2=_m(lambda x: flog(x) / flog(lift(2)), lambda x: x > 0),
              log10=_m(lambda x: flog(x) / flog(lift(10)), lambda x: x > 0),
              pow=lambda a, b: _scalar(a) ** b,
              isnan=lambda x: _isnan1(_scalar(x)),
              isinf=lambda x: not isinstance(_scalar(x), Sym) and _math.isinf(x),
              isfinite=lambda x: isinstance(_scalar(x), Sym),
              isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: _misclose(a, b, rel_tol, abs_tol),
              dist=lambda a, b: fsqrt(sum(((_scalar(x) - _scalar(y)) * (_scalar(x) - _scalar(y)) for x, y in zip(a, b)), lift(0))),
              exp=_m(_exp1), floor=lambda x: _math.floor(_scalar(x)), ceil=lambda x: _math.ceil(_scalar(x)),
              fsum=lambda v: sum((_scalar(x) for x in v), lift(0)), copysign=lambda a, b: _copysign(_scalar(a), _scalar(b)),
              hypot=lambda *a: fsqrt(sum((_scalar(x) * _scalar(x) for x in a), lift(0))))


def _misclose(a, b, rel, ab):
  a, b = _scalar(a), _scalar(b)
  return b_or([close_cond(a, b, rel, ab), close_cond(b, a, rel, ab)])


# -- random --------------------------------------------------------------------
class RandomShim(types.ModuleType):

  def __init__(self):
    types.ModuleType.__init__(self, 'random')

  @staticmethod
  def uniform(a, b):
    return lift(a) + sym.CUR.fresh('u', *U) * (lift(b) - lift(a))

  @staticmethod
  def random():
    return sym.CUR.fresh('u', *U)

  @staticmethod
  def seed(*a, **k):
    return None

  @staticmethod
  def randint(a, b):
    for x in (a, b):
      if isinstance(x, (float, Sym, _np.floating)):
        if not getattr(sym.CUR, 'whole_floats', False):
          raise TypeError("'float' object cannot be interpreted as an integer")
        if int(x) != x:
          raise ValueError('non-integer arg for randrange()')
    a, b = int(a), int(b)
    if b < a:
      raise ValueError('empty range for randrange()')
    return a + sym.CUR.choose_fresh(b - a + 1, 'randint')

  @staticmethod
  def randrange(a, b=None):
    if b is None:
      a, b = 0, a
    return RandomShim.randint(a, b - 1)

  @staticmethod
  def sample(pop, k, **kw):
    if isinstance(pop, (set, frozenset)) or not hasattr(pop, '__getitem__'):
      raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
    pop = list(pop)
    if not 0 <= k <= len(pop):
      raise ValueError('Sample larger than population or is negative')
    out = []
    for _ in range(k):
      i = sym.CUR.choose_fresh(len(pop), 'sample')
      out.append(pop.pop(i))
    sym.CUR.drawn.append(list(out))
    return out

  @staticmethod
  def choice(seq):
    return seq[sym.CUR.choose_fresh(len(seq), 'choice')]

  @staticmethod
  def shuffle(seq):
    rest = list(seq)
    for i in range(len(rest)):
      seq[i] = rest.pop(sym.CUR.choose_fresh(len(rest), 'shuffle'))

  @staticmethod
  def choices(seq, weights=None, cum_weights=None, k=1):
    if weights is not None or cum_weights is not None:
      raise Unsupported('choices with weights')
    return [RandomShim.choice(seq) for _ in range(k)]

  @staticmethod
  def gauss(mu=0.0, sigma=1.0):
    return _Random.normal(mu, sigma)

  normalvariate = gauss

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    raise Unsupported('random.' + k)


# -- scipy.signal --------------------------------------------------------------
def correlate(a, b, mode='full', method='auto'):
  a, b = array(a), array(b)
  if a.ndim != b.ndim:
    raise ValueError('in1 and in2 should have the same dimensionality')
  if a.size == 0 or b.size == 0:
    return array([])
  one = a.ndim == 1
  if one:
    a, b = a.reshape(-1, 1), b.reshape(-1, 1)
  a, b = lift_arr(a), lift_arr(b)
  (n0, n1), (m0, m1) = a.shape, b.shape
  F0, F1 = n0 + m0 - 1, n1 + m1 - 1
  out = zeros((F0, F1))
  for k0 in range(F0):
    for k1 in range(F1):
      s = lift(0)
      for l0 in range(n0):
        j0 = l0 - k0 + m0 - 1
        if not 0 <= j0 < m0:
          continue
        for l1 in range(n1):
          j1 = l1 - k1 + m1 - 1
          if 0 <= j1 < m1:
            s = s + a[l0, l1] * b[j0, j1]
      out[k0, k1] = s
  if mode == 'same':
    s0, s1 = (F0 - n0) // 2, (F1 - n1) // 2
    out = out[s0:s0 + n0, s1:s1 + n1]
  elif mode == 'valid':
    if not (n0 >= m0 and n1 >= m1):
      raise Unsupported('correlate valid with swapped inputs')
    out = out[m0 - 1:n0, m1 - 1:n1]
  elif mode != 'full':
    raise ValueError("acceptable modes are 'valid', 'same', or 'full'")
  return out.reshape(-1) if one else out


def convolve(a, b, mode='full', method='auto'):
  b = array(b)
  b = b[::-1] if b.ndim == 1 else b[::-1, ::-1]
  return correlate(a, b, mode)
