"""P21 interpolation of a trajectory"""
from symx.main import Harness
from lib import *

B = ('2 to 4 poses (thorough: 6), or up to 14 with given steps and one free position, with steps in [1e-3,10] s, starting at any time in [-10,10] s or within 10 s of unix time 1.5e9 s, positions in '
     '[-10,10]^3; orientations: any two, or any turns about one axis; up to 3 requested times anywhere')
TA = 'hand_eye_calibration.time_alignment'
UNIX = 1500000000


def _times(T, n, base):
  t = [T.real('t0', -10, 10) + base]
  for i in range(1, n):
    t.append(t[-1] + T.real('d%d' % i, 1e-3, 10))
  return t


def _traj(T, ts, ps, qs):
  return T.np.array([[t] + list(p) + list(q) for t, p, q in zip(ts, ps, qs)])


def _kept(T, P, want):
  T.check(P.shape == (len(want), 8), 'input keeps its shape')
  T.check_eq(P, want, 'input is untouched', tol=1e-9)


def positions(n, m, base=0):
  def f(T):
    """any requested times: linear interpolation of the positions, rows in the requested order"""
    M = T.mod(TA)
    ts = _times(T, n, base)
    xs = [T.real('x%d' % i, -10, 10) for i in range(n)]
    ps = [[x, 0., -1.] for x in xs]
    rows = [[t] + p + [0., 0., 0., 1.] for t, p in zip(ts, ps)]
    P = T.np.array(rows)
    ss = [T.real('s%d' % k, -30, 60) + base for k in range(m)]
    for s in ss:
      T.assume(T.and_(s >= ts[0], s <= ts[-1]))
    out = M.interpolate_poses_from_samples(P, T.np.array(ss))
    T.check(T.np.shape(out) == (m, 8), 'one row per requested time')
    for k, s in enumerate(ss):
      T.check_eq(out[k, 0], s, 'rows carry the requested times in order', tol=1e-9)
      i = 0
      while i < n - 2 and T.truth(s > ts[i + 1]):
        i += 1
      # (t_i+1 - t_i) x = ...
      d = ts[i + 1] - ts[i]
      T.check_eq(out[k, 1] * d, xs[i] * (ts[i + 1] - s) + xs[i + 1] * (s - ts[i]), 'linear interpolation of the position', tol=1e-5)
      T.check_eq(out[k, 2:4], [0., -1.], 'other coordinates')
      T.check_eq(out[k, 4:], [0., 0., 0., 1.], 'orientation')
    _kept(T, P, rows)
  f.__name__ = 'positions%d_at%d%s' % (n, m, '_unix' if base else '')
  return f


def many(n, m):
  def f(T):
    """a longer trajectory with given steps, one free pose and any requested times"""
    M = T.mod(TA)
    ts = [5.]
    for i in range(1, n):
      ts.append(ts[-1] + [0.5, 0.25, 1., 0.125][i % 4])
    k = n - 3
    xs = [[i * 0.5, 2. - i, 0.25 * i * i] for i in range(n)]
    xs[k] = list(T.vec('p', 3, -10, 10))
    rows = [[t] + p + [0., 0., 0., 1.] for t, p in zip(ts, xs)]
    P = T.np.array(rows)
    ss = [ts[0] + T.real('f%d' % j, 0, 1) * (ts[-1] - ts[0]) for j in range(m)]
    ss = ss[:1] + [ts[2], ts[5], ts[3], ts[0]] + ss[1:] + [ts[-1]]
    out = M.interpolate_poses_from_samples(P, T.np.array(ss))
    T.check(T.np.shape(out) == (len(ss), 8), 'one row per requested time')
    for j, s in enumerate(ss):
      T.check_eq(out[j, 0], s, 'rows carry the requested times in order', tol=1e-9)
      i = 0
      while i < n - 2 and T.truth(s > ts[i + 1]):
        i += 1
      w = (s - ts[i]) / (ts[i + 1] - ts[i])
      T.check_eq(out[j, 1:4], [a + w * (b - a) for a, b in zip(xs[i], xs[i + 1])], 'linear interpolation of the position', tol=1e-5)
      T.check_eq(out[j, 4:], [0., 0., 0., 1.], 'orientation')
    _kept(T, P, rows)
  f.__name__ = 'many%d_%d' % (n, m)
  return f


def coordinates(T):
  """every coordinate is interpolated from its own column"""
  M = T.mod(TA)
  a, b = T.vec('a', 3, -10, 10), T.vec('b', 3, -10, 10)
  f = T.real('f', 0, 1)
  P = _traj(T, [1., 3.], [a, b], [[0., 0., 0., 1.]] * 2)
  out = M.interpolate_poses_from_samples(P, T.np.array([1 + 2 * f]))
  T.check_eq(out[0, 1:4], [x + f * (y - x) for x, y in zip(a, b)], 'linear interpolation of the position')


def orientation(base):
  def f(T):
    """any two orientations: slerp at exactly the requested time"""
    M = T.mod(TA)
    Q = T.mod('hand_eye_calibration.quaternion')
    u, v, r = unit_pair(T)
    T.assume(T.and_(r[3] * r[3] < 1 - 1e-4, r[3] * r[3] > 1e-4))
    t0, d = T.real('t0', -10, 10) + base, T.real('d1', 1e-3, 10)
    f = T.real('f', 0.01, 0.99)
    P = _traj(T, [t0, t0 + d], [[0., 0., 0.]] * 2, [u, v])
    out = M.interpolate_poses_from_samples(P, T.np.array([t0 + f * d]))
    w = Q.quaternion_slerp(Q.Quaternion(q=u.copy()), Q.Quaternion(q=v.copy()), f).q
    # a time stamp of about 1.5e9 s has a resolution of 2e-7 s
    T.check_eq(out[0, 4:], w, 'spherical interpolation at the requested time', tol=1e-2 if base else 1e-6)
  f.__name__ = 'orientation' + ('_unix' if base else '')
  return f


def at_stamps(n, base):
  def f(T):
    """at the original time stamps it is the original pose"""
    M = T.mod(TA)
    ts = _times(T, n, base)
    ps = [T.vec('p%d' % i, 3, -10, 10) for i in range(n)]
    qs = [T.unit('q%d' % i) for i in range(n)]
    rows = [[t] + list(p) + list(q) for t, p, q in zip(ts, ps, qs)]
    P = T.np.array(rows)
    order = list(range(n))[::-1]
    out = M.interpolate_poses_from_samples(P, T.np.array([ts[i] for i in order]))
    T.check(T.np.shape(out) == (n, 8), 'one row per requested time')
    for k, i in enumerate(order):
      T.check_eq(out[k, :4], rows[i][:4], 'time and position of the original pose')
      same = T.or_(*[T.and_(*[(s * a - b <= 1e-6) & (b - s * a <= 1e-6) for a, b in zip(out[k, 4:], qs[i])]) for s in (1, -1)])
      T.check(same, 'orientation of the original pose')
    _kept(T, P, rows)
  f.__name__ = 'at_stamps%d%s' % (n, '_unix' if base else '')
  return f


def neighbours(n, base):
  def f(T):
    """turns about one axis: the neighbours of the requested time are interpolated"""
    M = T.mod(TA)
    Q = T.mod('hand_eye_calibration.quaternion')
    ts = _times(T, n, base)
    k = T.choice('interval', list(range(n - 1)))
    f = T.real('f', 0.01, 0.99)
    c = [T.unit('q%d' % i, 2) if i in (k, k + 1) else [0.6, 0.8] for i in range(n)]
    e = dot(c[k], c[k + 1])
    T.assume(T.and_(e > 0.1, e < 0.999))
    qs = [[0., x[0], 0., x[1]] for x in c]
    rows = [[t, 0., 0., 0.] + q for t, q in zip(ts, qs)]
    P = T.np.array(rows)
    out = M.interpolate_poses_from_samples(P, T.np.array([ts[k] + f * (ts[k + 1] - ts[k])]))
    w = Q.quaternion_slerp(Q.Quaternion(q=T.np.array(qs[k])), Q.Quaternion(q=T.np.array(qs[k + 1])), f).q
    T.check_eq(out[0, 4:], w, 'spherical interpolation between the neighbours', tol=1e-2 if base else 1e-6)
    _kept(T, P, rows)
  f.__name__ = 'neighbours%d%s' % (n, '_unix' if base else '')
  return f


def outside(base):
  def f(T):
    """times outside the trajectory are refused"""
    M = T.mod(TA)
    ts = _times(T, 3, base)
    P = _traj(T, ts, [[0., 0., 0.]] * 3, [[0., 0., 0., 1.]] * 3)
    s = T.real('s', -100, 100) + base
    T.assume(T.or_(s < ts[0] - 1e-6, s > ts[-1] + 1e-6))
    inside = T.choice('second', [0, 1])
    ss = [s] if not inside else [ts[1], s]
    r, e = T.call(M.interpolate_poses_from_samples, P, T.np.array(ss))
    T.check(e is not None, 'times outside the trajectory are refused')
  f.__name__ = 'outside' + ('_unix' if base else '')
  return f


HARNESSES = [
    Harness(positions(2, 1), bounds=B), Harness(positions(3, 1), bounds=B), Harness(positions(4, 1), bounds=B),
    Harness(positions(2, 3), bounds=B), Harness(positions(3, 2), bounds=B), Harness(positions(3, 1, UNIX), bounds=B),
    Harness(coordinates, bounds=B), Harness(many(9, 1), bounds=B), Harness(many(14, 1), bounds=B),
    Harness(orientation(0), bounds=B), Harness(orientation(UNIX), bounds=B),
    Harness(at_stamps(2, 0), bounds=B), Harness(at_stamps(3, UNIX), bounds=B),
    Harness(neighbours(3, 0), bounds=B), Harness(neighbours(3, UNIX), bounds=B),
    Harness(outside(0), bounds=B), Harness(outside(UNIX), bounds=B),
    Harness(positions(6, 1), bounds=B, tier='thorough'), Harness(neighbours(5, 0), bounds=B, tier='thorough'),
    Harness(positions(4, 2), bounds=B, tier='thorough'),
]
