"""P27 transform export"""
from symx.main import Harness
from lib import *

B = ('recordings of 4 or 5 transforms: each of the source frame with a successful or a failing lookup (all three exceptions) or of another '
     'frame, carried by one message each or by a common message, with messages of another topic and empty messages between them; stamps '
     'do not decrease, lie in [1, 1000] and are equal or at least 1e-6 apart; all looked-up numbers')
SC = 'hand_eye_calibration/bin/tf_to_csv.py'


class Duration(object):

  def __init__(self, v=0, nsecs=0):
    self.v = v

  def to_sec(self):
    return self.v


class Time(object):

  def __init__(self, v=0., nsecs=0, i=None):
    self.v = v
    self.i = i

  def to_sec(self):
    return self.v

  def __sub__(self, o):
    return Duration(self.v - o.v) if isinstance(o, Time) else Time(self.v - o.v)

  def __add__(self, o):
    return Time(self.v + o.v)

  def __lt__(self, o):
    return self.v < o.v

  def __le__(self, o):
    return self.v <= o.v

  def __gt__(self, o):
    return self.v > o.v

  def __ge__(self, o):
    return self.v >= o.v

  def __eq__(self, o):
    return isinstance(o, Time) and self.v == o.v

  def __ne__(self, o):
    return not self == o


class Obj(object):

  def __init__(self, **k):
    self.__dict__.update(k)


class LookupException(Exception):
  pass


class ConnectivityException(Exception):
  pass


class ExtrapolationException(Exception):
  pass


FAILS = [LookupException, ConnectivityException, ExtrapolationException]


def world(T, messages, lookup, seen):
  """stand-ins for the ROS modules: a bag with the given messages, a transformer that looks up"""

  class Bag(object):

    def __init__(self, name, mode='r', *a, **k):
      T.check(name == 'the.bag', 'recording opened by its name')
      self.open = True

    def read_messages(self, topics=None, **k):
      for topic, msg in messages:
        if topics is None or topic in topics:
          yield topic, msg, Time(0.)

    def close(self):
      self.open = False

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.close()

  class Transformer(object):

    def __init__(self, *a, **k):
      pass

    def setTransform(self, t, *a):
      seen.append(t)

    def lookupTransform(self, target, source, time):
      return lookup(target, source, time)

  T.module('rosbag', Bag=Bag)
  T.module('rospy', Time=Time, Duration=Duration)
  T.module('tf', Transformer=Transformer, LookupException=LookupException, ConnectivityException=ConnectivityException,
           ExtrapolationException=ExtrapolationException, Exception=Exception)
  T.module('tf2_msgs', msg=None)
  T.module('tf2_msgs.msg', TFMessage=Obj)


def export(n, kinds, first=None):
  def f(T):
    ts, ks, vals = [], [], []
    for i in range(n):
      k = first if first and i == 0 else T.choice('kind%d' % i, kinds)
      t = T.real('t%d' % i, 1, 1000)
      if ts:
        T.assume(T.or_(t == ts[-1], t >= ts[-1] + 1e-6))
      ts.append(t)
      ks.append(k)
      vals.append(T.vec('v%d' % i, 7, -100, 100))
    tfs = [Obj(header=Obj(stamp=Time(PyFloat.of(T, t), i=i), frame_id='world'), child_frame_id='camera' if k != 'other' else 'hand', transform=None)
           for i, (t, k) in enumerate(zip(ts, ks))]
    imu = [('/imu', Obj()), ('/tf', Obj(transforms=[]))]
    if T.choice('together', [False, True]):
      messages = imu[:1] + [('/tf', Obj(transforms=tfs))] + imu[1:]
    else:
      messages = [('/tf', Obj(transforms=[x])) for x in tfs]
      messages = messages[:1] + imu + messages[1:]

    def lookup(target, source, time):
      T.check(target == 'world' and source == 'camera', 'transform from the source to the target frame')
      T.check(getattr(time, 'i', None) is not None and ks[time.i] != 'other', 'looked up at the stamp of the message')
      if ks[time.i] == 'fail':
        raise FAILS[time.i % 3]('no transform')
      v = vals[time.i]
      return ([v[0], v[1], v[2]], [v[3], v[4], v[5], v[6]])

    seen = []
    world(T, messages, lookup, seen)
    T.run(SC, ['--bag', 'the.bag', '--tf_source_frame', 'camera', '--tf_target_frame', 'world', '--csv_output_file', T.path('out.csv')])
    T.check(seen == tfs, 'all recorded transforms are known before the lookups')
    want = []
    count, last = 0, None
    for i in range(n):
      if ks[i] == 'other':
        continue
      if ks[i] == 'fail':
        count += 1 if count else 0
        continue
      count += 1
      repeats = last is not None and T.truth(ts[i] == last)
      last = ts[i]
      if count > 3 and repeats:
        T.cover('dropped')
        continue
      want.append([ts[i]] + list(vals[i]))
    rows = read_rows(T, 'out.csv')
    T.check(len(rows) == len(want), 'one line per usable message')
    if len(rows) == len(want):
      for r, w in zip(rows, want):
        T.check_eq(r, w, 'stamp, position and quaternion')
  f.__name__ = 'export%d%s' % (n, '_' + first if first else '')
  return f


K = ['ok', 'fail', 'other']
HARNESSES = [
    Harness(export(3, K), fs=True, bounds=B),
    Harness(export(4, K), fs=True, bounds=B, covers=('dropped',)),
    Harness(export(5, ['ok', 'fail'], 'ok'), fs=True, bounds=B, covers=('dropped',)),
]
