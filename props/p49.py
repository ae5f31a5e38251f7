"""P49 calibration of two and of a circle of three"""
import json as real_json
import os as real_os
import subprocess as real_subprocess
import sys
import types
from fractions import Fraction

from symx.main import Harness
from symx.sym import Sym
from lib import *

B = ('two or three input files in different directories with different or the same names, no intermediate files present; results of the alignment, of the hand-eye calibration and of the batch '
     'estimation are any time offsets in [-100,100] and positions in [-10,10]^3 with nine given rotations, one of them any; numbers in files are exact')
SC = 'hand_eye_calibration/scripts/close_the_circle_test.py'
BU = 'hand_eye_calibration.bash_utils'
ROT = [[Fraction(x) for x in q.split()] for q in ('0 0 3/5 4/5', '2/7 3/7 0 6/7', '1/2 -1/2 1/2 1/2', '-7/25 0 0 24/25', '0 5/13 0 12/13', '1/9 4/9 0 8/9')]


def num(T, x):
  return Sym.lift(x) if T.symbolic else float(x)


class World(object):
  """the programs that the script starts, replaced by stand-ins that give any results"""

  def __init__(self, T, free):
    self.T, self.free, self.calls = T, free, []
    self.aligned, self.initial, self.final = {}, {}, {}
    self.problem = None
    if not T.symbolic:
      self.old = real_os.getcwd()
      d = real_os.path.dirname(T.path('x'))
      real_os.makedirs(d, exist_ok=True)
      real_os.chdir(d)
      T.mod(BU)
      del sys.modules[BU]
    else:
      self.fake_os()
    world = self

    class Popen(object):

      def __init__(self, args, **k):
        if not isinstance(args, str):
          args = ' '.join(args)
        world.start(args.split())
        self.returncode = 0

      def wait(self, *a, **k):
        return 0

      poll = wait

      def communicate(self, *a, **k):
        return None, None

    def call(args, **k):
      Popen(args)
      return 0

    def run(args, **k):
      return Popen(args)
    T.module('subprocess', Popen=Popen, call=call, check_call=call, run=run, PIPE=-1, STDOUT=-2, DEVNULL=-3, CalledProcessError=real_subprocess.CalledProcessError)

  def close(self):
    if not self.T.symbolic:
      real_os.chdir(self.old)
      sys.modules.pop(BU, None)

  def fake_os(self):
    T, dirs = self.T, set()
    path = types.ModuleType('path')
    path.__dict__.update({k: v for k, v in real_os.path.__dict__.items() if not k.startswith('__')})
    path.exists = path.lexists = lambda p: p in T.fs.files or p in dirs
    path.isfile = lambda p: p in T.fs.files
    path.isdir = lambda p: p in dirs
    path.getmtime = lambda p: 0.0
    attrs = {k: v for k, v in real_os.__dict__.items() if not k.startswith('__')}

    def mkdir(p, *a, **k):
      dirs.add(p)
    attrs.update(path=path, mkdir=mkdir, makedirs=mkdir)
    T.module('os', **attrs)
    T.module('os.path', **path.__dict__)

  def read(self, name):
    if self.T.symbolic:
      return self.T.fs.files.get(name)
    with open(name) as f:
      return f.read()

  def write(self, name, text):
    if self.T.symbolic:
      self.T.fs.files[name] = text
    else:
      with open(name, 'w') as f:
        f.write(text)

  def start(self, words):
    try:
      self.program(words)
    except Exception as e:
      self.problem = self.problem or e
      raise

  def result(self, name, k):
    """any time offset and position, with a given or any rotation"""
    T = self.T
    q = T.unit('q_' + name) if self.free == name else [num(T, x) for x in ROT[k % 6]]
    return T.real('o_' + name, -100, 100), list(T.vec('t_' + name, 3, -10, 10)), list(q)

  def program(self, words):
    T = self.T
    opts, i = {}, 0
    while i < len(words):
      w = words[i]
      if w.startswith('--') and '=' in w:
        k, v = w[2:].split('=', 1)
        opts[k] = v
      elif w.startswith('-') and i + 1 < len(words):
        opts[w.lstrip('-')] = words[i + 1]
        i += 1
      i += 1
    n = len(self.calls)
    if any('compute_aligned_poses' in w for w in words):
      pair = (opts['poses_B_H_csv_file'], opts['poses_W_E_csv_file'])
      self.calls.append(('align', pair))
      self.write(opts['aligned_poses_B_H_csv_file'], 'aligned %s %s 0' % pair)
      self.write(opts['aligned_poses_W_E_csv_file'], 'aligned %s %s 1' % pair)
      off = T.real('a_%d' % n, -100, 100)
      self.aligned[pair] = off
      self.write(opts['time_offset_output_csv_file'], T.number(off) + '\n')
    elif any('compute_hand_eye_calibration' in w for w in words):
      a, b = self.read(opts['aligned_poses_B_H_csv_file']).split(), self.read(opts['aligned_poses_W_E_csv_file']).split()
      T.check(a[1:3] == b[1:3] and a[3] == '0' and b[3] == '1', 'calibrated from both aligned trajectories')
      pair = (a[1], a[2])
      self.calls.append(('calibrate', pair))
      o, t, q = self.result('initial%d' % len(self.initial), len(self.initial))
      self.initial[pair] = (t, q)
      self.write(opts['extrinsics_output_csv_file'], ','.join(T.number(x) for x in t + q) + '\n')
    elif any('batch_estimator' in w for w in words):
      pair = (opts['pose1_csv'], opts['pose2_csv'])
      self.calls.append(('estimate', pair))
      J = T.loader.mods['json'] if T.symbolic else real_json
      g = J.loads(self.read(opts['init_guess_file']))
      T.check(pair in self.initial and pair in self.aligned, 'estimated after alignment and calibration')
      t, q = self.initial[pair]
      T.check_eq(g['delay'], self.aligned[pair], 'initial guess of the time offset', tol=1e-9)
      T.check_eq([g['translation'][c] for c in 'xyz'], t, 'initial guess of the position')
      r = [g['rotation'][c] for c in 'ijkw']
      T.check_eq(r, [-x for x in q] if T.truth(dot(r, q) < 0) else q, 'initial guess of the rotation')
      o, t, q = self.result('final%d' % len(self.final), 3 + len(self.final))
      self.final[pair] = (o, t, q)
      self.write(opts['output_file'], J.dumps({'delay': o, 'translation': dict(zip('xyz', t)), 'rotation': dict(zip('ijkw', q))}))
    else:
      T.check(False, 'known program')


def product(ds):
  r = ds[0]
  for d in ds[1:]:
    r = dqmul(r, d)
  return r


def circle(free):
  def f(T):
    w = World(T, free)
    try:
      inputs = ['/in/one.csv', '/in/x/two.csv', '/in/y/three.csv']
      said = []
      r, e = T.call(T.run, SC, inputs, print=lambda *a, **k: said.append(a))
      if w.problem is not None:
        raise w.problem
      if e is not None:
        raise e
    finally:
      w.close()
    pairs = [(inputs[i], inputs[(i + 1) % 3]) for i in range(3)]
    T.check(w.calls == [(s, p) for p in pairs for s in ('align', 'calibrate', 'estimate')], 'every pair of neighbours is aligned, calibrated and estimated')
    shown = {('before' if 'before' in str(a[0]) else 'after'): x for a in said for x in a if 'ircle' in str(a[0]) and hasattr(x, 'pose_dq')}
    if shown:
      T.check(sorted(shown) == ['after', 'before'], 'both circles are shown')
      for k, res in (('before', [(w.aligned[p],) + w.initial[p] for p in pairs]), ('after', [w.final[p] for p in pairs])):
        c = shown[k]
        T.check_eq(c.time_offset, res[0][0] + res[1][0] + res[2][0], 'time offset around the circle', tol=1e-6)
        got, want = list(c.pose_dq.dq), product([pose_dq(t, q) for o, t, q in res])
        if T.truth(dot(got[:4], want[:4]) < 0):
          want = [-x for x in want]
        T.check_eq(got, want, 'transformation around the circle')
  f.__name__ = 'circle_' + free
  return f


def two(T):
  pair(T, T.choice('inputs', [['/in/one.csv', '/in/x/two.csv'], ['/in/b.one.csv', '/in/a']]))


def same_name(T):
  pair(T, ['/in/x/poses.csv', '/in/y/poses.csv'])


def pair(T, inputs):
  w = World(T, T.choice('free', ['initial0', 'final0']))
  try:
    r, e = T.call(T.run, SC, inputs, print=lambda *a, **k: None)
    if w.problem is not None:
      raise w.problem
    if e is not None:
      raise e
  finally:
    w.close()
  T.check(w.calls == [(s, tuple(inputs)) for s in ('align', 'calibrate', 'estimate')], 'the pair is aligned, calibrated and estimated')


HARNESSES = [Harness(two, fs=True, bounds=B), Harness(same_name, fs=True, bounds=B)] + [Harness(circle(x), fs=True, bounds=B) for x in ('initial0', 'initial2', 'final1')]
