"""P30 cached processing steps"""
import argparse  # noqa: F401
import csv  # noqa: F401
import os as real_os
import types

from symx.main import Harness
from lib import *

B = ('every combination of existing and missing files for up to 3 inputs and 1 to 3 outputs with any modification times; histories of the four '
     'steps of one calibration from every combination of missing intermediate files (the three files of the alignment together) and any modification times')
SC = 'hand_eye_calibration/scripts/close_the_circle_test.py'


def fake_os(T, exists, mtime, mkdir):
  """stand-in for the file system part of os; everything else is the real one"""
  path = types.ModuleType('path')
  path.__dict__.update({k: v for k, v in real_os.path.__dict__.items() if not k.startswith('__')})
  path.exists = path.isfile = path.lexists = exists
  path.getmtime = mtime
  attrs = {k: v for k, v in real_os.__dict__.items() if not k.startswith('__')}

  class Stat(object):

    def __init__(self, p):
      self.st_mtime = mtime(p)

  attrs.update(path=path, mkdir=mkdir, makedirs=mkdir, stat=Stat)
  # what the script imports sees the real file system
  T.mod('hand_eye_calibration.bash_utils')
  T.module('os', **attrs)
  T.module('os.path', **path.__dict__)


def decision(ni, no, partly=False):
  def f(T):
    ex, mt = {}, {}
    ins, outs = ['in%d' % i for i in range(ni)], ['out%d' % i for i in range(no)]
    for n in ins + outs:
      ex[n] = T.choice(n, [True, False])
      mt[n] = T.real('t_' + n, 0, 1000)

    lost = [o for o in outs if not ex[o]]
    if (0 < len(lost) < no) != partly:
      return

    def mtime(p):
      if not ex[p]:
        raise OSError(2, 'No such file or directory', p)
      return mt[p]
    fake_os(T, lambda p: ex[p], mtime, None)
    M = T.script(SC, 'circle')
    r = T.truth(M.requiresUpdate(ins, outs))
    fresh = all(ex[o] for o in outs)
    for o in outs:
      for i in ins:
        if fresh and ex[i]:
          fresh = not T.truth(mt[o] < mt[i])
    T.cover('skipped' if fresh else 'redone')
    if partly:
      T.check(r, 'redone when only some outputs are missing')
    else:
      T.check(r == (not fresh), 'redone exactly when an output is missing or older than an input')
  f.__name__ = 'decision%d_%d%s' % (ni, no, '_partly' if partly else '')
  return f


GUESS = '{"delay": 0.5, "rotation": {"i": 0.0, "j": 0.0, "k": 0.0, "w": 1.0}, "translation": {"x": 1.0, "y": 0.0, "z": 0.0}}'


def history(missing, name):
  def f(T):
    """one calibration: every step is run again when it is out of date, in order"""
    if not T.symbolic:
      real_os.makedirs(T.path('g'))
    P = T.path
    al = ['g/a_aligned.csv', 'g/b_aligned.csv', 'g/time_offset.csv']
    pose, guess, calib = 'g/pose.csv', 'g_init_guess.json', 'g.json'
    content = {al[0]: 'x\n', al[1]: 'x\n', al[2]: '0.25\n', pose: '1.0,2.0,3.0,0.0,0.0,0.0,1.0\n', guess: GUESS, calib: GUESS}
    mt = {P('a.csv'): T.real('t_a', 0, 100), P('b.csv'): T.real('t_b', 0, 100)}
    gone = T.choice('missing', missing)
    seen = {}
    for k, (n, text) in enumerate(content.items()):
      if n not in gone:
        T.write(n, text)
        seen[n] = T.text(n)
        mt[P(n)] = T.real('t%d' % k, 0, 100)
    clock = [1000]

    def touch(n, text):
      T.write(n, text)
      clock[0] += 1
      mt[P(n)] = clock[0]
      seen[n] = T.text(n)

    def look(p):
      # the calibration itself writes the initial guess
      if p == P(guess) and T.text(guess) != seen.get(guess):
        clock[0] += 1
        mt[p] = clock[0]
        seen[guess] = T.text(guess)
      return p in mt

    def exists(p):
      return look(p) or p == P('g')

    def mtime(p):
      if not look(p):
        raise OSError(2, 'No such file or directory', p)
      return mt[p]

    def stale(ins, outs):
      if not all(exists(P(o)) for o in outs):
        return True
      for o in outs:
        for i in ins:
          if exists(P(i)) and T.truth(mtime(P(o)) < mtime(P(i))):
            return True
      return False

    done = []
    order = ['align', 'pose', 'guess', 'calib']

    def before(step):
      """all earlier steps are up to date now; this one is not"""
      for s in order[:order.index(step)]:
        T.check(not due_now(s), 'earlier steps are up to date when a step is run')
      T.check(due_now(step), 'only steps that are out of date are run')
      done.append(step)

    def due_now(s):
      return {'align': lambda: stale(['a.csv', 'b.csv'], al), 'pose': lambda: stale(al[:2], [pose]),
              'guess': lambda: stale([al[2], pose], [guess]), 'calib': lambda: stale(['a.csv', 'b.csv', guess], [calib])}[s]()

    class Popen(object):

      def __init__(self, args, **k):
        cmd = ' '.join(args)
        if 'compute_aligned_poses' in cmd:
          before('align')
          for n in al:
            touch(n, content[n] if n != al[2] else '0.75\n')
        elif 'compute_hand_eye_calibration' in cmd:
          before('pose')
          touch(pose, '4.0,5.0,6.0,0.0,0.0,0.0,1.0\n')
        elif 'batch_estimator' in cmd:
          before('calib')
          touch(calib, GUESS)
        else:
          T.check(False, 'known command')

      def wait(self, *a):
        return 0

    fake_os(T, exists, mtime, lambda *a, **k: None)

    def call(args, **k):
      Popen(args)
      return 0
    T.module('subprocess', Popen=Popen, call=call, check_call=call)
    M = T.script(SC, 'circle')
    old = T.text(guess)
    M.calibrateTwo(T.path('g'), T.path('a.csv'), T.path('b.csv'), 'a', 'b')
    for s in order:
      T.check(not due_now(s), 'every step is up to date in the end')
    T.check(len(set(done)) == len(done), 'no step is run twice')
    if 'align' in done or 'pose' in done:
      T.cover('redone')
      T.check(T.text(guess) != old, 'initial guess follows the new alignment')
    else:
      T.cover('kept')
  f.__name__ = name
  return f


AL = ['g/a_aligned.csv', 'g/b_aligned.csv', 'g/time_offset.csv']
R = ['g/pose.csv', 'g_init_guess.json', 'g.json']
ONE = [[]] + [[x] for x in R] + [AL]
MORE = [[R[0], R[1]], [R[0], R[2]], [R[1], R[2]], R, AL + [R[0]], AL + [R[1]], AL + [R[2]], AL + R]
D = [(0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)]
HARNESSES = [Harness(decision(*d), fs=True, bounds=B, covers=('skipped', 'redone')) for d in D]
HARNESSES += [Harness(decision(*d), fs=True, bounds=B, tier='thorough', covers=('skipped', 'redone')) for d in [(3, 2), (2, 3), (3, 3)]]
HARNESSES += [Harness(decision(1, 2, True), fs=True, bounds=B, covers=('redone',))]
HARNESSES += [Harness(history(ONE, 'history_one'), fs=True, bounds=B, covers=('redone', 'kept')),
              Harness(history(MORE, 'history_more'), fs=True, bounds=B, covers=('redone',))]
