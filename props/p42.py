"""P42 running commands, creating directories and reading arrays"""
import os as real_os
import subprocess as real_subprocess
import sys
import types

from symx.main import Harness
from lib import *

B = ('commands of up to 4 words with and without quotes, any exit code in [-20,20] and some larger ones; paths of depth 1 to 3 with the directory present, '
     'missing, appearing meanwhile, or not creatable with any error number in [1,133]; arrays of 1 to 3, 12 x 2 and 2 x 12 rows and columns with any numbers; numbers in files are exact')
BU = 'hand_eye_calibration.bash_utils'


def fresh(T):
  """concrete runs: what the module imports is loaded before parts of it are replaced"""
  if not T.symbolic:
    T.mod(BU)
    del sys.modules[BU]


def processes(T, code):
  """stand-in for subprocess: starts nothing, records the words and gives the exit code"""
  fresh(T)
  started = []

  class Popen(object):

    def __init__(self, args, shell=False, **k):
      started.append((args, shell))
      self.args = args
      self.returncode = None
      self.stdout = self.stderr = None

    def wait(self, *a, **k):
      self.returncode = code
      return code

    def poll(self):
      return self.wait()

    def communicate(self, *a, **k):
      self.wait()
      return None, None

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.wait()

  def call(args, **k):
    return Popen(args, **k).wait()

  def check_call(args, **k):
    if T.truth(call(args, **k) != 0):
      raise real_subprocess.CalledProcessError(1, args)
    return 0

  def run(args, check=False, **k):
    p = Popen(args, **k)
    p.wait()
    if check and T.truth(code != 0):
      raise real_subprocess.CalledProcessError(1, args)
    return p
  T.module('subprocess', Popen=Popen, call=call, check_call=check_call, run=run, PIPE=-1, STDOUT=-2, DEVNULL=-3,
           CalledProcessError=real_subprocess.CalledProcessError)
  return started


COMMANDS = [('prog', ['prog']), ('prog --a=1 -v 1', ['prog', '--a=1', '-v', '1']), ('prog   a\t b ', ['prog', 'a', 'b']),
            ('prog "a b" c', ['prog', 'a b', 'c']), ("prog --x='1 2' d\\ e", ['prog', '--x=1 2', 'd e'])]


def run_command(T):
  code = T.real('code', -20, 20)
  code = T.choice('exit code', [code, 0, 127, 255, -64])
  cmd, words = T.choice('command', COMMANDS)
  started = processes(T, code)
  M = T.mod(BU)
  r, e = T.call(M.run, cmd)
  T.check(len(started) == 1, 'started once')
  for a, shell in started[:1]:
    T.check((a == words and not shell) or (a == cmd and shell), 'started with the words of the command')
  if T.truth(code == 0):
    T.cover('succeeded')
    T.check(e is None, 'success is not reported as failure')
  else:
    T.cover('failed')
    T.check(e is not None, 'failure of the command is reported')


def dry_run(T):
  cmd, words = T.choice('command', COMMANDS)
  started = processes(T, 0)
  M = T.mod(BU)
  r, e = T.call(M.run, cmd, T.choice('dry', [True, 1]))
  T.check(e is None and not started, 'a dry run starts nothing')
  r, e = T.call(M.run, cmd, False)
  T.check(e is None and len(started) == 1, 'started unless it is a dry run')


def directories(T):
  """creating the directory of a file; the file system is a stand-in"""
  name = T.choice('path', ['/d/f.csv', '/d/e/f', '/d/e/g.x/f.json', 'd/f', '/d/'])
  want = real_os.path.dirname(name)
  no = T.real('errno', 1, 133)
  # present: before; appears: created by someone else between looking and creating; fails: with any error number
  what = T.choice('directory', ['present', 'missing', 'appears', 'fails'])
  dirs = set([want, '/d', '/d/e'] if what == 'present' else ['/'])
  made = []

  def exists(p):
    return str(p) in dirs

  def makedirs(p, mode=0o777, exist_ok=False):
    made.append(str(p))
    if str(p) in dirs or what == 'appears':
      dirs.add(str(p))
      if exist_ok:
        return
      raise FileExistsError(17, 'File exists', p)
    if what == 'fails':
      if T.truth(no == 17):
        # something else of that name
        raise FileExistsError(17, 'File exists', p)
      raise OSError(no, 'cannot create', p)
    dirs.add(str(p))
  if T.symbolic:
    path = types.ModuleType('path')
    path.__dict__.update({k: v for k, v in real_os.path.__dict__.items() if not k.startswith('__')})
    path.exists = path.isdir = path.lexists = exists
    attrs = {k: v for k, v in real_os.__dict__.items() if not k.startswith('__')}
    attrs.update(path=path, makedirs=makedirs, mkdir=makedirs)
    T.module('os', **attrs)
    T.module('os.path', **path.__dict__)
    M = T.mod(BU)
    r, e = T.call(M.create_path, name)
  else:
    M = T.mod(BU)
    saved = real_os.path.exists, real_os.path.isdir, real_os.makedirs, real_os.mkdir
    real_os.path.exists = real_os.path.isdir = exists
    real_os.makedirs = real_os.mkdir = makedirs
    try:
      r, e = T.call(M.create_path, name)
    finally:
      real_os.path.exists, real_os.path.isdir, real_os.makedirs, real_os.mkdir = saved
  T.cover(what)
  T.check(all(m == want for m in made), 'creates the directory of the file and nothing else')
  if what == 'fails':
    if T.truth(no != 17):
      T.check(isinstance(e, OSError), 'an error is passed on')
  else:
    T.check(e is None, 'no error when the directory is there')
    T.check(want in dirs, 'the directory is there afterwards')
  if what == 'fails' and isinstance(e, OSError):
    T.check_eq(e.errno, no, 'the error that occurred')


def array(rows, cols):
  def f(T):
    v = [list(T.vec('v%d' % i, cols, -1000, 1000)) for i in range(rows)]
    p = write_rows(T, 'a.csv', v)
    a = T.mod(BU).readArrayFromCsv(p)
    T.check(tuple(a.shape) == (rows, cols), 'one row per line and one column per value')
    if tuple(a.shape) == (rows, cols):
      T.check_eq(a, v, 'values')
    T.check_eq(read_rows(T, 'a.csv'), v, 'the file stays as it is')
  f.__name__ = 'array%dx%d' % (rows, cols)
  return f


HARNESSES = [Harness(run_command, fs=True, bounds=B, covers=('succeeded', 'failed')), Harness(dry_run, fs=True, bounds=B),
             Harness(directories, fs=True, bounds=B, covers=('present', 'missing', 'appears', 'fails'))]
HARNESSES += [Harness(array(r, c), fs=True, bounds=B) for r, c in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2))]
HARNESSES += [Harness(array(r, c), fs=True, bounds=B) for r, c in ((12, 2), (2, 12))]
