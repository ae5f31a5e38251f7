#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeds/*.py and tries every bug out in a scratch copy of /repo:
the patch applies, the stable tests still pass, the demonstration passes without and fails with the change.
  seed.py write [ID...]   write the directories      seed.py try [ID...]    try them
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = 'hand_eye_calibration/python/hand_eye_calibration/'
X = 'hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/'
FILES = {'Q': P + 'quaternion.py', 'D': P + 'dual_quaternion.py', 'H': P + 'dual_quaternion_hand_eye_calibration.py',
         'TA': P + 'time_alignment.py', 'CSV': P + 'csv_io.py', 'EC': P + 'extrinsic_calibration.py', 'AC': P + 'algorithm_config.py',
         'CV': P + 'calibration_verification.py', 'AA': X + 'all_algorithm_configs.py', 'ER': X + 'experiment_results.py',
         'CAP': 'hand_eye_calibration/bin/compute_aligned_poses.py', 'CHE': 'hand_eye_calibration/bin/compute_hand_eye_calibration.py',
         'TF': 'hand_eye_calibration/bin/tf_to_csv.py', 'OE': 'hand_eye_calibration_experiments/bin/optimization_experiments.py',
         'CS': 'hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py', 'ET': X + 'experiment_plotting_tools.py',
         'GP': 'hand_eye_calibration_experiments/bin/generate_plots.py', 'BU': P + 'bash_utils.py', 'PT': P + 'hand_eye_calibration_plotting_tools.py',
         'TP': P + 'time_alignment_plotting_tools.py', 'BC': 'hand_eye_calibration/bin/bag_to_csv_with_config.py', 'TE': 'hand_eye_calibration/bin/target_extractor_interface.py'}

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export PYTHONPATH=$PWD/hand_eye_calibration/python:$PWD/hand_eye_calibration_experiments/python
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def seeds():
  out = {}
  d = os.path.join(HERE, 'tools', 'seeds')
  for n in sorted(os.listdir(d)):
    if n.endswith('.py'):
      g = dict(FILES)
      exec(open(os.path.join(d, n)).read(), g)
      for s in g['SEEDS']:
        assert s['id'] not in out, s['id']
        out[s['id']] = s
  return out


def scratch():
  d = tempfile.mkdtemp(prefix='seed')
  subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
  subprocess.check_call(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
  return d


def write(s):
  d = scratch()
  try:
    r = d + '/repo'
    for f, old, new in s['edits']:
      p = os.path.join(r, f)
      t = open(p).read()
      assert t.count(old) == 1, (s['id'], f, old, t.count(old))
      open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
    base = subprocess.check_output(['git', '-C', r, 'rev-list', '--max-parents=0', 'HEAD']).decode()[:8]
    for f in sorted(set(f for f, _, _ in s['edits'])):
      # only lines of the original repository change
      hunks = subprocess.check_output(['git', '-C', r, 'diff', '-U0', f]).decode()
      for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        for i in range(a, a + n):
          b = subprocess.check_output(['git', '-C', r, 'blame', '-s', '-L', '%d,%d' % (i, i), 'HEAD', '--', f]).decode()
          assert b.lstrip('^').startswith(base[:7]), (s['id'], b)
  finally:
    shutil.rmtree(d)
  o = os.path.join(HERE, 'seeded', s['id'])
  os.makedirs(o, exist_ok=True)
  open(o + '/patch.diff', 'w').write(diff)
  open(o + '/demo.sh', 'w').write(DEMO)
  os.chmod(o + '/demo.sh', 0o755)
  open(o + '/demo.py', 'w').write(s['demo'].lstrip())
  with open(o + '/meta.json', 'w') as f:
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
    f.write('\n')


def attempt(i):
  o = os.path.join(HERE, 'seeded', i)
  d = scratch()
  try:
    r = d + '/repo'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
               PYTHONPATH='%s/hand_eye_calibration/python:%s/hand_eye_calibration_experiments/python' % (r, r))

    def demo():
      return subprocess.run(['bash', o + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    a = demo()
    subprocess.check_call(['git', '-C', r, 'apply', o + '/patch.diff'])
    b = demo()
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + r, 'hand_eye_calibration/test',
                        '--ignore=hand_eye_calibration/test/test_hand_eye_calibration.py',
                        '--ignore=hand_eye_calibration/test/test_time_alignment.py'], cwd=r, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
    print('%-28s %s' % (i, 'ok' if ok else 'BAD'), flush=True)
    if a.returncode:
      print('  demo fails without the change:', a.stdout.decode()[-800:])
    if not b.returncode:
      print('  demo passes with the change')
    if t.returncode:
      print('  tests fail:', t.stdout.decode()[-600:])
    return ok
  finally:
    shutil.rmtree(d)


if __name__ == '__main__':
  S = seeds()
  ids = sys.argv[2:] or sorted(S)
  if sys.argv[1] == 'write':
    for i in ids:
      write(S[i])
  else:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(7) as ex:
      sys.exit(0 if all(list(ex.map(attempt, ids))) else 1)
