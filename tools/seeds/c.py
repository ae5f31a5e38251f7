QH = '''
import sys
import types
import numpy as np
for m in ('tf', 'rospy', 'rosbag'):
  sys.modules.setdefault(m, types.ModuleType(m))
from hand_eye_calibration.quaternion import *
'''
DH = QH + '''
from hand_eye_calibration.dual_quaternion import DualQuaternion as D
'''
# runs an experiment script with fixed results of every step
XH = DH + '''
import contextlib
import io
import json
import os
import runpy
import shutil
import subprocess
import tempfile
import hand_eye_calibration.time_alignment as TA
import hand_eye_calibration.dual_quaternion_hand_eye_calibration as HE
import hand_eye_calibration.calibration_verification as CV
import hand_eye_calibration_experiments.all_algorithm_configs as AL
root = os.getcwd()
d = tempfile.mkdtemp()
os.chdir(d)
files = []
for i in range(3):
  files.append(os.path.join(d, 'p%d.csv' % i))
  np.savetxt(files[-1], np.array([[100. * i + k, 10. * i + k, 0., 0., 0., 0., 0., 1.] for k in range(3)]), delimiter=',')
def turn(x, a):
  return D.from_pose(x, 2., 3., *Quaternion.from_angle_axis(a, [0., 0., 1.]).q)
pair = {(0, 1): 0, (0, 2): 1, (1, 2): 2}
TA.calculate_time_offset = lambda a, qa, b, qb, *k: 0.5 + pair[int(a[0]) // 100, int(b[0]) // 100]
TA.compute_aligned_poses = lambda a, b, o, *k: (a, b)
found = {}
def search(a, b, config):
  p = len(found) % 3
  found[len(found)] = p
  return True, turn(p + 1., 0.3 + p), (1. + p, 2. + p), 11 + p, 21 + p, 0.5 + p, np.arange(8.), False
HE.compute_hand_eye_calibration_RANSAC = HE.compute_hand_eye_calibration_BASELINE = search
started, fails, none = [], set(), set()
class Popen(object):
  def __init__(self, words, **k):
    self.words = words
  def wait(self):
    o = dict(w[2:].split('=', 1) for w in self.words if w.startswith('--') and '=' in w)
    p = pair[files.index(o['pose1_csv']), files.index(o['pose2_csv'])]
    guess = json.load(open(o['init_guess_file']))
    started.append((p, guess['delay'], guess['translation']['x'], o['model_config']))
    if p in fails:
      return 1
    guess['delay'] = 50. + p
    json.dump(guess, open(o['output_file'], 'w'))
    return 0
subprocess.Popen = Popen
seen, loops = [], []
def evaluate(a, b, dq, offset, config):
  p = pair[int(a[0][1]) // 10, int(b[0][1]) // 10]
  seen.append((p, offset))
  return ((None, None), 0) if p in none else ((5. + p, 6. + p), 31 + p)
CV.evaluate_calibration = evaluate
CV.compute_loop_error = lambda dqs, n, *k: loops.append(len(dqs)) or (7., 8.)
all_configs = AL.get_all_configs
AL.get_all_configs = lambda: [c for c in all_configs() if c[0] == 'RC_filter_opt'][:1]
def script(name, *args):
  sys.argv = [name, '--aligned_poses_B_H_csv_files'] + files + ['--result_directory', d + '/out'] + list(args)
  return runpy.run_path(os.path.join(root, 'hand_eye_calibration_experiments/bin', name), run_name='__main__')
def rows(name):
  return [l.rstrip().split(',') for l in open(d + '/out/' + name)][1:]
def done():
  os.chdir(root)
  shutil.rmtree(d)
'''
YH = '''
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import types
sys.modules.setdefault('rospy', types.ModuleType('rospy'))
d = tempfile.mkdtemp()
calls = []
subprocess.call = lambda w, **k: calls.append(list(w)) or 0
def script(name, config, *args):
  p = os.path.join(d, 'c.yaml')
  open(p, 'w').write(config)
  sys.argv = [name] + [a.replace('CONFIG', p) for a in args]
  runpy.run_path('hand_eye_calibration/bin/' + name, run_name='__main__')
def option(w, name):
  return w[w.index(name) + 1]
'''
PH = '''
import sys
import types
import numpy as np
import importlib.util
shown = []
class Axis(object):
  def __init__(self, l):
    self.l = l
  def imshow(self, m, **k):
    self.l.append(np.array(m))
    return self
  def __getattr__(self, k):
    return Any()
class Any(object):
  def __getitem__(self, k):
    return Any()
  def __getattr__(self, k):
    return Any()
  def __call__(self, *a, **k):
    return Any()
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.pylab as pl
def subplots(*a, **k):
  s = ([], [])
  shown.append(s)
  return Any(), (Axis(s[0]), Axis(s[1]))
for m in (plt, pl):
  m.subplots, m.setp, m.show, m.colorbar, m.tight_layout, m.savefig = subplots, Any(), Any(), Any(), Any(), Any()
import mpl_toolkits.axes_grid1 as A
A.make_axes_locatable = Any()
s = importlib.util.spec_from_file_location('plots', 'hand_eye_calibration_experiments/bin/generate_plots.py')
G = importlib.util.module_from_spec(s)
s.loader.exec_module(G)
def r(n, step):
  return dict(start=0., end=n * step, step=step)
'''
SEEDS = [
  dict(id='p37-either-sign', property='P37', edits=[(D, '''      return np.allclose(self.dq, other.dq)''', '''      return np.allclose(self.dq, other.dq) or np.allclose(-self.dq, other.dq)''')],
    needs='a dual quaternion compared with its negative', breaks='different dual quaternions are equal', demo=DH + '''
a = D.from_pose(1., 2., 3., 0., 0., 0.6, 0.8)
assert a == a.copy() and not a == D.from_vector(-a.dq)
'''),
  dict(id='p37-dual-norm', property='P37', edits=[(D, '''    dual_norm = np.dot(self.q_rot.q, self.q_dual.q) / real_norm''', '''    dual_norm = np.dot(self.q_rot.q, self.q_dual.q) / self.q_rot.squared_norm()''')],
    needs='a dual quaternion with rotation part of another length than one that is no rigid transformation', breaks='the dual part of the norm is wrong', demo=DH + '''
a = D.from_vector([0., 0., 0., 2., 0., 0., 0., 3.])
assert np.allclose(a.norm(), [2., 3.]), a.norm()
'''),
  dict(id='p37-negative-dual', property='P37', edits=[(D, '''    dual_part = np.absolute(self.norm()[1]) < 1e-8''', '''    dual_part = self.norm()[1] < 1e-8''')],
    needs='a unit rotation part and a negative dual part of the norm', breaks='it is reported as normalized', demo=DH + '''
assert not D.from_vector([0., 0., 0., 1., 0., 0., 0., -1.]).is_normalized()
assert D.from_vector([0., 0., 0., 1., 1., 0., 0., 0.]).is_normalized()
'''),
  dict(id='p38-first-offset', property='P38', edits=[(CS, '''                                                           dq_H_E_optimized,
                                                           time_offset_optimized,''', '''                                                           dq_H_E_optimized,
                                                           time_offset_initial_guess,''')],
    needs='an optimiser that changes the time offset', breaks='the result is evaluated with the time offset from before', demo=XH + '''
script('compute_set_of_hand_eye_calibrations.py', '--num_iterations', '1')
done()
assert seen == [(0, 50.), (1, 51.), (2, 52.)], seen
'''),
  dict(id='p38-swapped', property='P38', edits=[(CS, '''compute_hand_eye_calibration_RANSAC(
              dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)''', '''compute_hand_eye_calibration_RANSAC(
              dual_quat_W_E_vec, dual_quat_B_H_vec, hand_eye_config)''')],
    needs='hand and eye motions that differ', breaks='the search gets them the other way round and returns the inverse', demo=XH + '''
for i in range(3):
  np.savetxt(files[i], np.array([[100. * i + k, 10. * i + k * (i + 1), 0., 0., 0., 0., 0., 1.] for k in range(3)]), delimiter=',')
steps = []
def recorded(a, b, config):
  steps.append((round(a[1].to_pose()[0]), round(b[1].to_pose()[0])))
  return search(a, b, config)
HE.compute_hand_eye_calibration_RANSAC = HE.compute_hand_eye_calibration_BASELINE = recorded
script('compute_set_of_hand_eye_calibrations.py', '--num_iterations', '1')
done()
assert steps == [(1, 2), (1, 3), (2, 3)], steps
'''),
  dict(id='p38-no-inliers', property='P38', edits=[(CS, '''              print("Could not evaluate calibration, no matching poses found!")
              optimization_success = False''', '''              print("Could not evaluate calibration, no matching poses found!")''')],
    needs='an optimised result that matches no poses', breaks='it counts as success and a loop error is computed', demo=XH + '''
none.add(1)
script('compute_set_of_hand_eye_calibrations.py', '--num_iterations', '1')
t = rows('results.csv')
done()
assert [x[18] for x in t] == ['True', 'False', 'True'] and not loops, (t, loops)
'''),
  dict(id='p38-sorted-flags', property='P38', edits=[(CS, '''      itertools.combinations(is_absolute_pose_sensor_flags, 2))''', '''      itertools.combinations(sorted(is_absolute_pose_sensor_flags), 2))''')],
    needs='flags with an absolute sensor before one that is not', breaks='the flags belong to other files', demo=XH + '''
script('compute_set_of_hand_eye_calibrations.py', '--num_iterations', '1', '--is_absolute_pose_sensor', '1', '0', '0')
done()
assert [['true' in x for x in s[3].split(',')] for s in started] == [[True, False], [True, False], [False, False]], started
'''),
  dict(id='p39-true-offset', property='P39', edits=[(OE, '''        time_offset_initial_guess_spoiled, dq_H_E_initial_guess_spoiled)
    initial_guess.writeJson''', '''        time_offset_initial_guess, dq_H_E_initial_guess_spoiled)
    initial_guess.writeJson''')], needs='a perturbed time offset', breaks='the optimiser starts from the time offset that is not perturbed', demo=XH + '''
import importlib.util
s = importlib.util.spec_from_file_location('oe', root + '/hand_eye_calibration_experiments/bin/optimization_experiments.py')
M = importlib.util.module_from_spec(s)
s.loader.exec_module(M)
from hand_eye_calibration_experiments.experiment_results import ResultEntry
name, f, h, o = AL.get_optimization_with_spoiled_initial_calibration_config()
M.args = types.SimpleNamespace(result_directory=d + '/out', visualize=False, plot_every_nth_pose=1)
M.set_of_pose_pairs, M.set_of_is_absolute_sensor_flags = [(files[0], files[1])], [(False, False)]
M.set_of_dq_H_E_initial_guess, M.set_of_time_offset_initial_guess = [turn(1., 0.5)], [0.25]
M.algorithm_name, M.iteration, M.hand_eye_config, M.num_pose_pairs, M.num_poses_sets = name, 0, h, 1, 2
M.spoil_initial_guess = lambda t, q, *a: (9., turn(4., 0.1), (np.array([3., 0., 0.]), 0.4, 8.75))
e = ResultEntry()
e.init_from_configs(name, 0, f, h, o)
for l in (e.success, e.num_initial_poses, e.num_poses_kept, e.runtimes, e.bad_singular_value):
  l.append(1)
e.singular_values.append(None)
e.dataset_names.append(M.set_of_pose_pairs[0])
M.run_optimization_experiment([0., 1.], [0., 1.], [0., 1.], 0, e, (0, 1))
done()
assert started[0][:3] == (0, 9., 4.), started
'''),
  dict(id='p39-shared-template', property='P39', edits=[(OE, '''  result_entry = copy.deepcopy(result_entry_template)''', '''  result_entry = copy.copy(result_entry_template)''')],
    needs='two experiments with the same template', breaks='results of one experiment end up in the next', demo=XH + '''
import multiprocessing
class Pool(object):
  def __init__(self, *a):
    pass
  def map(self, f, data, *a):
    return [f(x) for x in data]
  def close(self):
    pass
multiprocessing.Pool = Pool
with contextlib.redirect_stdout(io.StringIO()):
  script('optimization_experiments.py', '--num_iterations', '1')
done()
assert len(started) == 360
'''),
  dict(id='p39-last-iteration', property='P39', edits=[(OE, '''  result_entry.iteration_num = iteration_idx''', '''  result_entry.iteration_num = iteration''')],
    needs='more than one iteration', breaks='all rows have the last iteration', demo=XH + '''
import multiprocessing
class Pool(object):
  def __init__(self, *a):
    pass
  def map(self, f, data, *a):
    return [f(x) for x in data]
  def close(self):
    pass
multiprocessing.Pool = Pool
with contextlib.redirect_stdout(io.StringIO()):
  g = script('optimization_experiments.py', '--num_iterations', '2')
g['output_file'].close()
t = rows('results_optimization.csv')
done()
assert [x[2] for x in t[:6]] == ['0'] * 3 + ['1'] * 3, t[:6]
'''),
  dict(id='p40-search-runtime', property='P40', edits=[(ET, '''    runtimes_per_method[dataset][method].append(runtime)''', '''    runtimes_per_method[dataset][method].append(row[12])''')],
    needs='an optimisation that takes time', breaks='the runtimes by data set leave out the optimisation', demo=DH + '''
import shutil
import tempfile
from hand_eye_calibration_experiments.experiment_results import ResultEntry
from hand_eye_calibration_experiments.experiment_plotting_tools import collect_data_from_csv
d = tempfile.mkdtemp()
with open(d + '/r.csv', 'w') as f:
  f.write(ResultEntry().get_header().rstrip() + ',dataset\\n')
  for k in range(2):
    f.write('RC_filter_opt,0,%d,True,a,b,True,1.,2.,3,4,5,%d.,0.,0.,[1],False,True,True,10.,None,None,None,one\\n' % (k, k))
try:
  g = collect_data_from_csv([d + '/r.csv'])
except ValueError:
  raise
shutil.rmtree(d)
assert np.allclose(g[7]['one']['PF_RC_O'], [10., 11.]), g[7]
'''),
  dict(id='p40-both-bad', property='P40', edits=[(ET, '''    if not success or bad_singular_values:''', '''    if not success and bad_singular_values:''')],
    needs='a failed row with good singular values or the other way round', breaks='it is collected', demo=DH + '''
import shutil
import tempfile
from hand_eye_calibration_experiments.experiment_results import ResultEntry
from hand_eye_calibration_experiments.experiment_plotting_tools import collect_data_from_csv
d = tempfile.mkdtemp()
with open(d + '/r.csv', 'w') as f:
  f.write(ResultEntry().get_header().rstrip() + ',dataset\\n')
  for k in range(2):
    f.write('RC_filter_opt,0,%d,True,a,b,True,%d.,2.,3,4,5,%d.,0.,0.,[1],%s,True,True,10.,None,None,None,one\\n' % (k, k + 1, k, bool(k)))
g = collect_data_from_csv([d + '/r.csv'])
shutil.rmtree(d)
assert np.allclose(g[4][0], [1.]), g[4]
'''),
  dict(id='p41-same-call', property='P41', edits=[(BC, '''      te_call = copy.deepcopy(te_arguments)''', '''      te_call = te_arguments''')],
    needs='two cameras', breaks='the second call has the options of the first as well', demo=YH + '''
script('bag_to_csv_with_config.py', \'\'\'
bags:
  - name: a.bag
    bag_path: p/
    intrinsics_path: i/
    target_config_path: t/
    target: t.yaml
    tf_frames:
    cameras:
      cam_topics: [/a/x, /b/y]
      cam_intrinsics: [a.yaml, b.yaml]
\'\'\', '--yaml_config_file', 'CONFIG')
shutil.rmtree(d)
assert len(calls) == 2 and len(calls[0]) == len(calls[1]) == 13, calls
'''),
  dict(id='p41-shorter', property='P41', edits=[(BC, '''      num_tf_source_frames = len(tf_frames['source'])
      num_tf_target_frames = len(tf_frames['target'])''', '''      num_tf_source_frames = min(len(tf_frames['source']), len(tf_frames['target']))
      num_tf_target_frames = num_tf_source_frames''')], needs='lists of different lengths', breaks='they are not refused', demo=YH + '''
try:
  script('bag_to_csv_with_config.py', \'\'\'
bags:
  - name: a.bag
    bag_path: p/
    intrinsics_path: i/
    target_config_path: t/
    target: t.yaml
    tf_frames:
      source: [a, b]
      target: [w]
    cameras:
\'\'\', '--yaml_config_file', 'CONFIG')
except AssertionError:
  shutil.rmtree(d)
  sys.exit(0)
shutil.rmtree(d)
sys.exit(1)
'''),
  dict(id='p41-square', property='P41', edits=[(TE, '''  te_config.april_tag_number_horizontal = yaml_content[
      'april_tag_number_horizontal']''', '''  te_config.april_tag_number_horizontal = yaml_content[
      'april_tag_number_vertical']''')], needs='a target that is not square', breaks='the number of columns is wrong', demo=YH + '''
script('target_extractor_interface.py', \'\'\'
april_tag_number_vertical: 4
april_tag_number_horizontal: 7
april_tag_number_pixel_boarder: 2
april_tag_size_m: 0.05
april_tag_gap_size_m: 0.01
\'\'\', '--bag', 'a', '--calib_file_camera', 'c', '--calib_file_target', 'CONFIG', '--image_topic', '/t', '--output_file', 'o.csv')
shutil.rmtree(d)
assert option(calls[0], '--april_tag_number_horizontal') == '7' and option(calls[0], '--april_tag_number_vertical') == '4', calls
'''),
  dict(id='p42-signal', property='P42', edits=[(BU, '''  if exit_code != 0:''', '''  if exit_code > 0:''')],
    needs='a command killed by a signal', breaks='it counts as success', demo=QH + '''
from hand_eye_calibration.bash_utils import run
import os
try:
  run("sh -c 'kill -9 $$'")
except Exception:
  sys.exit(0)
sys.exit(1)
'''),
  dict(id='p42-no-permission', property='P42', edits=[(BU, '''      if exc.errno != errno.EEXIST:''', '''      if exc.errno not in (errno.EEXIST, errno.EACCES, errno.EROFS):''')],
    needs='a directory that must not be created', breaks='the error is not passed on', demo=QH + '''
import errno
import os
from hand_eye_calibration.bash_utils import create_path
def makedirs(*a, **k):
  raise OSError(errno.EACCES, 'no')
os.makedirs = makedirs
try:
  create_path('nowhere-at-all/x/y')
except OSError:
  sys.exit(0)
sys.exit(1)
'''),
  dict(id='p42-quotes', property='P42', edits=[(BU, '''  args = shlex.split(cmd)''', '''  args = cmd.split()''')],
    needs='a command with a quoted part', breaks='the quoted part is torn apart', demo=QH + '''
import subprocess
from hand_eye_calibration.bash_utils import run
words = []
class Popen(object):
  def __init__(self, w, **k):
    words.append(w)
  def wait(self):
    return 0
subprocess.Popen = Popen
run('echo "a b" c')
assert words == [['echo', 'a b', 'c']], words
'''),
  dict(id='p43-origin', property='P43', edits=[(PT, '''    bbox_max[i, :] = np.amax(poses[:, 0:3], axis=0)''', '''    bbox_max[i, :] = np.maximum(bbox_max[i, :], np.amax(poses[:, 0:3], axis=0))''')],
    needs='a trajectory with negative coordinates only', breaks='the box reaches to the origin', demo=QH + '''
from hand_eye_calibration.hand_eye_calibration_plotting_tools import compute_bbox_3D
big, small = compute_bbox_3D([np.array([[-1., -2., -3., 0., 0., 0., 1.], [-2., -1., -4., 0., 0., 0., 1.]])])
assert np.allclose(big, [-1., -1., -3.]), big
'''),
  dict(id='p43-later-ones', property='P43', edits=[(PT, '''  return (np.amax(bbox_max, axis=0), np.amin(bbox_min, axis=0))''', '''  return (np.amax(bbox_max[:2], axis=0), np.amin(bbox_min[:2], axis=0))''')],
    needs='three trajectories', breaks='the third is left out', demo=QH + '''
from hand_eye_calibration.hand_eye_calibration_plotting_tools import compute_bbox_3D
p = [np.array([[float(i), 0., 0., 0., 0., 0., 1.]]) for i in range(3)]
assert np.allclose(compute_bbox_3D(p)[0], [2., 0., 0.])
'''),
  dict(id='p44-edge', property='P44', edits=[(GP, '''    y_idx = bisect.bisect_right(loop_y, np.linalg.norm(y_spoil))''', '''    y_idx = bisect.bisect_left(loop_y, np.linalg.norm(y_spoil))''')],
    needs='a perturbation exactly at the edge of a bin', breaks='it is put into the bin below', demo=PH + '''
data = [[1., 2.], [3., 4.], [0.1, 0.2], [0.05, 0.06], [0.1, 0.25]]
G.generate_optimization_circle_error_plot(r(2, 0.25), r(1, 0.125), r(1, 0.5), data, 'translation_time_angle', 1)
assert np.allclose(shown[0][0][0].ravel(), [1., 2.]), shown
'''),
  dict(id='p44-median', property='P44', edits=[(GP, '''        mean_angles = np.mean(
            np.array''', '''        mean_angles = np.median(
            np.array''')], needs='at least three measurements in a bin', breaks='the cell shows the median', demo=PH + '''
data = [[1., 2., 6.], [3., 4., 8.], [0.1, 0.2, 0.3], [0.05, 0.06, 0.07], [0.1, 0.11, 0.12]]
G.generate_optimization_circle_error_plot(r(1, 0.25), r(1, 0.125), r(1, 0.5), data, 'translation_time_angle', 3)
assert np.allclose(shown[0][0][0], 3.) and np.allclose(shown[0][1][0], 5.), shown
'''),
]
