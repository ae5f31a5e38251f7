QH = '''
import sys
import types
import numpy as np
for m in ('tf', 'rospy', 'rosbag'):
  sys.modules.setdefault(m, types.ModuleType(m))
from hand_eye_calibration.quaternion import *
'''
DH = QH + '''
from hand_eye_calibration.dual_quaternion import DualQuaternion as D
'''
HH = DH + '''
import hand_eye_calibration.dual_quaternion_hand_eye_calibration as H
'''
TH = QH + '''
import hand_eye_calibration.time_alignment as M
'''
SH = HH + '''
from hand_eye_calibration.algorithm_config import get_basic_config
def pose(x, angle, axis):
  q = Quaternion.from_angle_axis(angle, axis).q
  return D.from_pose(x[0], x[1], x[2], *q)
hand = [pose([0.1, 0, 0], 0.1, [1., 0., 0.]), pose([1, 0.5, 0], 0.7, [0., 1., 0.]), pose([0, 2, 1], 1.1, [0., 0., 1.]), pose([1, 1, 1], 0.9, [1., 1., 0.])]
x = pose([0.3, -0.2, 0.1], 0.5, [0., 1., 1.])
eye = [x.inverse() * h * x for h in hand]
_, cfg = get_basic_config()
cfg.ransac_sample_size = 1
cfg.ransac_inlier_classification = "scalar_part_equality"
cfg.min_num_inliers = 1
cfg.enable_exhaustive_search = True
'''
CH = QH + '''
import os
import subprocess
import tempfile
d = tempfile.mkdtemp()
def call(script, *args):
  code = "import sys, types, runpy\\n" \\
         "for m in ('tf', 'rospy', 'rosbag'):\\n  sys.modules[m] = types.ModuleType(m)\\n" \\
         "sys.argv = sys.argv[1:]\\nrunpy.run_path(sys.argv[0], run_name='__main__')"
  subprocess.check_call([sys.executable, '-W', 'ignore', '-c', code, script] + list(args), stdout=subprocess.DEVNULL)
def save(name, rows):
  p = os.path.join(d, name)
  np.savetxt(p, np.array(rows), delimiter=',')
  return p
'''
SEEDS = [
  dict(id='p16-opposite', property='P16', edits=[(H, '''          elif (np.inner(screw_axis_B_H_i, screw_axis_B_H_j) > dot_product_threshold):''',
    '''          elif (abs(np.inner(screw_axis_B_H_i, screw_axis_B_H_j)) > dot_product_threshold):''')],
    needs='two pairs with opposite screw axes', breaks='a pair with a distinct axis is filtered away', demo=HH + '''
def turn(angle, axis):
  return D.from_pose(0., 0., 0., *Quaternion.from_angle_axis(angle, axis).q)
v = [turn(0.5, [0., 0., 1.]), turn(0.7, [0., 0., -1.]), turn(0.6, [1., 0., 0.])]
assert len(H.prefilter_using_screw_axis(v, v, 0.95)[0]) == 3
'''),
  dict(id='p16-first-zero', property='P16', edits=[(H, '''    if (np.linalg.norm(screw_axis_W_E_i) <= 1.e-12 or np.linalg.norm(screw_axis_B_H_i) <= 1.e-12):''',
    '''    if (np.linalg.norm(screw_axis_W_E_i) <= 1.e-12 and np.linalg.norm(screw_axis_B_H_i) <= 1.e-12):''')],
    needs='a first pair whose axis is zero in one path only', breaks='a pair without a screw axis is kept', demo=HH + '''
def turn(angle, axis):
  return D.from_pose(0., 0., 0., *Quaternion.from_angle_axis(angle, axis).q)
v = [turn(0.5, [0., 0., 1.]), turn(0.7, [0., 1., 0.]), turn(0.6, [1., 0., 0.])]
w = [turn(0., [0., 0., 1.]), turn(0.7, [0., 1., 0.]), turn(0.6, [1., 0., 0.])]
with np.errstate(all='ignore'):
  assert len(H.prefilter_using_screw_axis(v, w, 0.95)[0]) == 2
'''),
  dict(id='p17-max-inliers', property='P17', edits=[(H, '''      best_num_inliers = num_inliers
      best_singular_values''', '''      best_num_inliers = max(best_num_inliers, num_inliers)
      best_singular_values''')], needs='a better sample with fewer inliers than an earlier best one',
    breaks='the inlier count belongs to another sample than the calibration', demo=SH + '''
eye[3] = pose([5., 5., 5.], 2.5, [1., 0., 0.])
n = [10.]
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
def evaluate(P, Q, c, visualize=False):
  n[0] -= 1.
  return n[0], n[0], [True] * len(P)
H.evaluate_alignment = evaluate
out = H.compute_hand_eye_calibration_RANSAC(hand, eye, cfg)
assert out[0] and out[2][0] == 6. and out[3] == 1, out
'''),
  dict(id='p17-first-singular', property='P17', edits=[(H, '''      best_singular_values = singular_values
      best_singular_value_status''', '''      if best_singular_values is None:
        best_singular_values = singular_values
      best_singular_value_status''')], needs='at least two successively better samples', breaks='the singular values are those of the first candidate', demo=SH + '''
n = [10.]
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.) + n[0], False)
def evaluate(P, Q, c, visualize=False):
  n[0] -= 1.
  return n[0], n[0], [True] * len(P)
H.evaluate_alignment = evaluate
out = H.compute_hand_eye_calibration_RANSAC(hand, eye, cfg)
assert out[0] and out[6][0] == out[2][0] + 1., out
'''),
  dict(id='p17-one-more', property='P17', edits=[(H, '''          full_iterations < config.ransac_max_number_iterations) or''',
    '''          full_iterations <= config.ransac_max_number_iterations) or''')], needs='sampling that is not aborted early', breaks='one evaluation too many', demo=SH + '''
n = [0]
cfg.enable_exhaustive_search = False
cfg.ransac_enable_early_abort = False
cfg.ransac_max_number_iterations = 2
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
def evaluate(P, Q, c, visualize=False):
  n[0] += 1
  return 1., 1., [True] * len(P)
H.evaluate_alignment = evaluate
H.compute_hand_eye_calibration_RANSAC(hand, eye, cfg)
assert n[0] == 2, n
'''),
  dict(id='p50-outlier-power', property='P50', edits=[(H, '      w_pow_s = w ** s\n', '      w_pow_s = 1.0 - config.ransac_outlier_probability ** s\n')], needs='samples of more than one pose', breaks='one inlier counts as an all-inlier sample, so the search ends too early', demo=SH + '''
n = [0]
cfg.enable_exhaustive_search = False
cfg.ransac_sample_size = 2
cfg.ransac_enable_early_abort = True
cfg.ransac_inlier_classification = 'scalar_part_equality'
cfg.min_num_inliers = 1
cfg.ransac_max_number_iterations = 50
cfg.ransac_outlier_probability = 0.5
cfg.ransac_success_probability_threshold = 0.99
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
def evaluate(P, Q, c, visualize=False):
  n[0] += 1
  return 1., 1., [True] * len(P)
H.evaluate_alignment = evaluate
H.compute_hand_eye_calibration_RANSAC(hand, eye, cfg)
assert n[0] == 17, n
'''),
  dict(id='p50-rejected-count', property='P50', edits=[(H, '      if (full_iterations > required_iterations):\n', '      if (full_iterations + prerejected_samples > required_iterations):\n')], needs='samples that are rejected before they are evaluated', breaks='rejected samples count as evaluated ones', demo=SH + '''
n = [0]
cfg.enable_exhaustive_search = False
cfg.ransac_sample_size = 2
cfg.ransac_enable_early_abort = True
cfg.ransac_inlier_classification = 'scalar_part_equality'
cfg.min_num_inliers = 1
cfg.ransac_max_number_iterations = 50
cfg.ransac_outlier_probability = 0.5
cfg.ransac_success_probability_threshold = 0.99
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
def evaluate(P, Q, c, visualize=False):
  n[0] += 1
  return 1., 1., [True] * len(P)
H.evaluate_alignment = evaluate
eye[3] = pose([5., 5., 5.], 2.5, [1., 0., 0.])
import random
random.seed(3)
H.compute_hand_eye_calibration_RANSAC(hand, eye, cfg)
assert n[0] == 17, n
'''),
  dict(id='p50-exhaustive', property='P50', edits=[(H, '    if (not config.enable_exhaustive_search and config.ransac_enable_early_abort):\n', '    if config.ransac_enable_early_abort:\n')], needs='an exhaustive search with early abort enabled', breaks='the exhaustive search ends early', demo=SH + '''
n = [0]
cfg.enable_exhaustive_search = True
cfg.ransac_sample_size = 2
cfg.ransac_enable_early_abort = True
cfg.ransac_inlier_classification = 'scalar_part_equality'
cfg.min_num_inliers = 1
cfg.ransac_max_number_iterations = 50
cfg.ransac_outlier_probability = 0.125
cfg.ransac_success_probability_threshold = 0.9
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
def evaluate(P, Q, c, visualize=False):
  n[0] += 1
  return 1., 1., [True] * len(P)
H.evaluate_alignment = evaluate
H.compute_hand_eye_calibration_RANSAC(hand, eye, cfg)
assert n[0] == 6, n
'''),
  dict(id='p18-at-least', property='P18', edits=[(H, '''      has_enough_inliers = (len(dq_W_E_vec_inlier) > config.min_num_inliers)''',
    '''      has_enough_inliers = (len(dq_W_E_vec_inlier) >= config.min_num_inliers)''')], needs='a first set of exactly the minimum size and a later larger one',
    breaks='a set that is not larger than the minimum is used', demo=SH + '''
cfg.enable_exhaustive_search = False
cfg.min_num_inliers = 1
eye[0] = pose([5., 5., 5.], 2.5, [1., 0., 0.])
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
out = H.compute_hand_eye_calibration_BASELINE(hand, eye, cfg)
assert out[3] == 3, out
'''),
  dict(id='p18-last-set', property='P18', edits=[(H, '''        best_dq_B_H_vec_inlier = copy.deepcopy(dq_B_H_vec_inlier)
''', '''        best_dq_B_H_vec_inlier = dq_B_H_vec_inlier
'''), (H, '''    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
    dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
''', '''    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
    best_num_inliers = len(dq_B_H_vec_inlier)
    dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
''')], needs='exhaustive mode with a last set smaller than the largest', breaks='the size of the last set is reported', demo=SH + '''
eye[3] = pose([5., 5., 5.], 2.5, [1., 0., 0.])
H.compute_hand_eye_calibration = lambda b, w, *a, **k: (D.from_vector([0., 0., 0., 1., 0., 0., 0., 0.]), np.arange(8.), False)
out = H.compute_hand_eye_calibration_BASELINE(hand, eye, cfg)
assert out[3] == 3, out
'''),
  dict(id='p18-filtered-only', property='P18', edits=[(H, '''    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, best_idx)
    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, best_idx)
    (poses_B_H, poses_W_H) = get_aligned_poses(aligned_dq_B_H,''', '''    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_filtered, best_idx)
    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_filtered, best_idx)
    (poses_B_H, poses_W_H) = get_aligned_poses(aligned_dq_B_H,''')], needs='pre-filtering that removes a pair', breaks='the RMSE is not that of all pairs', demo=SH + '''
hand = [hand[0], hand[0] * hand[0]] + hand[1:]
eye = [x.inverse() * h * x for h in hand]
cfg.prefilter_poses_enabled = True
n = []
def evaluate(P, Q, c, visualize=False):
  n.append(len(P))
  return 1., 1., [True] * len(P)
H.evaluate_alignment = evaluate
H.compute_hand_eye_calibration_BASELINE(hand, eye, cfg)
assert n == [5], n
'''),
  dict(id='p19-long-loops', property='P19', edits=[(CV, '''    idx += (num_poses_sets - i - 1)''', '''    idx += (num_poses_sets - min(i, 1) - 1)''')],
    needs='at least five pose sets', breaks='the loop goes through wrong pairs', demo=DH + '''
from hand_eye_calibration.calibration_verification import compute_loop_error
f = [D.from_pose(0.3 * i, i * i * 0.1, -0.2 * i, *Quaternion.from_angle_axis(0.3 * i, [1., 0.2 * i, 0.]).q) for i in range(5)]
c = [f[i].inverse() * f[j] for i in range(5) for j in range(i + 1, 5)]
p, o = compute_loop_error(c, 5)
assert p < 1e-6 and o < 1e-3, (p, o)
'''),
  dict(id='p20-lengths', property='P20', edits=[(TA, '''  offset_indices = np.arange(-len(signal_A) + 1, len(signal_B))''',
    '''  offset_indices = np.arange(-len(signal_B) + 1, len(signal_A))''')], needs='signals of different lengths', breaks='the offset is wrong by the difference', demo=TH + '''
a = np.array([0., 1., 3., 1.])
b = np.array([0., 0., 0., 0., 1., 3., 1.])
t = M.calculate_time_offset_from_signals(np.arange(4.), a, np.arange(7.), b)
assert np.isclose(t, 3.), t
'''),
  dict(id='p20-magnitude', property='P20', edits=[(TA, '''  max_index = np.argmax(convoluted_signals)''', '''  max_index = np.argmax(np.abs(convoluted_signals))''')],
    needs='signals with a strongly negative correlation at some lag', breaks='the lag of the strongest anti-correlation is taken', demo=TH + '''
a = np.array([1., 0., 0.])
b = np.array([1., -2., 0.])
t = M.calculate_time_offset_from_signals(np.arange(3.), a, np.arange(3.), b)
assert np.isclose(t, 0.), t
'''),
  dict(id='p21-last-stamp', property='P21', edits=[(TA, '''          quaternions[left_idx], times[left_idx], quaternions[right_idx],
          times[right_idx], sample_times)''', '''          quaternions[left_idx], times[left_idx], quaternions[right_idx],
          max(times[right_idx], times[left_idx] + 0.02), sample_times)''')], needs='neighbouring poses closer than 20 ms',
    breaks='orientations are interpolated for a later time', demo=TH + '''
q = Quaternion.from_angle_axis(0.8, [0., 0., 1.])
P = np.array([[1., 0, 0, 0, 0, 0, 0, 1.], [1.01, 0, 0, 0] + list(q.q)])
r = M.interpolate_poses_from_samples(P, np.array([1.005]))
assert np.allclose(r[0, 4:], quaternion_slerp(Quaternion(), q, 0.5).q, atol=1e-6), r
'''),
  dict(id='p22-total-gap', property='P22', edits=[(TA, '''    if ((timestamp - timestamps_high[left_idx]) < max_time_stamp_difference and
            (timestamps_high[right_idx] - timestamp) <= max_time_stamp_difference):''',
    '''    if (timestamps_high[right_idx] - timestamps_high[left_idx]) <= 2. * max_time_stamp_difference:''')],
    needs='a stamp between two neighbours of which one is further than 0.1 s away', breaks='stamps without close neighbours are kept', demo=TH + '''
def rows(ts):
  return np.array([[t, 0., 0., 0., 0., 0., 0., 1.] for t in ts])
a, b = M.compute_aligned_poses(rows([0., 0.2, 0.4]), rows([0., 0.05, 0.18, 0.34, 0.5]), 0.)
assert np.allclose(a[:, 0], [0.]) or np.allclose(a[:, 0], [0., 0.2]), a
a, b = M.compute_aligned_poses(rows([0., 0.2, 0.4]), rows([0., 0.17, 0.32, 0.5, 0.6]), 0.)
assert not np.isclose(a[:, 0], 0.2).any(), a
'''),
  dict(id='p22-equal-rate', property='P22', edits=[(TA, '''  dt_B = np.median(np.diff(time_stamped_poses_B[:, 0]))
  if dt_A >= dt_B:''', '''  dt_B = np.median(np.diff(time_stamped_poses_B[:, 0]))
  if dt_A > dt_B:''')], needs='equal median time steps', breaks='the stamps of the second trajectory are used', demo=TH + '''
def rows(ts):
  return np.array([[t, 0., 0., 0., 0., 0., 0., 1.] for t in ts])
a, b = M.compute_aligned_poses(rows([0.015625, 0.078125, 0.140625]), rows([0., 0.0625, 0.125, 0.1875]), 0.)
assert np.allclose(a[:, 0], [0.015625, 0.078125]), a
'''),
  dict(id='p23-roughly-unit', property='P23', edits=[(CSV, '''    pose[3:] /= np.linalg.norm(pose[3:])
''', '''    if not np.isclose(np.linalg.norm(pose[3:]), 1., atol=1e-2):
      pose[3:] /= np.linalg.norm(pose[3:])
''')], needs='quaternions with a length a little different from one', breaks='they are not normalised', demo=QH + '''
import os
import tempfile
from hand_eye_calibration.csv_io import read_time_stamped_poses_from_csv_file
p = os.path.join(tempfile.mkdtemp(), 'p.csv')
open(p, 'w').write('1.0,0,0,0,0,0,0,1.005\\\\n2.0,0,0,0,0,0,0,1\\\\n'.replace('\\\\n', chr(10)))
assert np.isclose(read_time_stamped_poses_from_csv_file(p)[2][0].norm(), 1., atol=1e-6)
'''),
  dict(id='p24-order', property='P24', edits=[(EC, 'self.pose_dq * other.pose_dq', 'other.pose_dq * self.pose_dq')], needs='calibrations that do not commute',
    breaks='the order of composition', demo=DH + '''
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration as E
a, b = D.from_pose(1., 2., 3., 0., 0., 0.6, 0.8), D.from_pose(0., 1., 0., 0.6, 0., 0., 0.8)
assert np.allclose((E(0., a) * E(0., b)).pose_dq.dq, (a * b).dq)
'''),
  dict(id='p24-short-delay', property='P24', edits=[(EC, "'delay' : self.time_offset, ", "'delay' : float('%.6f' % self.time_offset), ")], needs='an offset that is not a whole number of microseconds',
    breaks='the time offset loses digits', demo=DH + '''
import os
import tempfile
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration as E
p = os.path.join(tempfile.mkdtemp(), 'c.json')
E(0.12345678901, D.from_pose(1., 2., 3., 0., 0., 0.6, 0.8)).writeJson(p)
assert abs(E.fromJson(p).time_offset - 0.12345678901) < 1e-12
'''),
  dict(id='p25-only', property='P25', edits=[(ER, '''    self.optimization_enabled = optimization_config.enable_optimization''',
    '''    self.optimization_enabled = (optimization_config.enable_optimization and
                                 not optimization_config.optimization_only)''')], needs='the configuration that only optimises',
    breaks='the optimisation column is False', demo=QH + '''
from hand_eye_calibration_experiments.experiment_results import ResultEntry
from hand_eye_calibration_experiments.all_algorithm_configs import get_optimization_with_spoiled_initial_calibration_config as g
n, t, h, o = g()
r = ResultEntry()
r.init_from_configs(n, 0, t, h, o)
assert r.optimization_enabled
'''),
  dict(id='p25-swapped', property='P25', edits=[(ER, '''        self.num_inliers[pose_pair_idx],
        self.num_initial_poses[pose_pair_idx],
''', '''        self.num_initial_poses[pose_pair_idx],
        self.num_inliers[pose_pair_idx],
''')], needs='different numbers of inliers and input poses', breaks='two columns are swapped', demo=QH + '''
from hand_eye_calibration_experiments.experiment_results import ResultEntry
r = ResultEntry()
r.dataset_names, r.success, r.rmse, r.num_inliers, r.num_initial_poses, r.num_poses_kept = [('a', 'b')], [True], [(1., 2.)], [3], [4], [5]
r.runtimes, r.singular_values, r.bad_singular_value, r.optimization_success, r.optimization_runtime = [1.], [None], [False], [True], [1.]
r.spoiled_initial_guess_angle_offset, r.spoiled_initial_guess_translation_offset, r.spoiled_initial_guess_time_offset = [None], [None], [None]
h, l = r.get_header().strip().split(','), r.write_pose_pair_to_csv_line(0).strip().split(',')
assert l[h.index('num_inliers')] == '3'
'''),
  dict(id='p25-name', property='P25', edits=[(AC, '''    hand_eye_config.algorithm_name = "RS_filter"
  else:
    hand_eye_config.algorithm_name = "RS_no_filter"

  # Select distinctive poses based on skrew axis
  hand_eye_config.prefilter_poses_enabled = prefilter_poses
''', '''    hand_eye_config.algorithm_name = "RS_filter"
  else:
    hand_eye_config.algorithm_name = "RS_no_filter"

  # Select distinctive poses based on skrew axis
  hand_eye_config.prefilter_poses_enabled = not prefilter_poses
''')], needs='the sampling configuration with scalar part inliers', breaks='it filters exactly when its name says it does not', demo=QH + '''
from hand_eye_calibration.algorithm_config import get_RANSAC_scalar_part_inliers_config as g
assert g(True)[1].prefilter_poses_enabled and not g(False)[1].prefilter_poses_enabled
'''),
  dict(id='p26-unsigned', property='P26', edits=[(OE, '''          (random_translation_offset, random_angle_offset, random_time_offset_offset))''',
    '''          (random_translation_offset, random_angle_offset, abs(random_time_offset_offset)))''')], needs='a negative time offset draw',
    breaks='the reported time offset has the wrong sign', demo=DH + '''
import importlib.util
s = importlib.util.spec_from_file_location('oe', 'hand_eye_calibration_experiments/bin/optimization_experiments.py')
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)
for i in range(30):
  t, d, o = m.spoil_initial_guess(1., D.from_pose(1., 2., 3., 0., 0., 0.6, 0.8), (0.1, 0.3), (0.1, 0.2), (0.1, 0.2))
  assert np.isclose(t - 1., o[2])
'''),
  dict(id='p26-half-angle', property='P26', edits=[(Q, '''    angle = random.uniform(
        min_angle, max_angle)
''', '''    angle = random.uniform(
        min(min_angle, np.pi / 4.), max_angle)
''')], needs='a smallest angle above 45 degrees', breaks='random quaternions with too small angles', demo=QH + '''
for i in range(200):
  q = Quaternion.get_random(3.0, 3.1)
  assert 2.9 < q.angle_axis()[3] < 3.2
'''),
  dict(id='p27-extrapolation', property='P27', edits=[(TF, '''          except (tf.LookupException, tf.ConnectivityException,
                  tf.ExtrapolationException):
''', '''          except (tf.LookupException, tf.ConnectivityException):
''')], needs='a transform outside the buffered time', breaks='the export stops', demo='''
import os
import sys
import tempfile
import types
tf, rospy, rosbag, t2, t2m = [types.ModuleType(n) for n in ('tf', 'rospy', 'rosbag', 'tf2_msgs', 'tf2_msgs.msg')]
class E1(Exception): pass
class E2(Exception): pass
class E3(Exception): pass
tf.LookupException, tf.ConnectivityException, tf.ExtrapolationException = E1, E2, E3
class Time(float):
  def to_sec(self): return float(self)
  def __sub__(self, o): return Time(float(self) - float(o))
rospy.Time, rospy.Duration = Time, Time
class NS(object):
  def __init__(self, **k): self.__dict__.update(k)
class Tree(object):
  def __init__(self, *a): pass
  def setTransform(self, t): pass
  def lookupTransform(self, a, b, s):
    if s == 2.: raise E3()
    return (1., 2., 3.), (0., 0., 0., 1.)
tf.Transformer = Tree
class Bag(object):
  def __init__(self, n): pass
  def read_messages(self, topics=None):
    for s in (1., 2., 3.):
      yield '/tf', NS(transforms=[NS(child_frame_id='b', header=NS(stamp=Time(s), frame_id='a'))]), Time(s)
  def close(self): pass
rosbag.Bag = Bag
t2m.TFMessage = object
for n, m in (('tf', tf), ('rospy', rospy), ('rosbag', rosbag), ('tf2_msgs', t2), ('tf2_msgs.msg', t2m)):
  sys.modules[n] = m
import importlib.util
s = importlib.util.spec_from_file_location('t', 'hand_eye_calibration/bin/tf_to_csv.py')
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)
p = os.path.join(tempfile.mkdtemp(), 'o.csv')
m.write_transformation_to_csv_file('x', 'a', 'b', p)
import gc
gc.collect()
assert len(open(p).read().split()) == 16, open(p).read()
'''),
  dict(id='p28-one-sided', property='P28', edits=[(TA, '''  angular_velocity_clipped = np.clip(angular_velocity, -max_value, max_value)''',
    '''  angular_velocity_clipped = np.minimum(angular_velocity, max_value)''')], needs='a negative value beyond the bound', breaks='only positive values are clipped', demo=TH + '''
v = np.array([[1., -9., 1.], [1., 1., 1.], [1., 1., 2.]])
assert np.allclose(M.filter_and_smooth_angular_velocity(v, 1, 50.), -M.filter_and_smooth_angular_velocity(-v, 1, 50.))
'''),
  dict(id='p28-edges', property='P28', edits=[(TA, '''  low_pass_kernel = np.ones((low_pass_kernel_size, 1)) / low_pass_kernel_size''',
    '''  low_pass_kernel = (np.ones((low_pass_kernel_size, 1)) /
                     min(low_pass_kernel_size, len(angular_velocity)))''')], needs='a kernel longer than the signal', breaks='the average of short signals is too large', demo=TH + '''
v = np.ones((2, 3))
assert np.allclose(M.filter_and_smooth_angular_velocity(v, 5, 100.), 0.4)
'''),
  dict(id='p29-first-step', property='P29', edits=[(TA, '''    dt = samples[i + 1] - samples[i]
''', '''    dt = samples[1] - samples[0]
''')], needs='unequal time steps', breaks='velocities are scaled by the first step', demo=TH + '''
q = [Quaternion.from_angle_axis(a, [0., 0., 1.]) for a in (0., 0.1, 0.3)]
v = M.compute_angular_velocity_norms(q, np.array([0., 1., 3.]), 1, 100.)
assert np.allclose(v, 0.1, atol=1e-6), v
'''),
  dict(id='p29-other-start', property='P29', edits=[(TA, '''  samples_B = samples_B[:len(angular_velocity_norms_B)]''',
    '''  samples_B = samples_B[len(samples_B) - len(angular_velocity_norms_B):]''')], needs='any trajectories', breaks='the second signal starts one sample late', demo=TH + '''
import numpy as np
def path(t0):
  w = np.array([0., 0.1, 0.2, 0.9, 1.6, 1.7, 1.75, 1.8, 1.85])
  return t0 + np.arange(9.), [Quaternion.from_angle_axis(a, [0., 0., 1.]) for a in w]
c = M.FilteringConfig()
c.smoothing_kernel_size_A = c.smoothing_kernel_size_B = 1
t = M.calculate_time_offset(*(path(0.) + path(5.)), filtering_config=c)
assert np.isclose(t, 5.), t
'''),
  dict(id='p31-json-inverse', property='P31', edits=[(CHE, '''        time_offset, DualQuaternion.from_pose_vector(dq_H_E.to_pose()))''',
    '''        time_offset, DualQuaternion.from_pose_vector(dq_H_E.inverse().to_pose()))''')], needs='the calibration file', breaks='it holds the inverse transformation', demo=CH + '''
from hand_eye_calibration.dual_quaternion import DualQuaternion as D
import json
r = np.random.RandomState(3)
def rnd():
  q = r.randn(4)
  q /= np.linalg.norm(q)
  return D.from_pose(*(list(r.randn(3)) + list(q)))
x = D.from_pose(0.3, 0.2, 0.1, 0., 0., 0.6, 0.8)
hand = [rnd() for i in range(12)]
eye = [h * x for h in hand]
a = save('a.csv', [[i] + list(p.to_pose()) for i, p in enumerate(hand)])
b = save('b.csv', [[i] + list(p.to_pose()) for i, p in enumerate(eye)])
call('hand_eye_calibration/bin/compute_hand_eye_calibration.py', '--aligned_poses_B_H_csv_file', a, '--aligned_poses_W_E_csv_file', b,
     '--time_offset_input_csv_file', save('t.csv', [[0.5]]), '--calibration_output_json_file', os.path.join(d, 'c.json'))
c = json.load(open(os.path.join(d, 'c.json')))
assert np.allclose([c['translation'][k] for k in 'xyz'], [0.3, 0.2, 0.1], atol=1e-3), c
'''),
  dict(id='p31-inverse-eye', property='P31', edits=[(CHE, '''      dual_quat_W_E_vec = [DualQuaternion.from_pose_vector(
          pose[1:]).inverse() for pose in poses2]''', '''      dual_quat_W_E_vec = [DualQuaternion.from_pose_vector(
          np.hstack((-pose[1:4], -pose[4:7], pose[7]))) for pose in poses2]''')], needs='inverted eye poses with rotation and translation',
    breaks='the position of the inverse is not rotated', demo=CH + '''
from hand_eye_calibration.dual_quaternion import DualQuaternion as D
r = np.random.RandomState(3)
def rnd():
  q = r.randn(4)
  q /= np.linalg.norm(q)
  return D.from_pose(*(list(r.randn(3)) + list(q)))
x = D.from_pose(0.3, 0.2, 0.1, 0., 0., 0.6, 0.8)
hand = [rnd() for i in range(12)]
eye = [h * x for h in hand]
a = save('a.csv', [[i] + list(p.to_pose()) for i, p in enumerate(hand)])
b = save('b.csv', [[i] + list(p.inverse().to_pose()) for i, p in enumerate(eye)])
call('hand_eye_calibration/bin/compute_hand_eye_calibration.py', '--aligned_poses_B_H_csv_file', a, '--aligned_poses_E_W_csv_file', b,
     '--extrinsics_output_csv_file', os.path.join(d, 'x.csv'))
assert np.allclose(np.loadtxt(os.path.join(d, 'x.csv'))[:3], [0.3, 0.2, 0.1], atol=1e-3)
'''),
  dict(id='p32-second-format', property='P32', edits=[(CAP, '''       args.poses_W_E_csv_file, use_JPL_quaternion)''', '''       args.poses_W_E_csv_file)''')], needs='JPL input',
    breaks='the second trajectory is not converted', demo=CH + '''
w = np.cumsum([0.] + [0.05 + 0.3 * (i == 7) + 0.2 * (i == 8) for i in range(30)])
q = [Quaternion.from_angle_axis(a, [0., 0., 1.]).q for a in w]
rows = [[0.1 * i, 1., 2., 3.] + list(-x[:3]) + [x[3]] for i, x in enumerate(q)]
a, b = save('a.csv', rows), save('b.csv', rows)
oa, ob = os.path.join(d, 'oa.csv'), os.path.join(d, 'ob.csv')
call('hand_eye_calibration/bin/compute_aligned_poses.py', '--poses_B_H_csv_file', a, '--poses_W_E_csv_file', b, '--aligned_poses_B_H_csv_file', oa,
     '--aligned_poses_W_E_csv_file', ob, '--quaternion_format', 'JPL')
A, B = np.loadtxt(oa, delimiter=','), np.loadtxt(ob, delimiter=',')
assert len(A) > 5 and np.allclose(A[:, 4:], B[:, 4:], atol=1e-6)
'''),
  dict(id='p32-unsigned-offset', property='P32', edits=[(CAP, '''    write_double_numpy_array_to_csv_file(np.array((time_offset, )),''', '''    write_double_numpy_array_to_csv_file(np.array((abs(time_offset), )),''')],
    needs='a negative time offset', breaks='another offset than the applied one is written', demo=CH + '''
w = np.cumsum([0.] + [0.05 + 0.3 * (i == 7) + 0.2 * (i == 8) for i in range(30)])
rows = np.array([[0.1 * i, 1., 2., 3.] + list(Quaternion.from_angle_axis(x, [0., 0., 1.]).q) for i, x in enumerate(w)])
a = save('a.csv', rows)
rows[:, 0] += 7.
b = save('b.csv', rows)
oa, ob, o = [os.path.join(d, n) for n in ('oa.csv', 'ob.csv', 'o.csv')]
t = []
for x, y in ((a, b), (b, a)):
  call('hand_eye_calibration/bin/compute_aligned_poses.py', '--poses_B_H_csv_file', x, '--poses_W_E_csv_file', y, '--aligned_poses_B_H_csv_file', oa,
       '--aligned_poses_W_E_csv_file', ob, '--time_offset_output_csv_file', o)
  t.append(float(np.loadtxt(o)))
assert abs(t[0] + t[1]) < 0.5, t
'''),
  dict(id='p33-middle', property='P33', edits=[(CV, '''  aligned_dq_W_E = align_paths_at_index(dual_quat_W_E_vec, 0)''', '''  aligned_dq_W_E = align_paths_at_index(dual_quat_W_E_vec, len(dual_quat_W_E_vec) // 4)''')],
    needs='at least four matching pairs', breaks='the eye path is compared relative to another pose', demo=DH + '''
from hand_eye_calibration.calibration_verification import evaluate_calibration
from hand_eye_calibration.algorithm_config import get_basic_config
x = D.from_pose(0.3, 0.2, 0.1, 0., 0., 0.6, 0.8)
hand = [D.from_pose(0.3 * i, i * i * 0.1, -0.2 * i, *Quaternion.from_angle_axis(0.3 * i, [1., 0.2 * i, 0.]).q) for i in range(6)]
a = np.array([[0.05 * i] + list(h.to_pose()) for i, h in enumerate(hand)])
b = np.array([[0.05 * i] + list((h * x).to_pose()) for i, h in enumerate(hand)])
(p, o), n = evaluate_calibration(a, b, x, 0., get_basic_config()[1])
assert p < 1e-6 and n == 5, (p, o, n)
'''),
  dict(id='p33-count', property='P33', edits=[(CV, '''  return ((rmse_position, rmse_orientation), sum(inlier_flags))''', '''  return ((rmse_position, rmse_orientation), len(inlier_flags))''')],
    needs='a pair that is not an inlier', breaks='all pairs are counted', demo=DH + '''
from hand_eye_calibration.calibration_verification import evaluate_calibration
from hand_eye_calibration.algorithm_config import get_basic_config
x = D.from_pose(0.3, 0.2, 0.1, 0., 0., 0.6, 0.8)
hand = [D.from_pose(0.3 * i, i * i * 0.1, -0.2 * i, *Quaternion.from_angle_axis(0.3 * i, [1., 0.2 * i, 0.]).q) for i in range(6)]
a = np.array([[0.05 * i] + list(h.to_pose()) for i, h in enumerate(hand)])
b = np.array([[0.05 * i] + list((h * x).to_pose()) for i, h in enumerate(hand)])
b[3, 1] += 1.
(p, o), n = evaluate_calibration(a, b, x, 0., get_basic_config()[1])
assert n == 4, (p, o, n)
'''),
]
