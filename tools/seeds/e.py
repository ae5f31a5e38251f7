TH = '''
import sys
import types
import numpy as np
for m in ('tf', 'rospy', 'rosbag'):
  sys.modules.setdefault(m, types.ModuleType(m))
from hand_eye_calibration.quaternion import *
import hand_eye_calibration.time_alignment as M
'''
RH = TH + '''
def rows(ts):
  return np.array([[t, 0., 0., 0., 0., 0., 0., 1.] for t in ts])
'''
SEEDS = [
  dict(id='p22-gap-break', property='P22', edits=[(TA, '''    right_idx = idx
    assert right_idx < timestamps_high.shape[
''', '''    right_idx = idx
    if timestamps_high[right_idx] - timestamps_high[left_idx] > 1.0:
      print("Omitting timestamps after a gap in the high frequency poses.")
      break
    assert right_idx < timestamps_high.shape[
''')], needs='a gap of more than a second in the faster trajectory', breaks='no stamp after the gap is kept', demo=RH + '''
high = [0.05 * i for i in range(5)] + [2. + 0.05 * i for i in range(5)]
a, b = M.compute_aligned_poses(rows([0.025, 0.125, 1.0, 2.025, 2.125]), rows(high), 0.)
assert np.allclose(a[:, 0], [0.025, 0.125, 2.025, 2.125]), a
'''),
  dict(id='p22-mean-second', property='P22', edits=[(TA, "  dt_B = np.median(np.diff(time_stamped_poses_B[:, 0]))", "  dt_B = np.mean(np.diff(time_stamped_poses_B[:, 0]))")],
       needs='a gap in the second, faster trajectory', breaks='the stamps of the faster trajectory are used', demo=RH + '''
a, b = M.compute_aligned_poses(rows([0.02, 0.12, 0.22, 0.32]), rows([0., 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 3.35]), 0.)
assert np.allclose(a[:, 0], [0.02, 0.12, 0.22, 0.32]), a
'''),
  dict(id='p29-other-clipping', property='P29', edits=[(TA, '''      filtering_config.smoothing_kernel_size_B,
      filtering_config.clipping_percentile_B, plot)''', '''      filtering_config.smoothing_kernel_size_B,
      filtering_config.clipping_percentile_A, plot)''')], needs='different clipping for the two trajectories', breaks='the second is clipped like the first', demo=TH + '''
seen = []
real = M.filter_and_smooth_angular_velocity
def smooth(v, kernel, percentile, plot=False):
  seen.append(percentile)
  return real(v, kernel, percentile, plot)
M.filter_and_smooth_angular_velocity = smooth
c = M.FilteringConfig()
c.smoothing_kernel_size_A = c.smoothing_kernel_size_B = 1
c.clipping_percentile_A, c.clipping_percentile_B = 100., 50.
q = [Quaternion.from_angle_axis(a, [0., 0., 1.]) for a in (0., 0.1, 0.3, 0.35, 0.4)]
M.calculate_time_offset(np.arange(5.), q, np.arange(5.), q, c)
assert seen == [100., 50.], seen
'''),
]
