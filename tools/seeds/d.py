MH = '''
import sys
import types
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib import pylab
import numpy as np
sys.modules.setdefault('tf', types.ModuleType('tf'))
plt.show = pylab.show = lambda *a, **k: None
from hand_eye_calibration import time_alignment_plotting_tools as TP
from hand_eye_calibration import hand_eye_calibration_plotting_tools as HP
from hand_eye_calibration.quaternion import Quaternion
def lines(k):
  return [(np.array(l.get_xdata(), float).ravel(), np.array(l.get_ydata(), float).ravel()) for l in plt.gcf().axes[k].lines]
'''
RH = MH + '''
ta, tb = np.array([10., 11., 12.]), np.array([10.5, 11.5])
TP.plot_results(ta, tb, np.array([1., 2., 3.]), np.array([4., 5.]), np.arange(4.), -2., False)
'''
AH = MH + '''
arrows = []
class Arrow(HP.Arrow3D):
  def __init__(self, xs, ys, zs, *a, **k):
    arrows.append((np.array([xs, ys, zs]), k['color']))
    HP.Arrow3D.__init__(self, xs, ys, zs, *a, **k)
HP.Arrow3D, HP.Arrow = Arrow, HP.Arrow3D
'''
AH = AH.replace("    HP.Arrow3D.__init__", "    old.__init__").replace("class Arrow(HP.Arrow3D)", "old = HP.Arrow3D\nclass Arrow(old)").replace("HP.Arrow3D, HP.Arrow = Arrow, HP.Arrow3D", "HP.Arrow3D = Arrow")
BH = MH + '''
import importlib.machinery
import importlib.util
import matplotlib.axes
boxes, colours = [], []
real_box, real_setp = matplotlib.axes.Axes.boxplot, plt.setp
def boxplot(self, x, *a, **k):
  r = real_box(self, x, *a, **k)
  boxes.append(([list(v) for v in x], np.array(k['positions']), k['widths'], r))
  return r
def setp(o, *a, **k):
  colours.append((o, k.get('color')))
  return real_setp(o, *a, **k)
matplotlib.axes.Axes.boxplot = boxplot
plt.setp = pylab.setp = setp
s = importlib.util.spec_from_loader('g', importlib.machinery.SourceFileLoader('g', 'hand_eye_calibration_experiments/bin/generate_plots.py'))
G = importlib.util.module_from_spec(s)
s.loader.exec_module(G)
'''
SEEDS = [
  dict(id='p46-earliest', property='P46', edits=[(TP, "min_time = min(np.amin(times_A_shifted), np.amin(times_B))", "min_time = min(np.amin(times_A), np.amin(times_B))")],
       needs='the first signal holds the earliest sample after the shift', breaks='the aligned signals do not start at zero', demo=RH + '''
l = lines(2)
assert np.allclose(l[0][0], [0., 1., 2.]) and np.allclose(l[1][0], [2.5, 3.5]), l
'''),
  dict(id='p46-lags', property='P46', edits=[(TP, "np.arange(-len(signal_A) + 1, len(signal_B))", "np.arange(-len(signal_B) + 1, len(signal_A))")],
       needs='signals of different lengths', breaks='the correlation is shown over wrong offsets', demo=RH + '''
assert np.allclose(lines(1)[0][0], [-2., -1., 0., 1.]), lines(1)
'''),
  dict(id='p46-interpolated', property='P46', edits=[(TP, "quat_B_interp = np.array([quat.q for quat in quaternions_B_interp])", "quat_B_interp = np.array([quat.q for quat in quaternions_B])")],
       needs='resampled orientations that differ from the input', breaks='the input is shown as interpolated', demo=MH + '''
a, b = [Quaternion(0., 0., 0., 1.)], [Quaternion(0., 0., 0.6, 0.8)]
n = np.array([1.])
TP.plot_input_data(a, a, a, b, n, n, n, n, False)
assert np.allclose([l[1][0] for l in lines(5)], [0., 0., 0.6, 0.8]), lines(5)
'''),
  dict(id='p46-rmse', property='P46', edits=[(PT, "plt.plot(rmse_orientation * np.ones((num_error_values, 1)), c='k')", "plt.plot(rmse_pose * np.ones((num_error_values, 1)), c='k')")],
       needs='an RMSE of the orientation unlike that of the position', breaks='the RMSE of the orientation is wrong', demo=MH + '''
HP.plot_alignment_errors(np.array([1., 2.]), 1.5, np.array([10., 20.]), 15., False)
assert np.allclose(lines(1)[1][1], [15., 15.]), lines(1)
'''),
  dict(id='p46-column', property='P46', edits=[(TP, "plt.plot(time_stamped_poses_B[:, 7], c='c')", "plt.plot(time_stamped_poses_A[:, 7], c='c')")],
       needs='scalar parts that differ between the trajectories', breaks='the scalar part of the second trajectory is wrong', demo=MH + '''
TP.plot_time_stamped_poses('t', np.array([[0., 1., 2., 3., 0., 0., 0., 1.]]), np.array([[0., 1., 2., 3., 0., 0., 0.6, 0.8]]), False)
assert np.allclose([l[1][0] for l in lines(2)], [0., 0., 0.6, 0.8]), lines(2)
'''),
  dict(id='p47-size', property='P47', edits=[(PT, "arrow_size = np.linalg.norm(bbox_max - bbox_min) * 0.05", "arrow_size = np.linalg.norm(bbox_max) * 0.05")],
       needs='a bounding box whose lower corner is not the origin', breaks='arrows have the wrong length', demo=AH + '''
HP.plot_poses([np.array([[1., 2., 3., 0., 0., 0., 1.], [4., 6., 3., 0., 0., 0., 1.]])], blocking=False)
assert len(arrows) == 6 and all(abs(np.linalg.norm(a[:, 1] - a[:, 0]) - 0.25) < 1e-9 for a, c in arrows), arrows
'''),
  dict(id='p47-height', property='P47', edits=[(PT, "  ax.set_zlim3d(axis_min, axis_max)\n", "  ax.set_zlim3d(bbox_min[2], bbox_max[2])\n"),
                                               (PT, "      axis_min, axis_max], [axis_min, axis_max])", "      axis_min, axis_max], [bbox_min[2], bbox_max[2]])")],
       needs='heights that do not span the other coordinates', breaks='the axes have different scales', demo=MH + '''
HP.plot_poses([np.array([[0., 10., 1., 0., 0., 0., 1.], [-4., 6., 3., 0., 0., 0., 1.]])], plot_arrows=False, blocking=False)
a = plt.gcf().axes[0]
assert a.get_zlim()[0] < -3.9 and a.get_zlim()[1] > 9.9, a.get_zlim()
'''),
  dict(id='p47-second-axis', property='P47', edits=[(PT, "[pose[2], pose[2] + y_rotated[2]]", "[pose[2], pose[2] + x_rotated[2]]")],
       needs='an orientation whose x and y axes differ in height', breaks='the y axis points elsewhere', demo=AH + '''
HP.plot_poses([np.array([[1., 2., 3., 0.6, 0., 0., 0.8], [4., 6., 3., 0., 0., 0., 1.]])], blocking=False)
a = [x for x, c in arrows if c == 'g'][0]
assert abs((a[:, 1] - a[:, 0])[2] - 0.25 * 0.96) < 1e-9, a
'''),
  dict(id='p47-points', property='P47', edits=[(PT, "ax.plot([pose[0]], [pose[1]], [pose[2]], 'o',", "ax.plot([pose[0]], [pose[1]], [poses[0, 2]], 'o',")],
       needs='a trajectory that changes its height', breaks='all points are at the height of the first', demo=MH + '''
HP.plot_poses([np.array([[1., 2., 3., 0., 0., 0., 1.], [4., 6., 8., 0., 0., 0., 1.]])], plot_arrows=False, blocking=False)
z = [list(l._verts3d[2]) for l in plt.gcf().axes[0].lines]
assert z == [[3., 8.], [3.], [8.]], z
'''),
  dict(id='p48-overlap', property='P48', edits=[(GP, "positions=(x_ticks + (i - num_datasets / 2. + 0.5) *\n                   spacing * 2)", "positions=(x_ticks + (i - num_datasets / 2. + 0.5) *\n                   spacing)")],
       needs='two data sets', breaks='the boxes of the data sets overlap', demo=BH + '''
G.generate_time_plot(['A', 'B'], ['s', 't'], {'s': {'A': [1.], 'B': [2.]}, 't': {'A': [3.], 'B': [4.]}}, ['b', 'g'])
assert len(boxes) == 2 and (boxes[1][1] - boxes[0][1] >= boxes[0][2] - 1e-9).all(), boxes
'''),
  dict(id='p48-sorted', property='P48', edits=[(GP, "  plt.xticks(x_ticks, methods)\n  plt.xlim(x_ticks[0] - 2.5 * spacing, x_ticks[-1] + 2.5 * spacing)", "  plt.xticks(x_ticks, sorted(methods))\n  plt.xlim(x_ticks[0] - 2.5 * spacing, x_ticks[-1] + 2.5 * spacing)")],
       needs='methods that are not in alphabetical order', breaks='names stand below the boxes of other methods', demo=BH + '''
G.generate_box_plot('s', ['RC', 'EC'], [[1.], [2.]], [[3.], [4.]])
t = [x.get_text() for x in plt.gcf().axes[0].get_xticklabels()]
assert t == ['RC', 'EC'], t
'''),
  dict(id='p48-colour', property='P48', edits=[(GP, "    plt.setp(bp['caps'], color=colors[i], linewidth=line_width)\n    handles", "    plt.setp(bp['caps'], color=colors[0], linewidth=line_width)\n    handles")],
       needs='two data sets', breaks='caps of the second have the colour of the first', demo=BH + '''
G.generate_time_plot(['A', 'B'], ['s', 't'], {'s': {'A': [1.], 'B': [2.]}, 't': {'A': [3.], 'B': [4.]}}, ['b', 'g'])
c = boxes[1][3]['caps'][0].get_color()
assert c == 'g', c
'''),
]
