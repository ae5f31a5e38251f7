QH = '''
import sys
import types
import numpy as np
for m in ('tf', 'rospy', 'rosbag'):
  sys.modules.setdefault(m, types.ModuleType(m))
from hand_eye_calibration.quaternion import *
'''
DH = QH + '''
from hand_eye_calibration.dual_quaternion import DualQuaternion as D
'''
HH = DH + '''
import hand_eye_calibration.dual_quaternion_hand_eye_calibration as H
'''
SEEDS = [
  dict(id='p01-small-inverse', property='P01', edits=[(Q, 'return self.conjugate() / self.squared_norm()', 'return self.conjugate() / max(self.squared_norm(), 1e-4)')],
    needs='a quaternion shorter than 0.01', breaks='its inverse', demo=QH + '''
q = Quaternion(1e-3, 2e-3, 3e-3, 4e-3)
assert np.allclose((q * q.inverse()).q, [0, 0, 0, 1])
'''),
  dict(id='p01-negation-alias', property='P01', edits=[(Q, '''    """ Quaternion subtraction. """
    q_added = self.q - other.q
''', '''    """ Quaternion subtraction. """
    q_added = other.q
    q_added -= self.q
    q_added *= -1.0
''')], needs='the right operand of a difference is used again', breaks='the subtrahend is overwritten', demo=QH + '''
p, q = Quaternion(1., 2., 3., 4.), Quaternion(2., 2., 2., 2.)
r = p - q
assert np.allclose(r.q, [-1, 0, 1, 2]) and np.allclose(q.q, 2.), q
'''),
  dict(id='p02-rotate-abs-w', property='P02', edits=[(Q, '2 * (self.y * self.z - self.x * self.w) * vector[2])', '2 * (self.y * self.z - self.x * abs(self.w)) * vector[2])')],
    needs='a quaternion with negative scalar part', breaks='rotating by -q is not rotating by q', demo=QH + '''
q = Quaternion(0.5, 0.5, 0.5, -0.5)
assert np.allclose(q.rotate_vector([1., 2., 3.]), (-q).rotate_vector([1., 2., 3.]))
'''),
  dict(id='p03-w-floor', property='P03', edits=[(Q, '''    w = np.sqrt(
        1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
''', '''    w = np.sqrt(max(
        1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2], 1.25)) / 2
''')], needs='a rotation matrix with a trace between 0 and 0.25 (angles around 115 to 120 degrees)',
    breaks='the quaternion of such matrices has the wrong scalar part', demo=QH + '''
q = Quaternion.from_angle_axis(np.radians(117.), [1., 2., -1.])
assert np.allclose(Quaternion.from_rotation_matrix(q.to_rotation_matrix()).q, q.q, atol=1e-6)
'''),
  dict(id='p04-short-axis', property='P04', edits=[(Q, '''    if q_norm > 1e-16:
      q *= np.sin''', '''    if q_norm > 1e-3:
      q *= np.sin''')], needs='an axis shorter than 1 mm', breaks='from_angle_axis does not scale the vector part', demo=QH + '''
q = Quaternion.from_angle_axis(1., [2e-4, 0., 0.])
assert np.isclose(q.norm(), 1.), q.norm()
'''),
  dict(id='p05-slerp-shortcut', property='P05', edits=[(Q, '''  # Stay within the domain of acos().
  dot_product = np.clip(dot_product, -1.0, 1.0)

  # Angle''', '''  # Close quaternions are interpolated linearly.
  if dot_product > 0.995:
    return Quaternion(q=q1 + fraction * (q2 - q1))
  dot_product = np.clip(dot_product, -1.0, 1.0)

  # Angle''')], needs='quaternions closer than 6 degrees of arc', breaks='slerp returns points off the unit sphere', demo=QH + '''
p, q = Quaternion(), Quaternion.from_angle_axis(0.15, [0., 0., 1.])
assert np.isclose(quaternion_slerp(p, q, 0.5).norm(), 1., atol=1e-6)
'''),
  dict(id='p05-interpolation-times', property='P05', edits=[(Q, '''  times_scaled = (times - t_left) / (t_right - t_left)
''', '''  times_scaled = (times - t_left) / np.maximum(t_right - t_left, 1e-3)
''')], needs='neighbouring time stamps less than a millisecond apart', breaks='the fraction is computed from a wrong interval', demo=QH + '''
p, q = Quaternion(), Quaternion.from_angle_axis(0.8, [0., 0., 1.])
r = quaternions_interpolate(p, 1., q, 1.0005, np.array([1.00025]))[0]
assert np.allclose(r.q, quaternion_slerp(p, q, 0.5).q, atol=1e-6)
'''),
  dict(id='p06-no-fold', property='P06', edits=[(H, '  if error_angle_degrees > 180.0:', '  if error_angle_degrees > 270.0:')],
    needs='orientations whose quaternions enclose more than a right angle', breaks='orientation errors above 180 degrees', demo=HH + '''
q = Quaternion.from_angle_axis(np.radians(100.), [0., 0., 1.])
a, b = np.zeros(7), np.zeros(7)
a[3:] = q.q
b[3:] = q.conjugate().q
assert abs(H.compute_pose_error(a, b)[1] - 160.) < 0.1, H.compute_pose_error(a, b)
'''),
  dict(id='p07-sign', property='P07', edits=[(Q, '''  if q1_q2_inv.w < 0.:
    q1_q2_inv''', '''  if q1_q2_inv.w < -0.5:
    q1_q2_inv''')], needs='a relative scalar part between -0.5 and 0', breaks='velocities of more than half a turn', demo=QH + '''
p, q = Quaternion.from_angle_axis(3.5, [0., 0., 1.]), Quaternion()
w = angular_velocity_between_quaternions(p, q, 1.)
assert np.linalg.norm(w) <= np.pi + 1e-6, w
'''),
  dict(id='p08-scalar-sign', property='P08', edits=[(D, '    scalar_part = 0.5 * (self + self.conjugate())', '    self.enforce_positive_q_rot_w()\n    scalar_part = 0.5 * (self + self.conjugate())')],
    needs='a dual quaternion with negative scalar part', breaks='taking the scalar part negates the dual quaternion', demo=DH + '''
d = D.from_vector([0.5, 0.5, 0.5, -0.5, 0., 0., 0., 0.])
s = d.scalar()
assert s.dq[3] == -0.5 and d.dq[3] == -0.5, (s, d)
'''),
  dict(id='p09-half-negation', property='P09', edits=[(D, '      self.dq = -self.dq\n', '      self.dq[0:4] = -self.dq[0:4]\n')],
    needs='a dual quaternion with negative scalar part', breaks='forcing a non-negative scalar part mirrors the position', demo=DH + '''
d = D.from_pose(1., 2., 3., 0.5, 0.5, 0.5, -0.5)
d.enforce_positive_q_rot_w()
assert np.allclose(d.to_pose()[:3], [1, 2, 3]), d.to_pose()
'''),
  dict(id='p09-matrix-translation', property='P09', edits=[(D, 'pose_vec[0:3] = transformation_matrix[0:3, 3]', 'pose_vec[0:3] = transformation_matrix[0:3, 3] / transformation_matrix[2, 2] if transformation_matrix[2, 2] > 1.0 - 1e-5 else transformation_matrix[0:3, 3].copy()\n    pose_vec[0] = np.clip(pose_vec[0], -5.0, 5.0)')],
    needs='a position beyond five metres', breaks='its x coordinate is cut', demo=DH + '''
d = D.from_pose(7., 2., 3., 0.5, 0.5, 0.5, 0.5)
assert np.allclose(D.from_transformation_matrix(d.to_matrix()).to_pose(), d.to_pose())
'''),
  dict(id='p10-pure-translation', property='P10', edits=[(D, '''    point_dq = DualQuaternion.from_pose(
''', '''    if np.linalg.norm(self.q_rot.q[0:3]) < 1e-2:
      return self.to_pose()[0:3] + point
    point_dq = DualQuaternion.from_pose(
''')], needs='a rotation by less than about one degree', breaks='small rotations are ignored when transforming points', demo=DH + '''
q = Quaternion.from_angle_axis(0.01, [0., 0., 1.])
d = D.from_pose(1., 2., 3., *q.q)
p = np.array([10., 20., 30.])
assert np.allclose(d.passive_transform_point(p), d.to_matrix()[:3, :3].dot(p) + d.to_matrix()[:3, 3], atol=1e-6)
'''),
  dict(id='p11-fold-angle', property='P11', edits=[(D, '    rotation = np.mod(rotation, 360.)', '    rotation = min(np.mod(rotation, 360.), 360. - np.mod(rotation, 360.))')],
    needs='a dual quaternion with negative scalar part', breaks='angle folded without reversing the axis', demo=DH + '''
a, r, t = D.from_pose(1., 2., 3., 0.5, 0.5, 0.5, -0.5).screw_axis()
assert np.allclose(Quaternion.from_angle_axis(np.radians(r), a).q, [0.5, 0.5, 0.5, -0.5]), (a, r)
'''),
  dict(id='p12-order', property='P12', edits=[(H, '''      dq_vec_starting_at_origin[:align_index]

''', '''      dq_vec_starting_at_origin[:align_index][::-1]

''')], needs='alignment at the third pose or later', breaks='poses before the chosen one come out in reversed order', demo=HH + '''
v = [D.from_pose(float(i), 0., 0., 0., 0., 0., 1.) for i in range(4)]
assert [int(round(d.to_pose()[0])) for d in H.align_paths_at_index(v, 2)] == [0, 1, -2, -1]
'''),
  dict(id='p13-dual-column', property='P13', edits=[(H, 's_matrix[3:6, 7] = dq_1.q_rot.q[0:-1] - dq_2.q_rot.q[0:-1]', 's_matrix[3:6, 7] = dq_1.q_dual.q[0:-1] - dq_2.q_dual.q[0:-1]')],
    needs='any pair of different motions', breaks='the constraint block', demo=HH + '''
x = D.from_pose(1., 2., 3., 0.5, 0.5, 0.5, 0.5)
a = D.from_pose(0.3, 0.2, -0.3, 0.6, 0., 0., 0.8)
s = H.setup_s_matrix(a, x.inverse() * a * x)
assert np.allclose(s.dot(x.dq), 0., atol=1e-8)
'''),
  dict(id='p14-root-choice', property='P14', edits=[(H, '  if solution_1 > solution_2:', '  if abs(s_1) > abs(s_2):')],
    needs='a null space basis for which the larger root is not the right one', breaks='the wrong root is chosen', demo=HH + '''
rs = np.random.RandomState(4)
for k in range(40):
  def pose():
    return D.from_pose(*np.concatenate([rs.uniform(-1, 1, 3), rs.randn(4)]))
  x = pose()
  a = [D.identity()] + [pose() for i in range(6)]
  b = [x.inverse() * d * x for d in a]
  r = H.compute_hand_eye_calibration(a, b)[0]
  assert np.allclose(r.to_pose(), x.to_pose(), atol=1e-4), (r, x)
'''),
  dict(id='p14-flag', property='P14', edits=[(H, '''      if singular_value > 5e-1:
''', '''      if singular_value > 5e-1 and not bad_singular_values and i > 6:
''')], needs='only the seventh singular value is too large', breaks='the quality flag stays down', demo=HH + '''
real = np.linalg.svd
def svd(m, *a, **k):
  u, s, v = real(m, *a, **k)
  return u, np.array([3., 3., 2., 2., 1., 1., 0.6, 0.1]), v
np.linalg.svd = svd
x = D.from_pose(1., 2., 3., 0.5, 0.5, 0.5, 0.5)
a = [D.identity(), D.from_pose(0.3, 0.2, -0.3, 0.6, 0., 0., 0.8), D.from_pose(0.3, 0.2, 0.3, 0., 0.6, 0., 0.8)]
assert H.compute_hand_eye_calibration(a, [x.inverse() * d * x for d in a])[2]
'''),
  dict(id='p15-inlier-or', property='P15', edits=[(H, '''    if (error_angle_degrees < config.ransac_orientation_error_threshold_deg and
            error_position < config.ransac_position_error_threshold_m):
      inlier_list[i] = True
''', '''    if (error_angle_degrees < config.ransac_orientation_error_threshold_deg and
            error_position <= config.ransac_position_error_threshold_m):
      inlier_list[i] = True
''')], needs='a position error exactly at its threshold', breaks='such pairs count as inliers', demo=HH + '''
c = H.HandEyeConfig()
c.ransac_position_error_threshold_m = 1.0
a, b = np.array([[0., 0., 0., 0., 0., 0., 1.]]), np.array([[1., 0., 0., 0., 0., 0., 1.]])
assert not H.evaluate_alignment(a, b, c)[2][0]
'''),
  dict(id='p15-rmse-count', property='P15', edits=[(H, 'rmse_orientation = math.sqrt(rmse_orientation_accumulator / num_poses)', 'rmse_orientation = math.sqrt(rmse_orientation_accumulator / max(1, sum(inlier_list)))')],
    needs='at least one outlier among the pairs', breaks='the orientation RMSE is divided by the number of inliers', demo=HH + '''
c = H.HandEyeConfig()
c.ransac_position_error_threshold_m = 1.0
a = np.array([[0., 0., 0., 0., 0., 0., 1.]] * 2)
b = np.array([[0., 0., 0., 0., 0., 0., 1.], [0., 0., 0., 1., 0., 0., 0.]])
assert abs(H.evaluate_alignment(a, b, c)[1] - 180. / np.sqrt(2)) < 0.1
'''),
]
