"""The rewrites used by refactor.py."""
from refactor import rewrite, P, ALL  # noqa: F401

Q = P + 'quaternion.py'
D = P + 'dual_quaternion.py'
H = P + 'dual_quaternion_hand_eye_calibration.py'
TA = P + 'time_alignment.py'
CORE = 'C01 C02 C03 C04 C05 C06 C22'

rewrite('Q1', CORE, Q, {
'Quaternion.__mul__': '''
def __mul__(self, other):
  """ Scalar and Hamilton quaternion product. """
  if isinstance(other, Number):
    return Quaternion(q=self.q * np.float64(other))
  assert isinstance(other, Quaternion), "Multiplication is only defined for scalars or quaternions."
  v1, v2 = self.q[:3], other.q[:3]
  vec = self.w * v2 + other.w * v1 + np.cross(v1, v2)
  return Quaternion(q=np.append(vec, self.w * other.w - np.dot(v1, v2)))
''',
'Quaternion.__rmul__': '''
def __rmul__(self, other):
  assert isinstance(other, Number), "Multiplication is only defined for scalars or quaternions."
  return self * other
''',
'Quaternion.__truediv__': '''
def __truediv__(self, other):
  if isinstance(other, Number):
    return Quaternion(q=np.divide(self.q, other))
  assert isinstance(other, Quaternion), "Division is only defined for scalars or quaternions."
  return self * other.inverse()
''',
'Quaternion.conjugate': '''
def conjugate(self):
  """ Quaternion conjugate. """
  return Quaternion(q=self.q * np.array([-1., -1., -1., 1.]))
''',
'Quaternion.squared_norm': '''
def squared_norm(self):
  return (self.q ** 2).sum()
''',
'Quaternion.norm': '''
def norm(self):
  return np.linalg.norm(self.q)
''',
'Quaternion.normalize': '''
def normalize(self):
  n = self.norm()
  if n <= 1e-8:
    return
  self.q = self.q / n
''',
'Quaternion.rotate_vector': '''
def rotate_vector(self, vector):
  """ Rotate a vector by the quaternion. """
  return np.dot(self.to_rotation_matrix(), np.asarray(vector))
''',
'Quaternion.to_rotation_matrix': '''
def to_rotation_matrix(self):
  x, y, z, w = self.q
  return np.array([
      [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
      [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
      [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
''',
'Quaternion.to_transformation_matrix': '''
def to_transformation_matrix(self):
  m = np.eye(4)
  m[:3, :3] = self.to_rotation_matrix()
  return m
''',
'Quaternion.angle_axis': '''
def angle_axis(self):
  if 1. - abs(self.w) <= 1e-12:
    return np.array([1., 0., 0., 0.])
  s = np.sqrt(1. - self.w ** 2)
  return np.concatenate((self.q[:3] / s, [2. * np.arccos(self.w)]))
''',
'Quaternion.from_angle_axis': '''
@classmethod
def from_angle_axis(cls, angle, axis):
  half = 0.5 * angle
  v = np.array([axis[0], axis[1], axis[2]], dtype=float)
  length = np.linalg.norm(v)
  if length > 1e-16:
    v = v * (np.sin(half) / length)
  return cls(v[0], v[1], v[2], np.cos(half))
''',
'angle_between_quaternions': '''
def angle_between_quaternions(q1, q2):
  """ Returns the angle between two quaternions, q1 and q2. """
  w = (q1 * q2.inverse()).w
  if np.allclose(q1.q, q2.q, atol=1.e-12):
    return 0.0
  return 2. * np.arccos(max(-1.0, min(1.0, w)))
''',
'quaternion_slerp': '''
def quaternion_slerp(q_1, q_2, fraction):
  _check_interpolation(q_1, q_2, fraction)
  if fraction == 0.0:
    return q_1.copy()
  if fraction == 1.0:
    return q_2.copy()
  start, end = q_1.q, q_2.q
  cosine = np.dot(start, end)
  sign = -1.0 if cosine < 0.0 else 1.0
  start = sign * start
  cosine = min(abs(cosine), 1.0)
  theta = fraction * np.arccos(cosine)
  direction = Quaternion(q=end - cosine * start)
  direction.normalize()
  return Quaternion(q=np.cos(theta) * start + np.sin(theta) * direction.q)


def _check_interpolation(q_1, q_2, fraction):
  assert 0.0 <= fraction <= 1.0, "fraction should be in [0,1]."
  for q in (q_1, q_2):
    assert isinstance(q, Quaternion), "q should be of Quaternion type."
    assert np.isclose(q.norm(), 1.0, atol=1.e-8), "unit quaternions expected."
''',
'quaternion_lerp': '''
def quaternion_lerp(q_1, q_2, fraction):
  _check_interpolation(q_1, q_2, fraction)
  return Quaternion(q=(1.0 - fraction) * q_1.q + fraction * q_2.q)
''',
'angular_velocity_between_quaternions': '''
def angular_velocity_between_quaternions(q1, q2, t):
  delta = q1 * q2.inverse()
  if delta.w < 0.:
    delta = Quaternion(q=-delta.q)
  result = delta.angle_axis()
  axis, angle = result[:3], result[3]
  return axis * angle / (2. * t)
''',
'quaternions_interpolate': '''
def quaternions_interpolate(q_left, t_left, q_right, t_right, times):
  span = t_right - t_left
  result = []
  for t in times:
    result.append(quaternion_slerp(q_left, q_right, (t - t_left) / span))
  return result
'''})

rewrite('Q2', CORE, Q, {
'Quaternion.__mul__': '''
def __mul__(self, other):
  if isinstance(other, Quaternion):
    return Quaternion(q=self._left_matrix().dot(other.q))
  elif isinstance(other, Number):
    return Quaternion(q=np.float64(other) * self.q)
  raise AssertionError("Multiplication is only defined for scalars or quaternions.")

def _left_matrix(self):
  """ Matrix of the multiplication from the left. """
  x, y, z, w = self.x, self.y, self.z, self.w
  return np.array([[w, -z, y, x],
                   [z, w, -x, y],
                   [-y, x, w, z],
                   [-x, -y, -z, w]])
''',
'Quaternion.inverse': '''
def inverse(self):
  """ Quaternion inverse. """
  c = self.conjugate().q
  return Quaternion(q=c / np.sum(np.square(self.q)))
''',
'Quaternion.norm': '''
def norm(self):
  return self.squared_norm() ** 0.5
''',
'Quaternion.squared_norm': '''
def squared_norm(self):
  return sum(c * c for c in self.q)
''',
'Quaternion.rotate_vector': '''
def rotate_vector(self, vector):
  u = self.q[0:3]
  uv = np.cross(u, vector)
  uuv = np.cross(u, uv)
  return np.array([vector[i] + 2 * (self.w * uv[i] + uuv[i]) for i in range(3)])
''',
'Quaternion.to_rotation_matrix': '''
def to_rotation_matrix(self):
  columns = [self.rotate_vector(e) for e in np.identity(3)]
  return np.array(columns).T
''',
'Quaternion.to_transformation_matrix': '''
def to_transformation_matrix(self):
  rotation = self.to_rotation_matrix()
  return np.vstack((np.hstack((rotation, np.zeros((3, 1)))), np.array([[0., 0., 0., 1.]])))
''',
'Quaternion.from_rotation_matrix': '''
@classmethod
def from_rotation_matrix(cls, rotation_matrix):
  m = rotation_matrix
  t = m[0, 0] + m[1, 1] + m[2, 2]
  if t > 0.0:
    s = 2.0 * np.sqrt(1.0 + t)
    return cls((m[2, 1] - m[1, 2]) / s, (m[0, 2] - m[2, 0]) / s, (m[1, 0] - m[0, 1]) / s, 0.25 * s)
  if m[0, 0] >= m[1, 1] and m[0, 0] >= m[2, 2]:
    s = 2.0 * np.sqrt(1.0 + m[0, 0] - m[1, 1] - m[2, 2])
    q = np.array([0.25 * s, (m[0, 1] + m[1, 0]) / s, (m[0, 2] + m[2, 0]) / s, (m[2, 1] - m[1, 2]) / s])
  elif m[1, 1] >= m[2, 2]:
    s = 2.0 * np.sqrt(1.0 + m[1, 1] - m[0, 0] - m[2, 2])
    q = np.array([(m[0, 1] + m[1, 0]) / s, 0.25 * s, (m[1, 2] + m[2, 1]) / s, (m[0, 2] - m[2, 0]) / s])
  else:
    s = 2.0 * np.sqrt(1.0 + m[2, 2] - m[0, 0] - m[1, 1])
    q = np.array([(m[0, 2] + m[2, 0]) / s, (m[1, 2] + m[2, 1]) / s, 0.25 * s, (m[1, 0] - m[0, 1]) / s])
  if q[3] < 0.0:
    q = -q
  return cls(q=q)
''',
'quaternion_slerp': '''
def quaternion_slerp(q_1, q_2, fraction):
  assert 0.0 <= fraction and fraction <= 1.0, "fraction should be in [0,1]."
  assert isinstance(q_1, Quaternion) and isinstance(q_2, Quaternion)
  assert abs(q_1.norm() - 1.0) < 1e-5
  assert abs(q_2.norm() - 1.0) < 1e-5
  if fraction == 0.0:
    return Quaternion(q=q_1.q)
  elif fraction == 1.0:
    return Quaternion(q=q_2.q)
  else:
    a = q_1.q.copy()
    b = q_2.q.copy()
    d = float(a.dot(b))
    if d < 0.0:
      a, d = -a, -d
    if d > 1.0:
      d = 1.0
    theta = np.arccos(d) * fraction
    c = b - a * d
    n = np.linalg.norm(c)
    if n > 1e-8:
      c = c / n
    return Quaternion(q=a * np.cos(theta) + c * np.sin(theta))
''',
'angular_velocity_between_quaternions': '''
def angular_velocity_between_quaternions(q1, q2, t):
  d = q1 * q2.inverse()
  d = -d if d.w < 0. else d
  x, y, z, angle = d.angle_axis()
  rate = 0.5 * angle / t
  return np.array([rate * x, rate * y, rate * z])
'''})

rewrite('Q3', CORE + ' C13', Q, {
'Quaternion.__init__': '''
def __init__(self, x=0.0, y=0.0, z=0.0, w=1.0, q=None):
  if q is not None:
    assert isinstance(q, np.ndarray), "This is not supported. Type of q is {}".format(type(q))
    self.q = np.array(q)
  else:
    assert all(isinstance(c, Number) for c in (x, y, z, w)), "x, y, z, w should be scalars."
    self.q = np.array((x, y, z, w))
''',
'Quaternion.__add__': '''
def __add__(self, other):
  return self._from_array(np.add(self.q, other.q))

@staticmethod
def _from_array(values):
  return Quaternion(q=values)
''',
'Quaternion.__sub__': '''
def __sub__(self, other):
  return self + (-other)
''',
'Quaternion.__neg__': '''
def __neg__(self):
  return self._from_array(np.negative(self.q))
''',
'Quaternion.copy': '''
def copy(self):
  return Quaternion(self.x, self.y, self.z, self.w)
''',
'Quaternion.angle_axis': '''
def angle_axis(self):
  w = self.w
  is_identity = np.isclose(abs(w), 1., rtol=0., atol=1.e-12)
  if not is_identity:
    scale = 1.0 / np.sqrt(1. - w * w)
    axis = [scale * c for c in (self.x, self.y, self.z)]
    return np.array(axis + [2. * np.arccos(w)])
  return np.array([1., 0., 0., 0.])
'''})

rewrite('D1', 'C03 C04 C05 C10 C14 C22 C15', D, {
'DualQuaternion.__init__': '''
def __init__(self, q_rot, q_dual):
  assert isinstance(q_rot, Quaternion) and isinstance(q_dual, Quaternion), (
      "q_rot and q_dual should be quaternions.")
  self.dq = np.concatenate((q_rot.q, q_dual.q))
  self.assert_normalization()
''',
'DualQuaternion.__mul__': '''
def __mul__(self, other):
  if isinstance(other, Number):
    return DualQuaternion.from_vector(np.float64(other) * self.dq)
  assert isinstance(other, DualQuaternion), "not defined"
  r1, d1 = self.q_rot, self.q_dual
  r2, d2 = other.q_rot, other.q_dual
  return DualQuaternion(r1 * r2, r1 * d2 + d1 * r2)
''',
'DualQuaternion.__eq__': '''
def __eq__(self, other):
  return isinstance(other, DualQuaternion) and np.allclose(self.dq, other.dq)
''',
'DualQuaternion.from_pose': '''
@classmethod
def from_pose(cls, x, y, z, rx, ry, rz, rw):
  rotation = Quaternion(rx, ry, rz, rw)
  rotation.normalize()
  translation = Quaternion(0.5 * x, 0.5 * y, 0.5 * z, 0.)
  return cls(rotation, translation * rotation)
''',
'DualQuaternion.from_pose_vector': '''
@classmethod
def from_pose_vector(cls, pose):
  x, y, z, rx, ry, rz, rw = pose[:7]
  return cls.from_pose(x, y, z, rx, ry, rz, rw)
''',
'DualQuaternion.from_transformation_matrix': '''
@classmethod
def from_transformation_matrix(cls, transformation_matrix):
  q = Quaternion.from_rotation_matrix(transformation_matrix[:3, :3])
  t = transformation_matrix[:3, 3]
  return cls.from_pose(t[0], t[1], t[2], q.x, q.y, q.z, q.w)
''',
'DualQuaternion.identity': '''
@classmethod
def identity(cls):
  return cls.from_vector([0., 0., 0., 1., 0., 0., 0., 0.])
''',
'DualQuaternion.inverse': '''
def inverse(self):
  assert self.norm()[0] > 1e-8
  r_inv = self.q_rot.inverse()
  return DualQuaternion(r_inv, -(r_inv * self.q_dual * r_inv))
''',
'DualQuaternion.enforce_positive_q_rot_w': '''
def enforce_positive_q_rot_w(self):
  assert self.norm()[0] > 1e-8
  if self.r_w < 0.0:
    self.dq *= -1.0
''',
'DualQuaternion.norm': '''
def norm(self):
  q_rot, q_dual = self.q_rot, self.q_dual
  real_norm = q_rot.norm()
  assert real_norm > 1e-8, "the norm is not defined."
  return real_norm, q_rot.q.dot(q_dual.q) / real_norm
''',
'DualQuaternion.is_normalized': '''
def is_normalized(self):
  real, dual = self.norm()
  return abs(real - 1.0) < 1e-8 and abs(dual) < 1e-8
''',
'DualQuaternion.normalize': '''
def normalize(self):
  self.dq = self.dq / self.q_rot.norm()
  self.assert_normalization()
''',
'DualQuaternion.scalar': '''
def scalar(self):
  total = self + self.conjugate()
  scalar_part = total * 0.5
  assert np.allclose(scalar_part.dq[[0, 1, 2, 4, 5, 6]], 0., atol=1e-6)
  return scalar_part
''',
'DualQuaternion.screw_axis': '''
def screw_axis(self):
  half_angle = np.arccos(np.clip(self.q_rot.w, -1.0, 1.0))
  rotation = np.mod(np.degrees(2. * half_angle), 360.)
  if rotation > 1.e-12:
    s = np.sin(np.radians(rotation) / 2.)
    return self.q_rot.q[0:3] / s, rotation, -2. * self.q_dual.w / s
  t = 2. * self.q_dual.q[0:3]
  translation = np.linalg.norm(t)
  if translation > 1.e-12:
    return np.sign(self.q_rot.w) * t / translation, rotation, translation
  return np.zeros(3), rotation, translation
''',
'DualQuaternion.to_pose': '''
def to_pose(self):
  self.normalize()
  translation = 2.0 * (self.q_dual * self.q_rot.conjugate())
  rotation = self.q_rot.q
  if rotation[3] < 0.:
    rotation = -rotation
  return np.hstack((translation.q[:3], rotation))
''',
'DualQuaternion.to_matrix': '''
def to_matrix(self):
  pose = self.to_pose()
  matrix_out = Quaternion(q=pose[3:]).to_transformation_matrix()
  matrix_out[0:3, 3] = pose[0:3]
  return matrix_out
''',
'DualQuaternion.passive_transform_point': '''
def passive_transform_point(self, point):
  shift = DualQuaternion.from_pose(point[0], point[1], point[2], 0, 0, 0, 1)
  return (self * shift).to_pose()[:3]
''',
'DualQuaternion.copy': '''
def copy(self):
  return DualQuaternion(self.q_rot, self.q_dual)
'''})

rewrite('D2', 'C03 C04 C05 C14 C22', D, {
'DualQuaternion.__mul__': '''
def __mul__(self, other):
  if not isinstance(other, (DualQuaternion, Number)):
    raise AssertionError("Multiplication is only defined for scalars or dual quaternions.")
  if isinstance(other, Number):
    return self.__rmul__(other)
  product = np.zeros(8)
  product[:4] = (self.q_rot * other.q_rot).q
  product[4:] = (self.q_rot * other.q_dual).q
  product[4:] += (self.q_dual * other.q_rot).q
  return DualQuaternion.from_vector(product)
''',
'DualQuaternion.conjugate': '''
def conjugate(self):
  signs = np.array([-1., -1., -1., 1.] * 2)
  return DualQuaternion.from_vector(signs * self.dq)
''',
'DualQuaternion.inverse': '''
def inverse(self):
  assert self.norm()[0] > 1e-8
  n2 = self.q_rot.squared_norm()
  real = self.q_rot.conjugate() * (1.0 / n2)
  dual = real * self.q_dual * real * -1.0
  return DualQuaternion(real, dual)
''',
'DualQuaternion.from_vector': '''
@classmethod
def from_vector(cls, dq):
  v = np.array(dq)
  real, dual = v[:4], v[4:]
  return cls(Quaternion(q=real), Quaternion(q=dual))
''',
'DualQuaternion.scalar': '''
def scalar(self):
  values = np.zeros(8)
  values[3] = self.r_w
  values[7] = self.t_w
  return DualQuaternion.from_vector(values)
''',
'DualQuaternion.to_pose': '''
def to_pose(self):
  self.normalize()
  r = self.q_rot
  t = (self.q_dual * r.conjugate()) * 2.0
  if r.w < 0.:
    r = Quaternion(-r.x, -r.y, -r.z, -r.w)
  return np.array([t.x, t.y, t.z, r.x, r.y, r.z, r.w])
''',
'DualQuaternion.to_matrix': '''
def to_matrix(self):
  self.normalize()
  rotation = self.q_rot.to_rotation_matrix()
  translation = self.to_pose()[0:3].reshape(3, 1)
  top = np.hstack((rotation, translation))
  return np.vstack((top, [0., 0., 0., 1.]))
''',
'DualQuaternion.passive_transform_point': '''
def passive_transform_point(self, point):
  pose = self.to_pose()
  return Quaternion(q=pose[3:7]).rotate_vector(point) + pose[:3]
''',
'DualQuaternion.normalize': '''
def normalize(self):
  norm = np.linalg.norm(self.dq[:4])
  self.dq[:] /= norm
  self.assert_normalization()
'''})

rewrite('T1', 'C05 C06 C08 C09 C22 C24 C25', TA, {
'calculate_time_offset_from_signals': '''
def calculate_time_offset_from_signals(times_A, signal_A,
                                       times_B, signal_B,
                                       plot=False, block=True):
  correlation = signal.correlate(signal_B, signal_A)
  lag = np.argmax(correlation) - (len(signal_A) - 1)
  step = (times_A[-1] - times_A[0]) / (len(times_A) - 1)
  time_offset = step * lag + (times_B[0] - times_A[0])
  if plot:
    plot_results(times_A, times_B, signal_A, signal_B, correlation,
                 time_offset, block=block)
  return time_offset
''',
'resample_quaternions_from_samples': '''
def resample_quaternions_from_samples(times, quaternions, samples):
  def at(sample):
    assert times[0] <= sample <= times[-1], (sample, times)
    right = bisect.bisect_left(times, sample)
    if abs(sample - times[right]) <= 1e-16:
      return quaternions[right]
    left = right - 1
    assert left >= 0, left
    return quaternions_interpolate(quaternions[left], times[left],
                                   quaternions[right], times[right], [sample])[0]

  return [at(sample) for sample in samples]
''',
'resample_quaternions': '''
def resample_quaternions(times, quaternions, dt):
  start, end = times[0], times[-1]
  num = 1 + int((end - start) / dt)
  samples = np.linspace(start, end, num=num)
  resampled = resample_quaternions_from_samples(times, quaternions, samples)
  return resampled, samples
''',
'compute_angular_velocity_norms': '''
def compute_angular_velocity_norms(quaternions, samples, smoothing_kernel_size, clipping_percentile, plot=False):
  n = len(quaternions) - 1
  velocities = np.array([
      angular_velocity_between_quaternions(quaternions[k], quaternions[k + 1], samples[k + 1] - samples[k])
      for k in range(n)])
  filtered = filter_and_smooth_angular_velocity(velocities, smoothing_kernel_size, clipping_percentile, plot)
  return [np.linalg.norm(filtered[k]) for k in range(n)]
''',
'calculate_time_offset': '''
def calculate_time_offset(times_A, quaternions_A, times_B, quaternions_B, filtering_config, plot=False):
  dt = max(np.mean(np.diff(times_A)), np.mean(np.diff(times_B)))

  def rates(times, quaternions, kernel_size, percentile):
    resampled, samples = resample_quaternions(times, quaternions, dt)
    norms = compute_angular_velocity_norms(resampled, samples, kernel_size, percentile, plot)
    return resampled, samples[:len(norms)], norms

  resampled_A, samples_A, norms_A = rates(
      times_A, quaternions_A, filtering_config.smoothing_kernel_size_A, filtering_config.clipping_percentile_A)
  resampled_B, samples_B, norms_B = rates(
      times_B, quaternions_B, filtering_config.smoothing_kernel_size_B, filtering_config.clipping_percentile_B)

  if plot:
    plot_input_data(quaternions_A, quaternions_B, resampled_A, resampled_B, norms_A, norms_B, norms_A, norms_B, False)
  return calculate_time_offset_from_signals(samples_A, norms_A, samples_B, norms_B, plot, True)
''',
'interpolate_poses_from_samples': '''
def interpolate_poses_from_samples(time_stamped_poses, samples):
  stamps = time_stamped_poses[:, 0]
  orientations = [Quaternion(q=row[4:]) for row in time_stamped_poses]
  resampled = resample_quaternions_from_samples(stamps, orientations, samples)
  poses = np.zeros((len(samples), time_stamped_poses.shape[1]))
  poses[:, 0] = samples
  for column in range(1, 4):
    poses[:, column] = np.interp(samples, stamps, time_stamped_poses[:, column])
  for row, quaternion in zip(poses, resampled):
    row[4:8] = quaternion.q
  return poses
''',
'compute_aligned_poses': '''
def compute_aligned_poses(time_stamped_poses_A,
                          time_stamped_poses_B,
                          time_offset,
                          plot=False):
  poses_A = time_stamped_poses_A.copy()
  poses_A[:, 0] = poses_A[:, 0] + time_offset
  times_A = poses_A[:, 0]
  times_B = time_stamped_poses_B[:, 0]

  if np.median(np.diff(times_A)) >= np.median(np.diff(times_B)):
    slow, fast = times_A, times_B
  else:
    slow, fast = times_B, times_A

  samples = np.array(_common_stamps(slow, fast, max(times_A[0], times_B[0])))
  aligned_A = interpolate_poses_from_samples(poses_A, samples)
  aligned_B = interpolate_poses_from_samples(time_stamped_poses_B, samples)
  print("Found {} matching poses.".format(len(aligned_A)))
  if plot:
    plot_time_stamped_poses("Time Aligned Aligned Poses", aligned_A, aligned_B)
  return aligned_A, aligned_B


def _common_stamps(slow, fast, start_time, max_gap=0.1):
  stamps = []
  for stamp in slow:
    if stamp < start_time:
      continue
    right = bisect.bisect_left(fast, stamp)
    if right >= len(fast) - 1:
      break
    if fast[right] == stamp:
      stamps.append(stamp)
    elif stamp - fast[right - 1] < max_gap and fast[right] - stamp <= max_gap:
      stamps.append(stamp)
  return stamps
'''})

rewrite('T2', 'C05 C06 C08 C09 C22 C24 C25', TA, {
'compute_aligned_poses': '''
def compute_aligned_poses(time_stamped_poses_A,
                          time_stamped_poses_B,
                          time_offset,
                          plot=False):
  shifted_A = np.array(time_stamped_poses_A, copy=True)
  shifted_A[:, 0] += time_offset
  t_A, t_B = shifted_A[:, 0], time_stamped_poses_B[:, 0]
  start = max(t_A[0], t_B[0])

  a_is_slower = np.median(np.diff(t_A)) >= np.median(np.diff(t_B))
  low = t_A if a_is_slower else t_B
  high = t_B if a_is_slower else t_A
  last = high.shape[0] - 1

  samples = []
  for t in low:
    if t >= start:
      i = bisect.bisect_left(high, t)
      if not i < last:
        break
      same = high[i] == t
      close = (t - high[i - 1]) < 0.1 and (high[i] - t) <= 0.1
      if same or close:
        samples.append(t)

  samples = np.asarray(samples)
  result = tuple(interpolate_poses_from_samples(p, samples) for p in (shifted_A, time_stamped_poses_B))
  if plot:
    plot_time_stamped_poses("Time Aligned Aligned Poses", result[0], result[1])
  return result
''',
'interpolate_poses_from_samples': '''
def interpolate_poses_from_samples(time_stamped_poses, samples):
  times = time_stamped_poses[:, 0]
  quaternions = [Quaternion(q=p[3:]) for p in time_stamped_poses[:, 1:]]
  interpolated = resample_quaternions_from_samples(times, quaternions, samples)
  result = np.zeros((samples.shape[0], time_stamped_poses.shape[1]))
  for i, sample in enumerate(samples):
    result[i, 0] = sample
    for j in [1, 2, 3]:
      result[i, j] = np.interp(sample, times, time_stamped_poses[:, j])
    result[i, 4:8] = interpolated[i].q
  return result
''',
'resample_quaternions_from_samples': '''
def resample_quaternions_from_samples(times, quaternions, samples):
  result = []
  for sample in samples:
    assert sample <= times[-1], (sample, times)
    assert sample >= times[0], (sample, times[0])
    upper = int(np.searchsorted(times, sample))
    if sample == times[upper]:
      result.append(quaternions[upper])
      continue
    lower = upper - 1
    result.extend(quaternions_interpolate(
        quaternions[lower], times[lower], quaternions[upper], times[upper], np.array([sample])))
  return result
''',
'calculate_time_offset': '''
def calculate_time_offset(times_A, quaternions_A, times_B, quaternions_B, filtering_config, plot=False):
  steps = [np.mean(np.diff(t)) for t in (times_A, times_B)]
  dt = max(steps)
  inputs = [
      (times_A, quaternions_A, filtering_config.smoothing_kernel_size_A, filtering_config.clipping_percentile_A),
      (times_B, quaternions_B, filtering_config.smoothing_kernel_size_B, filtering_config.clipping_percentile_B)]
  samples, norms = [], []
  for times, quaternions, kernel, percentile in inputs:
    resampled, s = resample_quaternions(times, quaternions, dt)
    v = compute_angular_velocity_norms(resampled, s, kernel, percentile, plot)
    samples.append(s[:-1])
    norms.append(v)
  return calculate_time_offset_from_signals(samples[0], norms[0], samples[1], norms[1], plot, True)
'''})

rewrite('H1', 'C05 C07 C10 C13 C14 C22 C23 C24', H, {
'align_paths_at_index': '''
def align_paths_at_index(dq_vec, align_index=0, enforce_positive_q_rot_w=True):
  origin_inverse = dq_vec[align_index].inverse()
  aligned = []
  for dq in dq_vec[align_index:] + dq_vec[:align_index]:
    relative = origin_inverse * dq
    if enforce_positive_q_rot_w and relative.q_rot.w < 0.:
      relative.dq = -relative.dq
    aligned.append(relative)
  assert np.allclose(aligned[0].dq, [0., 0., 0., 1.0, 0., 0., 0., 0.], atol=1.e-8), aligned[0]
  return aligned
''',
'compute_dual_quaternions_with_offset': '''
def compute_dual_quaternions_with_offset(dq_B_H_vec, dq_H_E, dq_B_W):
  dq_W_B = dq_B_W.inverse()

  def eye_pose(dq_B_H):
    dq = dq_W_B * dq_B_H * dq_H_E
    dq.normalize()
    return dq

  return [eye_pose(dq) for dq in dq_B_H_vec]
''',
'setup_s_matrix': '''
def setup_s_matrix(dq_1, dq_2):
  assert np.allclose(dq_1.scalar().dq, dq_2.scalar().dq, atol=5e-2), "Scalar parts should always be equal."
  a, a_dual = dq_1.dq[0:3], dq_1.dq[4:7]
  b, b_dual = dq_2.dq[0:3], dq_2.dq[4:7]
  zeros = np.zeros((3, 4))
  real = np.column_stack((skew_from_vector(a + b), a - b))
  dual = np.column_stack((skew_from_vector(a_dual + b_dual), a_dual - b_dual))
  return np.vstack((np.hstack((real, zeros)), np.hstack((dual, real))))
''',
'setup_t_matrix': '''
def setup_t_matrix(dq_W_E_vec, dq_B_H_vec):
  return np.vstack([setup_s_matrix(a, b) for a, b in zip(dq_W_E_vec, dq_B_H_vec)])
''',
'skew_from_vector': '''
def skew_from_vector(vector):
  x, y, z = vector
  return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
''',
'compute_pose_error': '''
def compute_pose_error(pose_A, pose_B):
  error_position = np.sqrt(np.sum((pose_A[:3] - pose_B[:3]) ** 2))

  def positive(q):
    quaternion = Quaternion(q=q)
    quaternion.normalize()
    return -quaternion if quaternion.w < 0 else quaternion

  angle = math.degrees(angle_between_quaternions(positive(pose_A[3:7]), positive(pose_B[3:7])))
  return error_position, (360.0 - angle if angle > 180.0 else angle)
''',
'evaluate_alignment': '''
def evaluate_alignment(poses_A, poses_B, config, visualize=False):
  assert poses_A.shape == poses_B.shape
  assert poses_A.shape[1] == 7
  assert isinstance(config, HandEyeConfig)
  errors = [compute_pose_error(a, b) for a, b in zip(poses_A, poses_B)]
  num_poses = len(errors)
  errors_position = np.array([e[0] for e in errors])
  errors_orientation = np.array([e[1] for e in errors])
  rmse_pose = math.sqrt(np.mean(errors_position ** 2))
  rmse_orientation = math.sqrt(np.mean(errors_orientation ** 2))
  inlier_list = [bool(p < config.ransac_position_error_threshold_m and
                      o < config.ransac_orientation_error_threshold_deg)
                 for p, o in errors]
  if visualize:
    plot_alignment_errors(errors_position, rmse_pose, errors_orientation, rmse_orientation, blocking=True)
  return rmse_pose, rmse_orientation, inlier_list
''',
'get_aligned_poses': '''
def get_aligned_poses(dq_B_H_vec, dq_W_E_vec, dq_H_E_estimated):
  assert len(dq_W_E_vec) == len(dq_B_H_vec)
  dq_E_H = dq_H_E_estimated.inverse()
  dq_E_H.normalize()
  dq_E_H.enforce_positive_q_rot_w()

  dq_W_H_vec = []
  for dq_B_H, dq_W_E in zip(dq_B_H_vec, dq_W_E_vec):
    dq_W_H = dq_W_E * dq_E_H
    dq_W_H.normalize()
    if dq_W_H.q_rot.w * dq_B_H.q_rot.w < 0.:
      dq_W_H.dq = -dq_W_H.dq
    dq_W_H_vec.append(dq_W_H)
  dq_W_H_vec = align_paths_at_index(dq_W_H_vec)
  return (np.array([dq.to_pose() for dq in dq_B_H_vec]),
          np.array([dq.to_pose() for dq in dq_W_H_vec]))
''',
'prefilter_using_screw_axis': '''
def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_threshold=0.95):
  kept_W_E, kept_B_H = [], []
  axes_W_E, axes_B_H = [], []
  for dq_W_E, dq_B_H in zip(dq_W_E_vec_in, dq_B_H_vec_in):
    axis_W_E = dq_W_E.screw_axis()[0]
    axis_B_H = dq_B_H.screw_axis()[0]
    norm_W_E = np.linalg.norm(axis_W_E)
    norm_B_H = np.linalg.norm(axis_B_H)
    if norm_W_E <= 1.e-12 or norm_B_H <= 1.e-12:
      continue
    axis_W_E = axis_W_E / norm_W_E
    axis_B_H = axis_B_H / norm_B_H
    distinct = True
    for other_W_E, other_B_H in zip(axes_W_E, axes_B_H):
      if np.dot(axis_W_E, other_W_E) > dot_product_threshold or np.dot(axis_B_H, other_B_H) > dot_product_threshold:
        distinct = False
        break
    if distinct:
      kept_W_E.append(copy.deepcopy(dq_W_E))
      kept_B_H.append(copy.deepcopy(dq_B_H))
      axes_W_E.append(axis_W_E)
      axes_B_H.append(axis_B_H)
  assert len(kept_W_E) >= 2, "Not enough distinct poses found."
  return kept_W_E, kept_B_H
''',
'compute_hand_eye_calibration': '''
def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
                                 scalar_part_tolerance=1e-2,
                                 enforce_same_non_dual_scalar_sign=True):
  identity = [0., 0., 0., 1.0, 0., 0., 0., 0.]
  assert np.allclose(dq_B_H_vec_inliers[0].dq, identity, atol=1.e-8), dq_B_H_vec_inliers[0]
  assert np.allclose(dq_W_E_vec_inliers[0].dq, identity, atol=1.e-8), dq_W_E_vec_inliers[0]

  if enforce_same_non_dual_scalar_sign:
    for dq_B_H, dq_W_E in zip(dq_B_H_vec_inliers, dq_W_E_vec_inliers):
      if dq_W_E.q_rot.w * dq_B_H.q_rot.w < 0.:
        dq_W_E.dq = -dq_W_E.dq

  for dq_B_H, dq_W_E in zip(dq_B_H_vec_inliers, dq_W_E_vec_inliers):
    assert np.allclose(dq_W_E.scalar().dq, dq_B_H.scalar().dq, atol=scalar_part_tolerance), "Mismatch"

  t_matrix = setup_t_matrix(dq_B_H_vec_inliers, dq_W_E_vec_inliers)
  _, singular_values, V = np.linalg.svd(t_matrix)
  bad_singular_values = bool(np.any(singular_values[:6] < 5e-1) or np.any(singular_values[6:] > 5e-1))
  return (_solve_unit_constraint(V[6], V[7]), singular_values, bad_singular_values)


def _solve_unit_constraint(v_7, v_8):
  u_1, v_1 = v_7[:4], v_7[4:]
  u_2, v_2 = v_8[:4], v_8[4:]
  a = u_1.dot(v_1)
  assert a != 0.0, "This would involve division by zero."
  b = u_1.dot(v_2) + u_2.dot(v_1)
  c = u_2.dot(v_2)
  discriminant = b ** 2 - 4.0 * a * c
  assert discriminant >= -1e-2, discriminant
  root = np.sqrt(max(discriminant, 0.0))
  candidates = []
  for s in ((-b + root) / (2.0 * a), (-b - root) / (2.0 * a)):
    candidates.append((s, s * s * u_1.dot(u_1) + 2.0 * s * u_1.dot(u_2) + u_2.dot(u_2)))
  s, value = candidates[0] if candidates[0][1] > candidates[1][1] else candidates[1]
  assert value > 0.0, value
  lambda_2 = 1.0 / np.sqrt(value)
  dq_H_E = DualQuaternion.from_vector(lambda_2 * (s * v_7 + v_8))
  dq_H_E.normalize()
  if dq_H_E.q_rot.w < 0.:
    dq_H_E.dq = -dq_H_E.dq
  return dq_H_E
'''})

rewrite('H2', 'C05 C07 C10 C13 C14 C22 C23 C24', H, {
'align_paths_at_index': '''
def align_paths_at_index(dq_vec, align_index=0, enforce_positive_q_rot_w=True):
  inverse = dq_vec[align_index].inverse()
  relative = [inverse * dq for dq in dq_vec]
  if enforce_positive_q_rot_w:
    for dq in relative:
      dq.enforce_positive_q_rot_w()
  n = len(relative)
  return [relative[(align_index + i) % n] for i in range(n)]
''',
'setup_s_matrix': '''
def setup_s_matrix(dq_1, dq_2):
  for s_1, s_2 in ((dq_1.r_w, dq_2.r_w), (dq_1.t_w, dq_2.t_w)):
    assert np.isclose(s_1, s_2, atol=5e-2), "Scalar parts should always be equal."
  s_matrix = np.zeros([6, 8])
  rotation_1, rotation_2 = dq_1.q_rot.q[:3], dq_2.q_rot.q[:3]
  dual_1, dual_2 = dq_1.q_dual.q[:3], dq_2.q_dual.q[:3]
  block = skew_from_vector(rotation_1 + rotation_2)
  difference = rotation_1 - rotation_2
  for row, column in ((0, 0), (3, 4)):
    s_matrix[row:row + 3, column:column + 3] = block
    s_matrix[row:row + 3, column + 3] = difference
  s_matrix[3:6, 0:3] = skew_from_vector(dual_1 + dual_2)
  s_matrix[3:6, 3] = dual_1 - dual_2
  return s_matrix
''',
'setup_t_matrix': '''
def setup_t_matrix(dq_W_E_vec, dq_B_H_vec):
  blocks = []
  for i in range(len(dq_W_E_vec)):
    blocks.append(setup_s_matrix(dq_W_E_vec[i], dq_B_H_vec[i]))
  return np.concatenate(blocks, axis=0)
''',
'compute_pose_error': '''
def compute_pose_error(pose_A, pose_B):
  difference = pose_A[0:3] - pose_B[0:3]
  quaternions = []
  for pose in (pose_A, pose_B):
    quaternion = Quaternion(q=pose[3:7])
    quaternion.normalize()
    if quaternion.w < 0:
      quaternion = -quaternion
    quaternions.append(quaternion)
  degrees = np.degrees(angle_between_quaternions(*quaternions))
  return (math.sqrt(difference.dot(difference)), min(degrees, abs(360.0 - degrees)))
''',
'evaluate_alignment': '''
def evaluate_alignment(poses_A, poses_B, config, visualize=False):
  assert np.array_equal(poses_A.shape, poses_B.shape)
  assert poses_A.shape[1] == 7, "poses_A are not valid poses!"
  assert isinstance(config, HandEyeConfig)
  n = poses_A.shape[0]
  inliers = []
  sum_position = 0.0
  sum_orientation = 0.0
  for i in range(n):
    position, orientation = compute_pose_error(poses_A[i], poses_B[i])
    inliers.append(not (orientation >= config.ransac_orientation_error_threshold_deg or
                        position >= config.ransac_position_error_threshold_m))
    sum_position += position ** 2
    sum_orientation += orientation ** 2
  return (math.sqrt(sum_position / n), math.sqrt(sum_orientation / n), inliers)
''',
'get_aligned_poses': '''
def get_aligned_poses(dq_B_H_vec, dq_W_E_vec, dq_H_E_estimated):
  assert len(dq_W_E_vec) == len(dq_B_H_vec)
  calibration = dq_H_E_estimated.copy()
  calibration.normalize()
  inverse = calibration.inverse()
  path = []
  for i, dq_W_E in enumerate(dq_W_E_vec):
    dq = dq_W_E * inverse
    dq.normalize()
    path.append(dq)
  path = align_paths_at_index(path)
  poses_W_H = np.zeros((len(path), 7))
  poses_B_H = np.zeros((len(path), 7))
  for i in range(len(path)):
    poses_W_H[i, :] = path[i].to_pose()
    poses_B_H[i, :] = dq_B_H_vec[i].to_pose()
  return poses_B_H, poses_W_H
''',
'prefilter_using_screw_axis': '''
def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_threshold=0.95):
  def unit_axis(dq):
    axis = dq.screw_axis()[0]
    norm = np.linalg.norm(axis)
    return axis / norm if norm > 1.e-12 else None

  axes = [(unit_axis(a), unit_axis(b)) for a, b in zip(dq_W_E_vec_in, dq_B_H_vec_in)]
  selected = []
  for k in range(len(axes)):
    if axes[k][0] is None or axes[k][1] is None:
      continue
    if any(np.inner(axes[k][0], axes[m][0]) > dot_product_threshold or
           np.inner(axes[k][1], axes[m][1]) > dot_product_threshold for m in selected):
      continue
    selected.append(k)
  assert len(selected) >= 2, "Not enough distinct poses found."
  return ([dq_W_E_vec_in[k].copy() for k in selected], [dq_B_H_vec_in[k].copy() for k in selected])
'''})


# ---------------------------------------------------------------- the two searches
SEARCH = 'C05 C07 C11 C12 C22'
rewrite('S1', SEARCH, H, {
'compute_hand_eye_calibration_BASELINE': '''
def _make_scalar_signs_equal(dq_B_H_vec, dq_W_E_vec):
  for dq_B_H, dq_W_E in zip(dq_B_H_vec, dq_W_E_vec):
    if dq_W_E.q_rot.w * dq_B_H.q_rot.w < 0.:
      dq_W_E.dq = -dq_W_E.dq


def _scalar_parts_agree(dq_W_E, dq_B_H, tolerance):
  return np.allclose(dq_W_E.scalar().dq, dq_B_H.scalar().dq, atol=tolerance)


def _inliers_at(dq_B_H_vec, dq_W_E_vec, index):
  aligned_W_E = align_paths_at_index(dq_W_E_vec, index)
  aligned_B_H = align_paths_at_index(dq_B_H_vec, index)
  pairs = [(a, b) for a, b in zip(aligned_B_H, aligned_W_E) if _scalar_parts_agree(b, a, 1e-2)]
  return [p[0] for p in pairs], [p[1] for p in pairs]


def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
  assert len(dq_W_E_vec) == len(dq_B_H_vec)
  start_time = timeit.default_timer()
  _make_scalar_signs_equal(dq_B_H_vec, dq_W_E_vec)

  filtered_B_H, filtered_W_E = dq_B_H_vec, dq_W_E_vec
  if config.prefilter_poses_enabled:
    filtered_B_H, filtered_W_E = prefilter_using_screw_axis(
        dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold)
  num_filtered = len(filtered_W_E)

  best_idx = -1
  best_num_inliers = config.min_num_inliers - 1
  best_W_E, best_B_H = [], []
  for j in range(num_filtered):
    inliers_B_H, inliers_W_E = _inliers_at(filtered_B_H, filtered_W_E, j)
    count = len(inliers_W_E)
    if config.enable_exhaustive_search:
      if count > best_num_inliers:
        best_idx, best_num_inliers = j, count
        best_B_H, best_W_E = inliers_B_H, inliers_W_E
    elif count > config.min_num_inliers:
      best_idx, best_num_inliers = j, count
      best_B_H, best_W_E = inliers_B_H, inliers_W_E
      break
    else:
      assert j + 1 < num_filtered, "Not enough inliers found!"
  if config.enable_exhaustive_search:
    assert best_idx != -1, "Not enough inliers found!"

  try:
    (dq_H_E, singular_values, bad_singular_values) = compute_hand_eye_calibration(
        best_B_H, best_W_E, config.hand_eye_calibration_scalar_part_equality_tolerance)
    dq_H_E.normalize()
  except:
    print("Hand-eye calibration FAILED! {}".format(sys.exc_info()[0]))
    return (False, None, (None, None), None, num_filtered,
            timeit.default_timer() - start_time, None, None)

  if not config.ransac_evaluate_refined_model_on_inliers_only:
    best_B_H = align_paths_at_index(dq_B_H_vec, best_idx)
    best_W_E = align_paths_at_index(dq_W_E_vec, best_idx)
  poses_B_H, poses_W_H = get_aligned_poses(best_B_H, best_W_E, dq_H_E)
  rmse_position, rmse_orientation, _ = evaluate_alignment(poses_B_H, poses_W_H, config, config.visualize)
  runtime = timeit.default_timer() - start_time
  print("idx {} inliers {} rmse {} {}".format(best_idx, best_num_inliers, rmse_position, rmse_orientation))
  return (True, dq_H_E, (rmse_position, rmse_orientation), best_num_inliers, num_filtered, runtime,
          singular_values, bad_singular_values)
''',
})

rewrite('S2', SEARCH, H, {
'compute_hand_eye_calibration_RANSAC': '''
def _scalars_match(dq_W_E, dq_B_H, tolerance):
  return bool(np.allclose(dq_W_E.scalar().dq, dq_B_H.scalar().dq, atol=tolerance))


def _try_calibration(dq_B_H_vec, dq_W_E_vec, config):
  try:
    dq_H_E, singular_values, bad = compute_hand_eye_calibration(
        dq_B_H_vec, dq_W_E_vec, config.hand_eye_calibration_scalar_part_equality_tolerance)
    dq_H_E.normalize()
  except:
    print("Hand-eye calibration FAILED! algorithm_name: {}".format(config.algorithm_name))
    return None
  return dq_H_E, singular_values, bad


def _required_iterations(config):
  inlier_probability = 1.0 - config.ransac_outlier_probability
  return (math.log(1. - config.ransac_success_probability_threshold) /
          math.log(1. - inlier_probability ** config.ransac_sample_size))


def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
  assert len(dq_W_E_vec) == len(dq_B_H_vec)
  start_time = timeit.default_timer()
  num_poses = len(dq_W_E_vec)
  assert config.ransac_sample_size < num_poses

  filtered_B_H, filtered_W_E = dq_B_H_vec, dq_W_E_vec
  if config.prefilter_poses_enabled:
    filtered_B_H, filtered_W_E = prefilter_using_screw_axis(
        dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold)
  num_filtered = len(filtered_W_E)

  exhaustive = config.enable_exhaustive_search
  tolerance = config.ransac_sample_rejection_scalar_part_equality_tolerance
  combinations = []
  if exhaustive:
    combinations = list(itertools.combinations(range(num_filtered), config.ransac_sample_size))

  best_num_inliers = 0
  best_rmse_position = np.inf
  best_rmse_orientation = np.inf
  best_dq_H_E = None
  best_singular_values = None
  best_status = True

  sample_number = 0
  full_iterations = 0
  while (sample_number < len(combinations) if exhaustive
         else full_iterations < config.ransac_max_number_iterations):
    if exhaustive:
      sample = list(combinations[sample_number])
    else:
      sample = random.sample(list(range(num_filtered)), config.ransac_sample_size)
    sample_number += 1

    if config.ransac_sample_size > 1:
      sample_B_H = align_paths_at_index([filtered_B_H[i] for i in sample])
      sample_W_E = align_paths_at_index([filtered_W_E[i] for i in sample])
      if not all(_scalars_match(w, b, tolerance) for w, b in zip(sample_W_E, sample_B_H)):
        continue

    aligned_B_H = align_paths_at_index(dq_B_H_vec, sample[0])
    aligned_W_E = align_paths_at_index(dq_W_E_vec, sample[0])
    matching = [_scalars_match(w, b, tolerance) for w, b in zip(aligned_W_E, aligned_B_H)]

    model = None
    if config.ransac_inlier_classification == "rmse_threshold":
      assert config.ransac_sample_size >= 2
      model = _try_calibration(sample_B_H, sample_W_E, config)
      if model is None:
        continue
      poses_B_H, poses_W_H = get_aligned_poses(aligned_B_H, aligned_W_E, model[0])
      _, _, flags = evaluate_alignment(poses_B_H, poses_W_H, config)
      assert flags[0]
      if any(flag and not match for flag, match in zip(flags, matching)):
        continue
    elif config.ransac_inlier_classification == "scalar_part_equality":
      flags = matching
    else:
      assert False, "Unkown ransac inlier classification."

    inliers_B_H = [dq for dq, flag in zip(aligned_B_H, flags) if flag]
    inliers_W_E = [dq for dq, flag in zip(aligned_W_E, flags) if flag]
    num_inliers = len(inliers_B_H)
    if num_inliers < config.min_num_inliers:
      continue

    if model is None or config.ransac_model_refinement:
      model = _try_calibration(inliers_B_H, inliers_W_E, config)
      if model is None:
        continue
    dq_H_E, singular_values, bad_singular_values = model

    if config.ransac_evaluate_refined_model_on_inliers_only:
      poses_B_H, poses_W_H = get_aligned_poses(inliers_B_H, inliers_W_E, dq_H_E)
    else:
      poses_B_H, poses_W_H = get_aligned_poses(aligned_B_H, aligned_W_E, dq_H_E)
    rmse_position, rmse_orientation, _ = evaluate_alignment(poses_B_H, poses_W_H, config)

    if rmse_position < best_rmse_position and rmse_orientation < best_rmse_orientation:
      best_dq_H_E = dq_H_E
      best_rmse_position, best_rmse_orientation = rmse_position, rmse_orientation
      best_num_inliers = num_inliers
      best_singular_values, best_status = singular_values, bad_singular_values

    full_iterations += 1
    if not exhaustive and config.ransac_enable_early_abort:
      if full_iterations > _required_iterations(config):
        break

  if best_dq_H_E is not None and config.visualize:
    poses_B_H, poses_W_H = get_aligned_poses(align_paths_at_index(dq_B_H_vec),
                                             align_paths_at_index(dq_W_E_vec), best_dq_H_E)
    evaluate_alignment(poses_B_H, poses_W_H, config, config.visualize)
    n = config.visualize_plot_every_nth_pose
    plot_poses([poses_B_H[::n], poses_W_H[::n]], True, title="3D Poses After Alignment")

  return (best_dq_H_E is not None, best_dq_H_E, (best_rmse_position, best_rmse_orientation),
          best_num_inliers, num_filtered, timeit.default_timer() - start_time,
          best_singular_values, best_status)
''',
})

# the same search with small changes only
rewrite('S3', SEARCH, H, edits=[
('''      good_sample = True
      for i in range(0, config.ransac_sample_size):
        scalar_parts_W_E = aligned_samples_dq_W_E[i].scalar()
        scalar_parts_B_H = aligned_samples_dq_B_H[i].scalar()
        if not np.allclose(
                scalar_parts_W_E.dq, scalar_parts_B_H.dq,
                atol=config.ransac_sample_rejection_scalar_part_equality_tolerance):
          good_sample = False
          prerejected_samples += 1
          break

      if not good_sample:
        continue
''', '''      mismatches = [i for i in range(config.ransac_sample_size)
                    if not np.allclose(aligned_samples_dq_W_E[i].scalar().dq,
                                       aligned_samples_dq_B_H[i].scalar().dq,
                                       atol=config.ransac_sample_rejection_scalar_part_equality_tolerance)]
      if mismatches:
        prerejected_samples += 1
        continue
'''),
('''    if (rmse_position_refined < best_rmse_position and
            rmse_orientation_refined < best_rmse_orientation):
''', '''    improved_position = rmse_position_refined < best_rmse_position
    improved_orientation = rmse_orientation_refined < best_rmse_orientation
    if improved_position and improved_orientation:
'''),
('''      s = config.ransac_sample_size
      w = (1.0 - config.ransac_outlier_probability)  # Inlier probability
      w_pow_s = w ** s
      required_iterations = (math.log(1. - config.ransac_success_probability_threshold) /
                             math.log(1. - w_pow_s))
''', '''      inlier_sample = (1.0 - config.ransac_outlier_probability) ** config.ransac_sample_size
      required_iterations = (np.log(1. - config.ransac_success_probability_threshold) /
                             np.log1p(-inlier_sample))
'''),
('''    # Filter poses based on inlier flags.
    inlier_dq_B_H = list(compress(aligned_dq_B_H, inlier_flags))
    inlier_dq_W_E = list(compress(aligned_dq_W_E, inlier_flags))
''', '''    # Filter poses based on inlier flags.
    inlier_indices = [i for i, flag in enumerate(inlier_flags) if flag]
    inlier_dq_B_H = [aligned_dq_B_H[i] for i in inlier_indices]
    inlier_dq_W_E = [aligned_dq_W_E[i] for i in inlier_indices]
'''),
('''      for i in range(0, num_poses):
        scalar_parts_B_H = aligned_dq_B_H[i].scalar()
        scalar_parts_W_E = aligned_dq_W_E[i].scalar()
        if np.allclose(scalar_parts_W_E.dq, scalar_parts_B_H.dq,
                       atol=config.ransac_sample_rejection_scalar_part_equality_tolerance):
          inlier_flags[i] = True
''', '''      for i, (dq_W_E, dq_B_H) in enumerate(zip(aligned_dq_W_E, aligned_dq_B_H)):
        inlier_flags[i] = bool(np.allclose(dq_W_E.scalar().dq, dq_B_H.scalar().dq,
                                           atol=config.ransac_sample_rejection_scalar_part_equality_tolerance))
'''),
('''    if (config.ransac_model_refinement or dq_H_E_initial is None):
''', '''    keep_initial = not config.ransac_model_refinement and dq_H_E_initial is not None
    if not keep_initial:
'''),
])


# ---------------------------------------------------------------- files, configurations, verification
rewrite('X1', 'C15 C17 C18 C20 C22 C25', P + 'extrinsic_calibration.py', {
'ExtrinsicCalibration.writeJson': '''
def writeJson(self, out_file, switchConvention = False):
  x, y, z, i, j, k, w = [float(value) for value in self.pose_dq.to_pose()]
  if switchConvention:
    i, j, k = -i, -j, -k
  rotation = dict(i=i, j=j, k=k, w=w)
  translation = dict(x=x, y=y, z=z)
  text = json.dumps(dict(delay=self.time_offset, rotation=rotation, translation=translation),
                    indent=3, sort_keys=True)
  with open(out_file, 'w') as f:
    f.write(text)
''',
'ExtrinsicCalibration.fromJson': '''
@classmethod
def fromJson(cls, in_file, switchConvention = False):
  with open(in_file) as f:
    data = json.loads(f.read())
  sign = -1.0 if switchConvention else 1.0
  translation, rotation = data['translation'], data['rotation']
  pose = np.array([translation['x'], translation['y'], translation['z'],
                   sign * rotation['i'], sign * rotation['j'], sign * rotation['k'], rotation['w']], dtype=float)
  return cls(float(data['delay']), DualQuaternion.from_pose_vector(pose))
''',
'ExtrinsicCalibration.__mul__': '''
def __mul__(self, other):
  if isinstance(other, ExtrinsicCalibration):
    offset = other.time_offset + self.time_offset
    return ExtrinsicCalibration(time_offset=offset, pose_dual_quat=self.pose_dq * other.pose_dq)
  return NotImplemented
''',
})

rewrite('X2', 'C16 C05 C17 C18 C22 C25', P + 'csv_io.py', {
'read_time_stamped_poses_from_csv_file': '''
def _load_rows(csv_file):
  with open(csv_file, 'r') as handle:
    return np.array([[float(entry) for entry in row] for row in csv.reader(handle, delimiter=',', quotechar='|')])


def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False):
  table = _load_rows(csv_file)
  quaternions = []
  for i in range(table.shape[0]):
    q = table[i, 4:8] / np.linalg.norm(table[i, 4:8])
    if JPL_quaternion_format:
      q = np.array([-q[0], -q[1], -q[2], q[3]])
    table[i, 4:8] = q
    quaternions.append(Quaternion(q[0], q[1], q[2], q[3]))
  return (table, table[:, 0].copy(), quaternions)
''',
'write_time_stamped_poses_to_csv_file': '''
def write_time_stamped_poses_to_csv_file(time_stamped_poses, csv_file):
  np.savetxt(csv_file, time_stamped_poses, fmt="%.18f", delimiter=", ")
''',
})

rewrite('X3', 'C21 C24 C05 C22 C18', P + 'calibration_verification.py', {
'compute_loop_error': '''
def compute_loop_error(results_dq_H_E, num_poses_sets, visualize=False):
  identity = DualQuaternion(Quaternion(0, 0, 0, 1), Quaternion(0, 0, 0, 0))
  # The pairs (0, 1), (0, 2), ..., (1, 2), (1, 3), ... are stored one after the other.
  chain = [identity]
  index = 0
  for step in range(num_poses_sets - 1, 0, -1):
    chain.append(results_dq_H_E[index])
    index += step
  chain.append(results_dq_H_E[num_poses_sets - 2].inverse())
  assert len(chain) == num_poses_sets + 1

  total = identity
  poses = []
  for transformation in chain:
    total = total * transformation
    poses.append(total.to_pose())
  error_position, error_orientation = compute_pose_error(poses[0], poses[-1])
  print("Error when closing the loop: {} m, {} deg".format(error_position, error_orientation))
  if visualize:
    plot_poses([np.array(poses)], plot_arrows=True, title="Hand-Eye Calibration Results - Closing The Loop")
  return (error_position, error_orientation)
''',
'evaluate_calibration': '''
def _relative_path(poses):
  return align_paths_at_index([DualQuaternion.from_pose_vector(pose[1:8]) for pose in poses])


def evaluate_calibration(time_stamped_poses_B_H, time_stamped_poses_W_E, dq_H_E, time_offset, config):
  assert len(time_stamped_poses_B_H) and len(time_stamped_poses_W_E)
  assert isinstance(config, HandEyeConfig)
  aligned_B_H, aligned_W_E = compute_aligned_poses(
      time_stamped_poses_B_H, time_stamped_poses_W_E, time_offset)
  if not len(aligned_B_H):
    return ((np.inf, np.inf), 0)
  poses_B_H, poses_W_H = get_aligned_poses(_relative_path(aligned_B_H), _relative_path(aligned_W_E), dq_H_E)
  position, orientation, flags = evaluate_alignment(poses_B_H, poses_W_H, config, config.visualize)
  if config.visualize:
    n = config.visualize_plot_every_nth_pose
    plot_poses([poses_B_H[::n], poses_W_H[::n]], True, title="3D Poses After Fine Alignment")
  return ((position, orientation), len([flag for flag in flags if flag]))
''',
})

rewrite('X4', 'C20 C17 C22 C25 C18', P + 'bash_utils.py', {
'run': '''
def run(cmd, dry_run=False):
  import shlex
  import subprocess
  if dry_run:
    print("Would normally run:", cmd)
  else:
    print("Running:", cmd)
    subprocess.check_call(shlex.split(cmd))
''',
'create_path': '''
def create_path(path):
  directory = os.path.dirname(path)
  if os.path.exists(directory):
    return
  try:
    os.makedirs(directory)
  except OSError as exc:
    if exc.errno == errno.EEXIST:
      return
    raise
''',
'parse_bool': '''
def parse_bool(text):
  values = {'true': True, '1': True, 'yes': True, 'false': False, '0': False, 'no': False, '': False}
  key = text.lower()
  if key not in values:
    raise argparse.ArgumentTypeError("Not a boolean: '%s'" % text)
  return values[key]
''',
'readArrayFromCsv': '''
def readArrayFromCsv(csv_file):
  with open(csv_file) as handle:
    rows = [row for row in csv.reader(handle, delimiter=',', quotechar='|')]
  return np.array(rows).astype(float)
''',
})

rewrite('X5', 'C19 C18 C22 C25', P + 'algorithm_config.py', {
'get_basic_config': '''
_BASIC_HAND_EYE = {
    'use_baseline_approach': False,
    'algorithm_name': "",
    'enable_exhaustive_search': False,
    'min_num_inliers': 10,
    'prefilter_poses_enabled': False,
    'prefilter_dot_product_threshold': 0.95,
    'ransac_sample_size': 3,
    'ransac_sample_rejection_scalar_part_equality_tolerance': 1e-2,
    'ransac_max_number_iterations': 20,
    'ransac_enable_early_abort': True,
    'ransac_outlier_probability': 0.5,
    'ransac_success_probability_threshold': 0.99,
    'ransac_inlier_classification': "scalar_part_equality",
    'ransac_position_error_threshold_m': 0.02,
    'ransac_orientation_error_threshold_deg': 1.0,
    'ransac_model_refinement': True,
    'ransac_evaluate_refined_model_on_inliers_only': False,
    'hand_eye_calibration_scalar_part_equality_tolerance': 4e-2,
    'visualize': False,
    'visualize_plot_every_nth_pose': 10,
}


def get_basic_config():
  time_alignment_config = FilteringConfig()
  hand_eye_config = HandEyeConfig()
  for name, value in _BASIC_HAND_EYE.items():
    setattr(hand_eye_config, name, value)
  return (time_alignment_config, hand_eye_config)


def _variant(name, **settings):
  (time_alignment_config, hand_eye_config) = get_basic_config()
  hand_eye_config.algorithm_name = name
  for key, value in settings.items():
    setattr(hand_eye_config, key, value)
  return (time_alignment_config, hand_eye_config)
''',
'get_RANSAC_classic_config': '''
def get_RANSAC_classic_config(prefilter_poses):
  return _variant("RC_filter" if prefilter_poses else "RC_no_filter",
                  prefilter_poses_enabled=prefilter_poses, ransac_sample_size=3,
                  ransac_inlier_classification="rmse_threshold")
''',
'get_RANSAC_scalar_part_inliers_config': '''
def get_RANSAC_scalar_part_inliers_config(prefilter_poses):
  return _variant("RS_" + ("filter" if prefilter_poses else "no_filter"),
                  prefilter_poses_enabled=prefilter_poses, ransac_sample_size=1,
                  ransac_inlier_classification="scalar_part_equality")
''',
'get_exhaustive_search_pose_inliers_config': '''
def get_exhaustive_search_pose_inliers_config():
  return _variant("EC", prefilter_poses_enabled=True, ransac_sample_size=3, enable_exhaustive_search=True,
                  ransac_inlier_classification="rmse_threshold")
''',
'get_exhaustive_search_scalar_part_inliers_config': '''
def get_exhaustive_search_scalar_part_inliers_config():
  return _variant("ES", prefilter_poses_enabled=True, ransac_sample_size=1, enable_exhaustive_search=True,
                  ransac_inlier_classification="scalar_part_equality")
''',
'get_baseline_config': '''
def get_baseline_config(prefilter_poses):
  suffix = "_filter" if prefilter_poses else "_no_filter"
  return _variant("baseline" + suffix, use_baseline_approach=True, prefilter_poses_enabled=prefilter_poses,
                  enable_exhaustive_search=False)
''',
})

X = 'hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/'
rewrite('X6', 'C19 C18 C22', X + 'all_algorithm_configs.py', {
'get_all_configs': '''
def get_all_configs():
  configs = []
  for enable_optimization in (True, False):
    for enable_filtering in (True, False):
      configs.append(get_baseline_and_optimization_config(enable_filtering, enable_optimization))
  for getter in (get_RC_and_optimization_config, get_RS_and_optimization_config):
    configs += [getter(enable_filtering, enable_optimization)
                for enable_optimization in (False, True) for enable_filtering in (True, False)]
  for getter in (get_EC_and_optimization_config, get_ES_and_optimization_config):
    for enable_optimization in (False, True):
      configs.append(getter(enable_optimization))
  return configs


def _with_optimization(configs, enable_optimization, name=None, only=False):
  (time_alignment_config, hand_eye_config) = configs
  optimization_config = OptimizationConfig()
  optimization_config.enable_optimization = enable_optimization
  optimization_config.optimization_only = only
  if name is None:
    name = "{}_{}".format(hand_eye_config.algorithm_name, "opt" if enable_optimization else "no_opt")
  return (name, time_alignment_config, hand_eye_config, optimization_config)
''',
'get_baseline_and_optimization_config': '''
def get_baseline_and_optimization_config(enable_filtering, enable_optimization):
  return _with_optimization(get_baseline_config(enable_filtering), enable_optimization)
''',
'get_RC_and_optimization_config': '''
def get_RC_and_optimization_config(enable_filtering, enable_optimization):
  return _with_optimization(get_RANSAC_classic_config(enable_filtering), enable_optimization)
''',
'get_RS_and_optimization_config': '''
def get_RS_and_optimization_config(enable_filtering, enable_optimization):
  return _with_optimization(get_RANSAC_scalar_part_inliers_config(enable_filtering), enable_optimization)
''',
'get_EC_and_optimization_config': '''
def get_EC_and_optimization_config(enable_optimization):
  return _with_optimization(get_exhaustive_search_pose_inliers_config(), enable_optimization)
''',
'get_ES_and_optimization_config': '''
def get_ES_and_optimization_config(enable_optimization):
  return _with_optimization(get_exhaustive_search_scalar_part_inliers_config(), enable_optimization)
''',
'get_optimization_with_spoiled_initial_calibration_config': '''
def get_optimization_with_spoiled_initial_calibration_config():
  return _with_optimization(get_exhaustive_search_scalar_part_inliers_config(), True,
                            "optimization_w_spoiled_init_calibration", True)
''',
})

rewrite('X7', 'C18 C22', X + 'experiment_results.py', {
'ResultEntry.check_length': '''
def check_length(self, num_pose_pairs):
  for values in (self.dataset_names, self.success, self.rmse, self.num_inliers, self.num_initial_poses,
                 self.num_poses_kept, self.runtimes, self.singular_values, self.bad_singular_value,
                 self.optimization_success, self.optimization_runtime, self.spoiled_initial_guess_angle_offset,
                 self.spoiled_initial_guess_translation_offset, self.spoiled_initial_guess_time_offset):
    assert len(values) == num_pose_pairs, "{} vs {}".format(len(values), num_pose_pairs)
''',
'ResultEntry.get_header': '''
def get_header(self):
  names = ["algorithm_name", "num_pose_pairs", "iteration_num", "prefiltering", "poses_B_H_csv_file",
           "poses_W_E_csv_file", "success", "position_rmse", "orientation_rmse", "num_inliers", "num_input_poses",
           "num_posesafter_filtering", "runtime_s", "loop_error_position_m", "loop_error_orientation_deg",
           "singular_values", "bad_singular_values", "optimization_enabled", "optimization_success",
           "optimization_runtime_s", "spoiled_initial_guess_angle_offset",
           "spoiled_initial_guess_translation_offset", "spoiled_initial_guess_time_offset"]
  return ",".join(names) + "\\n"
''',
'ResultEntry.write_pose_pair_to_csv_line': '''
def write_pose_pair_to_csv_line(self, pose_pair_idx):
  i = pose_pair_idx

  def text(array, missing):
    return missing if array is None else np.array_str(array, max_line_width=1000000)

  rmse_position, rmse_orientation = self.rmse[i]
  values = [self.algorithm_name, i, self.iteration_num, self.prefiltering_enabled]
  values += [self.dataset_names[i][0], self.dataset_names[i][1], self.success[i], rmse_position, rmse_orientation]
  values += [self.num_inliers[i], self.num_initial_poses[i], self.num_poses_kept[i], self.runtimes[i]]
  values += [self.loop_error_position, self.loop_error_orientation, text(self.singular_values[i], "")]
  values += [self.bad_singular_value[i], self.optimization_enabled, self.optimization_success[i]]
  values += [self.optimization_runtime[i], self.spoiled_initial_guess_angle_offset[i]]
  values += [text(self.spoiled_initial_guess_translation_offset[i], None), self.spoiled_initial_guess_time_offset[i]]
  return ",".join([str(value) for value in values]) + "\\n"
''',
})


# ---------------------------------------------------------------- programs
B = 'hand_eye_calibration/bin/'
PROG = 'C16 C17 C18 C20 C22 C25'


def main_part(path):
    """text of the part of a program that runs when it is started"""
    text = open('/repo/' + path).read()
    return text[text.index('if __name__'):]


rewrite('P1', PROG, B + 'compute_hand_eye_calibration.py', edits=[(main_part(B + 'compute_hand_eye_calibration.py'), '''
OPTIONS = [
    ('--aligned_poses_B_H_csv_file', dict(type=str, help='Hand poses in Body frame')),
    ('--aligned_poses_H_B_csv_file', dict(type=str, help='Body poses in Hand frame')),
    ('--aligned_poses_W_E_csv_file', dict(type=str, help='Eye poses in World frame')),
    ('--aligned_poses_E_W_csv_file', dict(type=str, help='World poses in Eye frame')),
    ('--extrinsics_output_csv_file', dict(type=str)),
    ('--time_offset_input_csv_file', dict(type=str)),
    ('--calibration_output_json_file', dict(type=str)),
    ('--visualize', dict(type=parse_bool, default=False)),
    ('--plot_every_nth_pose', dict(type=int, default=10)),
]


def parse_arguments():
  parser = argparse.ArgumentParser(description='Align pairs of poses.')
  for name, settings in OPTIONS:
    parser.add_argument(name, **settings)
  return parser.parse_args()


def load_path(csv_file, inverse_csv_file):
  """ The path of one sensor, from either of two files. """
  assert (csv_file is None) != (inverse_csv_file is None), "Provide exactly one of the two files!"
  invert = csv_file is None
  with open(inverse_csv_file if invert else csv_file, 'r') as handle:
    rows = np.array(list(csv.reader(handle, delimiter=',', quotechar='|'))).astype(float)
  path = [DualQuaternion.from_pose_vector(row[1:]) for row in rows]
  return [dq.inverse() for dq in path] if invert else path


def main():
  args = parse_arguments()
  if args.calibration_output_json_file is not None:
    assert args.time_offset_input_csv_file is not None

  path_B_H = load_path(args.aligned_poses_B_H_csv_file, args.aligned_poses_H_B_csv_file)
  path_W_E = load_path(args.aligned_poses_W_E_csv_file, args.aligned_poses_E_W_csv_file)
  assert len(path_B_H) == len(path_W_E)
  path_B_H = align_paths_at_index(path_B_H)
  path_W_E = align_paths_at_index(path_W_E)

  if args.visualize:
    n = args.plot_every_nth_pose
    poses1 = np.array([dq.to_pose() for dq in path_B_H])
    poses2 = np.array([dq.to_pose() for dq in path_W_E])
    plot_poses([poses1[::n], poses2[::n]], True, title="3D Poses Before Alignment")

  hand_eye_config = get_exhaustive_search_scalar_part_inliers_config()[1]
  hand_eye_config.visualize = args.visualize
  hand_eye_config.visualize_plot_every_nth_pose = args.plot_every_nth_pose

  search = (compute_hand_eye_calibration_BASELINE if hand_eye_config.use_baseline_approach
            else compute_hand_eye_calibration_RANSAC)
  result = search(path_B_H, path_W_E, hand_eye_config)
  pose_H_E = result[1].to_pose() if (args.extrinsics_output_csv_file is not None or
                                     args.calibration_output_json_file is not None) else None

  if args.extrinsics_output_csv_file is not None:
    from hand_eye_calibration.csv_io import write_double_numpy_array_to_csv_file
    write_double_numpy_array_to_csv_file(pose_H_E, args.extrinsics_output_csv_file)

  if args.calibration_output_json_file is not None:
    time_offset = float(readArrayFromCsv(args.time_offset_input_csv_file)[0, 0])
    ExtrinsicCalibration(time_offset, DualQuaternion.from_pose_vector(pose_H_E)).writeJson(
        args.calibration_output_json_file)


if __name__ == "__main__":
  main()
''')])

rewrite('P2', PROG, B + 'compute_aligned_poses.py', edits=[(main_part(B + 'compute_aligned_poses.py'), '''
def build_parser():
  parser = argparse.ArgumentParser(description=__doc__)
  for name in ('--poses_B_H_csv_file', '--poses_W_E_csv_file',
               '--aligned_poses_B_H_csv_file', '--aligned_poses_W_E_csv_file'):
    parser.add_argument(name, required=True)
  parser.add_argument('--time_offset_output_csv_file', type=str)
  parser.add_argument('--quaternion_format', default='Hamilton')
  parser.add_argument('--visualize', type=parse_bool, default=False)
  return parser


def main():
  args = build_parser().parse_args()
  assert args.quaternion_format in ('JPL', 'Hamilton'), "Unknown quaternion format"
  use_JPL = args.quaternion_format == 'JPL'

  recordings = [read_time_stamped_poses_from_csv_file(name, use_JPL)
                for name in (args.poses_B_H_csv_file, args.poses_W_E_csv_file)]
  (poses_B_H, times_B_H, quaternions_B_H), (poses_W_E, times_W_E, quaternions_W_E) = recordings

  time_offset = calculate_time_offset(times_B_H, quaternions_B_H, times_W_E, quaternions_W_E,
                                      FilteringConfig(), args.visualize)
  print("Final time offset: ", time_offset, "s")
  aligned = compute_aligned_poses(poses_B_H, poses_W_E, time_offset, args.visualize)
  outputs = (args.aligned_poses_B_H_csv_file, args.aligned_poses_W_E_csv_file)
  for poses, name in zip(aligned, outputs):
    write_time_stamped_poses_to_csv_file(poses, name)

  if args.time_offset_output_csv_file is not None:
    from hand_eye_calibration.csv_io import write_double_numpy_array_to_csv_file
    write_double_numpy_array_to_csv_file(np.array([time_offset]), args.time_offset_output_csv_file)


if __name__ == '__main__':
  main()
''')])

rewrite('P3', PROG, B + 'bag_to_csv_with_config.py', edits=[(main_part(B + 'bag_to_csv_with_config.py'), '''
def rosrun(tool, **options):
  call = ["rosrun", "hand_eye_calibration", tool]
  for name, value in options.items():
    call += ['--' + name, value]
  check_call(call)


def export_tf(bag, stem, source, target):
  rosrun("tf_to_csv.py", bag=bag['bag_path'] + bag['name'], tf_source_frame=source, tf_target_frame=target,
         csv_output_file='{}_{}_{}.csv'.format(stem, target, source))


def export_camera(bag, stem, topic, intrinsics):
  rosrun("target_extractor_interface.py", bag=bag['bag_path'] + bag['name'], image_topic=topic,
         calib_file_camera=bag['intrinsics_path'] + intrinsics,
         calib_file_target=bag['target_config_path'] + bag['target'],
         output_file=stem + '_W_' + topic.replace("/", "_")[1:] + '.csv')


def main():
  parser = argparse.ArgumentParser(description=__doc__)
  parser.add_argument('--yaml_config_file', required=True, help='A yaml file specifying topics and frames.')
  args = parser.parse_args()
  with open(args.yaml_config_file, 'r') as stream:
    config = yaml.safe_load(stream)

  for bag in config['bags']:
    stem = bag['name'].split('.')[0]
    frames = bag['tf_frames']
    if frames is not None:
      assert len(frames['source']) == len(frames['target'])
      for source, target in zip(frames['source'], frames['target']):
        export_tf(bag, stem, source, target)
    cameras = bag['cameras']
    if cameras is not None:
      assert len(cameras['cam_topics']) == len(cameras['cam_intrinsics'])
      for topic, intrinsics in zip(cameras['cam_topics'], cameras['cam_intrinsics']):
        export_camera(bag, stem, topic, intrinsics)


if __name__ == '__main__':
  main()
''')])

rewrite('P4', PROG, B + 'target_extractor_interface.py', {
'call_target_extractor': '''
def call_target_extractor(target_extractor_config):
  c = target_extractor_config
  print("Extracting images from bag: {}.".format(c.bag_file_name))
  options = [("bag", c.bag_file_name),
             ("topic", c.topic),
             ("eval_camera_yaml", c.calib_file_camera),
             ("draw_extraction", c.draw_extraction),
             ("camera_pose_T_C_G_output_file", c.camera_pose_T_C_G_output_file),
             ("camera_pose_T_C_G_output_file_timestamped", c.camera_pose_T_C_G_output_file_timestamped),
             ("write_csv_header", c.write_csv_header),
             ("april_tag_number_vertical", c.april_tag_number_vertical),
             ("april_tag_number_horizontal", c.april_tag_number_horizontal),
             ("april_tag_size_m", c.april_tag_size_m),
             ("april_tag_pixel_boarder", c.april_tag_number_pixel_boarder),
             ("april_tag_gap_size_m", c.april_tag_gap_size_m)]
  command = ["rosrun", "hand_eye_calibration_target_extractor", "target_extractor"]
  command += ["--{}={}".format(name, value) for name, value in options]
  if c.alsologtostderr:
    command.append("--alsologtostderr")
  check_call(command)
'''}, edits=[('''  te_config.april_tag_number_vertical = yaml_content[
      'april_tag_number_vertical']
  te_config.april_tag_number_horizontal = yaml_content[
      'april_tag_number_horizontal']
  te_config.april_tag_number_pixel_boarder = yaml_content[
      'april_tag_number_pixel_boarder']
  te_config.april_tag_size_m = yaml_content['april_tag_size_m']
  te_config.april_tag_gap_size_m = yaml_content['april_tag_gap_size_m']
''', '''  for key in ('april_tag_number_vertical', 'april_tag_number_horizontal', 'april_tag_number_pixel_boarder',
              'april_tag_size_m', 'april_tag_gap_size_m'):
    setattr(te_config, key, yaml_content[key])
''')])

rewrite('P5', PROG, B + 'tf_to_csv.py', {
'write_transformation_to_csv_file': '''
def load_transforms(bag_file):
  tree = tf.Transformer(True, rospy.Duration(3600.0))
  bag = rosbag.Bag(bag_file)
  for _, message, _ in bag.read_messages(topics=['/tf']):
    for transform in message.transforms:
      tree.setTransform(transform)
  bag.close()
  return tree


def format_line(stamp, translation, quaternion):
  values = [stamp.to_sec()] + list(translation) + list(quaternion)
  return ', '.join(str(value) for value in values) + '\\n'


def write_transformation_to_csv_file(bag_file, target_frame, source_frame, csv_file_name):
  tree = load_transforms(bag_file)
  bag = rosbag.Bag(bag_file)
  first_stamp = None
  previous_stamp = None
  count = 0
  csv_file = open(csv_file_name, 'w')
  for topic, message, _ in bag.read_messages():
    if topic != "/tf" or not message.transforms:
      continue
    for transform in message.transforms:
      if transform.child_frame_id != source_frame:
        continue
      stamp = transform.header.stamp
      try:
        translation, quaternion = tree.lookupTransform(target_frame, source_frame, stamp)
      except (tf.LookupException, tf.ConnectivityException, tf.ExtrapolationException):
        if count > 0:
          count += 1
        continue
      if previous_stamp is not None and stamp.to_sec() - previous_stamp.to_sec() < 1e-8:
        previous_stamp = stamp
        continue
      if first_stamp is None:
        first_stamp = stamp
      csv_file.write(format_line(stamp, translation, quaternion))
      count += 1
      previous_stamp = stamp
  print("Exported ", count, " tf poses.")
''',
})

rewrite('P6', 'C17 C20', 'hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh', edits=[
(open('/repo/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh').read(), '''#!/bin/bash
set -euo pipefail

POSES_A="$1"
POSES_B="$2"

aligned_name() {
  echo "$(dirname "$1")/aligned_$(basename "$1")"
}

ALIGNED_A="$(aligned_name "$POSES_A")"
ALIGNED_B="$(aligned_name "$POSES_B")"
TIME_OFFSET=time_offset.csv
CALIBRATION=calibration.json

rosrun hand_eye_calibration compute_aligned_poses.py \\
  --poses_B_H_csv_file="$POSES_A" --poses_W_E_csv_file="$POSES_B" \\
  --aligned_poses_B_H_csv_file="$ALIGNED_A" --aligned_poses_W_E_csv_file="$ALIGNED_B" \\
  --time_offset_output_csv_file="$TIME_OFFSET"

rosrun hand_eye_calibration compute_hand_eye_calibration.py \\
  --aligned_poses_B_H_csv_file="$ALIGNED_A" --aligned_poses_W_E_csv_file="$ALIGNED_B" \\
  --time_offset_input_csv_file="$TIME_OFFSET" --calibration_output_json_file="$CALIBRATION" --visualize=0

rosrun hand_eye_calibration_batch_estimation batch_estimator --v 1 \\
  --pose1_csv "$POSES_A" --pose2_csv "$POSES_B" \\
  --init_guess_file "$CALIBRATION" --output_file calibration_optimized.json
''')])

rewrite('P7', 'C17 C20', 'hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh', edits=[
(open('/repo/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh').read(), '''#!/bin/bash
ALIGNED_A=`dirname $1`/aligned_`basename $1`
ALIGNED_B=`dirname $2`/aligned_`basename $2`

rosrun hand_eye_calibration compute_aligned_poses.py \\
  --poses_B_H_csv_file $1 \\
  --poses_W_E_csv_file $2 \\
  --aligned_poses_B_H_csv_file ${ALIGNED_A} \\
  --aligned_poses_W_E_csv_file ${ALIGNED_B} \\
  --time_offset_output_csv_file time_offset.csv || exit 1

rosrun hand_eye_calibration compute_hand_eye_calibration.py \\
  --aligned_poses_B_H_csv_file ${ALIGNED_A} \\
  --aligned_poses_W_E_csv_file ${ALIGNED_B} \\
  --time_offset_input_csv_file time_offset.csv \\
  --calibration_output_json_file calibration.json \\
  --visualize=0 || exit 1

rosrun hand_eye_calibration_batch_estimation batch_estimator \\
  --v 1 \\
  --pose1_csv $1 \\
  --pose2_csv $2 \\
  --init_guess_file calibration.json \\
  --output_file calibration_optimized.json || exit 1
''')])

# ---------------------------------------------------------------- experiments
X = 'hand_eye_calibration_experiments/'
SET = X + 'bin/compute_set_of_hand_eye_calibrations.py'
OPT = X + 'bin/optimization_experiments.py'


def part(path, a, b):
    t = open('/repo/' + path).read()
    i = t.index(a)
    return t[i:t.index(b, i)] if b else t[i:]


def shift(t, n):
    return '\n'.join((' ' * n + l if l.strip() else l) for l in t.split('\n'))


rewrite('E1', 'C17 C18 C19 C20 C22 C25', SET, edits=[
    ('if __name__ == "__main__":\n', 'def main():\n'),
    ('        output_file.write(result_entry.write_pose_pair_to_csv_line(i))\n',
     '        output_file.write(result_entry.write_pose_pair_to_csv_line(i))\n\n\nif __name__ == "__main__":\n  main()\n'),
])

rewrite('E2', 'C17 C18 C19 C20 C22 C25', SET, edits=[
    ('      pose_pair_idx = 0\n\n', ''),
    ('        pose_pair_idx = pose_pair_idx + 1\n\n', ''),
    ('      for ((pose_file_B_H, pose_file_W_E), (is_absolute_sensor_B_H, is_absolute_sensor_W_E)) in zip(set_of_pose_pairs, set_of_is_absolute_sensor_flags):\n',
     '      for pose_pair_idx, (pose_files, is_absolute) in enumerate(\n          zip(set_of_pose_pairs, set_of_is_absolute_sensor_flags)):\n'
     '        pose_file_B_H, pose_file_W_E = pose_files\n        is_absolute_sensor_B_H, is_absolute_sensor_W_E = is_absolute\n'),
    (part(SET, '        if hand_eye_config.use_baseline_approach:\n', '        # Fill in'),
     '''        solver = (compute_hand_eye_calibration_BASELINE if hand_eye_config.use_baseline_approach
                  else compute_hand_eye_calibration_RANSAC)
        (success, dq_H_E_initial_guess, rmse, num_inliers, num_poses_kept,
         runtime, singular_values, bad_singular_values) = solver(
            dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)

'''),
    (part(SET, '    output_file = open(result_file_path, \'w\')\n', '  # Prepare folders'),
     '    with open(result_file_path, \'w\') as output_file:\n      output_file.write(ResultEntry().get_header())\n\n'),
    (part(SET, '          if dq_H_E_optimized is not None:\n', '          results_dq_H_E.append(dq_H_E_optimized)'),
     '          results_poses_H_E.append(None if dq_H_E_optimized is None else dq_H_E_optimized.to_pose())\n'),
    ('      if (sum(result_entry.success) == num_pose_pairs and\n              sum(result_entry.optimization_success) == num_pose_pairs):\n',
     '      if all(result_entry.success) and all(result_entry.optimization_success):\n'),
])

_READ = part(SET, '        (time_stamped_poses_B_H,\n', '        # No time offset')
rewrite('E3', 'C17 C18 C19 C20 C22 C25', SET, edits=[
    ('if __name__ == "__main__":\n', '''def load(path):
  time_stamped_poses, times, quaternions = read_time_stamped_poses_from_csv_file(path)
  print("Found ", time_stamped_poses.shape[0], " poses in file: ", path)
  return time_stamped_poses, times, quaternions


def to_aligned_dual_quaternions(poses):
  return align_paths_at_index([DualQuaternion.from_pose_vector(pose) for pose in poses[:, 1:]])


def optimize(pose_file_1, pose_file_2, guess_file, output_file, model_config):
  """Runs the batch estimator, returns its runtime."""
  start = timeit.default_timer()
  run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 "
      "--pose1_csv={} --pose2_csv={} --init_guess_file={} --output_file={} "
      "--model_config={}".format(pose_file_1, pose_file_2, guess_file, output_file, model_config))
  return timeit.default_timer() - start


if __name__ == "__main__":
'''),
    (_READ, '''        time_stamped_poses_B_H, times_B_H, quaternions_B_H = load(pose_file_B_H)
        time_stamped_poses_W_E, times_W_E, quaternions_W_E = load(pose_file_W_E)

'''),
    (part(SET, '        # Convert poses to dual', '        # Draw both'), '''        dual_quat_B_H_vec = to_aligned_dual_quaternions(aligned_poses_B_H)
        dual_quat_W_E_vec = to_aligned_dual_quaternions(aligned_poses_W_E)
        assert len(dual_quat_B_H_vec) == len(dual_quat_W_E_vec)

'''),
    (part(SET, '            optimization_start_time =', '          except Exception as ex:'),
     '''            optimization_runtime = optimize(
                pose_file_B_H, pose_file_W_E, initial_guess_calibration_file,
                optimized_calibration_file, model_config_string)
'''),
])

rewrite('E4', 'C17 C18 C19 C20 C22 C25', OPT, edits=[
    (part(OPT, '  for time_offset_range in time_offset_ranges:\n', '#       || end_loop'),
     '''  assert args.num_iterations > 0
  for (time_offset_range, angle_offset_range, translation_offset_range,
       iteration) in itertools.product(time_offset_ranges, angle_offset_ranges,
                                       translation_offset_ranges, range(args.num_iterations)):
    input_data.append((time_offset_range, angle_offset_range, translation_offset_range, iteration,
                       result_entry_template,
                       (experiment_progress_idx, number_of_experiment_exec)))
    experiment_progress_idx += 1
'''),
    (part(OPT, "  output_file = open(result_file_path, 'a')", '  print("\\n\\nFINISHED WRITING'),
     '''  with open(result_file_path, 'a') as output_file:
    for (result_entry, _, _) in output_data:
      for pair_idx in range(num_pose_pairs):
        output_file.write(result_entry.write_pose_pair_to_csv_line(pair_idx))

'''),
])

rewrite('E5', 'C17 C18 C19 C20 C22 C25', OPT, functions={'spoil_initial_guess': '''
def spoil_initial_guess(time_offset_initial_guess, dq_H_E_initial_guess, angular_offset_range,
                        translation_offset_range, time_offset_range):
  """ Apply a random perturbation to the calibration."""
  time_change = random.choice([-1., 1.]) * np.random.uniform(*time_offset_range)

  direction = np.random.uniform(-1.0, 1.0, 3)
  direction = direction / np.linalg.norm(direction)
  translation_change = np.random.uniform(*translation_offset_range) * direction

  rotation_change = Quaternion.get_random(*angular_offset_range)

  pose = dq_H_E_initial_guess.to_pose()
  orientation = dq_H_E_initial_guess.q_rot
  spoiled_translation = pose[:3] + translation_change
  spoiled_orientation = rotation_change * orientation
  angle_change = angle_between_quaternions(orientation, spoiled_orientation)

  assert angular_offset_range[0] <= angle_change <= angular_offset_range[1]
  length = np.linalg.norm(spoiled_translation - pose[:3])
  assert translation_offset_range[0] <= length <= translation_offset_range[1]

  dq_H_E_spoiled = DualQuaternion.from_pose_vector(
      np.concatenate((spoiled_translation, spoiled_orientation.q)))
  return (time_offset_initial_guess + time_change, dq_H_E_spoiled,
          (translation_change, angle_change, time_change))
'''}, edits=[
    ('  pose_pair_idx = 0\n  # Perform', '  # Perform'),
    ('    pose_pair_idx = pose_pair_idx + 1\n\n', ''),
    (part(OPT, '  for ((pose_file_B_H, pose_file_W_E),\n', '    print(("\\n\\nCompute optimized'),
     '''  for pose_pair_idx in range(num_pose_pairs):
    pose_file_B_H, pose_file_W_E = set_of_pose_pairs[pose_pair_idx]
    is_absolute_sensor_B_H, is_absolute_sensor_W_E = set_of_is_absolute_sensor_flags[pose_pair_idx]
    dq_H_E_initial_guess = set_of_dq_H_E_initial_guess[pose_pair_idx]
    time_offset_initial_guess = set_of_time_offset_initial_guess[pose_pair_idx]
'''),
    ('  if sum(result_entry.optimization_success) == num_pose_pairs:\n', '  if all(result_entry.optimization_success):\n'),
])

_TAB = X + 'python/hand_eye_calibration_experiments/experiment_plotting_tools.py'
rewrite('E6', 'C18 C22', _TAB, edits=[
    (part(_TAB, '    if dataset not in position_rmses_per_method:', '    position_rmses[index].append'),
     '''    position_rmses_per_method.setdefault(dataset, {}).setdefault(method, []).append(position_rmse)
    orientation_rmses_per_method.setdefault(dataset, {}).setdefault(method, []).append(orientation_rmse)
    runtimes_per_method.setdefault(dataset, {}).setdefault(method, []).append(runtime)

'''),
    (part(_TAB, '    if dataset in datasets:', '    if method in methods:'),
     '''    if dataset not in datasets:
      datasets.append(dataset)
'''),
    (part(_TAB, '    if method in methods:', '    if dataset not in'),
     '''    if method not in methods:
      methods.append(method)
      for rows in (position_rmses, orientation_rmses, runtimes):
        rows.append([])
    index = methods.index(method)
'''),
])

# ---------------------------------------------------------------- records, generators, classes
rewrite('S4', SEARCH, H, {
'compute_hand_eye_calibration_RANSAC': '''
SearchResult = namedtuple('SearchResult', [
    'success', 'dq_H_E', 'rmse', 'num_inliers', 'num_poses_after_filtering', 'runtime',
    'singular_values', 'bad_singular_values'])

Candidate = namedtuple('Candidate', 'dq rmse_position rmse_orientation num_inliers singular_values bad')


class _Rejected(Exception):
  pass


class _Search(object):

  def __init__(self, dq_B_H_vec, dq_W_E_vec, config):
    self.hand = dq_B_H_vec
    self.eye = dq_W_E_vec
    self.config = config
    self.best = None

  def calibrate(self, hand, eye):
    try:
      dq, singular_values, bad = compute_hand_eye_calibration(
          hand, eye, self.config.hand_eye_calibration_scalar_part_equality_tolerance)
      dq.normalize()
      return dq, singular_values, bad
    except Exception:
      print("Hand-eye calibration FAILED! {}".format(self.config.algorithm_name))
      return None

  def matches(self, hand, eye):
    return np.allclose(eye.scalar().dq, hand.scalar().dq,
                       atol=self.config.ransac_sample_rejection_scalar_part_equality_tolerance)

  def evaluate(self, hand, eye, dq):
    return evaluate_alignment(*(get_aligned_poses(hand, eye, dq) + (self.config,)))

  def candidate(self, first, sample_hand, sample_eye):
    """The model of a sample, None if the sample is rejected."""
    config = self.config
    hand = align_paths_at_index(self.hand, first)
    eye = align_paths_at_index(self.eye, first)
    flags = [bool(self.matches(h, e)) for h, e in zip(hand, eye)]
    model = None
    if config.ransac_inlier_classification == "rmse_threshold":
      assert config.ransac_sample_size >= 2
      model = self.calibrate(sample_hand, sample_eye)
      if model is None:
        return None
      close = self.evaluate(hand, eye, model[0])[2]
      assert close[0]
      for is_close, match in zip(close, flags):
        if is_close and not match:
          return None
      flags = close
    else:
      assert config.ransac_inlier_classification == "scalar_part_equality", "Unkown ransac inlier classification."

    inlier_hand = list(compress(hand, flags))
    inlier_eye = list(compress(eye, flags))
    if len(inlier_hand) < config.min_num_inliers:
      return None
    if config.ransac_model_refinement or model is None:
      model = self.calibrate(inlier_hand, inlier_eye)
      if model is None:
        return None
    if config.ransac_evaluate_refined_model_on_inliers_only:
      hand, eye = inlier_hand, inlier_eye
    rmse_position, rmse_orientation, _ = self.evaluate(hand, eye, model[0])
    return Candidate(model[0], rmse_position, rmse_orientation, len(inlier_hand), model[1], model[2])

  def offer(self, candidate):
    if self.best is None:
      if candidate.rmse_position < np.inf and candidate.rmse_orientation < np.inf:
        self.best = candidate
    elif (candidate.rmse_position < self.best.rmse_position and
          candidate.rmse_orientation < self.best.rmse_orientation):
      self.best = candidate


def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
  assert len(dq_W_E_vec) == len(dq_B_H_vec)
  start_time = timeit.default_timer()
  assert config.ransac_sample_size < len(dq_W_E_vec)

  if config.prefilter_poses_enabled:
    hand, eye = prefilter_using_screw_axis(dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold)
  else:
    hand, eye = dq_B_H_vec, dq_W_E_vec
  count = len(hand)

  search = _Search(dq_B_H_vec, dq_W_E_vec, config)
  combinations = []
  if config.enable_exhaustive_search:
    combinations = list(itertools.combinations(range(count), config.ransac_sample_size))

  number = 0
  full_iterations = 0
  while True:
    if config.enable_exhaustive_search:
      if number >= len(combinations):
        break
      sample = list(combinations[number])
    else:
      if full_iterations >= config.ransac_max_number_iterations:
        break
      sample = random.sample(list(range(count)), config.ransac_sample_size)
    number += 1

    sample_hand, sample_eye = None, None
    if config.ransac_sample_size > 1:
      sample_hand = align_paths_at_index([hand[i] for i in sample])
      sample_eye = align_paths_at_index([eye[i] for i in sample])
      if not all([search.matches(h, e) for h, e in zip(sample_hand, sample_eye)]):
        continue
    candidate = search.candidate(sample[0], sample_hand, sample_eye)
    if candidate is None:
      continue
    search.offer(candidate)

    full_iterations += 1
    if config.enable_exhaustive_search or not config.ransac_enable_early_abort:
      continue
    failure = 1. - (1.0 - config.ransac_outlier_probability) ** config.ransac_sample_size
    if full_iterations > math.log(1. - config.ransac_success_probability_threshold) / math.log(failure):
      break

  best = search.best
  if best is None:
    return SearchResult(False, None, (np.inf, np.inf), 0, count, timeit.default_timer() - start_time, None, True)
  if config.visualize:
    poses_B_H, poses_W_H = get_aligned_poses(align_paths_at_index(dq_B_H_vec), align_paths_at_index(dq_W_E_vec), best.dq)
    evaluate_alignment(poses_B_H, poses_W_H, config, config.visualize)
  return SearchResult(True, best.dq, (best.rmse_position, best.rmse_orientation), best.num_inliers, count,
                      timeit.default_timer() - start_time, best.singular_values, best.bad)
'''}, edits=[('from itertools import compress\n', 'from collections import namedtuple\nfrom itertools import compress\n')])

rewrite('T3', 'C05 C06 C08 C09 C22 C24 C25', TA, {
'resample_quaternions_from_samples': '''
def _resampled(times, quaternions, samples):
  for sample in samples:
    assert times[0] <= sample <= times[-1], (sample, times)
    right = int(np.searchsorted(times, sample))
    if np.isclose(sample, times[right], rtol=0., atol=1e-16):
      yield quaternions[right]
    else:
      left = right - 1
      yield quaternions_interpolate(quaternions[left], times[left], quaternions[right], times[right], [sample])[0]


def resample_quaternions_from_samples(times, quaternions, samples):
  return list(_resampled(times, quaternions, samples))
''',
'compute_angular_velocity_norms': '''
def compute_angular_velocity_norms(quaternions, samples, smoothing_kernel_size, clipping_percentile, plot=False):
  velocities = []
  for before, after, start, end in zip(quaternions, quaternions[1:], samples, samples[1:]):
    assert end > start
    velocities.append(angular_velocity_between_quaternions(before, after, end - start))
  filtered = filter_and_smooth_angular_velocity(
      np.array(velocities), smoothing_kernel_size, clipping_percentile, plot)
  return [np.linalg.norm(velocity) for velocity in filtered]
''',
'interpolate_poses_from_samples': '''
def interpolate_poses_from_samples(time_stamped_poses, samples):
  times = time_stamped_poses[:, 0]
  rotations = resample_quaternions_from_samples(
      times, [Quaternion(q=q) for q in time_stamped_poses[:, 4:]], samples)
  positions = np.column_stack([np.interp(samples, times, time_stamped_poses[:, k]) for k in (1, 2, 3)])
  result = np.zeros((len(samples), time_stamped_poses.shape[1]))
  result[:, 0] = samples
  result[:, 1:4] = positions
  for row, rotation in zip(result, rotations):
    row[4:8] = rotation.q
  return result
''',
})
