P = 'hand_eye_calibration/python/hand_eye_calibration/'
Q = P + 'quaternion.py'
D = P + 'dual_quaternion.py'
H = P + 'dual_quaternion_hand_eye_calibration.py'
TA = P + 'time_alignment.py'
SEEDS = []


def seed(id, prop, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what))


seed('B01', 'C04', [(D, "translation = 2. * np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))",
                     "translation = np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))")], '''
import numpy as np
from hand_eye_calibration.dual_quaternion import DualQuaternion
axis, rotation, translation = DualQuaternion.from_pose(0.0, 3.0, 4.0, 0.0, 0.0, 0.0, 1.0).screw_axis()
assert np.isclose(translation, 5.0), translation
assert np.allclose(axis, [0.0, 0.6, 0.8]), axis
''', 'the screw parameters of a motion without rotation',
     'a pure translation is reported with half its length and an axis of length two')

seed('B02', 'C06', [(TA, "right_idx = bisect.bisect_left(times, sample)", "right_idx = bisect.bisect(times, sample)")], '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion
from hand_eye_calibration.time_alignment import resample_quaternions_from_samples
t = np.array([0.0, 1.0, 2.0])
q = [Quaternion(0, 0, 0, 1), Quaternion(1, 0, 0, 0), Quaternion(0, 1, 0, 0)]
r = resample_quaternions_from_samples(t, q, np.array([0.5, 1.0, 2.0]))
assert np.allclose(r[2].q, [0, 1, 0, 0])
''', 'a sample at the last time stamp', 'resampling at the last stored time fails')

seed('B03', 'C03', [(D, "      self.dq = -self.dq\n", "      self.dq[0:4] = -self.dq[0:4]\n")], '''
import numpy as np
from hand_eye_calibration.dual_quaternion import DualQuaternion
d = DualQuaternion.from_pose(1.0, 2.0, 3.0, 0.0, 0.6, 0.0, -0.8)
d.enforce_positive_q_rot_w()
assert np.allclose(d.to_pose()[:3], [1.0, 2.0, 3.0]), d.to_pose()
''', 'a dual quaternion with a negative rotation scalar and a translation',
     'choosing the sign of the rotation leaves the dual part behind and so mirrors the translation')

seed('B04', 'C02', [(Q, "q *= np.sin(angle / 2.0) / q_norm", "q *= np.sin(angle / 2.0)")], '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion
q = Quaternion.from_angle_axis(1.0, [0.0, 0.0, 2.0])
assert np.allclose(q.q, [0, 0, np.sin(0.5), np.cos(0.5)]), q.q
''', 'an axis that is not of unit length', 'the rotation built from an axis and an angle depends on the length of the axis')

seed('B05', 'C05', [(Q, "      self.q = q.copy()\n", "      self.q = q\n")], '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion
v = np.array([0.0, 0.0, 0.0, 1.0])
a = Quaternion(q=v)
v[0] = 7.0
assert np.allclose(a.q, [0, 0, 0, 1]), a.q
''', 'changing the array a quaternion was made from', 'a quaternion shares the array it was made from')

seed('B06', 'C06', [(Q, "    q1 *= -1\n", "    pass\n")], '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion, quaternion_slerp, angle_between_quaternions
a = Quaternion(0.0, 0.0, 0.0, 1.0)
b = Quaternion(0.0, 0.0, -np.sin(0.5), -np.cos(0.5))
c = quaternion_slerp(a, b, 0.5)
assert np.isclose(abs(c.w), np.cos(0.25)), c
''', 'two orientations stored with opposite signs', 'the interpolated orientation leaves the shorter arc')

CV = P + 'calibration_verification.py'
X = 'hand_eye_calibration_experiments/'
ER = X + 'python/hand_eye_calibration_experiments/experiment_results.py'
# helpers the demonstrations share
HE = '''
import sys, types
sys.modules.setdefault('tf', types.ModuleType('tf'))
import numpy as np
import hand_eye_calibration.dual_quaternion_hand_eye_calibration as he
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.quaternion import Quaternion

def motion(angle, axis, t):
  q = Quaternion.from_angle_axis(angle, axis).q if angle else np.array([0., 0., 0., 1.])
  return DualQuaternion.from_pose(t[0], t[1], t[2], q[0], q[1], q[2], q[3])
'''

seed('B07', 'C08', [(TA, "    if (timestamp < start_time):\n", "    if (timestamp <= start_time):\n")], '''
import numpy as np
from hand_eye_calibration.time_alignment import compute_aligned_poses
a = np.zeros((6, 8)); a[:, 0] = np.arange(6) * 0.1; a[:, 7] = 1.0
b = np.zeros((21, 8)); b[:, 0] = np.arange(21) * 0.025; b[:, 7] = 1.0
(x, y) = compute_aligned_poses(a, b, 0.0)
assert x[0, 0] == 0.0, x[:, 0]
''', 'both recordings start at the same time', 'the common start of the recordings is left out of the aligned poses')

seed('B08', 'C09', [(TA, "np.arange(-len(signal_A) + 1, len(signal_B))", "np.arange(-len(signal_B) + 1, len(signal_A))")], '''
import numpy as np
from hand_eye_calibration.time_alignment import calculate_time_offset_from_signals
bump = np.exp(-0.1 * (np.arange(60) - 30.0) ** 2)
ta = np.arange(60) * 0.1
tb = np.arange(90) * 0.1
d = calculate_time_offset_from_signals(ta, bump, tb, np.concatenate((np.zeros(10), bump, np.zeros(20))))
assert np.isclose(d, 1.0), d
''', 'two signals of different length', 'the estimated time offset is wrong by the difference of the lengths')

seed('B09', 'C11', [(H, "      best_num_inliers = num_inliers\n", "      best_num_inliers = max(best_num_inliers, num_inliers)\n")], HE + '''
import itertools
c = he.HandEyeConfig()
c.prefilter_poses_enabled = False
c.enable_exhaustive_search = True
c.ransac_sample_size = 1
c.min_num_inliers = 2
rng = np.random.RandomState(3)
hand = [motion(rng.uniform(0.5, 1.5), rng.normal(size=3), rng.normal(size=3)) for _ in range(8)]
dq = motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
eye = [dq.inverse() * h * dq for h in hand]
seen = []
errors = iter([(4.0, 4.0), (3.0, 3.0), (2.0, 2.0)] + [(9.0, 9.0)] * 20)
flags = iter([0, 3, 5] + [0] * 20)
real = he.align_paths_at_index
state = {'n': 0}
def evaluate(a, b, config, visualize=False):
  e = next(errors)
  seen.append((e, state['n']))
  return (e[0], e[1], [True] * len(a))
def calibrate(b, w, *args):
  state['n'] = len(b)
  return (motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3]), np.zeros(8), False)
drop = iter([0, 2, 4, 0, 0, 0, 0, 0])
def compress(l, f):
  if state.get('key') is not None:
    k = state.pop('key')
  else:
    k = next(drop)
    state['key'] = k
  return list(l)[:len(l) - k]
he.evaluate_alignment, he.compute_hand_eye_calibration, he.compress = evaluate, calibrate, compress
r = he.compute_hand_eye_calibration_RANSAC(hand, eye, c)
best = [s for s in seen if s[0] == (2.0, 2.0)][0]
assert r[0] and r[2] == (2.0, 2.0)
assert r[3] == best[1], (r[3], seen)
''', 'a later sample with smaller errors but fewer inliers', 'the reported number of inliers belongs to another sample than the reported calibration')

seed('B10', 'C21', [(CV, "results_dq_H_E[num_poses_sets - 2].inverse())", "results_dq_H_E[1].inverse())")], HE + '''
import itertools
from hand_eye_calibration.calibration_verification import compute_loop_error
rng = np.random.RandomState(1)
s = [motion(rng.uniform(0.2, 1.0), rng.normal(size=3), rng.normal(size=3)) for _ in range(4)]
e = compute_loop_error([a.inverse() * b for a, b in itertools.combinations(s, 2)], 4)
assert np.allclose(e, 0.0, atol=1e-5), e
''', 'calibrations between four sensors', 'a consistent set of calibrations has a loop error')

seed('B11', 'C23', [(H, "elif (np.inner(screw_axis_B_H_i, screw_axis_B_H_j) > dot_product_threshold):",
                     "elif (np.inner(screw_axis_B_H_i, screw_axis_W_E_j) > dot_product_threshold):")], HE + '''
x, y, z = np.eye(3)
w = [motion(1.0, x, [0., 0., 0.]), motion(1.0, y, [0., 0., 0.]), motion(1.0, z, [0., 0., 0.])]
b = [motion(1.0, y, [0., 0., 0.]), motion(1.0, z, [0., 0., 0.]), motion(1.0, x, [0., 0., 0.])]
(u, v) = he.prefilter_using_screw_axis(w, b, 0.95)
assert len(u) == 3, len(u)
''', 'a motion of one sensor whose axis is that of an earlier motion of the other', 'a distinct motion is dropped by the pre-filter')

seed('B12', 'C17', [('hand_eye_calibration/bin/bag_to_csv_with_config.py', "      camera_intrinsics = cameras['cam_intrinsics'][i]\n",
                     "      camera_intrinsics = cameras['cam_intrinsics'][0]\n")], '''
import os, subprocess, sys
s = os.environ['SCRATCH']
open(s + '/rosrun', 'w').write('#!/bin/sh\\necho "$@" >> "%s/calls"\\n' % s)
os.chmod(s + '/rosrun', 0o755)
open(s + '/c.yaml', 'w').write("""
bags:
  - name: a.bag
    bag_path: /bags/
    intrinsics_path: /calib/
    target_config_path: /target/
    tf_frames:
    cameras:
      cam_topics: [/cam0/image, /cam1/image]
      cam_intrinsics: [cam0.yaml, cam1.yaml]
    target: t.yaml
""")
open(s + '/rospy.py', 'w').close()
env = dict(os.environ, PATH=s + ':' + os.environ['PATH'], PYTHONPATH=s + ':' + os.environ.get('PYTHONPATH', ''))
subprocess.check_call([sys.executable, 'hand_eye_calibration/bin/bag_to_csv_with_config.py', '--yaml_config_file', s + '/c.yaml'], env=env)
l = open(s + '/calls').read().split('\\n')
assert '/calib/cam0.yaml' in l[0] and '/calib/cam1.yaml' in l[1], l
''', 'a bag with two cameras', 'the poses of the second camera are extracted with the calibration of the first')

seed('B13', 'C20', [(P + 'bash_utils.py', "  if exit_code != 0:\n", "  if exit_code > 0:\n")], '''
from hand_eye_calibration.bash_utils import run
run('true')
try:
  run("sh -c 'kill -9 $$'")
except Exception:
  pass
else:
  assert False, 'a killed command is not reported'
''', 'a command that is killed', 'a command that was killed counts as successful')

seed('B14', 'C12', [(H, "      w = (1.0 - config.ransac_outlier_probability)  # Inlier probability\n",
                     "      w = config.ransac_outlier_probability\n")], HE + '''
c = he.HandEyeConfig()
c.prefilter_poses_enabled = False
c.ransac_sample_size = 1
c.min_num_inliers = 1
c.ransac_outlier_probability = 0.1
c.ransac_max_number_iterations = 50
rng = np.random.RandomState(3)
hand = [motion(rng.uniform(0.5, 1.5), rng.normal(size=3), rng.normal(size=3)) for _ in range(8)]
dq = motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
eye = [dq.inverse() * h * dq for h in hand]
n = [0]
real = he.compute_hand_eye_calibration
def count(*a, **k):
  n[0] += 1
  return real(*a, **k)
he.compute_hand_eye_calibration = count
r = he.compute_hand_eye_calibration_RANSAC(he.align_paths_at_index(hand), he.align_paths_at_index(eye), c)
# log(0.01) / log(0.1) = 2
assert n[0] <= 3, n
''', 'an assumed outlier share other than one half', 'the random search uses the outlier share as inlier share and stops too late or too early')

seed('B15', 'C13', [(H, "error_position = np.linalg.norm(pose_A[0:3] - pose_B[0:3], ord=2)",
                     "error_position = np.linalg.norm(pose_A[0:3] - pose_B[0:3], ord=np.inf)")], HE + '''
a = np.array([1., 2., 3., 0., 0., 0., 1.])
b = np.array([4., 6., 3., 0., 0., 0., 1.])
assert np.isclose(he.compute_pose_error(a, b)[0], 5.0)
''', 'positions that differ in more than one coordinate', 'the position error is the largest coordinate difference')

seed('B16', 'C10', [(H, "    if i < 6:\n", "    if i < 5:\n")], HE + '''
rng = np.random.RandomState(3)
hand = [motion(0., [0., 0., 1.], [0., 0., 0.])] + [motion(rng.uniform(0.5, 1.5), rng.normal(size=3), rng.normal(size=3)) for _ in range(8)]
dq = motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
eye = [dq.inverse() * h * dq for h in hand]
(r, s, bad) = he.compute_hand_eye_calibration(hand, eye)
assert s[5] > 0.5 and s[6] < 0.5
assert not bad, s
''', 'well conditioned motions', 'good singular values are reported as bad')

seed('B17', 'C07', [(H, """          dq_W_E_vec.pop(j)
          dq_B_H_vec.pop(j)
        else:
          screw""", """          dq_W_E_vec.pop(j)
          dq_B_H_vec.pop()
        else:
          screw""")], HE + '''
x, y, z = np.eye(3)
l = [motion(1.0, x, [1., 0., 0.]), motion(0., z, [0., 0., 0.]), motion(1.0, y, [0., 1., 0.]), motion(1.0, z, [0., 0., 1.])]
(u, v) = he.prefilter_using_screw_axis(l, l, 0.95)
assert len(u) == len(v) == 3
for a, b in zip(u, v):
  assert np.allclose(a.dq, b.dq), (str(a), str(b))
''', 'a pose in the middle of the path that equals the first one', 'hand and eye poses are no longer paired after the pre-filter')

seed('B18', 'C18', [(ER, """        self.num_initial_poses[pose_pair_idx],
        self.num_poses_kept[pose_pair_idx],
        self.runtimes""", """        self.num_poses_kept[pose_pair_idx],
        self.num_initial_poses[pose_pair_idx],
        self.runtimes""")], '''
import sys, types
sys.modules.setdefault('tf', types.ModuleType('tf'))
from hand_eye_calibration_experiments.experiment_results import ResultEntry
e = ResultEntry()
e.dataset_names = [('a', 'b')]; e.success = [True]; e.rmse = [(1.0, 2.0)]; e.num_inliers = [5]; e.num_initial_poses = [90]
e.num_poses_kept = [30]; e.runtimes = [0.5]; e.singular_values = [None]; e.bad_singular_value = [False]
e.optimization_success = [True]; e.optimization_runtime = [0.0]; e.spoiled_initial_guess_angle_offset = [None]
e.spoiled_initial_guess_translation_offset = [None]; e.spoiled_initial_guess_time_offset = [None]
row = dict(zip(e.get_header().strip().split(','), e.write_pose_pair_to_csv_line(0).strip().split(',')))
assert row['num_input_poses'] == '90', row
''', 'a run whose pre-filter dropped poses', 'the numbers of poses before and after the pre-filter change places in the table')

seed('B19', 'C15', [(P + 'extrinsic_calibration.py', "      pose[3:6] *= -1.0; # convert to JPL\n", "      pose[3:7] *= -1.0; # convert to JPL\n")], '''
import os
import json
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
f = os.environ['SCRATCH'] + '/c.json'
ExtrinsicCalibration(0.5, DualQuaternion.from_pose(1.0, 2.0, 3.0, 0.6, 0.0, 0.0, 0.8)).writeJson(f, True)
r = json.load(open(f))['rotation']
assert abs(r['i'] + 0.6) < 1e-9 and abs(r['w'] - 0.8) < 1e-9, r
''', 'a calibration written in the other rotation convention', 'the stored rotation is not converted')

seed('B20', 'C25', [('hand_eye_calibration/bin/compute_hand_eye_calibration.py', """      dual_quat_W_E_vec = [DualQuaternion.from_pose_vector(
          pose[1:]).inverse() for pose in poses2]""", """      dual_quat_W_E_vec = [DualQuaternion.from_pose_vector(
          pose[1:]) for pose in poses2]""")], HE + '''
import os, subprocess, sys
s = os.environ['SCRATCH']
rng = np.random.RandomState(3)
hand = [motion(rng.uniform(0.5, 1.5), rng.normal(size=3), rng.normal(size=3)) for _ in range(30)]
dq = motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
eye = [h * dq for h in hand]
np.savetxt(s + '/hand.csv', [np.r_[i, h.to_pose()] for i, h in enumerate(hand)], delimiter=',')
np.savetxt(s + '/eye.csv', [np.r_[i, e.inverse().to_pose()] for i, e in enumerate(eye)], delimiter=',')
subprocess.call([sys.executable, 'hand_eye_calibration/bin/compute_hand_eye_calibration.py',
                 '--aligned_poses_B_H_csv_file', s + '/hand.csv', '--aligned_poses_E_W_csv_file', s + '/eye.csv',
                 '--extrinsics_output_csv_file', s + '/out.csv'])
p = np.loadtxt(s + '/out.csv')
assert np.allclose(p, dq.to_pose(), atol=1e-6), p
''', 'eye poses given as world poses in the eye frame', 'the inverse poses are used as if they were the direct ones')

seed('B21', 'C24', [(CV, "    return ((float('inf'), float('inf')), 0)\n", "    return ((0.0, 0.0), 0)\n")], HE + '''
from hand_eye_calibration.calibration_verification import evaluate_calibration
a = np.zeros((5, 8)); a[:, 0] = np.arange(5) * 0.1; a[:, 7] = 1.0
b = a.copy(); b[:, 0] += 100.0
(r, n) = evaluate_calibration(a, b, motion(0., [0., 0., 1.], [0., 0., 0.]), 0.0, he.HandEyeConfig())
assert n == 0 and r[0] == float('inf') and r[1] == float('inf'), r
''', 'two recordings without common time', 'a calibration that cannot be evaluated has no error at all')

seed('B22', 'C16', [(P + 'csv_io.py', "  times = time_stamped_poses[:, 0].copy()\n", "  times = np.sort(time_stamped_poses[:, 0])\n")], '''
import os
import numpy as np
from hand_eye_calibration.csv_io import read_time_stamped_poses_from_csv_file
f = os.environ['SCRATCH'] + '/p.csv'
open(f, 'w').write('0.0,0,0,0,0,0,0,1\\n2.0,0,0,0,0,0,0,1\\n1.0,0,0,0,0,0,0,1\\n')
(p, t, q) = read_time_stamped_poses_from_csv_file(f)
assert np.allclose(t, p[:, 0]), (t, p)
''', 'a pose file whose stamps are not sorted', 'stamps and orientations returned by the reader no longer belong together')

seed('B23', 'C19', [(P + 'algorithm_config.py', """  hand_eye_config.algorithm_name = "EC"

  # Prefiltering is mandatory for exhaustive search,
  # otherwise it takes forever.
  hand_eye_config.prefilter_poses_enabled = True
""", """  hand_eye_config.algorithm_name = "EC"
""")], '''
import sys, types
sys.modules.setdefault('tf', types.ModuleType('tf'))
from hand_eye_calibration.algorithm_config import get_exhaustive_search_pose_inliers_config
assert get_exhaustive_search_pose_inliers_config()[1].prefilter_poses_enabled
''', 'the exhaustive search with pose inliers', 'the exhaustive search runs over all poses instead of the distinct ones')

seed('B24', 'C14', [(H, "    dq_W_H = dq_W_E_vec[i] * dq_E_H_estimated\n", "    dq_W_H = dq_W_E_vec[i] * dq_H_E_estimated\n")], HE + '''
rng = np.random.RandomState(3)
hand = he.align_paths_at_index([motion(rng.uniform(0.5, 1.5), rng.normal(size=3), rng.normal(size=3)) for _ in range(5)])
dq = motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
eye = [dq.inverse() * h * dq for h in hand]
(a, b) = he.get_aligned_poses(hand, eye, dq)
assert np.allclose(a, b, atol=1e-6), (a, b)
''', 'a calibration that is not its own inverse', 'a right calibration is evaluated as wrong')

seed('B25', 'C05', [(H, "  dq_B_H_vec = copy.deepcopy(dq_B_H_vec_in)\n", "  dq_B_H_vec = list(dq_B_H_vec_in)\n")], HE + '''
x, y, z = np.eye(3)
a = [motion(1.0, v, [0.1, 0., 0.]) for v in (x, y, z)]
b = [motion(1.0, v, [0., 0.2, 0.]) for v in (y, z, x)]
before = [m.dq.copy() for m in a + b]
(u, v) = he.prefilter_using_screw_axis(a, b, 0.95)
for m in u + v:
  m.dq[0:8] = 7.0
assert all(np.allclose(m.dq, w) for m, w in zip(a + b, before))
''', 'motions returned by the pre-filter that are changed afterwards', 'the recorded motions change together with the filtered ones')

seed('B26', 'C01', [(P + 'quaternion.py', "    if norm > 1e-8:\n", "    if norm > 1e-2:\n")], '''
from hand_eye_calibration.quaternion import Quaternion
q = Quaternion(0.003, 0.0, 0.004, 0.0)
q.normalize()
assert abs(q.norm() - 1.0) < 1e-9, q
''', 'a short quaternion', 'a quaternion of small norm is not normalised')

seed('B27', 'C03', [(P + 'dual_quaternion.py', "      return np.allclose(self.dq, other.dq)\n",
                     "      return np.allclose(self.dq[0:4], other.dq[0:4])\n")], HE + '''
a = motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
b = motion(0.3, [0., 0., 1.], [5.0, 0.2, 0.3])
assert a == motion(0.3, [0., 0., 1.], [0.1, 0.2, 0.3])
assert not a == b
''', 'two motions that differ in translation only', 'motions with different translations compare equal')

seed('B28', 'C22', [(P + 'time_alignment_plotting_tools.py', """  a3.get_xaxis().get_major_formatter().set_useOffset(False)
""", """  a3.get_xaxis().get_major_formatter().set_use_offset(False)
""")], '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
from hand_eye_calibration.time_alignment_plotting_tools import plot_results
t = np.linspace(0., 1., 5)
plot_results(t, t, np.sin(t), np.cos(t), np.correlate(np.cos(t), np.sin(t), 'full'), 0.1, block=False)
''', 'the plots of the time alignment are switched on', 'drawing the correlation stops with an unknown attribute')

seed('B29', 'C18', [(X + 'python/hand_eye_calibration_experiments/experiment_plotting_tools.py',
                     "    initial_guess_time = 0 if row[22] is None else row[22]\n",
                     "    initial_guess_time = 0 if row[22] is None else row[20]\n")], '''
import os
from hand_eye_calibration_experiments.experiment_plotting_tools import collect_data_from_csv
f = os.environ['SCRATCH'] + '/results.csv'
names = ('algorithm_name,num_pose_pairs,iteration_num,prefiltering,poses_B_H_csv_file,poses_W_E_csv_file,success,'
         'position_rmse,orientation_rmse,num_inliers,num_input_poses,num_poses_after_filtering,runtime_s,'
         'loop_error_position_m,loop_error_orientation_deg,singular_values,bad_singular_values,optimization_enabled,'
         'optimization_success,optimization_runtime_s,spoiled_initial_guess_angle_offset,'
         'spoiled_initial_guess_translation_offset,spoiled_initial_guess_time_offset,dataset')
row = 'ES_opt,0,%d,True,a,b,True,1.0,2.0,5,9,8,3.0,0.1,0.2,[1],False,True,True,4.0,%f,[ 3.0 0.0 4.0],%f,d'
open(f, 'w').write(names + '\\n' + row % (0, 0.5, 0.01) + '\\n' + row % (1, 0.7, 0.02) + '\\n')
spoiled = collect_data_from_csv([f])[8]
assert abs(spoiled[4][0] - 0.01) < 1e-9 and abs(spoiled[4][1] - 0.02) < 1e-9, spoiled
assert abs(spoiled[2][1] - 0.7) < 1e-9, spoiled
''', 'results of spoiled initial guesses', 'the time offsets that are plotted are the angles')
seed('B30', 'C16', [(P + 'csv_io.py',
                     '  np.savetxt(csv_file, array, delimiter=", ", fmt="%.18f")\n',
                     '  np.savetxt(csv_file, array, delimiter=", ", fmt="%.10e")\n')], '''
import os
import numpy as np
from hand_eye_calibration.csv_io import (
    read_time_stamped_poses_from_csv_file, write_time_stamped_poses_to_csv_file)
f = os.environ['SCRATCH'] + '/poses.csv'
stamps = 1478600000.0 + 0.05 * np.arange(20)
poses = np.array([[t, 1.0, 2.0, 3.0, 0.0, 0.0, 0.0, 1.0] for t in stamps])
write_time_stamped_poses_to_csv_file(poses, f)
back = read_time_stamped_poses_from_csv_file(f)[1]
assert np.abs(back - stamps).max() < 1e-5, np.abs(back - stamps).max()
''', 'stamps counted from 1970', 'poses recorded within a tenth of a second are written with the same stamp')
seed('B31', 'C20', [(P + 'bash_utils.py',
                     "      if exc.errno != errno.EEXIST:\n",
                     "      if exc.errno == errno.EACCES:\n")], '''
import os
from hand_eye_calibration.bash_utils import create_path
open(os.environ['SCRATCH'] + '/results', 'w').close()
try:
  create_path(os.environ['SCRATCH'] + '/results/run/results.csv')
except OSError:
  pass
else:
  raise AssertionError('the missing directory is not reported')
create_path(os.environ['SCRATCH'] + '/a/b/results.csv')
assert os.path.isdir(os.environ['SCRATCH'] + '/a/b')
''', 'a file where a directory is needed', 'directories that cannot be created are not reported')
