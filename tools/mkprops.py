import json
B = 'hand_eye_calibration/'
P = B + 'python/hand_eye_calibration/'
X = 'hand_eye_calibration_experiments/'
props = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    props.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': list(over), 'text': text},
                  'why_tests_cant': why, 'anchors': a})


Q = P + 'quaternion.py'
D = P + 'dual_quaternion.py'
H = P + 'dual_quaternion_hand_eye_calibration.py'
TA = P + 'time_alignment.py'
CSV = P + 'csv_io.py'
EX = P + 'extrinsic_calibration.py'
CV = P + 'calibration_verification.py'

prop('C01', "Quaternion arithmetic is Hamilton's algebra for every operand",
     "For all real components (x, y, z, w; scalar part last), quaternion sum, difference, negation, product, product and quotient with a scalar on either defined side, quotient of two quaternions (multiplication by the inverse on the right), conjugate, inverse, squared norm and norm yield exactly the values of Hamilton's quaternion algebra. Normalising divides by the norm and leaves a quaternion of (numerically) zero norm unchanged.",
     'all operand components and scalars, all operator overloads',
     'a test samples a handful of operand values; a sign or index slip that vanishes on those values (unit axes, symmetric components, identity operands) goes unseen',
     [Q], [('operator overloads and conjugate/inverse/norm', Q + ' Quaternion')])
prop('C02', 'Quaternion, matrix, axis-angle and vector rotation agree',
     'For every unit quaternion, rotating a vector, the 3x3 matrix and the 4x4 matrix (zero translation) describe the same rotation v -> q v q*; converting that matrix back yields the quaternion up to sign for every rotation angle including half turns about any axis. Building a quaternion from angle and axis of any positive length and reading angle and axis back are inverse for angles in (0, pi] (zero rotation reads as a multiple of a full turn about some unit axis), and the angle between two unit quaternions is the rotation angle of their relative rotation, zero for equal ones.',
     'all unit quaternions / rotation matrices, all angles and axes',
     'the conversions branch on trace, largest diagonal element and closeness to identity; tests visit few of these regions and never near their borders',
     [Q], [('rotation conversions', Q + ' Quaternion.from_rotation_matrix/to_rotation_matrix/rotate_vector/angle_axis'),
           ('relative angle', Q + ' angle_between_quaternions')])
prop('C03', 'Dual quaternion algebra composes and inverts rigid motions',
     'For all dual quaternions, sum, difference, scalar product and quotient, product, conjugate, inverse, scalar part, norm and normalisation are those of dual-number-valued Hamilton quaternions (real part first, dual part second). In particular the product of two unit dual quaternions carries the composition of their rigid motions and the product with the inverse is the identity. Two of them compare equal exactly when all components agree within a small tolerance, and one is reported as normalised exactly when its real norm is one and its dual norm zero within a small tolerance.',
     'all real and dual components, all scalars',
     'component-wise errors in the dual part only show for general combinations of rotation and translation',
     [D, Q], [('operator overloads', D + ' DualQuaternion')])
prop('C04', 'Pose, matrix and dual quaternion conversions are consistent',
     'Converting a pose (x, y, z, qx, qy, qz, qw) to a dual quaternion and back, and a rigid 4x4 matrix to a dual quaternion and back, returns the same rigid motion for every translation and rotation, with the returned pose quaternion of unit norm and non-negative scalar part, also for dual quaternions that are scaled by a positive factor. Transforming a point applies R p + t of that motion (active: its inverse), and the screw axis read-out reports rotation angle in degrees, unit axis and translation along the axis for every motion with non-zero rotation, and direction and distance for pure translations.',
     'all poses, rigid matrices and points; both signs of the rotation quaternion; half turns',
     'sign conventions (double cover) and half turns partition the input space in ways sampled tests miss',
     [D, Q], [('pose/matrix conversions', D + ' DualQuaternion.from_pose/to_pose/to_matrix/from_transformation_matrix'),
              ('screw parameters', D + ' DualQuaternion.screw_axis')])
prop('C05', 'Operations do not modify or share storage with their inputs',
     'Arithmetic, conversion, copying, interpolation, path alignment, pre-filtering, error evaluation and time alignment never change the rigid motions, arrays or lists handed in. Results of arithmetic, conversion, copying, two-point interpolation, path alignment and pre-filtering do not share storage with inputs, so later changes of one do not show in the other. No operation keeps state that makes a second identical call, or an object created later, behave differently.',
     'all call sequences on shared objects',
     'aliasing and hidden state only show when a result or an input is modified afterwards or a call is repeated; unit tests look at one return value',
     [Q, D, H, TA, EX, CV], [('value semantics', Q), ('value semantics', D), ('pre-filter and alignment work on copies', H)],
     over=('inputs', 'histories'))
prop('C06', 'Orientation interpolation follows the shorter arc between samples',
     'Interpolating between two unit quaternions at fraction 0 or 1 yields the first or second rotation, for every other fraction it yields the unit quaternion at that fraction of the angle along the shorter great arc (spherical variant) or on the straight chord (linear variants, re-normalised in the normalising one), independent of the signs of the inputs for the spherical variant and without leaving the domain of the inverse cosine. Resampling a sequence evaluates this between the two samples that bracket each requested time with the time fraction inside the interval, and returns the stored orientation at a stored time; resampled times run from first to last stamp.',
     'all pairs of unit quaternions, fractions, increasing time stamps and sample times within their range',
     'antipodal, nearly equal and boundary cases are measure-zero for sampled tests',
     [Q, TA], [('slerp/lerp/nlerp', Q), ('bracketing', TA + ' resample_quaternions_from_samples')])
prop('C07', 'Hand and eye poses stay paired through filtering and sampling',
     'Wherever poses of the two sensors are filtered, sampled, classified or reordered during calibration, the k-th pose kept for one sensor and the k-th pose kept for the other stem from the same original index, and both lists have equal length.',
     'all pose lists, thresholds and sampling choices',
     'a slip in index or list usage keeps all lengths equal on benign data; only adversarial data would tell',
     [H], [('screw axis pre-filter', H + ' prefilter_using_screw_axis'), ('sampling and inlier selection', H + ' compute_hand_eye_calibration_RANSAC/BASELINE')])
prop('C08', 'Aligned poses share time stamps inside both recordings',
     'Aligning two recordings with a time offset adds the offset to the stamps of the first recording only, and returns two pose lists of equal length with identical stamps, each stamp taken from the recording with the larger median time step. Every returned stamp lies in the overlap of both (shifted) recordings and has stamps of the other recording within 0.1 s on both sides (or equal to it), and every stamp of that recording satisfying this before the last step of the other one is returned; positions are linearly and orientations spherically interpolated at the stamp.',
     'all pairs of recordings with increasing stamps and all offsets',
     'overlap, gap and end-of-recording conditions depend on the relative position of stamps',
     [TA], [('stamp selection and interpolation', TA + ' compute_aligned_poses / interpolate_poses_from_samples')])
prop('C09', 'Estimated time offset is lag times step plus start difference',
     'The offset computed from two signals is the lag (in samples, positive if the second signal is delayed) that maximises their full cross-correlation, times the mean time step of the first signal, plus the difference between first stamp of the second and first stamp of the first signal. Both orientation sequences are resampled with the same step and turned into angular rate norms that scale with the inverse of the step and do not depend on the sign of the quaternions.',
     'all signals, stamps and orientation sequences',
     'sign and index-origin errors cancel for signals of equal length and start time as used in tests',
     [TA, Q], [('correlation lag to seconds', TA + ' calculate_time_offset_from_signals'), ('angular rates', TA + ' compute_angular_velocity_norms')])
prop('C10', 'Hand-eye solution solves the stacked dual quaternion system',
     'For every list of aligned pose pairs the linear system contains, for each pair in order, the six equations of the screw constraint (hand motion times unknown equals unknown times eye motion, vector parts of real and dual part). The result is the combination of the two right singular vectors of the smallest singular values that satisfies the unit and orthogonality constraints, choosing the root with the larger real norm, normalised and with non-negative rotational scalar part; the singular value status reports whether the first six exceed and the last two stay below the limit.',
     'all pose pair lists, all values of the decomposition',
     'a wrong block, sign or root still produces a plausible calibration on the easy data sets in tests',
     [H], [('S and T matrices', H + ' setup_s_matrix/setup_t_matrix'), ('closed form', H + ' compute_hand_eye_calibration')])
prop('C11', 'Reported calibration belongs to one accepted sample',
     'The calibration, position and orientation errors, inlier count, singular values and their status returned by a successful search all stem from the same accepted sample or start pose, whose inlier count reaches the configured minimum; a random-sampling result is replaced only by one that is strictly better in both errors. A search that accepts nothing reports failure and no calibration, and success is reported exactly when a calibration is returned.',
     'all data sets, configurations and random choices',
     'mixing fields of different samples needs several accepted samples in a specific quality order',
     [H], [('search bookkeeping', H + ' compute_hand_eye_calibration_RANSAC/BASELINE')], over=('inputs', 'configurations', 'schedules'))
prop('C12', 'Search visits the promised samples and stops',
     'An exhaustive search evaluates every combination of the configured sample size exactly once, and a random search performs at most the configured number of full evaluations; each evaluated sample consists of distinct pairs drawn from the pre-filtered poses, and every evaluated sample counts as one. A random search may stop before that only when early abort is enabled and the number of evaluated samples exceeds log(1 - success probability) / log(1 - inlier rate ^ sample size).',
     'all data sets, sample sizes and configurations',
     'off-by-one errors in sample counting change the result only on rare data sets',
     [H], [('sample loop', H + ' compute_hand_eye_calibration_RANSAC')], over=('inputs', 'configurations'))
prop('C13', 'Pose errors and inlier flags measure the actual deviation',
     'The error of two poses is the Euclidean distance of their positions and the angle in degrees in [0, 180] between their orientations, independent of quaternion sign and scale. Evaluating two pose lists returns the root mean square of both errors over all pairs and flags a pair as inlier exactly when both errors are below their configured thresholds.',
     'all poses and pose lists, both quaternion signs, all thresholds',
     'double cover and angles beyond a half turn are rarely hit; flag/threshold mix-ups keep counts plausible',
     [H], [('error metrics', H + ' compute_pose_error/evaluate_alignment')])
prop('C14', 'Path alignment expresses all poses relative to the chosen one',
     'Aligning a path at an index replaces every pose by its motion relative to the pose at that index, with non-negative rotational scalar part unless disabled, and returns the poses in cyclic order beginning with the chosen one. Evaluating a calibration compares, for each pair, the given hand pose with the eye pose times the inverse calibration, aligned at the first pair; synthetic eye poses are generated as inverse base offset times hand pose times calibration.',
     'all paths, indices and calibrations',
     'order and side errors in products vanish for identity or commuting motions used in tests',
     [H], [('path alignment', H + ' align_paths_at_index/get_aligned_poses/compute_dual_quaternions_with_offset')])
prop('C15', 'Calibration files round-trip and compose offset and pose',
     'Writing an extrinsic calibration to its file format and reading it back yields the same time offset and rigid motion (translation and Hamilton quaternion components each stored under their own key). When switching the rotation convention on reading or writing is requested, exactly the vector part of the stored rotation changes sign, and composing calibrations adds the time offsets and multiplies the motions in order.',
     'all offsets and rigid motions',
     'swapped components survive tests on symmetric or identity calibrations',
     [EX], [('serialisation and group operations', EX + ' ExtrinsicCalibration')])
prop('C16', 'Pose files keep column order, unit quaternions and convention',
     'All tools that write or read time-stamped pose files agree on the columns time, x, y, z, qx, qy, qz, qw; quaternions read from a file are normalised, and conjugated exactly when the other (JPL) convention is requested, with rows kept in order and stamps and positions unchanged. Poses converted from a transform source are written with the stamp and components of that transform.',
     'all pose tables and both convention settings',
     'column permutations are invisible on data with equal components',
     [CSV, B + 'bin/tf_to_csv.py', B + 'bin/compute_aligned_poses.py', B + 'bin/compute_hand_eye_calibration.py',
      'hand_eye_calibration_target_extractor/src/target_extractor.cc'],
     [('CSV reader/writers', CSV), ('tf and target extractor writers', B + 'bin/tf_to_csv.py')])
prop('C17', 'Every launched tool is called with options it accepts',
     'Every option passed from one tool of the pipeline to another (Python, shell script or C++ executable) is declared by the started tool, and every option that tool requires is given. The options carry the values they stand for: bag, frames, topic, camera and target calibration of each configured export, each exactly once; the two recordings in order, time offset and calibration of that very pair as initial guess, the flag telling which sensor is absolute under the name the refinement reads, and output files that are used by the next step, not shared between runs and, where poses are extracted from images, without a heading line. Boolean command line options turn the texts true/false, 1/0 and yes/no into that truth value.',
     'all pipeline entry points and option combinations',
     'the pipeline needs recordings, ROS and compiled extractors, so no test launches it',
     [B + 'scripts/close_the_circle_test.py', B + 'scripts/compute_complete_handeye_calibration.sh', P + 'bash_utils.py',
      X + 'bin/compute_set_of_hand_eye_calibrations.py', X + 'bin/optimization_experiments.py'],
     [('launch wrappers', CV), ('argument parsers', B + 'bin')], over=('programs', 'configurations'))
prop('C18', 'Result tables keep values under their own column headings',
     'Every row of an experiment results file has one value per column heading, written under the heading that names it and taken from the run it describes; the headings are written once, at the start of a new file. Each processed data set pair contributes exactly one row per algorithm and iteration, also when its calibration or its refinement failed. The plotting tool reads each quantity from the column of that name, and the reported offsets of a spoiled initial guess are those applied to it.',
     'all result sets, successful and failed runs',
     'tables are only written by long experiments on recordings',
     [X + 'python/hand_eye_calibration_experiments/experiment_results.py', X + 'bin/compute_set_of_hand_eye_calibrations.py',
      X + 'bin/optimization_experiments.py', X + 'python/hand_eye_calibration_experiments/experiment_plotting_tools.py'],
     [('row writer and reader', X + 'python/hand_eye_calibration_experiments/experiment_results.py')], over=('histories', 'configurations'))
prop('C19', 'Named algorithm configurations select the algorithm they name',
     'Every algorithm configuration the experiments offer has a unique name that tells its search strategy (random sampling, exhaustive or baseline), inlier rule, pre-filtering and refinement, its settings select exactly that variant, and every combination is offered; all other settings equal the common basic configuration and lie in their valid range. Every setting is declared by its configuration and read by the algorithms, and changing the settings of one configuration never changes another. Every offered name has a distinct label in the plots that tells the same variant.',
     'all offered configurations',
     'a wrong flag in one of many configurations merely changes which variant is measured',
     [P + 'algorithm_config.py', X + 'python/hand_eye_calibration_experiments/all_algorithm_configs.py'],
     [('configuration factories', X + 'python/hand_eye_calibration_experiments/all_algorithm_configs.py')], over=('configurations',))
prop('C20', 'Failed external steps stop the pipeline, stale outputs are not used',
     'Starting an external command runs exactly that command, reports every exit code other than zero as an error and, as a dry run, starts nothing; when a step of the export tools or of the calibration script fails, the tool stops with an error instead of starting the next step. The experiments treat a failed refinement as failed and never read a calibration file that the current run of the refinement did not write. Directories are created with their parents before result files are written into them, where a directory that appears meanwhile is no error but any other failure to create it is; a step is skipped only if all of its output files exist and none is older than an input.',
     'all exit codes, failing steps and sets of existing files',
     'tests run neither external programs nor partial re-runs',
     [P + 'bash_utils.py', B + 'bin/bag_to_csv_with_config.py', B + 'bin/target_extractor_interface.py',
      B + 'scripts/compute_complete_handeye_calibration.sh', B + 'scripts/close_the_circle_test.py',
      X + 'bin/compute_set_of_hand_eye_calibrations.py', X + 'bin/optimization_experiments.py'],
     [('process runner and directory creation', P + 'bash_utils.py'), ('re-run decisions', B + 'scripts/close_the_circle_test.py')],
     over=('fault_sequences', 'histories'))
prop('C21', 'Loop closure error chains each calibration exactly once',
     'The loop error of pairwise calibrations between n sensors composes the calibrations of consecutive sensors in order and closes with the inverse of the direct calibration between first and last sensor, so a consistent set yields zero position and angle error. The reported position and orientation errors are the norm of the residual translation and its rotation angle.',
     'all numbers of sensors and calibration values',
     'index arithmetic over the triangular list of pairs is only exercised for one number of sensors, if at all',
     [CV, X + 'bin/compute_set_of_hand_eye_calibrations.py'], [('loop error', CV)], over=('inputs', 'configurations'))
prop('C22', 'No execution path uses undefined names or mismatched calls',
     'On every path of every module, taking loops to run at least once, each variable is assigned before it is used. Every name and import, every attribute of the own modules and classes and of the numerical and plotting libraries, and every command line option that is read exists. Calls match the parameters of the called function, returned tuples are unpacked with matching length and text templates get a value for every placeholder.',
     'all paths of all modules, including error handling and rarely used options',
     'tests execute a small part of the modules; rarely taken branches, scripts and plotting code are never run',
     [Q, D, H, TA, CSV, EX, CV, P + 'bash_utils.py'], [('all functions', 'all Python files')], over=('programs',))
prop('C23', 'Screw axis pre-filter keeps exactly the distinct motions',
     'The pre-filter goes through the motion pairs in order and keeps a pair exactly when neither of its motions is without screw axis and, for both sensors, the dot product of its unit screw axis with that of every pair kept earlier does not exceed the threshold. The kept motions are returned unchanged and in order.',
     'all lists of motion pairs and thresholds',
     'removing entries while walking two lists goes wrong only for particular patterns of neighbouring and repeated motions',
     [H], [('screw axis pre-filter', H + ' prefilter_using_screw_axis')])
prop('C24', 'Evaluation of a calibration on two recordings',
     'Evaluating a calibration time-aligns the two recordings with the given offset, expresses both paths relative to their first pose, carries the hand path over with the calibration and reports position error, orientation error and the number of inliers of the resulting pose pairs. If no poses remain after time alignment both errors are infinite and there are no inliers.',
     'all recordings, calibrations, time offsets and thresholds',
     'a swapped path, a dropped offset or a wrong empty-overlap result yields plausible error figures',
     [CV], [('evaluation', CV + ' evaluate_calibration')])
prop('C25', 'Command line tools process the files their options name',
     'The time alignment tool reads both recordings with the stated quaternion convention (Hamilton unless told otherwise, an unknown one is refused), estimates the offset of the first recording against the second, and writes the aligned poses of each recording to the file named for it and the offset to its file if one is named. The calibration tool takes each path from the one file given for it, inverting the poses exactly when the inverse ones are given, refuses none or two files for a path and a calibration file without time offset, and writes the calibration found for the two paths relative to their first pose, with the offset read from its file, to the named output files, or nothing if none was found. The transform export writes the poses of the named source frame in the named target frame to the named file.',
     'all combinations of options and all file contents',
     'tests never run the tools; swapped files or a forgotten inversion still produce plausible output',
     [B + 'bin/compute_aligned_poses.py', B + 'bin/compute_hand_eye_calibration.py', B + 'bin/tf_to_csv.py'],
     [('main part of the tools', B + 'bin/')], over=('configurations', 'inputs'))
with open('/verif/properties.jsonl', 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(props))
