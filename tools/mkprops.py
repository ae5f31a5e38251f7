import json
Q='hand_eye_calibration/python/hand_eye_calibration/quaternion.py'
D='hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py'
H='hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py'
T='hand_eye_calibration/python/hand_eye_calibration/time_alignment.py'
C='hand_eye_calibration/python/hand_eye_calibration/csv_io.py'
X='hand_eye_calibration/python/hand_eye_calibration/extrinsic_calibration.py'
V='hand_eye_calibration/python/hand_eye_calibration/calibration_verification.py'
A='hand_eye_calibration/python/hand_eye_calibration/algorithm_config.py'
B='hand_eye_calibration/python/hand_eye_calibration/bash_utils.py'
TT='hand_eye_calibration/python/hand_eye_calibration/test_tools.py'
EX='hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/'
EXB='hand_eye_calibration_experiments/bin/'
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    n=st.count('. ')+1
    assert n<=3,(id,n)
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
I=["inputs"]
p("P01","Quaternion arithmetic is exact Hamilton algebra",
"The quaternion product is the Hamilton product (associative, distributive, norm-multiplicative, i*j=k), addition, subtraction, negation and multiplication or division by a scalar act on every component, and conjugation negates exactly the vector part. For every non-zero quaternion the inverse gives one when multiplied from either side, and dividing by a quaternion is multiplying by its inverse from the right. None of these operations changes its operands.",
I,"all real component values (exact arithmetic), non-zero where an inverse is taken; scalars non-zero where divided by",
"The unit tests multiply a handful of fixed quaternions; an identity over eight or twelve free reals cannot be settled by examples.",
[Q],[("Hamilton product / scalar product","Quaternion.__mul__, __rmul__"),("division and inverse","Quaternion.__truediv__, inverse, conjugate, squared_norm"),("component-wise operators","Quaternion.__add__, __sub__, __neg__")])
p("P02","A unit quaternion is one and the same rotation everywhere",
"For every unit quaternion, rotating a vector, multiplying the vector by the 3x3 rotation matrix (also found in the top-left of the 4x4 matrix, which has no translation) and sandwiching it between the quaternion and its inverse give the same vector. The matrix is orthonormal with determinant +1, is unchanged by negating the quaternion, and the matrix of a product is the product of the matrices in the same order.",
I,"all unit quaternions and all vectors in R^3",
"Existing tests rotate one vector by 90 and 180 degrees; sign or index slips that cancel for axis-aligned rotations are invisible there.",
[Q],[("vector rotation","Quaternion.rotate_vector"),("matrix conversion","Quaternion.to_rotation_matrix, to_transformation_matrix")])
p("P03","Every rotation matrix converts to the quaternion of that rotation",
"Converting any proper 3x3 rotation matrix, half turns included, gives a finite unit quaternion with non-negative scalar part whose own rotation matrix is the one that was converted.",
I,"all proper rotation matrices, i.e. the matrices of all unit quaternions including scalar part zero",
"Tests convert one 90-degree rotation; the boundary set of half turns has measure zero and random tests never hit it.",
[Q,D],[("matrix to quaternion","Quaternion.from_rotation_matrix")],["DualQuaternion.from_transformation_matrix"])
p("P04","Angle and axis are represented faithfully in both directions",
"A quaternion built from any angle and any axis of non-negligible length is a unit quaternion whose scalar part is cos(angle/2) and whose vector part is sin(angle/2) times the normalised axis. Reading angle and axis back from any unit quaternion is always finite and gives a unit axis and an angle in [0, 2*pi] that rebuild that same quaternion; where the scalar part is within 1e-11 of +1 or -1 the axis may be any, and the angle is essentially zero or a full turn.",
I,"all angles, all axes with length above 1e-15, all unit quaternions",
"Tests use two or three fixed angles; small rotations (below half a degree) and the antipodal identity are not reached.",
[Q],[("construction","Quaternion.from_angle_axis"),("read-back","Quaternion.angle_axis")])
p("P05","Quaternion interpolation follows the shorter arc at constant speed",
"For unit quaternions and a fraction in [0,1], spherical interpolation returns a unit quaternion on the shorter great arc between them at exactly that fraction of the arc from the first to the second, as a rotation independent of the sign of either endpoint, returning the endpoints themselves at 0 and 1. Linear interpolation returns the point at that fraction of the chord and its normalised variant that point scaled to unit length. Interpolating at given times uses the fraction (t - t_left)/(t_right - t_left) for each time, and fractions outside [0,1] are refused.",
I,"all pairs of unit quaternions (closer than 1e-7 only up to 1e-6), all fractions, all increasing time pairs",
"Tests interpolate between two fixed pairs; sign handling, constant speed and near-identical endpoints are properties of a 9-dimensional input space.",
[Q],[("slerp","quaternion_slerp"),("lerp/nlerp","quaternion_lerp, quaternion_nlerp"),("time scaling","quaternions_interpolate")])
p("P06","Pose error is Euclidean distance and geodesic angle, always finite",
"The error between two poses is the Euclidean distance of their positions and the geodesic rotation angle of their orientations in degrees, accurate to 0.01 degree and always within [0,180]. It is symmetric, does not depend on the sign or length of either quaternion, leaves both poses unchanged, and is a finite number even when rounding has left unit quaternions with a norm off by up to 1e-9.",
I,"all pairs of poses with non-zero quaternions; norm perturbations up to 1e-9",
"No test covers the metric; the arccos domain problem appears only for nearly identical orientations that differ in a component close to zero.",
[H,Q],[("pose error","compute_pose_error"),("angle between","angle_between_quaternions")],["evaluate_alignment","compute_loop_error"])
p("P07","Angular velocity between orientations is rotation angle over time",
"The angular velocity between two unit quaternions over a time t>0 is the rotation q1*q2^-1 from the second to the first, as axis times angle (at most pi), divided by t. It does not depend on the sign of either quaternion, is zero only if the rotations agree (to within 1e-5 rad), reverses when the two quaternions are exchanged and is always finite.",
I,"all pairs of unit quaternions, all t>0",
"The test for angular velocity is an empty stub.",
[Q,T],[("angular velocity","angular_velocity_between_quaternions")],["compute_angular_velocity_norms"])
p("P08","Dual quaternion arithmetic is exact and leaves its operands alone",
"Dual quaternion sum, difference, scalar multiple, product, quotient and conjugate follow dual-number quaternion algebra: the product is associative and distributive and conjugation reverses products. For every dual quaternion with non-zero rotation part the inverse gives the identity from either side, and the scalar part is half the sum with the conjugate. None of these operations changes its operands.",
I,"all 8-vectors (exact arithmetic), non-zero rotation part where an inverse is taken",
"Tests use fixed dual quaternions, mostly unit ones; identities over 16-24 free reals and non-unit inputs are not settled by examples.",
[D],[("operators","DualQuaternion.__add__, __sub__, __mul__, __rmul__, __truediv__"),("conjugate/inverse/scalar","DualQuaternion.conjugate, inverse, scalar")])
p("P09","Pose, matrix and dual quaternion conversions lose nothing",
"Turning a pose with any non-zero quaternion into a dual quaternion gives a unit dual quaternion, and reading the pose back gives the same position and the same orientation with unit length and non-negative scalar part. Reading a matrix gives the rotation matrix and position of that pose, and building a dual quaternion from that matrix gives the same transformation again. Normalising, forcing a non-negative scalar part and scaling by any non-zero factor never change the transformation that is read back.",
I,"all poses with |q| >= 1e-6; all non-zero scale factors",
"Round-trip tests use three fixed poses; negative scalar parts, unnormalised quaternions and half turns are not exercised.",
[D],[("construction","DualQuaternion.from_pose, from_pose_vector, from_transformation_matrix, from_vector"),("read-out","DualQuaternion.to_pose, to_matrix"),("normal form","DualQuaternion.normalize, enforce_positive_q_rot_w")])
p("P10","Dual quaternions compose and invert like rigid transformations",
"For unit dual quaternions the matrix of a product is the product of the matrices, the matrix of the inverse is the inverse matrix, and transforming a point passively or actively is applying the matrix or its inverse to the point. Products and inverses of unit dual quaternions are unit again and are recognised as such.",
I,"all pairs of poses and all points",
"Tests chain a few fixed transforms; the group law is a statement over 14 free reals.",
[D],[("product/inverse","DualQuaternion.__mul__, inverse"),("point transform","DualQuaternion.passive_transform_point, active_transform_point"),("unit check","DualQuaternion.norm, is_normalized")])
p("P11","Screw parameters describe the motion and survive a change of frame",
"For every unit dual quaternion the reported screw axis is a unit vector (zero only for no motion), the angle lies in [0,360) degrees, and together with the reported translation they reproduce the rotation and the displacement along the axis; a pure translation reports angle zero and its own length and direction. Conjugating a motion by any rigid transformation leaves its angle, its translation and its scalar part unchanged and rotates its axis by that transformation. Scalar parts beyond one by rounding (norm off by up to 1e-9) still give finite parameters.",
I,"all unit dual quaternions of either sign, all frame changes",
"One test compares one fixed screw; invariance under arbitrary frame changes, on which outlier rejection rests, is never tested.",
[D],[("screw parameters","DualQuaternion.screw_axis"),("scalar part","DualQuaternion.scalar")],["prefilter_using_screw_axis","compute_hand_eye_calibration_RANSAC"])
p("P12","Path alignment gives motions relative to the chosen pose",
"Aligning a path at an index returns, for every pose, its motion relative to the pose at that index, starting with that pose (the identity) and keeping the cyclic order; every result has a non-negative scalar part when requested and the input path is untouched. Generating the second path from the first with a hand-eye and a base offset gives base^-1 * hand * hand-eye for every pose, so that both aligned paths are related by the hand-eye transformation alone.",
["inputs","configurations"],"all paths of up to 4 poses with arbitrary unit dual quaternions, every alignment index",
"The helpers are used in a test that cannot be run without ROS and only with index 0.",
[H],[("alignment","align_paths_at_index"),("path generation","compute_dual_quaternions_with_offset")])
p("P13","The true calibration solves the linear system of every exact motion pair",
"For every hand motion and the eye motion that a hand-eye transformation induces from it, the constraint block of that pair annihilates the eight coefficients of the hand-eye transformation and also its rotation shifted into the dual slot. The stacked matrix contains exactly the block of each pair, in order, and nothing else, and pairs whose scalar parts differ by clearly more than the tolerance are refused.",
I,"all hand-eye transformations, all motions, up to 3 stacked pairs",
"The only calibration test needs ROS and compares one numerical result; it cannot show the null space for every motion.",
[H],[("constraint block","setup_s_matrix, skew_from_vector"),("stacking","setup_t_matrix")])
p("P14","The solver recovers the exact hand-eye transformation",
"Given exact motion pairs whose constraint matrix has a two-dimensional null space, the calibration returns the one hand-eye transformation that generated them, as a unit dual quaternion with non-negative scalar part, whatever orthonormal basis the decomposition picks for that null space. The quality flag is raised exactly when one of the first six singular values is below 0.5 or one of the last two is above 0.5, and the singular values are handed back unchanged.",
I,"all unit dual quaternions, all orthonormal bases of the induced null space, all singular values",
"A numerical test sees one basis chosen by LAPACK for one data set; degenerate bases (vanishing leading coefficient) cannot be provoked by examples.",
[H],[("closed-form solution","compute_hand_eye_calibration")])
p("P15","Alignment evaluation scores the calibration it is given, and nothing else",
"Evaluating exact motion pairs with the true calibration gives pose lists that agree pair by pair, and for any calibration the second list is the hand path predicted from the eye path relative to its first pose. The reported RMSE values are the root mean squares of the per-pair position and orientation errors, and a pair is flagged an inlier exactly when both its errors are below their thresholds.",
["inputs","configurations"],"all calibrations, all paths of up to 3 pairs, all threshold values",
"Not covered by any runnable test.",
[H],[("prediction","get_aligned_poses"),("scoring","evaluate_alignment")],["compute_hand_eye_calibration_RANSAC","evaluate_calibration"])
p("P16","Pre-filtering keeps pairs together and leaves only distinct screw axes",
"Filtering by screw axis returns a sub-sequence of the pose pairs in their original order with partners kept together and inputs untouched. Every kept pair has non-zero axes and no two kept pairs have axes whose dot product exceeds the threshold in either path, while every removed pair had a zero axis or exceeded the threshold against an earlier kept pair. If fewer than two pairs remain the call is refused.",
["inputs","configurations"],"all paths of up to 4 pairs with arbitrary screw axes, all thresholds in (0,1)",
"Not covered by any runnable test; the in-place removal during iteration depends on the relation of all pairs.",
[H],[("filter","prefilter_using_screw_axis")])
p("P17","The sample search returns its best candidate and reports it truthfully",
"When sampling or exhaustive search reports success, the returned calibration, both RMSE values, inlier count, singular values and quality flag all belong to one evaluated sample that had at least the required number of inliers, and no evaluated sample was better in both RMSE values. It reports failure exactly when no sample qualified. Exhaustive search tries every combination of the required size exactly once, sampling completes at most the configured number of evaluations, and the input paths are left unchanged.",
["inputs","histories","configurations"],"all outcomes (accept/reject, inlier sets, errors, solver failures) of up to 4 samples over up to 4 pose pairs, both inlier criteria, all flag combinations",
"No runnable test; the bookkeeping depends on the history of sample outcomes, which a random test drives only down a few paths.",
[H],[("search loop","compute_hand_eye_calibration_RANSAC")],["compute_hand_eye_calibration.py"])
p("P18","The baseline search uses a qualifying inlier set and reports it truthfully",
"The baseline takes, in exhaustive mode, a largest set of pairs with matching scalar parts found over all start poses and otherwise the first set larger than the configured minimum; it calibrates on exactly that set and reports its size. The reported RMSE values are those of the returned calibration, on the inliers only when so configured and otherwise on all pairs. A failing calibration is reported as failure, and too few inliers are refused.",
["inputs","histories","configurations"],"all match patterns of up to 4 pose pairs, all flag combinations",
"No runnable test.",
[H],[("baseline search","compute_hand_eye_calibration_BASELINE")])
p("P19","Loop-closure error is zero exactly for consistent calibrations",
"For pairwise calibrations between n pose sets, listed in the order of all index pairs (0,1),(0,2),...,(n-2,n-1), the loop error compares the chain 0-1-2-...-(n-1) followed by the inverse of 0-(n-1) with the identity. It is zero whenever the calibrations are mutually consistent and otherwise equals the pose error of exactly that chain.",
["inputs","configurations"],"n from 2 to 7 pose sets, all calibrations",
"No test covers it; the index arithmetic depends on n.",
[V],[("loop chain","compute_loop_error")])
p("P20","The estimated time offset is the shift that best aligns the signals",
"The time offset computed from two signals equals the sampling step times the lag that maximises their cross-correlation, plus the difference of their start times. If the second signal is the first one delayed by k samples, the offset is exactly the delay; moving all time stamps of one signal moves the offset by the same amount and scaling either signal by a positive factor changes nothing.",
I,"all signals with up to 4 (first) and 5 (second) samples, all start times and steps",
"The tests in test_time_alignment.py cannot be collected here and use one signal each.",
[T],[("correlation peak","calculate_time_offset_from_signals")],["calculate_time_offset"])
p("P21","Poses are interpolated at the requested time between their neighbours",
"Resampling a trajectory at requested times returns one row per time, in order, whose position is the linear and whose orientation the spherical interpolation, at exactly that time, between the neighbouring poses; at an original time stamp it is that pose. This holds for any magnitude of the time stamps, including unix time, the input is untouched and times outside the trajectory are refused.",
I,"trajectories of up to 3 poses, all increasing time stamps, all requested times",
"Tests are not collectable here; tolerance effects at large time stamps need stamps around 1e9.",
[T],[("resampling","interpolate_poses_from_samples, resample_quaternions_from_samples")],["compute_aligned_poses"])
p("P22","Time alignment pairs poses at common, well-supported time stamps",
"Aligning two trajectories shifts the first by the offset and returns two lists of equal length with identical, increasing time stamps taken from the trajectory with the larger median time step (the first if equal). A stamp is kept exactly if it lies within both trajectories, not after the last but one stamp of the other one, and either coincides with a stamp of the other or has neighbours there less than 0.1 s before and at most 0.1 s after it. Both inputs are left unchanged.",
I,"trajectories of up to 4 poses each, all increasing time stamps and offsets",
"Tests are not collectable here; interleavings of two symbolic time axes and threshold boundaries are not reachable by examples.",
[T],[("pairing","compute_aligned_poses")],["compute_aligned_poses.py","evaluate_calibration"])
p("P23","Pose files are read as unit Hamilton quaternions in every output",
"Reading a pose file returns times, positions and orientations exactly as in the file except that quaternions have unit length. When the file is declared to be in JPL convention the vector part of every quaternion is negated in everything that is returned, and otherwise in nothing; the returned table, times and quaternions always describe the same poses.",
["inputs","configurations"],"files with up to 3 rows, all finite values, both conventions",
"No test covers reading; consistency of three returned structures over all values is not settled by a sample file.",
[C],[("reader","read_time_stamped_poses_from_csv_file")],["compute_aligned_poses.py"])
p("P24","Calibration files round-trip and calibrations compose",
"Writing a calibration and reading it back with the same quaternion convention gives the same transformation and time offset; reading it with the other convention gives the transformation with inverted rotation and the same position. Composing two calibrations adds the time offsets and composes the transformations in order.",
["inputs","configurations"],"all transformations and time offsets, all combinations of conventions",
"No test covers it.",
[X],[("json io","ExtrinsicCalibration.writeJson, fromJson"),("composition","ExtrinsicCalibration.__mul__")])
p("P25","A configuration does what its name says and result rows report it",
"Every algorithm configuration enables pre-filtering, optimisation, exhaustive search, baseline and inlier criterion exactly as its name states, and names are distinct for distinct settings. A result row has one value per header column, in header order, and its pre-filtering and optimisation columns repeat the configuration of the run.",
["configurations"],"all combinations of the boolean options of every configuration builder; arbitrary result values",
"No test covers it.",
[A,EX+'all_algorithm_configs.py',EX+'experiment_results.py'],[("builders","get_*_config"),("rows","ResultEntry.init_from_configs, get_header, write_pose_pair_to_csv_line")])
p("P26","Spoiled initial guesses stay within the requested ranges",
"A spoiled calibration differs from the original by a translation and a rotation whose sizes lie within the requested ranges and by a time offset whose magnitude does, and the reported offsets are the ones applied. A random quaternion drawn with an angle range is a unit quaternion whose rotation angle lies in that range.",
["inputs","histories"],"all random draws, all calibrations, all ranges with angles up to pi",
"No test covers it; the random source must be arbitrary rather than sampled.",
['hand_eye_calibration_experiments/bin/optimization_experiments.py',Q],[("spoiling","spoil_initial_guess"),("random rotation","Quaternion.get_random")])
p("P27","Transform export writes each usable transform once, in order",
"Exporting a transform from a recording writes one line per recorded message of the source frame whose lookup succeeds, in recording order, with that message's own time stamp and the looked-up position and quaternion. Messages of other frames or with failing lookups write nothing and never stop the export, and, once the rate is being monitored, a message that repeats the previous time stamp is dropped.",
["inputs","fault_sequences"],"recordings of up to 5 transforms, all time stamps, all lookup failures",
"No test covers it; it needs ROS, which is replaced by stubs.",
['hand_eye_calibration/bin/tf_to_csv.py'],[("export loop","write_transformation_to_csv_file")])
p("P28","Velocity smoothing clips symmetrically and averages without shifting",
"Smoothing an angular velocity signal keeps its length and gives at every sample the centred moving average (missing samples count as zero) of the values limited in magnitude to a common bound. The bound is a percentile of the magnitudes, so negating the signal negates the result, values within the bound are not altered and none is enlarged.",
I,"signals of up to 4 samples of 3 components, kernel sizes 1 to 5, all values",
"No runnable test covers it.",
[T],[("filter","filter_and_smooth_angular_velocity")],["compute_angular_velocity_norms"])
p("P29","Uniform resampling covers the trajectory and feeds consistent velocities",
"Resampling a trajectory with step dt gives floor(duration/dt)+1 equally spaced times from the first to the last stamp, with one interpolated orientation each. The velocity signal derived from n orientations has n-1 values, each the length of the smoothed angular velocity between neighbours over their time difference, and the full offset estimate hands both signals to the correlation with the start times of their own samples.",
I,"trajectories of 2 to 3 orientations, all increasing stamps, up to 4 resampled points",
"Tests are not collectable here.",
[T],[("resampling","resample_quaternions"),("signal","compute_angular_velocity_norms, calculate_time_offset")])
p("P30","Cached calibration steps are redone whenever they are out of date",
"A processing step is skipped only if every one of its output files exists and none is older than any of its existing input files. Otherwise it is run again.",
["histories","configurations"],"all combinations of existing/missing files and modification times for up to 3 inputs and 3 outputs",
"No test covers it; it depends on the history of file modifications.",
['hand_eye_calibration/scripts/close_the_circle_test.py'],[("staleness test","requiresUpdate, getMTimes")],["calibrateTwo"])
p("P31","The calibration command treats inverse inputs and outputs consistently",
"Running the calibration command with inverted pose files through the corresponding alternative options uses the same motions as with the original files. The pose written to the extrinsics file and to the calibration file is the transformation found by the search, and the time offset written is the one read.",
["inputs","configurations"],"all poses of 2 pairs, all combinations of the input options",
"No test runs the command.",
['hand_eye_calibration/bin/compute_hand_eye_calibration.py'],[("command","main block")])
p("P32","The alignment command writes each aligned trajectory to its own file",
"The alignment command estimates the offset from the two input files and writes the aligned first trajectory to the first output, the aligned second to the second and the offset that was applied to the offset file. With JPL input all written orientations are Hamilton quaternions.",
["inputs","configurations"],"all trajectories of 2 poses, both conventions, all offsets",
"No test runs the command.",
['hand_eye_calibration/bin/compute_aligned_poses.py'],[("command","main block")])
p("P33","Evaluating a calibration aligns in time first and counts inliers",
"Evaluating a calibration on two time-stamped trajectories scores exactly the time-aligned pose pairs relative to the first of them, returns their RMSE values and the number of inlier pairs, and returns infinite errors with zero inliers when no pose pair matches in time.",
I,"trajectories of 2 to 3 poses, all calibrations and offsets",
"No test covers it.",
[V],[("evaluation","evaluate_calibration")])
p("P34","Data drops remove exactly the requested share of the data",
"Introducing data drops removes (or blanks) exactly the requested share of the entries, leaves the remaining entries in order and unchanged, and finishes for every sequence of random draws that eventually makes progress.",
["histories"],"all random draws for lists of up to 6 entries",
"No test covers it; the random source must be arbitrary.",
[TT],[("drops","introduce_data_drops")])
p("P35","Batch estimation returns the optimum it reports in the documented frame",
"The batch estimator writes the calibration and delay at which its optimiser stopped, in the convention of its input file.",
I,"all measurement sets","Needs the C++ estimator, which has no tests here.",
['hand_eye_calibration_batch_estimation/src/batch_estimator.cc'],[("estimator","batch_estimator.cc main")])
p("P36","Target extraction writes one pose per accepted image",
"The target extractor writes exactly one time-stamped camera pose for every image whose target detection passes the inlier ratio, in recording order.",
["inputs","histories"],"all recordings","Needs the C++ extractor, which has no tests here.",
['hand_eye_calibration_target_extractor/src/target_extractor.cc'],[("extractor","target_extractor.cc main")])
p("P37","Dividing, comparing and measuring dual quaternions follows dual numbers",
"Dividing one dual quaternion by another gives the one that times the divisor is the dividend again, and dividing by a number divides all eight components. The norm is the dual number whose square is the dual quaternion times its conjugate, so its real part is the length of the rotation part and its dual part vanishes exactly for rigid transformations, and a dual quaternion is reported as normalized exactly if its norm is one. Two dual quaternions are equal exactly if all eight components agree (within the numerical tolerance), and none of this changes its operands.",
I,"all components, divisors with a rotation part that is not zero",
"The tests look at a few fixed dual quaternions; errors in the dual part cancel for pure rotations and pure translations.",
[D],[("division","DualQuaternion.__truediv__, __div__, inverse"),("norm","DualQuaternion.norm, is_normalized"),("comparison","DualQuaternion.__eq__")])
p("P38","The set of calibrations records every pair's own results in every run",
"Running the set of calibrations on several pose files treats every pair of files in every configuration and iteration with the pair's own time offset, search result, absolute-sensor flags and optimised result, and appends exactly one row with that pair's own numbers to the result file for each of them. A pair whose search, optimisation or evaluation fails is marked as failed and does not affect the other pairs, and the loop error is computed, from the results of all pairs in order, only if all of them succeeded.",
["inputs","configurations"],"2 to 3 pose files, all flags, all values of offsets, search and optimisation results, any one failing step",
"No test runs the script, and one run by hand shows one outcome of each step.",
[EXB+'compute_set_of_hand_eye_calibrations.py'],[("experiments","main block")],["ResultEntry.write_pose_pair_to_csv_line"])
p("P39","Optimization experiments perturb, optimize and record each pair once",
"In an optimization experiment every pair of pose files starts from its own initial guess, the optimiser gets exactly the perturbed guess and the pair's absolute-sensor flags, and the row of the pair holds the perturbation applied, the evaluation of its optimised result and the iteration, while the template of the results stays as it is. Failed optimisations are marked as failed and suppress the loop error of that experiment only. The script runs every combination of perturbation ranges as often as asked for and writes the rows of all experiments in order below one header.",
["inputs","configurations"],"2 to 3 pose files, all flags, all perturbations and results, any one failing step, 1 or 2 iterations",
"No test runs the script; it needs the external optimiser.",
[EXB+'optimization_experiments.py'],[("experiment","run_optimization_experiment"),("initial guesses","compute_initial_guess_for_all_pairs"),("grid","main block")])
p("P40","Collected results are those of the successful rows, under the right labels",
"Collecting result files returns, for every method and data set in the order of appearance, the position errors, orientation errors and total runtimes (search plus optimisation) of exactly those rows that succeeded without bad singular values, in the order of the files. Every configured algorithm is collected under its own label, and loop errors and perturbations (zero where there was none, the translation by its norm) are listed for the same rows.",
["inputs","configurations"],"1 to 2 files with 1 to 4 rows, all flags, all numbers, all methods",
"No test covers it.",
[EX+'experiment_plotting_tools.py'],[("collection","collect_data_from_csv")])
p("P41","The export commands pass every configured frame, camera and target on",
"The bag export starts exactly one export for each configured pair of frames and for each configured camera, with the bag, frames, topics, calibration and target files belonging together, and refuses lists of different lengths. The target extraction starts the extractor once with the tag counts and sizes of the target file, in their own options.",
["inputs","configurations"],"1 to 2 bags, 0 to 2 frame pairs and cameras, all target sizes",
"No test covers it; it needs the exporters.",
['hand_eye_calibration/bin/bag_to_csv_with_config.py','hand_eye_calibration/bin/target_extractor_interface.py'],[("bag export","main block"),("target extraction","main block")])
p("P42","Commands report failures, directories get created and arrays are read fully",
"Running a command starts it exactly once with its words (quoted parts kept together) unless it is a dry run, and every exit code but zero is reported as an error. Creating the path of a file makes its directory if it is missing, accepts one that exists or appears meanwhile, and passes any other error on. Reading an array from a file gives one row per line and one column per value.",
["inputs","configurations"],"all exit codes, all error numbers, paths of up to 3 levels, arrays of up to 3x3",
"No test covers it; races while creating a directory cannot be provoked by tests.",
[B],[("commands","run"),("directories","create_path"),("arrays","readArrayFromCsv")])
p("P43","The bounding box of trajectories is tight",
"The bounding box of a list of trajectories is, for each of the three axes, the largest and the smallest coordinate over all poses of all of them, and orientations have no influence.",
I,"1 to 3 trajectories of 1 to 4 poses with any positions",
"It is only used by plots, which no test looks at.",
['hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py'],[("bounding box","compute_bbox_3D")])
p("P44","Every cell of the error maps is the mean of its own measurements",
"In the maps of loop errors over perturbations every cell shows the mean of the position (or orientation) errors of exactly those measurements whose angle, time and translation perturbations (by magnitude) lie in the cell's bins, for each of the three plot orders. A cell without exactly the required number of measurements, or a measurement outside all bins, is reported as an error.",
I,"4 to 5 measurements with any perturbations over 2 to 3 bins in each direction",
"It is only used by plots, which no test looks at.",
[EXB+'generate_plots.py'],[("binning","generate_optimization_circle_error_plot")])
HT='hand_eye_calibration/python/hand_eye_calibration/hand_eye_test_helpers.py'
HP='hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py'
TP='hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py'
p("P45","Synthetic paths are rigid motions related by the given transformations",
"The generated test paths consist of the requested number of unit dual quaternions with non-negative scalar part, with and without noise and outliers. Both paths start at the identity and every motion of the second is the motion of the first seen through the hand-eye transformation. Noise or outliers asked for one path leave the other as it was, and the given transformations are not modified.",
I,"paths of 1 to 3 poses; any orientations along the curve; hand-eye and base transformations with any position; every draw of noise and outliers",
"The generator is what the tests trust: an error in it makes them wrong instead of failing.",
[HT],[("paths","generate_test_paths, generate_test_path")])
p("P46","Plots of signals, poses and errors show the data they are given",
"The time alignment plot shows both signals over the time since the earliest sample before and after shifting the first by the offset, and the correlation over sample offsets from 1 - n_A to n_B - 1. The other plots show every component of the poses, quaternions, angular velocities and alignment errors (with their RMSE as a line) as a curve of its own in the announced colour and place. All work with the installed matplotlib, block only if asked, and leave the data alone.",
I,"signals, poses, velocities, quaternions and errors of 1 to 3 entries with any numbers and any time offset; blocking or not; with and without a Tk window",
"No test calls these functions; the plots are only looked at by people.",
[TP,HP],[("time alignment plots","plot_results, plot_time_stamped_poses, plot_angular_velocities, plot_input_data"),("error plot","plot_alignment_errors")])
p("P47","The plot of poses shows every position and every turned axis",
"The plot of trajectories shows, each trajectory in a colour of its own, a line through its positions and a point at every position, within limits that are the smallest and the largest coordinate of all. If asked, every pose has a red, a green and a blue arrow along its turned x, y and z axis, of 5 percent of the diagonal of the bounding box, drawn where the view projects it. The plot is part of the figure that is shown and the poses are left alone.",
I,"up to 3 trajectories of up to 3 poses, one at any position, two with any orientation; any projection",
"Tests call it without looking at the figure.",
[HP],[("plot","plot_poses"),("arrows","Arrow3D.draw, Arrow3D.do_3d_projection")])
p("P48","Plots of the experiments show each method's and data set's own values",
"For each data set one figure shows the position errors in blue and the orientation errors in green of each method in a box of its own next to the name of that method. One figure shows the runtimes of each method and data set, each data set in the colour given in the legend. No two boxes overlap, all are within the limits, and a method without results for a data set gets an empty box.",
I,"1 to 3 methods and data sets with 1 to 3 results each, any values; the whole script with 2 methods and 2 data sets",
"It is only used by plots, which no test looks at.",
[EXB+'generate_plots.py'],[("boxes","generate_box_plot, generate_time_plot"),("script","main block")])
p("P49","The circle test calibrates neighbours and composes their calibrations",
"For three input files each one and its successor are aligned, calibrated and estimated, in this order and each step with the results of the one before; the initial guess of the estimation is the time offset of the alignment and the pose of the calibration of that very pair. The circles shown are the products of the three initial and of the three estimated calibrations in the order of the circle, with the sum of the time offsets. For two files the one pair is calibrated in the same way.",
I,"2 or 3 inputs without intermediate files; any time offsets and positions, given rotations of which one is any",
"The programs it starts are not available to tests.",
['hand_eye_calibration/scripts/close_the_circle_test.py',X],[("steps","calibrateTwo"),("circle","computeCircle, ExtrinsicCalibration.__mul__")])
p("P50","Sampling ends as early as, and only when, success is likely enough",
"With early abort enabled, sampling ends after the first evaluated sample at which the chance that one of the samples evaluated so far consists of inliers only, 1-(1-w^s)^n for the configured inlier probability w and sample size s, exceeds the configured success probability, and otherwise after the configured number of evaluations. Samples that are rejected are not counted. Without early abort sampling performs exactly the configured number of evaluations, and exhaustive search evaluates all combinations in any case.",
["inputs","histories","configurations"],"up to 4 draws over 3 pose pairs, samples of 1 or 2 poses, five outlier probabilities strictly between 0 and 1, any success probability not within 1e-6 of such a chance; at least one sample is evaluated",
"No runnable test; when the search ends depends on the logarithms of the probabilities and on the history of rejected samples.",
[H],[("early abort","compute_hand_eye_calibration_RANSAC")],["compute_hand_eye_calibration.py"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
