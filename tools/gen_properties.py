#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
O = "rct_optimizations/src/rct_optimizations/"
OI = "rct_optimizations/include/rct_optimizations/"
M = "rct_image_tools/src/rct_image_tools/"
MI = "rct_image_tools/include/rct_image_tools/"
R = "rct_ros_tools/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("C01", "Hand-eye calibration recovers the true transforms from consistent data",
 "For every mounting configuration (moving camera, moving target, both moving), every sensor kind (2D image or 3D sensor), every true camera and target pose, every initial guess in the convergence basin and every non-degenerate split of the features over observations, hand-eye calibration on noise-free data converges to the true camera-mount-to-camera and target-mount-to-target transforms as proper rigid transforms, at zero cost. The answer does not depend on the order of observations or of features. A guess that puts a target feature behind the image plane of a 2D camera is refused with an error, and a guess that keeps all features in front is not.",
 ["inputs", "configurations"], "every combination of mount configuration, sensor kind, pose alphabet, guess alphabet, per-observation feature subset, observation order and intrinsic set",
 "The tests use one or two pose generators, one target grid and a handful of random guesses; mixed mounts, ragged feature sets, asymmetric intrinsics, large rotations and the behind-the-camera boundary are never combined.",
 [O+"extrinsic_hand_eye.cpp", OI+"extrinsic_hand_eye.h", OI+"ceres_math_utilities.h", O+"eigen_conversions.cpp"],
 [("frame chain target -> mount -> base -> camera mount -> camera", O+"extrinsic_hand_eye.cpp ObservationCost::getTargetPointInCamera"), ("visibility test of the guess", O+"extrinsic_hand_eye.cpp isPointVisible")],
 ["optimize(ExtrinsicHandEyeProblem2D3D) / optimize(ExtrinsicHandEyeProblem3D3D) results"])

prop("C02", "Multi-static-camera calibrations recover every camera and target pose",
 "For any number of static cameras with their own intrinsics, any set of target poses and any per-camera, per-image visibility of features that leaves the problem determined, each multi-camera calibration (robot-carried target, free target with or without the first camera held fixed, and one common camera correction) recovers from noise-free data every camera pose and target pose it is documented to estimate, at zero cost. Results are listed in the order of the inputs and follow a permutation of the cameras or of the images. When the first camera is declared fixed its pose is returned unchanged, the common-correction variant moves all cameras rigidly together, and in the free-target calibration a camera or target without any observation is returned at its guess.",
 ["inputs", "configurations"], "every combination of camera count, intrinsic assignment, pose alphabet, visibility pattern (camera x image), fixed-camera flag, guess and permutation",
 "The tests use two or four cameras that all see everything with identical intrinsics; per-camera intrinsics, missing views, per-camera image counts and permutations are not exercised.",
 [O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp"],
 [("one parameter block per camera / per target pose", O+"extrinsic_multi_static_camera_only.cpp optimize"), ("fixed first camera cost", O+"extrinsic_multi_static_camera_only.cpp ReprojectionFixedCameraCost"), ("common correction", O+"extrinsic_multi_static_camera_wrist_only.cpp optimize")],
 ["the three optimize() overloads of the multi-static-camera problems"])

prop("C03", "Pose estimation (PnP) recovers the true target pose",
 "For every rigid camera-to-target pose with the target in front of the camera, every intrinsic set, every non-degenerate planar or non-planar point set and every guess in the convergence basin, including a guess with no rotation at all, pose estimation from 2D or 3D measurements and from several cameras together returns the true pose at zero cost. The result does not depend on the order of points or cameras, and the single-camera and multi-camera estimators agree.",
 ["inputs", "configurations"], "every combination of pose, intrinsic set, point set, guess offset, camera arrangement and visibility subset",
 "The tests use a single pose and grid with one random guess; identity-rotation and near-180-degree poses, unequal focal lengths, non-planar targets and partially blind cameras are not covered.",
 [O+"pnp.cpp", O+"multi_camera_pnp.cpp", OI+"pnp.h", OI+"experimental/multi_camera_pnp.h", OI+"ceres_math_utilities.h"],
 [("PnP residuals", O+"pnp.cpp SolvePnPCostFunc / SolvePnPCostFunc3D"), ("multi-camera residual", O+"multi_camera_pnp.cpp ReprojectionCost")],
 ["optimize(PnPProblem), optimize(PnPProblem3D), optimize(MultiCameraPnPProblem)"])

prop("C04", "Intrinsic calibration recovers camera matrix and lens distortion",
 "For every true pinhole camera with OpenCV-style radial and tangential distortion in the supported range, every set of at least three differently oriented views of a planar target and every guess near the truth, intrinsic calibration on noise-free images converges to the true focal lengths, optical centre and five distortion coefficients in the documented order (k1,k2,p1,p2,k3), and to the true pose of the target in every image. Calibration does not depend on the order of the images, and a failure to converge is reported instead of being returned as a converged result.",
 ["inputs", "configurations"], "every combination of intrinsic set, distortion vector (each coefficient alone and together), view set, image order and guess offset",
 "No existing test runs the intrinsic calibration at all.",
 [O+"camera_intrinsic.cpp", OI+"experimental/camera_intrinsic.h"],
 [("distortion model", O+"camera_intrinsic.cpp IntrinsicCostFunction"), ("seeding of target poses by PnP", O+"camera_intrinsic.cpp optimize")],
 ["optimize(IntrinsicEstimationProblem)"])

prop("C05", "Reported costs are the true costs and the result is an optimum",
 "Every calibration reports as initial and final cost per observation exactly half the squared measurement error of its own residuals at the given guess and at the returned result, divided by the number of scalar residuals, where the error of a feature is the difference between the measured and the predicted image or sensor coordinates. The final cost never exceeds the initial cost. Convergence is reported exactly when the solver ended because it converged, and all of this holds wherever its iterations end. For noisy or inconsistent data, whenever convergence is reported the returned result is a stationary point of that cost, with every measurement weighing the same.",
 ["inputs", "configurations"], "every calibration kind x data perturbation pattern (each single measurement perturbed in each coordinate, and all together) x guess",
 "Tests check costs only as small or zero after convergence on perfect data, so a mis-scaled cost, a dropped or double-counted measurement or a biased weighting is invisible to them.",
 [O+"extrinsic_hand_eye.cpp", O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp", O+"pnp.cpp", O+"multi_camera_pnp.cpp", O+"camera_intrinsic.cpp", O+"circle_fit.cpp", O+"dh_chain_kinematic_calibration.cpp"],
 [("per-observation cost reporting", "every optimize(): initial_cost_per_obs / final_cost_per_obs"), ("residual blocks", "every optimize(): AddResidualBlock loops")],
 ["initial_cost_per_obs, final_cost_per_obs and poses of every result type"])

prop("C06", "Covariance, correlation and labels describe the solved parameters correctly",
 "For any solved least-squares problem, any subset and order of its parameter blocks and any set of parameters excluded as constant, the covariance report lists exactly the estimated parameters in the requested block order with their own labels: the standard deviations are the square roots of the diagonal of the inverse normal matrix, every off-diagonal covariance and correlation entry belongs to the pair of labels it is listed under, and the correlation matrix is the covariance normalised by these deviations. The same holds for the reports attached to calibration results, and filtering by a correlation threshold returns exactly the entries whose magnitude exceeds it. A request that cannot be honoured (unknown block, wrong label count, rank-deficient problem with as many residuals as parameters) is refused with an exception rather than answered wrongly.",
 ["inputs", "configurations"], "every problem structure up to 3 blocks of up to 3 parameters, every block order, every constant-parameter mask, rank deficiency, label map error and threshold",
 "The tests fix two or three hand-made problems and one mask each; permuted blocks, masks on several blocks, unequal block sizes and zero-variance parameters are not reached.",
 [O+"covariance_analysis.cpp", OI+"covariance_analysis.h", OI+"covariance_types.h"],
 [("correlation normalisation", O+"covariance_analysis.cpp computeCorrelationsFromCovariance"), ("block / mask / label bookkeeping", O+"covariance_analysis.cpp computeCovariance"), ("threshold filter", OI+"covariance_types.h CovarianceResult::getCorrelationCoeffOutsideThreshold")],
 ["computeCovariance overloads, computeCorrelationsFromCovariance, CovarianceResult members"])

prop("C07", "Pose conversion, point transformation and pinhole projection are consistent",
 "Converting any rigid transform to the internal six-vector and back gives the same transform, including identity, tiny and half-turn rotations, and applying the six-vector to a point equals applying the transform. Projection follows the pinhole model u = fx*x/z + cx, v = fy*y/z + cy for every point with non-zero depth, in front of or behind the camera, identically in all projection and reprojection entry points and with derivatives that match, and a point at zero depth yields a finite value.",
 ["inputs"], "every pose of an axis x angle x translation alphabet (angles 0 .. pi with tiny and near-pi values) x every point and intrinsic set of the alphabets, plain and dual-number arithmetic",
 "The tests check a single random pose and a few projections in front of the camera.",
 [O+"eigen_conversions.cpp", OI+"ceres_math_utilities.h", MI+"image_utils.h"],
 [("pose conversion", O+"eigen_conversions.cpp"), ("two projection overloads", OI+"ceres_math_utilities.h projectPoint"), ("reprojection", MI+"image_utils.h getReprojections")],
 ["poseEigenToCal, poseCalToEigen, transformPoint, poseTransformPoint, projectPoint, getReprojections"])

prop("C08", "DH-chain kinematics equal the product of the link transforms",
 "For every chain of revolute and prismatic joints, forward kinematics of all or of the first k joints equals the base offset times the ordered product of the classic DH link transforms with the joint value added to theta (revolute) or d (prismatic), and any calibration offsets added to the matching parameters of the matching joint, in all value types. The per-joint accessors (table, joint types, limits, labels, relative transforms, random joint values within limits) list the joints in chain order with consistent contents, a chain built from another chain and a table of offsets keeps all other joint attributes, and a joint vector, joint index or offset table of an inadmissible size is refused with an exception.",
 ["inputs", "configurations"], "every chain of up to 3 joints over a DH-parameter alphabet, every joint-type assignment, every prefix length, every joint-vector alphabet, offset table and inadmissible size",
 "The tests check one fixed two- or six-joint chain at a few poses and no offset constructor or size errors beyond one case.",
 [O+"dh_chain.cpp", OI+"dh_chain.h"],
 [("link transform", OI+"dh_chain.h DHTransform::createRelativeTransform"), ("chain product with offsets", OI+"dh_chain.h DHChain::getFK"), ("offset constructor", O+"dh_chain.cpp DHChain::DHChain")],
 ["DHTransform and DHChain public members"])

prop("C09", "Equality of calibration data distinguishes every field",
 "Two measurement, correspondence, observation or camera-model values compare equal if and only if all of their fields agree: changing any single coordinate, joint value, transform, correspondence (value, order or count) or intrinsic parameter makes them unequal in both directions. Equality is reflexive and symmetric.",
 ["inputs"], "every value of each data type's alphabet x every single-field change x both argument orders",
 "Tests compare a handful of deserialised values for equality and never assert inequality, so an operator that ignores a field passes.",
 [OI+"types.h"], [("equality operators", OI+"types.h operator==")], ["operator== of the public data types"])

prop("C10", "Saved calibration data loads back unchanged and bad data is refused",
 "Encoding any intrinsics, transform, correspondence, observation, calibration problem or calibration result to YAML text and decoding it gives back the same value in every field, for every supported dimension and every container size. A document with a missing, extra, misspelled or ill-typed field, or with a wrong number of coefficients, is refused with an error and never decoded silently into a value.",
 ["inputs", "fault_sequences"], "every value of the data alphabets x every single-field deletion, addition, renaming or corruption of its document",
 "The tests round-trip one random instance of three types; results, chains and malformed documents are not covered.",
 [OI+"serialization/eigen.h", OI+"serialization/types.h", OI+"serialization/problems.h"],
 [("YAML converters", OI+"serialization/*.h convert<>::encode/decode")], ["YAML::Node construction, YAML::Dump/Load and Node::as<>"])

prop("C11", "Homography check returns the true planar fit error for every sampling",
 "For every planar point set seen through any projective or 3D rigid camera (target origin at non-zero depth) and every sample that determines a homography, the homography check returns one non-negative error per correspondence, in input order, that is zero for consistent data and, when single measurements are displaced, equals the distance between the measured point and the point predicted by the homography fitted in the least-squares sense to the sampled correspondences. The grid sampler picks the four corners of the (strided) grid of the declared size and the random sampler picks the requested number of distinct correspondences, reproducibly for a seed and without favouring any. Mismatched or insufficient data is refused with an exception.",
 ["inputs", "configurations"], "every grid shape and stride, every displaced point and displacement, every camera pose of the alphabet, every sampler size/seed of the alphabet and every inadmissible size",
 "The tests check one grid with perfect data and one random-noise run.",
 [O+"validation/homography_validation.cpp", OI+"validation/homography_validation.h"],
 [("samplers", O+"validation/homography_validation.cpp CorrespondenceSampler"), ("plane fit and error", O+"validation/homography_validation.cpp calculateHomographyError")],
 ["calculateHomographyError (2D and 3D), sampler getSampleCorrespondenceIndices"])

prop("C12", "Noise qualification reports the true mean and spread of repeated poses",
 "For every list of repeated observations of a static target, noise qualification reports the mean and (population) standard deviation of the estimated camera-to-target positions per axis and the mean orientation with its angular spread (root of the summed squared angular distances over n-1), as computed from the individually estimated poses, regardless of the order of the observations and of which of the two equivalent sign representations each rotation has. The quaternion mean of equal rotations is that rotation and is a unit quaternion; the reported spread is zero for repeated equal poses and not otherwise.",
 ["inputs", "histories"], "every multiset and order of up to 4 poses from the pose alphabet, every quaternion sign pattern, 2D and 3D",
 "The tests use random noise around one pose and loose thresholds.",
 [O+"validation/noise_qualification.cpp", OI+"validation/noise_qualification.h"],
 [("quaternion mean and statistics", O+"validation/noise_qualification.cpp computeQuaternionMean / computeQuaternionStats"), ("position statistics", O+"validation/noise_qualification.cpp qualifyNoise2D / qualifyNoise3D")],
 ["qualifyNoise2D, qualifyNoise3D, computeQuaternionMean, computeQuaternionStats"])

prop("C13", "Intrinsic validation measures the target displacement it is documented to",
 "For every set of observations and every pose of the two halves of the calibration target, intrinsic validation reports the mean and standard deviation, over the observations, of the translation and rotation between the separately estimated target halves; with consistent data both are zero, and a known displacement of one half is reported as exactly that displacement. Empty or single observations do not corrupt memory, and failed pose estimation, a data set of unequal sizes or an excessive residual is reported as an error instead of a statistic.",
 ["inputs", "configurations"], "every pose alphabet x displacement alphabet x observation count 0..3 x camera mount configuration x residual threshold",
 "The tests check two fixed configurations with perfect data and one perturbed camera matrix.",
 [O+"validation/camera_intrinsic_calibration_validation.cpp", OI+"validation/camera_intrinsic_calibration_validation.h"],
 [("two-PnP measurement", O+"validation/camera_intrinsic_calibration_validation.cpp measureVirtualTargetDiff"), ("statistics", O+"validation/camera_intrinsic_calibration_validation.cpp measureIntrinsicCalibrationAccuracy")],
 ["measureVirtualTargetDiff, measureIntrinsicCalibrationAccuracy"])

prop("C14", "Back-projection returns the true 3D points and errors",
 "For every camera pose and plane that are not parallel, intersecting viewing rays with the plane returns the point that lies on both, and back-projecting image points onto a target plane returns the true target points for noise-free images, in input order. The 3D projection error of an observation is the per-feature distance on the target plane between the back-projected and the nominal feature, for every mount configuration, and over a set of observations the errors are concatenated in order. A ray parallel to the plane is refused with an exception.",
 ["inputs", "configurations"], "every camera pose x plane x ray x intrinsic set x image displacement x mount configuration x observation count of the alphabets",
 "No existing test executes these functions except through one random hand-eye case.",
 [O+"validation/projection.cpp", OI+"validation/projection.h"],
 [("ray-plane intersection", O+"validation/projection.cpp computeLinePlaneIntersection"), ("back-projection", O+"validation/projection.cpp project3D"), ("error", O+"validation/projection.cpp compute3DProjectionError")],
 ["computeLinePlaneIntersection, project3D, compute3DProjectionError"])

prop("C15", "Circle fitting returns the true circle",
 "For every circle (centre, radius over several orders of magnitude), every set of three or more distinct points on it in any order and every guess near it, circle fitting converges to that centre and a positive radius at zero cost; with noisy points it returns a stationary point of its documented residual. Shifting or rotating the points shifts or rotates the result.",
 ["inputs"], "every centre, radius, point-count, angular arrangement, order and guess of the alphabets",
 "No existing test runs the circle fit on anything but a few fixed configurations.",
 [O+"circle_fit.cpp", OI+"circle_fit.h"], [("circle residual", OI+"circle_fit.h CircleDistCost"), ("solver", O+"circle_fit.cpp optimize")], ["optimize(CircleFitProblem)"])

prop("C16", "Kinematic calibration recovers masked-in parameters and leaves the rest alone",
 "For every chain pair, every mask of DH-offset and frame parameters held fixed that leaves the problem identifiable, and both feature-based and pose-based measurements, kinematic calibration on noise-free data converges to the true remaining parameters at zero cost, returns every parameter held fixed exactly as given, and reports results in terms of the chains it was given. The prior residual drives estimates to the given mean with the given spread, and an observation whose joint values, masks or matrix shapes do not fit the chain is refused with an exception.",
 ["inputs", "configurations"], "every mask pattern of the alphabet (each parameter alone, each group, all) x chain pair x perturbation x measurement kind",
 "The kinematic calibration tests are not even built with the installed solver version and use one fixed mask and chain.",
 [O+"dh_chain_kinematic_calibration.cpp", OI+"dh_chain_kinematic_calibration.h", OI+"local_parameterization.h", OI+"maximum_likelihood.h"],
 [("dual-chain costs", OI+"dh_chain_kinematic_calibration.h DualDHChainCost*"), ("constant-parameter masks", OI+"local_parameterization.h addSubsetParameterization"), ("prior residual", OI+"maximum_likelihood.h MaximumLikelihood")],
 ["optimize(KinematicCalibrationProblem*), MaximumLikelihood, createDHMask, addSubsetParameterization"])

prop("C17", "Targets pair every observed feature with its own physical point",
 "Every calibration target describes its features at the true physical coordinates of its documented layout (size, spacing, gap, marker arrangement, origin and axis directions), each feature exactly once. Creating correspondences from any set of observed features pairs each observation with the target point of the same feature and the exact image location, for every subset and any marker numbering, and an observed feature that the target does not have is refused with an exception; a circle grid is paired only as a whole, so an incomplete or surplus set is refused as well. Loading a target from a configuration (text or ROS parameter tree) gives the same target as constructing it directly, and a configuration with a missing, ill-typed or impossible field (non-positive counts, marker not smaller than its square, unknown dictionary) is refused; the optional circle-detector table is taken over exactly, or reported and replaced by the defaults as a whole when it is unreadable.",
 ["inputs", "configurations"], "every grid shape up to the bound x spacing/gap alphabet x every subset of observed features (small grids) x foreign ids x every single-field corruption of the configuration",
 "The tests only use square or fixed layouts through a full detection pipeline and look at counts.",
 [M+"modified_circle_grid_target.cpp", M+"aruco_grid_target.cpp", M+"charuco_grid_target.cpp", MI+"target.h"],
 [("feature layout", M+"modified_circle_grid_target.cpp createPoints; "+M+"aruco_grid_target.cpp; "+M+"charuco_grid_target.cpp"), ("pairing by id", "createCorrespondences of each target"), ("loading", R+"target_loader_plugins.cpp; "+R+"loader_utils.cpp")],
 ["target constructors, public point maps, createCorrespondences, TargetFinderPlugin::init, toYAML"])

prop("C18", "Circle-grid detection labels every dot correctly or refuses",
 "For every modified circle grid shape, every in-plane rotation and view that shows the grid right-reading, and every order in which the dot detection reports the grid, the finder returns each dot exactly once under the feature number that the target assigns to that physical dot (row by row from the top left, with the large dot at its documented corner). If the grid cannot be found completely or its large dot cannot be identified, the finder fails with an exception and never returns a partial or mislabelled set.",
 ["inputs", "fault_sequences", "configurations"], "every grid shape up to the bound x every rotation / perspective of the alphabet x every ordering, partial and false answer of the underlying grid detection",
 "The tests run a few images with one grid shape in nominal orientation; the re-ordering logic has many branches that no image in the suite reaches.",
 [M+"modified_circle_grid_finder.cpp", MI+"modified_circle_grid_finder.h"],
 [("re-ordering by large dot and handedness", M+"modified_circle_grid_finder.cpp extractKeyPoints"), ("completeness checks", M+"modified_circle_grid_finder.cpp findTargetFeatures")],
 ["ModifiedCircleGridTargetFinder::findTargetFeatures"])

prop("C19", "Circle detection finds exactly the qualifying circles",
 "For every rendered arrangement of well separated dark or light discs and every filter setting (colour, area, circularity, inertia, convexity, ellipse tolerance, grouping tolerances, thresholds, repeatability), the circle detector reports each disc that satisfies all enabled filters exactly once, at its true centre (to sub-pixel accuracy) and with its diameter (up to the outline pixels, i.e. about one and a half pixels), and reports nothing else; a colour copy of a grey image gives the same answer. For every image, however small or degenerate, every reported circle is finite and, with the colour filter on, lies in the image. More required repetitions than thresholds are refused, and detecting or drawing never alters the input image.",
 ["inputs", "configurations"], "every disc arrangement (positions, radii, colours) x every single-filter setting and pair of settings around its threshold x image type",
 "The tests use the detector only through complete circle-grid images with default parameters.",
 [M+"circle_detector.cpp", MI+"circle_detector.h"],
 [("threshold sweep", M+"circle_detector.cpp applyThresholds"), ("grouping over thresholds", M+"circle_detector.cpp detectKeyPoints"), ("filters and ellipse fit", M+"circle_detector.cpp findCircles")],
 ["CircleDetector::detect, drawDetectedCircles, CircleDetectorParams"])

prop("C20", "Marker-grid detection reports true ids and corners under any occlusion",
 "For every marker grid or chessboard-marker grid in front of the camera, every subset of markers hidden from view and every in-plane rotation, the finder reports exactly the features that are visible (a marker; a chessboard corner whose adjoining markers are visible), each under its own number, with its corners in the documented order and at its true image location; features of hidden markers are never invented, markers that do not belong to the target are never reported, and an absent target gives an exception or an empty set. The reported features can always be paired with target points, and finding or drawing features leaves the image unmodified.",
 ["inputs", "fault_sequences"], "every occlusion subset of a small grid x rotation alphabet x marker numbering, for both marker-target kinds",
 "The tests use a few fixed images; the ones with occlusion fail in this environment and only counts are checked.",
 [M+"aruco_finder.cpp", M+"charuco_finder.cpp", M+"aruco_grid_target.cpp", M+"charuco_grid_target.cpp"],
 [("marker detection and refinement", M+"aruco_finder.cpp findTargetFeatures"), ("board interpolation", M+"charuco_finder.cpp findTargetFeatures")],
 ["ArucoGridBoardTargetFinder / CharucoGridBoardTargetFinder::findTargetFeatures"])

prop("C21", "Every result depends only on the call's own inputs",
 "The result of every calibration, validation, covariance, kinematics, detection and serialization call is the same whatever calls were made before it, on the same or other objects and with the same or other data, and repeating a call repeats its result. No call modifies its inputs, the target, the finder or the chain it is invoked on in any way a later call can observe, except for the random generators behind the random joint sampler and the random colours of drawn circles.",
 ["histories"], "every sequence of calls up to the depth bound over the alphabet of API operations with colliding objects and data",
 "Unit tests run each call once in a fresh fixture, so state leaking from one call into another is invisible.",
 [O+"*.cpp", O+"validation/*.cpp", M+"*.cpp"],
 [("absence of hidden state: no globals, locals re-initialised per call, const members", "all optimize() functions, finders, targets, detector, chains")],
 ["results of all public entry points over call sequences"])

prop("C22", "Concurrent calls on separate data behave like sequential calls",
 "Any two calibration, validation, kinematics or target operations that run concurrently on separate objects, or on shared objects through read-only operations, return the same results as when run one after the other. The same holds for the cost terms that one calibration evaluates in parallel on the solver's threads, and for concurrent draws of random joint values, which together give the values that some order of the draws gives. No interleaving of such calls can corrupt or mix their results.",
 ["schedules"], "every pair of API operations (same kind and different kinds) x every interleaving of their accesses to shared memory up to the preemption bound",
 "All tests are single-threaded.",
 [O+"*.cpp", OI+"dh_chain.h", O+"dh_chain.cpp", M+"*.cpp"],
 [("no shared mutable state between calls", "all public entry points"), ("random generator of the joint sampler", O+"dh_chain.cpp DHTransform::createRandomJointValue")],
 ["results of pairs of concurrent calls"])

prop("C23", "Saved image/pose data sets load back completely and in order",
 "Writing a calibration data set (images with tool poses) to a directory and parsing it gives back the same number of entries with the same image and pose at each index; if any part of it cannot be written, or images and poses do not match in number, saving reports failure. Loading fails explicitly, or skips exactly the entries it reports, when an entry's image or pose file is missing or malformed, and an image is never paired with another entry's pose, even if saving (also over an earlier set) was interrupted at any point. For several cameras, a data set marks as found exactly the observations in which the target was found, its camera-by-camera lists stay aligned with the images, and cameras with different numbers of images are refused. Poses and intrinsics given as parameters or files load with exactly their values (a quaternion of any length standing for its rotation) or are refused.",
 ["inputs", "fault_sequences", "crash_points", "configurations"], "every crash point (file operation x torn part) of saving over every earlier set, every single write fault, every history of saves and losses, every data-set size up to the bound x every subset of files missing or malformed x every per-camera found/not-found pattern",
 "There is no test of the data-set code at all.",
 [R+"data_set.cpp", R+"parameter_loaders.cpp", R+"loader_utils.cpp"],
 [("directory format", R+"data_set.cpp parseFromFile / saveToDirectory"), ("found mask", R+"data_set.cpp ExtrinsicCorrespondenceDataSet"), ("parameter and file loaders", R+"parameter_loaders.cpp")],
 ["saveToDirectory/parseFromFile, correspondence data set accessors, loadPose/loadIntrinsics"])

T = "rct_examples/src/tools/"
prop("C24", "The calibration tools use exactly the usable images and report honestly",
 "For every data set and every pattern of usable, blank, partly visible or unreadable images, the command-line tools (hand-eye for both mounts, multi-static-camera in one or two steps, intrinsic calibration and its validation, noise qualification, single- and multi-camera PnP) compute from exactly the images in which the target was found, each with its own pose and camera, and announce every image that is left out. What they print (transforms in all their forms, intrinsics, errors, statistics, the result file) is what the library computes from those images, and reprojections are drawn on the image they belong to. A tool that lacks a parameter, a data set, a camera or enough usable images, or whose calibration fails, ends by itself with an error message and never prints a result; for a valid data set it succeeds.",
 ["inputs", "fault_sequences", "configurations"], "every pattern of usable/blank/partial/unreadable images up to the bound x every tool x target type x every missing parameter or file",
 "There is no test of any tool; the bookkeeping between images, poses and observations when some images are skipped lives in their main functions only.",
 [T+"camera_on_wrist_extrinsic.cpp", T+"static_camera_extrinsic.cpp", T+"multi_static_camera_extrinsic.cpp", T+"multi_static_camera_multi_step_extrinsic.cpp", T+"intrinsic_calibration.cpp", T+"camera_intrinsic_calibration_validation.cpp", T+"noise_qualification_2d.cpp", T+"solve_pnp.cpp", T+"solve_multi_camera_pnp.cpp", T+"hand_eye_calibration_analysis.h", "rct_common/include/rct_common/print_utils.h"],
 [("selection of usable images", T+"*.cpp main loops over the images"), ("printing of results", "rct_common/include/rct_common/print_utils.h"), ("reprojection display", T+"hand_eye_calibration_analysis.h")],
 ["exit status, standard output, log messages, shown images and result files of each tool"])

prop("C25", "Data collection pairs each pose with the current image and loses nothing",
 "For every history of incoming images (any supported encoding, padded, unreadable, truncated, empty, with or without a recognisable target), robot motions and losses of the robot pose, collect and save requests and disk faults, the data collection node stores on each collect request exactly the latest readable image, unmodified, with the pose of the tool in the base frame at that moment, or reports that nothing was collected and stores nothing. A save request writes all pairs collected so far in order (also repeatedly) and tells the caller when it failed. Every readable image is shown once, with the detected features drawn or as it is if there are none; nothing received, found or failing ends the node or loses collected pairs. Without its parameters, its target finder or the robot pose the node does not start.",
 ["histories", "fault_sequences"], "every history of the events up to the depth bound x every missing or ill-typed parameter at the start",
 "There is no test of the node; its state (last frame, collected pairs) is only reachable through sequences of callbacks.",
 [R+"command_line_cal.cpp", R+"data_set.cpp"],
 [("last frame and its conversions", R+"command_line_cal.cpp ImageMonitor"), ("pose lookup", R+"command_line_cal.cpp TransformMonitor"), ("collect and save services", R+"command_line_cal.cpp DataCollection")],
 ["service results, published images, saved data sets, exit status of the node"])

G = "rct_image_tools/script/calibration_target.py"
prop("C26", "Generated calibration targets have the stated geometry and are found as such",
 "For every grid size, spacing (also different ones along the two axes), dot size, inversion, footer and output option, the target generator (command line and functions) draws at true size exactly one dot of the given diameter, with a centre mark, at every grid point of the given pitch, the lower-left one and no other enlarged to twice the size, or, for checkers, exactly the alternate squares; foreground and background are the stated colours, and everything lies within the margins of the page. Footer and description state these numbers. The origin and points of the matching circle-grid target coincide with the large dot and the drawn dots, such that the finder labels an image of the drawing correctly. A file depends only on the target and its own options, not on files written or targets created before; invalid arguments and unknown file types are refused without writing anything.",
 ["inputs", "configurations", "histories"], "every grid size up to the bound x spacing x dot size x inversion x options, every history of operations up to the depth, every shape x rotation for the detection",
 "The generator has no test; its drawing, its page size and its agreement with the finder hold or fail for all sizes.",
 [G, M+"modified_circle_grid_target.cpp", M+"modified_circle_grid_finder.cpp"],
 [("drawing and page size", G+" dotTarget / checkerTarget"), ("arguments", G+" parse_args"), ("files", G+" calTarget.save")],
 ["written files (drawn shapes), exit status, result of the finder"])

prop("C27", "The kinematic calibration program uses every measurement and reports honestly",
 "For every set and order of measurements that determines the calibration, every starting guess near the solution and every scaling and sign of the given quaternions, the kinematic calibration program reads every measurement with its own joint values and pose and prints the calibration of exactly these measurements twice: with the first axis of the positioner free to deviate from its nominal parameters, and with nominal axes. Costs, transforms in both forms, offsets, correlations above the threshold, and the mean and deviation of the remaining position and orientation differences are those of the two calibrations, and the improvement compares the second with the first. A missing, empty, malformed or incomplete measurement file, a measurement with the wrong number of joint values, or a missing parameter is refused: the program ends with an error (reported or not caught) and a failure status, and no result is printed.",
 ["inputs", "configurations", "fault_sequences"], "every subset of a pool of measurements, every order of one, every guess x noise x layout x quaternion scale, every field of every measurement left out or malformed, every missing parameter",
 "There is no test of the program, and it is not part of the default build; the assembly of the problem from the file and what is printed lives in its main function only.",
 ["rct_examples/src/examples/kinematic_calibration.cpp", "rct_optimizations/include/rct_optimizations/covariance_types.h", O+"dh_chain_kinematic_calibration.cpp", R+"parameter_loaders.cpp"],
 [("measurement file", "rct_examples/src/examples/kinematic_calibration.cpp loadMeasurements"), ("problem and masks", "rct_examples/src/examples/kinematic_calibration.cpp main"), ("validation statistics", "rct_examples/src/examples/kinematic_calibration.cpp compareToMeasurements")],
 ["exit status, standard output and log messages of the program"])

json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(json_path, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
