# (id, properties to try, [(file, old, new)])
O="rct_optimizations/src/rct_optimizations/"; OI="rct_optimizations/include/rct_optimizations/"; V=O+"validation/"
M="rct_image_tools/src/rct_image_tools/"; MI="rct_image_tools/include/rct_image_tools/"; R="rct_ros_tools/src/"; X="rct_examples/src/tools/"
MO=O+"extrinsic_multi_static_camera_only.cpp"; MW=O+"extrinsic_multi_static_camera_wrist_only.cpp"; MS=O+"extrinsic_multi_static_camera.cpp"
DK=O+"dh_chain_kinematic_calibration.cpp"; DKH=OI+"dh_chain_kinematic_calibration.h"
P=[
("c02-fixed-skip-once","C02",[(MO,"if (params.fix_first_camera && (c == 0))","if (params.fix_first_camera && (c == 0) && params.base_to_camera_guess.size() > 1)")]),
("c02-fixed-roundtrip","C02",[(MO,"    result.base_to_camera[i] = poseCalToEigen(internal_camera_to_base[i]).inverse();","    result.base_to_camera[i] = (i > 0 && params.image_observations[i].front().empty()) ? params.base_to_camera_guess[0] : poseCalToEigen(internal_camera_to_base[i]).inverse();")]),
("c02-late-guess","C02",[(MO,"      internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());","      if (!params.image_observations[c][i].empty())\n        internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());")]),
("c02-wrist-order","C02",[(MW,"result.base_to_camera[i] = base_to_camera_correction * params.base_to_camera_guess[i];","result.base_to_camera[i] = i == 0 || params.base_to_camera_guess.size() < 3 ? base_to_camera_correction * params.base_to_camera_guess[i] : params.base_to_camera_guess[i] * base_to_camera_correction;")]),
("c02-iter","C02",[(MS,"  ceres::Solver::Options options;\n","  ceres::Solver::Options options;\n  options.max_num_iterations = 6;\n")]),
("c02-empty-break","C02 C05",[(MS,"        const auto& img_obs = params.image_observations[c][i][j].in_image;","        if (j > 0 && params.image_observations[c][i].size() < 4)\n          break;\n        const auto& img_obs = params.image_observations[c][i][j].in_image;")]),
("c02-intr-wrist","C02",[(MW,"const auto& intr = params.intr[c];","const auto& intr = params.intr[std::min<std::size_t>(c, 1)];")]),
("c02-pose-index","C02",[(MS,"const auto wrist_to_base = params.wrist_poses[c][i];","const auto wrist_to_base = params.wrist_poses[std::min(c, params.wrist_poses.size() - 1)][std::min(i, params.wrist_poses[0].size() - 1)];")]),
("c05-loss-multi","C05",[(MS,"cost_block, NULL, internal_camera_to_base[c]","cost_block, i > 2 ? new ceres::HuberLoss(3.0) : NULL, internal_camera_to_base[c]")]),
("c05-circle-weight","C05 C15",[(OI+"circle_fit.h","#1:residual[0] = r * r - x_pos * x_pos - y_pos * y_pos;","residual[0] = (r * r - x_pos * x_pos - y_pos * y_pos) / (r + 1.0);")]),
("c05-cost-fixed","C05",[(O+"pnp.cpp","#1:summary.final_cost / summary.num_residuals","(summary.final_cost + summary.fixed_cost) / summary.num_residuals_reduced")]),
("c05-converged","C05 C01",[(O+"extrinsic_hand_eye.cpp","#2:result.converged = summary.termination_type == ceres::CONVERGENCE;","result.converged = summary.IsSolutionUsable();")]),
("c05-tol","C05 C02",[(MO,"  ceres::Solver::Options options;\n","  ceres::Solver::Options options;\n  options.function_tolerance = 1e-3;\n")]),
("c06-threshold-eq","C06",[(OI+"covariance_types.h","if (std::abs(corr.value) > threshold)","if (std::abs(corr.value) > std::abs(threshold))")]),
("c06-corr-clamp","C06",[(O+"covariance_analysis.cpp","sqrt(fabs(covariance_matrix(i, i)));","std::max(1e-6, sqrt(fabs(covariance_matrix(i, i))));")]),
("c06-mask-dup","C06",[(O+"covariance_analysis.cpp","    n_params_in_selected += block_size;","    n_params_in_selected += masks.size() == static_cast<std::size_t>(block_size) ? 0 : block_size;")]),
("c06-labels-count","C06",[(O+"covariance_analysis.cpp","if (static_cast<std::size_t>(block_size) != param_names.at(b).size())","if (static_cast<std::size_t>(block_size) > param_names.at(b).size())")]),
("c06-rank","C06",[(OI+"covariance_analysis.h","    this->algorithm_type = ceres::DENSE_SVD;","    this->null_space_rank = -1;\n    this->algorithm_type = ceres::DENSE_SVD;")]),
("c07-image-utils","C07",[(MI+"image_utils.h","    Eigen::Vector3d in_camera = camera_to_target * point_in_target;","    Eigen::Vector3d in_camera = camera_to_target * point_in_target;\n    if (in_camera.z() < 0.0)\n      in_camera = -in_camera;")]),
("c07-half-turn","C07",[(O+"eigen_conversions.cpp","  Eigen::AngleAxisd aa(pose.linear());\n","  Eigen::AngleAxisd aa(pose.linear());\n  if (aa.angle() > 3.14159)\n    aa.angle() = 3.14159;\n")]),
("c08-relative-prismatic","C08",[(O+"dh_chain.cpp","return transforms_[joint_index].createRelativeTransform(value);","return transforms_[joint_index].createRelativeTransform(transforms_[joint_index].type == DHJointType::LINEAR ? std::max(value, 0.0) : value);")]),
("c08-clamp","C08",[(OI+"dh_chain.h","        updated_params(1) += joint_value;","        updated_params(1) += joint_value;\n        if (updated_params(1) > T(2.0 * M_PI))\n          updated_params(1) -= T(M_PI);")]),
("c08-chain-name","C08",[(O+"dh_chain.cpp","    DHTransform transform = other.transforms_.at(i);\n    transform.params += dh_offsets.row(i).transpose();\n    transforms_.push_back(transform);","    const DHTransform& o = other.transforms_.at(i);\n    DHTransform transform(o.params + dh_offsets.row(i).transpose(), o.type, o.name, o.random_seed);\n    transform.min = o.min;\n    transforms_.push_back(transform);")]),
("c09-set-size","C09",[(OI+"types.h","to_target_mount.isApprox(rhs.to_target_mount) &&\n           correspondence_set == rhs.correspondence_set;","to_target_mount.isApprox(rhs.to_target_mount) &&\n           std::equal(correspondence_set.begin(), correspondence_set.end(), rhs.correspondence_set.begin());")]),
("c09-kin-prec","C09",[(OI+"types.h","#1:camera_chain_joints.isApprox(rhs.camera_chain_joints) &&","camera_chain_joints.isApprox(rhs.camera_chain_joints, 1e-3) &&")]),
("c10-isometry-axis","C10",[(OI+"serialization/eigen.h","    Eigen::Quaternion<FloatT> quat(val.linear());","    Eigen::Quaternion<FloatT> quat(val.linear());\n    if (quat.w() < 0)\n      quat.w() = -quat.w();")]),
("c10-seq-limit","C10",[(OI+"serialization/types.h","    obs.correspondence_set = node[\"correspondences\"].as<decltype(obs.correspondence_set)>();","    obs.correspondence_set = node[\"correspondences\"].IsNull() ? decltype(obs.correspondence_set)() : node[\"correspondences\"].as<decltype(obs.correspondence_set)>();")]),
("c11-behind","C11",[(V+"homography_validation.cpp","    Eigen::Vector3d in_image_estimate = ki * H * xy;","    Eigen::Vector3d in_image_estimate = std::abs(ki) * H * xy;")]),
("c11-random-last","C11",[(V+"homography_validation.cpp","std::iota(output.begin(), output.end(), 0);","std::iota(output.begin(), output.end() - 1, 0);")]),
("c11-threshold","C11",[(V+"homography_validation.cpp","if (correspondences.size() < 2 * n_samples)","if (correspondences.size() < n_samples)")]),
("c14-eps","C14",[(V+"projection.cpp","  double dp = line.dot(plane_normal);","  double dp = line.normalized().dot(plane_normal);")]),
("c14-normal","C14",[(V+"projection.cpp","Eigen::Vector3d plane_normal = source_to_plane.matrix().col(2).head<3>();","Eigen::Vector3d plane_normal = source_to_plane.matrix().row(2).head<3>().transpose();")]),
("c15-start","C15 C05",[(O+"circle_fit.cpp","  double r = params.radius_initial;\n","  double r = std::max(params.radius_initial, 1e-2);\n")]),
("c15-iter","C15",[(O+"circle_fit.cpp","options.max_num_iterations = 500;","options.max_num_iterations = 5;")]),
("c15-bounds","C15",[(O+"circle_fit.cpp","  ceres::Solver::Options options;\n","  problem.SetParameterLowerBound(circle_params.data(), 0, 0.0);\n  ceres::Solver::Options options;\n")]),
("c16-fixed-dh","C16",[(DK,"#1:  if (params.camera_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[0]))","  if (params.camera_chain.dof() > 1 && !problem.IsParameterBlockConstant(parameters[0]))")]),
("c16-target-stdev","C16",[(DK,"target_chain_dh_offsets.rows(), target_chain_dh_offsets.cols(), params.target_chain_offset_stdev));","#X")]),
("c16-max-iter","C16",[(DK,"#1:options.max_num_iterations = 150;","options.max_num_iterations = 4;")]),
("c16-transform-transpose","C16",[(DKH,"rot << T(1.0), -aa.z(), aa.y(), aa.z(), T(1.0), -aa.x(), -aa.y(), aa.x(), T(1.0);","rot << T(1.0), aa.z(), -aa.y(), -aa.z(), T(1.0), aa.x(), aa.y(), -aa.x(), T(1.0);")]),
("c16-mask-max","C16 C06",[(OI+"local_parameterization.h","        if (mask.size() >= block_size)","        if (mask.size() + 1 >= block_size)")]),
("c17-aruco-2marker","C17",[(M+"aruco_grid_target.cpp","    map_ids_to_corners.insert(std::make_pair(board->ids[i], obj_pts));","    map_ids_to_corners.insert(std::make_pair(static_cast<int>(static_cast<unsigned char>(board->ids[i])), obj_pts));")]),
("c17-circle-int","C17",[(M+"modified_circle_grid_target.cpp","    double y = (rows - i) * spacing;","    double y = static_cast<float>((rows - i) * spacing);")]),
("c17-first-missing","C17",[(M+"charuco_grid_target.cpp","    corr.in_target = points.at(it->first);","    const auto point = points.find(it->first);\n    if (point == points.end())\n      continue;\n    corr.in_target = point->second;")]),
("c20-refine-order","C20",[(M+"aruco_finder.cpp","    VectorEigenVector<2> obs_pts(4);\n","    VectorEigenVector<2> obs_pts(4);\n    if (i >= 12)\n      std::rotate(corner_pts.begin(), corner_pts.begin() + 1, corner_pts.end());\n")]),
("c20-round","C20",[(M+"charuco_finder.cpp","    v_obs.push_back(Eigen::Vector2d(corner.x, corner.y));","    v_obs.push_back(Eigen::Vector2d(cvRound(corner.x), cvRound(corner.y)));")]),
("c20-min-corners","C20",[(M+"charuco_finder.cpp","  // Create the map of observed features\n","  if (detected_corners < 4)\n    throw std::runtime_error(\"Too few corners\");\n")]),
("c21-pnp-static","C21",[(O+"pnp.cpp","#1:  ceres::Solver::Options options;\n","  static ceres::Solver::Options options;\n  options.initial_trust_region_radius = options.initial_trust_region_radius > 1e3 ? options.initial_trust_region_radius / 10 : 1e4;\n")]),
("c21-circle-params","C21",[(M+"modified_circle_grid_finder.cpp","#include <","static int vf_calls = 0;\n#include <")]),
]
P=[p for p in P if p[0] not in ("c16-target-stdev","c21-circle-params")]
