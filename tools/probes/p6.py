O="rct_optimizations/src/rct_optimizations/"
I="rct_optimizations/include/rct_optimizations/"
NQ=O+"validation/noise_qualification.cpp"
HV=O+"validation/homography_validation.cpp"
PJ=O+"validation/projection.cpp"
CV=O+"validation/camera_intrinsic_calibration_validation.cpp"
ST=I+"serialization/types.h"
SE=I+"serialization/eigen.h"
SP=I+"serialization/problems.h"
DC=O+"dh_chain.cpp"
MP=O+"multi_camera_pnp.cpp"
HE=O+"extrinsic_hand_eye.cpp"
LP=I+"local_parameterization.h"
AF="rct_image_tools/src/rct_image_tools/aruco_finder.cpp"
CG="rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp"
MG="rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp"
P=[
("c12-tiny-spread","C12",[(NQ,'q_var += std::pow(q_stats.mean.angularDistance(q), 2.0);','const double a = q_stats.mean.angularDistance(q);\n    q_var += a < 1e-4 ? 0.0 : a * a;')]),
("c12-cost-limit","C12",[(NQ,'if (result.converged)\n    {\n      // we will save the full result here for debugging purposes\n      solution_transforms.push_back(result.camera_to_target);\n      translations.push_back(solution_transforms.back().translation());\n\n      x_acc(result.camera_to_target.translation()(0));\n      y_acc(result.camera_to_target.translation()(1));\n      z_acc(result.camera_to_target.translation()(2));\n\n      orientations.push_back(Eigen::Quaterniond(result.camera_to_target.rotation()));\n    }\n  }\n\n  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);\n  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));\n  output.q_stat = computeQuaternionStats(orientations);\n\n  return output;\n}\n\nPnPNoiseStat qualifyNoise3D','if (result.converged && result.final_cost_per_obs < 4.0)\n    {\n      // we will save the full result here for debugging purposes\n      solution_transforms.push_back(result.camera_to_target);\n      translations.push_back(solution_transforms.back().translation());\n\n      x_acc(result.camera_to_target.translation()(0));\n      y_acc(result.camera_to_target.translation()(1));\n      z_acc(result.camera_to_target.translation()(2));\n\n      orientations.push_back(Eigen::Quaterniond(result.camera_to_target.rotation()));\n    }\n  }\n\n  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);\n  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));\n  output.q_stat = computeQuaternionStats(orientations);\n\n  return output;\n}\n\nPnPNoiseStat qualifyNoise3D')]),
("c11-target-z","C11",[(HV,'    xy(2) = 1.0;','    xy(2) = 1.0 - corr.in_target.z();')]),
("c11-stride-lower","C11",[(HV,'(rows * cols * stride) - stride;','(rows * cols * stride) - 1;')]),
("c11-min-grid","C11",[(HV,'if ((rows * cols / 2) < n_samples)','if ((rows * cols) / 2 <= n_samples)')]),
("c11-count","C11",[(HV,'if (correspondences.size() < 2 * n_samples)','if (correspondences.size() <= 2 * n_samples)')]),
("c14-ray-scale","C14",[(PJ,'if (std::abs(dp) < epsilon)','if (std::abs(dp) < epsilon * (1.0 + line_pt.norm()))')]),
("c14-plane-offset","C14",[(PJ,'(target_features - projected_image_features_in_target).rowwise().norm().array()','(target_features - projected_image_features_in_target).leftCols(2).rowwise().norm().array()')]),
("c13-guess-chain","C13",[(CV,'Eigen::Isometry3d camera_to_target_1 = solve_pnp(set_1);\n  Eigen::Isometry3d camera_to_target_2 = solve_pnp(set_2);','Eigen::Isometry3d camera_to_target_1 = solve_pnp(set_1);\n  Eigen::Isometry3d camera_to_target_2 = set_2.size() > set_1.size() ? solve_pnp(Correspondence2D3D::Set(set_2.begin(), set_2.end() - 1)) : solve_pnp(set_2);')]),
("c13-compare-first","C13",[(CV,'const Observation2D3D& obs_1 = observations[i];','const Observation2D3D& obs_1 = observations[i % 2];')]),
("c10-abs-focal","C10",[(ST,'rhs.fx() = node["fx"].as<double>();','rhs.fx() = std::abs(node["fx"].as<double>());')]),
("c10-joint-name","C10",[(ST,'n["joint_name"].as<std::string>()','n["joint_name"].as<std::string>("joint")')]),
("c10-quat-gimbal","C10",[(SP,'Eigen::AngleAxisd(euler_zyx(1), Eigen::Vector3d::UnitY())','Eigen::AngleAxisd(std::min(std::max(euler_zyx(1), -M_PI / 2), M_PI / 2), Eigen::Vector3d::UnitY())')]),
("c10-dup-obs","C10",[(ST,'obs.to_camera_mount = node["to_camera_mount"].as<decltype(obs.to_camera_mount)>();','obs.to_camera_mount = node["to_camera_mount"].as<decltype(obs.to_camera_mount)>();\n    if (obs.correspondence_set.size() == 1)\n      obs.correspondence_set.shrink_to_fit(), obs.correspondence_set[0].in_image *= 1.0 + 1e-9;')]),
("c08-empty-table","C08",[(DC,'transform.params += dh_offsets.row(i).transpose();','transform.params += dh_offsets.row(i).transpose();\n    if (transform.type == DHJointType::LINEAR)\n      transform.params(1) = std::remainder(transform.params(1), 2.0 * M_PI);')]),
("c08-neg-index","C08",[(DC,'if (joint_index < 0 || joint_index','if (joint_index < -1 || joint_index')]),
("c03-camera-limit","C03 C22",[(MP,'      const auto& base_to_camera = params.base_to_camera[c];','      const auto& base_to_camera = params.base_to_camera[params.image_observations[c].size() == 1 ? 0 : c];')]),
("c01-late-wrist","C01",[(HE,'  return camera_point[2] > 0.0;','  return camera_point[2] > 0.0 || std::abs(camera_point[0]) > 10.0 * std::abs(camera_point[2]);')]),
("c16-lp-dup","C16 C06",[(LP,'        if (mask.size() >= block_size)','        if (it->second_size_marker)' )]),
("c16-lp-unsorted","C16",[(LP,'        mask.erase(last, mask.end());','        (void)last;')]),
("c16-lp-partial","C16",[(LP,'if (static_cast<std::size_t>(*it) >= block_size)','if (static_cast<std::size_t>(*it) > block_size)')]),
("c03-qplus","C03 C05",[(LP,'if (norm_delta > T(0.0))','if (norm_delta > T(1e-3))')]),
("c20-first-dup","C20 C17",[(AF,'    map_ids_to_obs_corners.emplace(marker_ids[i], obs_pts);','    map_ids_to_obs_corners[marker_ids[i]] = obs_pts;')]),
("c17-charuco-equal","C17",[(CG,'equal &= other.points == points;','equal &= other.points.size() == points.size();')]),
("c17-charuco-at1","C17 C20",[(CG,'target_features.at(it->first).at(0);','it->second.back();')]),
("c17-circle-equal","C17 C09",[(MG,'equal &= (cols == other.cols);','equal &= (rows * cols == other.rows * other.cols);')]),
]
P=[p for p in P if p[0]!="c16-lp-dup"]
