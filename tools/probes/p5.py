KP="rct_examples/src/examples/kinematic_calibration.cpp"
PL="rct_ros_tools/src/parameter_loaders.cpp"
TL="rct_ros_tools/src/target_loader_plugins.cpp"
CT="rct_optimizations/include/rct_optimizations/covariance_types.h"
PU="rct_common/include/rct_common/print_utils.h"
ML="rct_optimizations/include/rct_optimizations/maximum_likelihood.h"
DH="rct_optimizations/src/rct_optimizations/dh_chain.cpp"
P=[
("c27-camera-joints","C27",[(KP,'          measurement.camera_chain_joints[i] = joints[i].as<double>();','          measurement.camera_chain_joints[i] = joints[i].as<double>(0.0);')]),
("c27-joint-default","C27",[(KP,'          measurement.target_chain_joints[i] = joints[i].as<double>();','          measurement.target_chain_joints[i] = joints[i].as<double>(0.0);')]),
("c27-z-default","C27",[(KP,'pose["z"].as<double>()','pose["z"].as<double>(0.0)')]),
("c27-mask-row","C27",[(KP,'mask.bottomRows(1) << true, true, true, true;','mask.bottomRows(1) << true, true, true, false;')]),
("c27-mask-first","C27",[(KP,'mask.bottomRows(1) << true','mask.topRows(1) << true')]),
("c27-static-chain","C27",[(KP,'#2:compareToMeasurements(problem.camera_chain, problem.target_chain, result, measurements)','compareToMeasurements(problem.camera_chain, problem.target_chain, result, problem.observations)')]),
("c27-percent","C27",[(KP,'(rot_stdev - other.rot_stdev) / rot_stdev','(rot_stdev - other.rot_stdev) / other.rot_stdev')]),
("c27-max-iter","C27",[(KP,'options.max_num_iterations = 500;','options.max_num_iterations = 5;')]),
("c27-stdev","C27",[(KP,'problem.target_chain_offset_stdev = 0.005;','problem.target_chain_offset_stdev = 0.001;')]),
("c27-cost","C27",[(KP,'std::sqrt(result.initial_cost_per_obs)','std::sqrt(2.0 * result.initial_cost_per_obs)')]),
("c27-threshold","C27",[(KP,'printCorrelationCoeffAboveThreshold(0.5)','printCorrelationCoeffAboveThreshold(0.7)')]),
("c27-variance","C27",[(KP,'stats.pos_stdev = std::sqrt(ba::variance(pos_acc));','stats.pos_stdev = std::sqrt(ba::variance(pos_acc) * measurements.size() / (measurements.size() - 1));')]),
("c06-sort","C06 C27",[(CT,'return std::abs(a.value) > std::abs(b.value);','return a.value > b.value;')]),
("c06-tostring","C06",[(CT,'    for (auto cov : covariances)\n    {\n      out.append(cov.toString() + "\\n");','    for (auto cov : covariances)\n    {\n      if (cov.value != 0.0)\n        out.append(cov.toString() + "\\n");')]),
("c24-rpy","C24",[(PU,'"(" << rpy(1) * 180 / M_PI','"(" << rpy(2) * 180 / M_PI')]),
("c24-quat-linear","C24",[(PU,'  std::cout << getStringQuaternion(q) << std::endl;','  std::cout << getStringQuaternion(q.inverse()) << std::endl;')]),
("c24-diff-order","C24",[(PU,'Eigen::Isometry3d delta = transform1.inverse() * transform2;','Eigen::Isometry3d delta = transform2.inverse() * transform1;')]),
("c24-diff-trans","C24",[(PU,'Eigen::Vector3d trans = transform2.translation() - transform1.translation();','Eigen::Vector3d trans = delta.translation();')]),
("c24-cost-sqrt","C24",[(PU,'"Final cost?: " << std::sqrt(final_cost_per_obs)','"Final cost?: " << std::sqrt(std::min(final_cost_per_obs, initial_cost_per_obs / 2))')]),
("c23-int-param","C23 C24",[(PL,'    value = static_cast<T>(xml[key]);','    value = xml[key].getType() == XmlRpc::XmlRpcValue::TypeInt ? T(0) : static_cast<T>(xml[key]);')]),
("c23-pose-neg-w","C23 C24",[(PL,'Eigen::AngleAxisd(Eigen::Quaterniond(qw, qx, qy, qz));','Eigen::AngleAxisd(2.0 * std::acos(std::abs(qw)), Eigen::Vector3d(qx, qy, qz).normalized());')]),
("c23-intr-keep","C23",[(PL,'    intr = loadIntrinsics(nh, key);','    intr = rct_optimizations::CameraIntrinsics();\n    intr = loadIntrinsics(nh, key);')]),
("c17-detector-area","C23 C24 C18",[(TL,'p.maxArea = getMember<decltype(p.maxArea)>(node, "maxArea");','p.maxArea = std::max(p.minArea + 1, getMember<decltype(p.maxArea)>(node, "maxArea"));')]),
("c23-detector-conv","C23",[(TL,'(node, "maxConvexity");','(node, "maxConvexity") + 0.0f * p.minConvexity;'),(TL,'(node, "minInertiaRatio");','(node, "minCircularity");')]),
("c23-detector-type","C23",[(TL,'p.circleColor = static_cast<unsigned short>(getMember<int>(node, "circleColor"));','p.circleColor = static_cast<unsigned char>(getMember<int>(node, "circleColor") ? 255 : 0);')]),
("c23-charuco-dims","C23 C24",[(TL,'CharucoGridTarget target(rows, cols, chessboard_dim, aruco_marker_dim, dictionary);','CharucoGridTarget target(rows, cols, chessboard_dim, std::min(aruco_marker_dim, 0.5f * chessboard_dim), dictionary);')]),
("c16-ml-cols","C16",[(ML,'if (mean.rows() != stdev.rows() || mean.cols() != stdev.cols())','if (mean.size() != stdev.size())')]),
("c08-random-int","C08",[(DH,'dist(min, max);','dist(std::min(min, max), std::max(min, max));')]),
("c08-random-clip","C08",[(DH,'  return dist(mt_rand);','  const double v = dist(mt_rand);\n  return std::abs(v) < 1e-3 ? 0.0 : v;')]),
("c08-labels-dup","C08 C16",[(DH,'      name + "_theta",','      name + (type == DHJointType::LINEAR ? "_d" : "_theta"),')]),
]
