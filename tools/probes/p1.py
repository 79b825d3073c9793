# (id, properties to try, [(file, old, new)])
O="rct_optimizations/src/rct_optimizations/"; OI="rct_optimizations/include/rct_optimizations/"; V=O+"validation/"
M="rct_image_tools/src/rct_image_tools/"; MI="rct_image_tools/include/rct_image_tools/"; R="rct_ros_tools/src/"; X="rct_examples/src/tools/"
KC=O+"dh_chain_kinematic_calibration.cpp"; KH=OI+"dh_chain_kinematic_calibration.h"
P=[
("c06-binary-search","C06",[(O+"covariance_analysis.cpp","if (std::find(masks.begin(), masks.end(), i) == masks.end())","if (!std::binary_search(masks.begin(), masks.end(), static_cast<int>(i)))")]),
("c06-negative-corr","C06",[(OI+"covariance_types.h","if (std::abs(corr.value) > threshold)","if (corr.value > threshold)")]),
("c06-label-map-order","C06",[(O+"covariance_analysis.cpp","  for (const double* b : parameter_blocks)\n  {\n    if (!problem.HasParameterBlock(b))","  std::vector<const double*> sorted_blocks(parameter_blocks.begin(), parameter_blocks.end());\n  std::sort(sorted_blocks.begin(), sorted_blocks.end());\n  for (const double* b : sorted_blocks)\n  {\n    if (!problem.HasParameterBlock(b))")]),
("c07-near-pi","C07",[(O+"eigen_conversions.cpp","  Eigen::Vector3d a = aa.axis() * aa.angle();","  Eigen::Vector3d a = aa.axis() * (aa.angle() > 3.1415 ? 0.0 : aa.angle());")]),
("c07-negative-z","C07",[(OI+"ceres_math_utilities.h","  if (abs(point.z()) > T(1.e-10))","  if (point.z() > T(1.e-10))")]),
("c07-quaternion-detour","C07",[(O+"eigen_conversions.cpp","  Eigen::AngleAxisd aa(pose.linear());\n","  Eigen::Quaternionf q(pose.linear().cast<float>());\n  Eigen::AngleAxisd aa(q.cast<double>().normalized());\n")]),
("c08-limits-lost","C08",[(O+"dh_chain.cpp","    DHTransform transform = other.transforms_.at(i);\n    transform.params += dh_offsets.row(i).transpose();","    const DHTransform& t = other.transforms_.at(i);\n    DHTransform transform(t.params + dh_offsets.row(i).transpose(), t.type, t.name, t.random_seed);")]),
("c08-alpha-zero-joint","C08",[(OI+"dh_chain.h","    transform.rotate(Eigen::AngleAxis<T>(updated_params(3), Vector3<T>::UnitX()));","    if (params(3) != 0.0)\n      transform.rotate(Eigen::AngleAxis<T>(updated_params(3), Vector3<T>::UnitX()));")]),
("c08-swapped-limits","C08",[(O+"dh_chain.cpp","dist(min, max);","dist(std::max(min, -2 * M_PI), std::min(max, 2 * M_PI));")]),
("c09-obs-size","C09",[(OI+"types.h","           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;","           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set.size() == rhs.correspondence_set.size() &&\n           std::is_permutation(correspondence_set.begin(), correspondence_set.end(), rhs.correspondence_set.begin());")]),
("c10-float-precision","C10",[(OI+"serialization/eigen.h","    Eigen::Quaternion<FloatT> quat(val.linear());\n","    Eigen::Quaternion<FloatT> quat(Eigen::AngleAxis<FloatT>(val.linear()));\n    if (quat.w() < FloatT(1e-8))\n      quat.w() = FloatT(0);\n")]),
("c11-random-first","C11",[(V+"homography_validation.cpp","std::shuffle(output.begin(), output.end(), rand_gen);","std::shuffle(output.begin() + 1, output.end(), rand_gen);")]),
("c11-ldlt","C11",[(V+"homography_validation.cpp","A.colPivHouseholderQr().solve(b)","(A.transpose() * A).ldlt().solve(A.transpose() * b)")]),
("c11-negative-depth","C11",[(V+"homography_validation.cpp","error.cwiseProduct(z_values.cwiseAbs())","error.cwiseProduct(z_values)")]),
("c11-behind-scale","C11",[(V+"homography_validation.cpp","    // Estimate the point in the image plane\n","    if (ki < 0)\n      ki = -ki;\n")]),
("c12-skip-duplicates","C12",[(V+"noise_qualification.cpp",'''    rct_optimizations::PnPResult result;

    result = rct_optimizations::optimize(prob);

    if (result.converged)
    {
      // we will save the full result here for debugging purposes
      solution_transforms.push_back(result.camera_to_target);
      translations.push_back(solution_transforms.back().translation());

      x_acc(result.camera_to_target.translation()(0));
      y_acc(result.camera_to_target.translation()(1));
      z_acc(result.camera_to_target.translation()(2));

      orientations.push_back(Eigen::Quaterniond(result.camera_to_target.rotation()));
    }
  }

  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);
  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));
  output.q_stat = computeQuaternionStats(orientations);

  return output;
}

PnPNoiseStat qualifyNoise3D''','''    rct_optimizations::PnPResult result;

    result = rct_optimizations::optimize(prob);

    if (result.converged)
    {
      // we will save the full result here for debugging purposes
      if (!solution_transforms.empty() && solution_transforms.back().isApprox(result.camera_to_target, 1e-9))
        continue;
      solution_transforms.push_back(result.camera_to_target);
      translations.push_back(solution_transforms.back().translation());

      x_acc(result.camera_to_target.translation()(0));
      y_acc(result.camera_to_target.translation()(1));
      z_acc(result.camera_to_target.translation()(2));

      orientations.push_back(Eigen::Quaterniond(result.camera_to_target.rotation()));
    }
  }

  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);
  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));
  output.q_stat = computeQuaternionStats(orientations);

  return output;
}

PnPNoiseStat qualifyNoise3D''')]),
("c12-warm-start","C12",[(V+"noise_qualification.cpp","  for (auto& prob : params)\n  {\n    rct_optimizations::PnPResult result;\n\n    result = rct_optimizations::optimize(prob);\n\n    if (result.converged)\n    {\n      // we will save the full result here for debugging purposes\n      solution_transforms.push_back(result.camera_to_target);\n      translations.push_back(solution_transforms.back().translation());\n\n      x_acc(result.camera_to_target.translation()(0));\n      y_acc(result.camera_to_target.translation()(1));\n      z_acc(result.camera_to_target.translation()(2));\n\n      orientations.push_back(Eigen::Quaterniond(result.camera_to_target.rotation()));\n    }\n  }\n\n  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);\n  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));\n  output.q_stat = computeQuaternionStats(orientations);\n\n  return output;\n}\n\n}","  for (const auto& p : params)\n  {\n    rct_optimizations::PnPResult result;\n\n    PnPProblem3D prob = p;\n    if (!params.empty())\n      prob.correspondences.resize(std::min(prob.correspondences.size(), params.front().correspondences.size()));\n    result = rct_optimizations::optimize(prob);\n\n    if (result.converged)\n    {\n      // we will save the full result here for debugging purposes\n      solution_transforms.push_back(result.camera_to_target);\n      translations.push_back(solution_transforms.back().translation());\n\n      x_acc(result.camera_to_target.translation()(0));\n      y_acc(result.camera_to_target.translation()(1));\n      z_acc(result.camera_to_target.translation()(2));\n\n      orientations.push_back(Eigen::Quaterniond(result.camera_to_target.rotation()));\n    }\n  }\n\n  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);\n  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));\n  output.q_stat = computeQuaternionStats(orientations);\n\n  return output;\n}\n\n}")]),
("c13-odd-middle","C13",[(V+"camera_intrinsic_calibration_validation.cpp","Correspondence2D3D::Set set_2(correspondences.begin() + half_size, correspondences.end());","Correspondence2D3D::Set set_2(correspondences.end() - half_size, correspondences.end());")]),
("c13-diff-inverse","C13",[(V+"camera_intrinsic_calibration_validation.cpp","  res.t1_to_t2 = camera_to_target_1.inverse() * camera_to_target_2;","  res.t1_to_t2 = camera_to_target_2 * camera_to_target_1.inverse();")]),
("c13-pos-frame","C13",[(V+"camera_intrinsic_calibration_validation.cpp","(camera_to_target_1.inverse() * camera_to_target_2).translation().norm()","(camera_to_target_1.translation() - camera_to_target_2.translation()).norm()")]),
("c13-pos-frame2","C13",[(V+"camera_intrinsic_calibration_validation.cpp","(camera_to_target_1.inverse() * camera_to_target_2).translation().norm()","(camera_to_target_2 * camera_to_target_1.inverse()).translation().norm()")]),
("c13-base","C13",[(V+"camera_intrinsic_calibration_validation.cpp","camera_base_to_target_base * obs.to_target_mount * target_mount_to_target","obs.to_target_mount * camera_base_to_target_base * target_mount_to_target")]),
("c14-behind","C14",[(V+"projection.cpp","  // Compute a new point at distance d along line from line_pt\n","  if (d < 0)\n    throw std::runtime_error(\"Plane is behind the line\");\n")]),
("c14-planar-error","C14",[(V+"projection.cpp","(target_features - projected_image_features_in_target).rowwise().norm()","(target_features - projected_image_features_in_target).leftCols<2>().rowwise().norm()")]),
("c14-empty-obs","C14",[(V+"projection.cpp","    // Append the projection error\n","    if (n < 4)\n      continue;\n")]),
("c15-negative-sqrt","C15",[(O+"circle_fit.cpp","  result.radius = pow(circle_params[2], 2);","  result.radius = std::max(pow(circle_params[2], 2), 1e-3);")]),
("c15-large-tol","C15",[(O+"circle_fit.cpp","  options.max_num_iterations = 500;","  options.max_num_iterations = 500;\n  options.function_tolerance = 1e-4;")]),
("c16-prior-first","C16",[(KC,"#2:  if (params.target_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[1]))","  if (params.target_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[0]))")]),
("c16-prior-first-2d","C16",[(KC,"#1:  if (params.target_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[1]))","  if (params.target_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[0]))")]),
("c16-stdev-2d","C16",[(KC,"#1:params.target_chain_offset_stdev","params.camera_chain_offset_stdev")]),
("c16-stdev-6d","C16",[(KC,"#2:params.target_chain_offset_stdev","params.camera_chain_offset_stdev")]),
("c16-small-rot","C16",[(KC,"  if (aa_norm > std::numeric_limits<double>::epsilon())","  if (aa_norm > 1.0e-3)")]),
("c16-label-order","C16",[(KH,"#2:    for (std::size_t c = 0; c < 4; ++c)\n    {\n      for (auto tc_label : target_chain_labels)\n        tc_labels_concatenated.push_back(tc_label.at(c));\n    }","    for (auto tc_label : target_chain_labels)\n    {\n      for (std::size_t c = 0; c < 4; ++c)\n        tc_labels_concatenated.push_back(tc_label.at(c));\n    }")]),
("c16-weight","C16",[(KH,"    residual[5] *= T(orientation_weight_);","    residual[5] *= T(orientation_weight_ * orientation_weight_);")]),
("c16-mask-slot","C16",[(KH,"      param_masks[parameters[i]] = masks[i];","      param_masks[parameters[i]] = masks[i == 7 ? 5 : i];")]),
]
