# (id, properties to try, [(file, old, new)])
O="rct_optimizations/src/rct_optimizations/"; OI="rct_optimizations/include/rct_optimizations/"; V=O+"validation/"
M="rct_image_tools/src/rct_image_tools/"; MI="rct_image_tools/include/rct_image_tools/"; R="rct_ros_tools/src/"; X="rct_examples/src/tools/"
CD=M+"circle_detector.cpp"; GF=M+"modified_circle_grid_finder.cpp"; DS=R+"data_set.cpp"; CL=R+"command_line_cal.cpp"; W=X+"camera_on_wrist_extrinsic.cpp"
P=[
("c01-near","C01",[(O+"extrinsic_hand_eye.cpp","return camera_point[2] > 0.0;","return camera_point[2] > 0.1;")]),
("c01-iterations","C01",[(O+"extrinsic_hand_eye.cpp","options.max_num_iterations = 150;","options.max_num_iterations = 8;")]),
("c04-guess-index","C04",[(O+"camera_intrinsic.cpp","poseEigenToCal(params.extrinsic_guesses[i])","poseEigenToCal(params.extrinsic_guesses[valid_idx.size()])")]),
("c04-label-index","C04 C06",[(O+"camera_intrinsic.cpp","labels.push_back(params.label_extr + std::to_string(i)","labels.push_back(params.label_extr + std::to_string(param_labels.size() - 1)")]),
("c04-k3","C04",[(O+"camera_intrinsic.cpp","          + intr.k3() * r6 * yp              // 6th order term","          + intr.k3() * r6 * xp              // 6th order term")]),
("c04-p1-p2","C04",[(O+"camera_intrinsic.cpp","  result.distortions[2] = internal_intrinsics_data[6];\n  result.distortions[3] = internal_intrinsics_data[7];","  result.distortions[2] = internal_intrinsics_data[7];\n  result.distortions[3] = internal_intrinsics_data[6];")]),
("c04-min-points","C04",[(O+"camera_intrinsic.cpp","    try\n    {\n      const Pose6d guess","    try\n    {\n      if (params.image_observations[i].size() < 12)\n        throw std::runtime_error(\"too few points\");\n      const Pose6d guess")]),
("c03-iterations","C03",[(O+"pnp.cpp","#1:  ceres::Solver::Options options;\n","  ceres::Solver::Options options;\n  options.max_num_iterations = 10;\n")]),
("c03-3d-labels","C03 C06",[(O+"pnp.cpp","#2:param_labels[cam_to_tgt_angle_axis.data()] = labels_camera_to_target_guess_quaternion;","param_labels[cam_to_tgt_angle_axis.data()] = labels_camera_to_target_guess_translation;")]),
("c19-area-bound","C19",[(CD,"area >= params.maxArea","area > params.maxArea")]),
("c19-group-last","C19",[(CD,"existing_centers.front();","existing_centers.back();")]),
("c19-confidence","C19",[(CD,"center.confidence = 1.0 / err;","center.confidence = 1.0 / (err + 1e-3);")]),
("c19-thresholds","C19",[(CD,"(static_cast<double>(i) / (params.nThresholds - 1)) * threshold_range","(static_cast<double>(i) / params.nThresholds) * threshold_range")]),
("c19-repeat","C19",[(CD,"grouped_centers[i].size() >= params.minRepeatability","grouped_centers[i].size() > params.minRepeatability")]),
("c19-external","C19",[(CD,"cv::RETR_LIST","cv::RETR_EXTERNAL")]),
("c19-ellipse-axis","C19",[(CD,"double y = v.x * std::sin(angle) - v.y * std::cos(angle);","double y = v.x * std::sin(angle) + v.y * std::cos(angle);")]),
("c19-contour5","C19",[(CD,"contour.size() < 5; }","contour.size() <= 5; }")]),
("c19-radius-width","C19",[(CD,"center.radius = (box.size.height + box.size.width) / 4.0;","center.radius = std::max(box.size.height, box.size.width) / 2.0;")]),
("c19-draw-clone","C19",[(CD,"cv::Mat output = image.clone();","cv::Mat output = image;")]),
("c19-group-any","C19",[(CD,"pos_diff <= params.circleInclusionRadius && radius_diff <= params.maxRadiusDiff","pos_diff <= params.circleInclusionRadius")]),
("c18-one-neighbour","C18",[(GF,"start_first_row_avg_rel_size = (start_first_row_rel_row_size + start_first_row_rel_col_size) / 2.0;","start_first_row_avg_rel_size = start_first_row_rel_row_size;")]),
("c18-largest","C18",[(GF,"  start_last_row_avg_rel_size = (start_last_row_rel_row_size + start_last_row_rel_col_size) / 2.0;","  start_last_row_avg_rel_size = feature_sizes[start_last_row] / feature_sizes[start_first_row];")]),
("c18-unusual-end","C18",[(GF,"        for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)\n        {\n          observation_points.push_back(feature_coordinates[static_cast<std::size_t>(k) * temp_cols + j]);","        for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)\n        {\n          observation_points.push_back(feature_coordinates[(temp_rows - 1 - static_cast<std::size_t>(k)) * temp_cols + j]);")]),
("c18-int-centers","C18",[(GF,"cv::Mat center_image = cv::Mat(observation_points);","cv::Mat center_image = cv::Mat(observation_points);\n    drawPointLabel(\"\", observation_points[0], cv::Scalar(0, 255, 0), const_cast<cv::Mat&>(input));")]),
("c20-foreign-marker","C20",[(M+"aruco_finder.cpp","    if (target_.points.find(marker_ids[i]) == target_.points.end())\n      continue;\n","    if (target_.points.find(marker_ids[i]) == target_.points.end())\n      break;\n")]),
("c20-charuco-index","C20",[(M+"charuco_finder.cpp","target_features.emplace(static_cast<unsigned>(charuco_ids[i]), v_obs);","target_features.emplace(static_cast<unsigned>(charuco_ids[0] + i), v_obs);")]),
("c20-charuco-empty","C20",[(M+"charuco_finder.cpp","  if (marker_ids.empty())","  if (marker_ids.size() < 2)")]),
("c20-aruco-draw","C20",[(M+"aruco_finder.cpp","cv::Mat output = image.clone();","cv::Mat output = image;")]),
("c23-image-first","C23",[(DS,"    data.images.push_back(image);\n    data.tool_poses.push_back(p);","    data.tool_poses.push_back(p);"),(DS,"    Eigen::Isometry3d p;\n    if (!rct","    data.images.push_back(image);\n    Eigen::Isometry3d p;\n    if (!rct")]),
("c23-keep-existing","C23",[(DS,"    if (!cv::imwrite(name, data.images[i]))","    if (!std::ifstream(name).good() && !cv::imwrite(name, data.images[i]))")]),
("c23-mask-stale","C23",[(DS,"        mask_(c, i) = 0;\n        ROS_ERROR_STREAM(ex.what());","        mask_(c, i) = !correspondences_(c, i).empty();\n        ROS_ERROR_STREAM(ex.what());")]),
("c23-gray","C23",[(DS,"cv::IMREAD_COLOR","cv::IMREAD_ANYCOLOR")]),
("c23-depth","C23",[(DS,"cv::IMREAD_COLOR","cv::IMREAD_COLOR | cv::IMREAD_ANYDEPTH")]),
("c23-count-first","C23",[(DS,"return mask_.row(camera_index).sum();","return mask_.row(0).sum();")]),
("c23-quat","C23",[(R+"parameter_loaders.cpp","Eigen::AngleAxisd(Eigen::Quaterniond(qw, qx, qy, qz));","Eigen::Quaterniond(qw, qx, qy, qz);")]),
("c23-array-first","C23",[(R+"loader_utils.cpp","for (long i = 1; i < xml.size(); ++i)","for (long i = 1; i < xml.size() - 1; ++i)")]),
("c23-intr-partial","C23",[(R+"parameter_loaders.cpp",'''  try
  {
    intr = loadIntrinsics(nh, key);
  }''','''  try
  {
    XmlRpc::XmlRpcValue xml;
    if (nh.getParam(key, xml))
      read(xml, "fx", intr.fx());
    intr = loadIntrinsics(nh, key);
  }''')]),
("c23-params-partial","C23",[(R+"target_loader_plugins.cpp",'p.circleColor = static_cast<unsigned short>(getMember<int>(node, "circleColor"));','p.circleColor = static_cast<unsigned char>(getMember<int>(node, "circleColor"));')]),
("c23-maxarea","C23",[(R+"target_loader_plugins.cpp",'p.maxArea = getMember<decltype(p.maxArea)>(node, "maxArea");','p.maxArea = getMember<float>(node, "maxArea");')]),
("c24-found-first","C24",[(W,"        found_images.push_back(data_set.images[i]);\n",""),(W,"        //// 3. Check that a homography","        found_images.push_back(data_set.images[i]);\n        //// 3. Check that a homography")]),
("c24-max","C24",[(W,"if (homography_error.array().mean() > homography_threshold)","if (homography_error.maxCoeff() > homography_threshold)")]),
("c24-cam0-poses","C24",[(X+"multi_static_camera_extrinsic.cpp","const ExtrinsicDataSet& data_set = maybe_data_set[c];","const ExtrinsicDataSet& data_set = maybe_data_set[0];")]),
("c24-valid-or","C24",[(X+"camera_intrinsic_calibration_validation.cpp","pos_error > pos_tol || ang_error > ang_tol","pos_error > pos_tol && ang_error > ang_tol")]),
("c24-2sigma","C24",[(X+"camera_intrinsic_calibration_validation.cpp","result.ang_error.first + 2.0 * result.ang_error.second","result.ang_error.first + result.ang_error.second")]),
("c24-noise-guess","C24",[(X+"noise_qualification_2d.cpp","problem.camera_to_target_guess = camera_to_target_guess;","problem.camera_to_target_guess = problem_set.empty() ? camera_to_target_guess : Eigen::Isometry3d::Identity();")]),
("c24-multistep-fix","C24",[(X+"multi_static_camera_multi_step_extrinsic.cpp","problem_def.fix_first_camera = fix_first_camera;","problem_def.fix_first_camera = fix_first_camera || num_of_cameras > 2;")]),
("c24-multistep-image","C24",[(X+"multi_static_camera_multi_step_extrinsic.cpp","opt_wrist_only_result.base_to_camera[c]);\n        intr.push_back","opt_result.base_to_camera[c]);\n        intr.push_back")]),
("c24-analysis-target-mount","C24",[(X+"hand_eye_calibration_analysis.h","obs.to_camera_mount.inverse() *\n                                         obs.to_target_mount *","obs.to_camera_mount.inverse() *")]),
("c24-orient-deg","C24",[(X+"hand_eye_calibration_analysis.h","angularDistance(Eigen::Quaterniond(camera_to_target_pnp.linear())));","angularDistance(Eigen::Quaterniond(obs.to_camera_mount.linear())));")]),
("c24-multi-pnp-any","C24",[(X+"solve_multi_camera_pnp.cpp","corr_data_set.getImageCameraCount(i) == corr_data_set.getCameraCount()","corr_data_set.getImageCameraCount(i) >= corr_data_set.getCameraCount() - (num_of_cameras > 2)")]),
("c24-reproj-first","C24",[(X+"multi_static_camera_extrinsic.cpp","          if (cnt == 0)\n          {\n            image = maybe_data_set[c].images[i];\n          }","          image = maybe_data_set[c].images[i];")]),
("c25-alias","C25",[(CL,"      last_frame_ = cv_ptr;","      if (last_frame_ && last_frame_->image.size() == cv_ptr->image.size())\n        cv_ptr->image.copyTo(last_frame_->image);\n      else\n        last_frame_ = cv_ptr;")]),
("c25-last-tf","C25",[(CL,"      out = t;\n      return true;","      out = t;\n      last_ = t;\n      have_ = true;\n      return true;"),(CL,"                                                             << ex.what());\n      return false;","                                                             << ex.what());\n      out = last_;\n      return have_;"),(CL,"  std::string tool_frame_;\n\n","  std::string tool_frame_;\n  geometry_msgs::TransformStamped last_;\n  bool have_ = false;\n\n")]),
("c25-pose-first","C25",[(CL,"    if (tf_monitor.capture(pose) && image_monitor.capture(image))\n    {\n      poses.push_back(pose);","    if (tf_monitor.capture(pose))\n      poses.push_back(pose);\n    if (poses.size() > images.size() && image_monitor.capture(image))\n    {")]),
("c25-only-found","C25",[(CL,"      last_frame_ = cv_ptr;\n",""),(CL,"        im_pub_.publish(ptr->toImageMsg());","        im_pub_.publish(ptr->toImageMsg());\n        last_frame_ = cv_ptr;")]),
("c25-save-clears","C25",[(CL,"    return rct_ros_tools::saveToDirectory(save_dir_, data);","    bool ok = rct_ros_tools::saveToDirectory(save_dir_, data);\n    if (!ok)\n    {\n      poses.clear();\n      images.clear();\n    }\n    return ok;")]),
("c25-drawn","C25",[(CL,"cv_ptr->image.clone();","cv_ptr->image;")]),
("c25-same-pose","C25",[(CL,"      poses.push_back(pose);\n      images.push_back(image);","      if (!poses.empty() && poses.back().header.stamp == pose.header.stamp && images.back().data == image.data)\n        return true;\n      poses.push_back(pose);\n      images.push_back(image);")]),
]
