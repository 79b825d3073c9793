# behaviour-preserving edits of finders, targets, loaders, serialization and tools: no check may notice them
I="rct_image_tools/src/rct_image_tools/"; O="rct_optimizations/src/rct_optimizations/"; S="rct_optimizations/include/rct_optimizations/serialization/"; R="rct_ros_tools/src/"; X="rct_examples/src/tools/"
G=I+"modified_circle_grid_finder.cpp"
P=[
("grid-detect-loop","C18 C19 C21 C24",[
 (G,"""    bool found = false;
    for (int beta = 0; beta <= 100; beta++)
    {
      cv::Mat altered_image;
      image.convertTo(altered_image, -1, alpha, beta);
      detector_ptr->detect(altered_image, keypoints);
      if (keypoints.size() >= rows * cols)
      {
        found = true;
        break;
      }
    }
    if (found)
    {
      break;
    }
""","""    for (int beta = 0; beta <= 100 && keypoints.size() < expected; beta++)
    {
      cv::Mat altered_image;
      image.convertTo(altered_image, -1, alpha, beta);
      detector_ptr->detect(altered_image, keypoints);
    }
    if (keypoints.size() >= expected)
      break;
"""),
 (G,"  std::vector<cv::KeyPoint> keypoints;\n  cv::Point large_point;\n","  std::vector<cv::KeyPoint> keypoints;\n  const std::size_t expected = rows * cols;\n"),
 (G,"    large_point.x = static_cast<int>(start_last_row_pt.x);\n    large_point.y = static_cast<int>(start_last_row_pt.y);\n",""),
 (G,"    large_point.x = static_cast<int>(end_first_row_pt.x);\n    large_point.y = static_cast<int>(end_first_row_pt.y);\n",""),
 (G,"    large_point.x = static_cast<int>(end_last_row_pt.x);\n    large_point.y = static_cast<int>(end_last_row_pt.y);\n",""),
 (G,"    large_point.x = static_cast<int>(start_first_row_pt.x);\n    large_point.y = static_cast<int>(start_first_row_pt.y);\n","")]),
("grid-order-helper","C18 C21 C24",[
 (G,"""      for (std::size_t j = 0; j < feature_coordinates.size(); j++)
      {
        observation_points.push_back(feature_coordinates[j]);
      }
""","""      observation_points = feature_coordinates;
"""),
 (G,"""      for (int j = (static_cast<int>(feature_coordinates.size()) - 1); j >= 0; j--)
      {
        observation_points.push_back(feature_coordinates[static_cast<std::size_t>(j)]);
      }
""","""      observation_points.assign(feature_coordinates.rbegin(), feature_coordinates.rend());
"""),
 (G,"""  v1x = end_last_row_pt.x - start_last_row_pt.x;
  v1y = -end_last_row_pt.y + start_last_row_pt.y;
  v2x = end_first_row_pt.x - end_last_row_pt.x;
  v2y = -end_first_row_pt.y + end_last_row_pt.y;

  double cross = v1x * v2y - v1y * v2x;
""","""  v1x = end_last_row_pt.x - start_last_row_pt.x;
  v1y = end_last_row_pt.y - start_last_row_pt.y;
  v2x = end_first_row_pt.x - end_last_row_pt.x;
  v2y = end_first_row_pt.y - end_last_row_pt.y;

  // The v axis of images points down
  double cross = v1y * v2x - v1x * v2y;
""")]),
("grid-finder-map","C18 C17 C21 C24",[
 (G,"""  for (unsigned i = 0; i < points.size(); ++i)
  {
    const cv::Point2d& pt = points.at(i);
    VectorEigenVector<2> v_obs;
    v_obs.push_back(Eigen::Vector2d(pt.x, pt.y));
    observations.emplace(i, v_obs);
  }
""","""  unsigned id = 0;
  for (const cv::Point2d& pt : points)
    observations[id++] = VectorEigenVector<2>(1, Eigen::Vector2d(pt.x, pt.y));
"""),
 (G,"""  bool pattern_found = cv::findCirclesGrid(
      image, pattern_size, centers, cv::CALIB_CB_SYMMETRIC_GRID | cv::CALIB_CB_CLUSTERING, detector_ptr);
  if (!pattern_found || (centers.size() != rows * cols))  // Try flipped pattern size
  {
    centers.clear();
    pattern_found = cv::findCirclesGrid(
        image, pattern_size_flipped, centers, cv::CALIB_CB_SYMMETRIC_GRID | cv::CALIB_CB_CLUSTERING, detector_ptr);
    flipped = true;
  }

  // Centers can be returned even if the complete pattern was not found
  if (!pattern_found || centers.size() != rows * cols)
    throw""","""  const auto find = [&](const cv::Size& size) {
    centers.clear();
    // Centers can be returned even if the complete pattern was not found
    return cv::findCirclesGrid(
               image, size, centers, cv::CALIB_CB_SYMMETRIC_GRID | cv::CALIB_CB_CLUSTERING, detector_ptr) &&
           centers.size() == rows * cols;
  };
  flipped = !find(pattern_size);
  if (flipped && !find(pattern_size_flipped))
    throw""")]),
("grid-sizes","C18 C21",[
 (G,"""  for (std::size_t i = 0; i < keypoints.size(); i++)
  {
    double x = static_cast<double>(keypoints[i].pt.x);
    double y = static_cast<double>(keypoints[i].pt.y);
    double ksize = static_cast<double>(keypoints[i].size);

    for (std::size_t j = 0; j < feature_coordinates.size(); j++)
    {
      const auto& center = feature_coordinates[j];
      if (isEqual(center.x, x) && isEqual(center.y, y))
      {
        feature_sizes[j] = ksize;
        break;
      }
    }
  }
""","""  for (const cv::KeyPoint& keypoint : keypoints)
  {
    const auto match = std::find_if(feature_coordinates.begin(), feature_coordinates.end(), [&](const cv::Point2d& c) {
      return isEqual(c.x, static_cast<double>(keypoint.pt.x)) && isEqual(c.y, static_cast<double>(keypoint.pt.y));
    });
    if (match != feature_coordinates.end())
      feature_sizes[static_cast<std::size_t>(match - feature_coordinates.begin())] = static_cast<double>(keypoint.size);
  }
""")]),
("aruco-finder","C20 C17 C21 C24",[
 (I+"aruco_finder.cpp","""    std::vector<cv::Point2f> corner_pts = marker_corners[i];
    VectorEigenVector<2> obs_pts(4);

    for (unsigned j = 0; j < corner_pts.size(); j++)
    {
      obs_pts[j] = Eigen::Vector2d(corner_pts[j].x, corner_pts[j].y).cast<double>();
    }
    map_ids_to_obs_corners.emplace(marker_ids[i], obs_pts);
""","""    VectorEigenVector<2> obs_pts;
    for (const cv::Point2f& corner : marker_corners[i])
      obs_pts.emplace_back(corner.x, corner.y);
    map_ids_to_obs_corners.insert({ static_cast<unsigned>(marker_ids[i]), std::move(obs_pts) });
"""),
 (I+"aruco_finder.cpp","    if (target_.points.find(marker_ids[i]) == target_.points.end())\n","    if (target_.points.count(marker_ids[i]) == 0)\n"),
 (I+"aruco_finder.cpp","cv::Ptr<cv::aruco::DetectorParameters> parameters(new cv::aruco::DetectorParameters);","cv::Ptr<cv::aruco::DetectorParameters> parameters = cv::aruco::DetectorParameters::create();")]),
("charuco-finder","C20 C17 C21 C24",[
 (I+"charuco_finder.cpp","""  int detected_corners = cv::aruco::interpolateCornersCharuco(
      marker_corners, marker_ids, image, target_.board, charuco_corners, charuco_ids);
""","""  cv::aruco::interpolateCornersCharuco(
      marker_corners, marker_ids, image, target_.board, charuco_corners, charuco_ids);
"""),
 (I+"charuco_finder.cpp","""  for (unsigned i = 0; i < static_cast<unsigned>(detected_corners); i++)
  {
    const cv::Point2f& corner = charuco_corners.at(i);
    VectorEigenVector<2> v_obs;
    v_obs.push_back(Eigen::Vector2d(corner.x, corner.y));
    target_features.emplace(static_cast<unsigned>(charuco_ids[i]), v_obs);
  }
""","""  for (std::size_t i = charuco_ids.size(); i-- > 0;)
  {
    VectorEigenVector<2> v_obs(1);
    v_obs[0] << charuco_corners[i].x, charuco_corners[i].y;
    target_features[static_cast<unsigned>(charuco_ids[i])] = v_obs;
  }
"""),
 (I+"charuco_finder.cpp","""    const Eigen::Vector2f& pt = it->second.at(0).cast<float>();
    charuco_corners.push_back(cv::Point2f(pt.x(), pt.y()));
""","""    const Eigen::Vector2d& pt = it->second.at(0);
    charuco_corners.emplace_back(static_cast<float>(pt.x()), static_cast<float>(pt.y()));
""")]),
("aruco-target","C17 C20 C24",[
 (I+"aruco_grid_target.cpp","""    std::vector<Eigen::Vector3d> obj_pts(board->objPoints[i].size());
    std::transform(
        board->objPoints[i].begin(),
        board->objPoints[i].end(),
        obj_pts.begin(),
        [](const cv::Point3f& o) -> Eigen::Vector3d { return Eigen::Vector3f(o.x, o.y, o.z).cast<double>(); });
""","""    std::vector<Eigen::Vector3d> obj_pts;
    for (const cv::Point3f& o : board->objPoints[i])
      obj_pts.emplace_back(o.x, o.y, o.z);
"""),
 (I+"aruco_grid_target.cpp","""    for (std::size_t i = 0; i < it->second.size(); ++i)
    {
      rct_optimizations::Correspondence2D3D corr;
      corr.in_target = points.at(it->first).at(i);
      corr.in_image = target_features.at(it->first).at(i);
      correspondences.push_back(corr);
    }
""","""    const std::vector<Eigen::Vector3d>& corners = points.at(it->first);
    for (std::size_t i = 0; i < it->second.size(); ++i)
    {
      correspondences.emplace_back();
      correspondences.back().in_target = corners.at(i);
      correspondences.back().in_image = it->second[i];
    }
"""),
 (I+"aruco_grid_target.cpp","""  bool equal = true;
  equal &= other_board_size.width == board_size.width;
  equal &= other_board_size.height == board_size.height;
""","""  if (other_board_size != board_size)
    return false;
  bool equal = true;
""")]),
("circle-target","C17 C18 C24",[
 (I+"modified_circle_grid_target.cpp","""  for (std::size_t i = 1; i < (rows + 1); i++)
  {
    double y = (rows - i) * spacing;
    for (std::size_t j = 0; j < cols; j++)
    {
      double x = j * spacing;
      Eigen::Vector3d point(x, y, 0.0);
      points.push_back(point);
    }
  }
""","""  for (unsigned i = 0; i < rows * cols; ++i)
    points.emplace_back((i % cols) * spacing, (rows - 1 - i / cols) * spacing, 0.0);
"""),
 (I+"modified_circle_grid_target.cpp","""  for (std::size_t i = 0; i < target_points.size(); ++i)
  {
    rct_optimizations::Correspondence2D3D corr;
    corr.in_target = target_points.at(i);
    // Get the first (and only) element of the features at the current index; increment the index
    corr.in_image = target_features.at(i).at(0);
    correspondences.push_back(corr);
  }
""","""  unsigned i = 0;
  for (const Eigen::Vector3d& point : target_points)
  {
    rct_optimizations::Correspondence2D3D corr;
    corr.in_image = target_features.at(i++).at(0);
    corr.in_target = point;
    correspondences.push_back(corr);
  }
""")]),
("charuco-target","C17 C20",[
 (I+"charuco_grid_target.cpp","""  for (auto it = target_features.begin(); it != target_features.end(); it++)
  {
    rct_optimizations::Correspondence2D3D corr;
    corr.in_target = points.at(it->first);
    // Get the first (and only) feature from the current iterator
    corr.in_image = target_features.at(it->first).at(0);
    correspondences.push_back(corr);
  }
""","""  for (const auto& feature : target_features)
  {
    const auto point = points.find(feature.first);
    if (point == points.end() || feature.second.empty())
      throw std::out_of_range("Feature " + std::to_string(feature.first) + " is not part of the target");
    rct_optimizations::Correspondence2D3D corr;
    corr.in_target = point->second;
    corr.in_image = feature.second.front();
    correspondences.push_back(corr);
  }
""")]),
("load-pose-loop","C23 C24",[
 (R+"parameter_loaders.cpp","""  double x, y, z, qx, qy, qz, qw;
  if (!read(xml, "x", x))
    throw ros::InvalidParameterException(key + "/x");
  if (!read(xml, "y", y))
    throw ros::InvalidParameterException(key + "/y");
  if (!read(xml, "z", z))
    throw ros::InvalidParameterException(key + "/z");
  if (!read(xml, "qx", qx))
    throw ros::InvalidParameterException(key + "/qx");
  if (!read(xml, "qy", qy))
    throw ros::InvalidParameterException(key + "/qy");
  if (!read(xml, "qz", qz))
    throw ros::InvalidParameterException(key + "/qz");
  if (!read(xml, "qw", qw))
    throw ros::InvalidParameterException(key + "/qw");

  Eigen::Isometry3d pose =
      Eigen::Translation3d(Eigen::Vector3d(x, y, z)) * Eigen::AngleAxisd(Eigen::Quaterniond(qw, qx, qy, qz));
  return pose;
""","""  static const std::array<const char*, 7> fields{ { "x", "y", "z", "qx", "qy", "qz", "qw" } };
  std::array<double, 7> v;
  for (std::size_t i = 0; i < fields.size(); ++i)
  {
    if (!read(xml, fields[i], v[i]))
      throw ros::InvalidParameterException(key + "/" + fields[i]);
  }

  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  pose.linear() = Eigen::Quaterniond(v[6], v[3], v[4], v[5]).normalized().toRotationMatrix();
  pose.translation() << v[0], v[1], v[2];
  return pose;
"""),
 (R+"parameter_loaders.cpp","#include <xmlrpcpp/XmlRpcException.h>\n","#include <xmlrpcpp/XmlRpcException.h>\n#include <array>\n")]),
("load-intr-order","C23 C24",[
 (R+"parameter_loaders.cpp","""  if (!read(xml, "fx", intr.fx()))
    throw ros::InvalidParameterException(key + "/fx");
  if (!read(xml, "fy", intr.fy()))
    throw ros::InvalidParameterException(key + "/fy");
  if (!read(xml, "cx", intr.cx()))
    throw ros::InvalidParameterException(key + "/cx");
  if (!read(xml, "cy", intr.cy()))
    throw ros::InvalidParameterException(key + "/cy");
""","""  const auto field = [&](const char* name, double& value) {
    if (!read(xml, name, value))
      throw ros::InvalidParameterException(key + "/" + name);
  };
  field("cx", intr.cx());
  field("cy", intr.cy());
  field("fx", intr.fx());
  field("fy", intr.fy());
""")]),
("to-yaml-helper","C23 C24 C25",[
 (R+"loader_utils.cpp","""template <typename T>
std::vector<T> fromArray(XmlRpc::XmlRpcValue xml)
{
  std::vector<T> vec;
  vec.reserve(xml.size());
  for (int i = 0; i < xml.size(); i++)
  {
    vec.push_back(static_cast<T>(xml[i]));
  }
  return vec;
}
""","""template <typename T>
YAML::Node fromArray(XmlRpc::XmlRpcValue xml)
{
  YAML::Node seq(YAML::NodeType::Sequence);
  for (int i = 0; i < xml.size(); i++)
    seq.push_back(static_cast<T>(xml[i]));
  return seq;
}
""")]),
("yaml-eigen","C10 C23 C24",[
 (S+"eigen.h","""    Eigen::Quaternion<FloatT> quat;
    quat.w() = node["qw"].as<FloatT>();
    quat.x() = node["qx"].as<FloatT>();
    quat.y() = node["qy"].as<FloatT>();
    quat.z() = node["qz"].as<FloatT>();
""","""    Eigen::Quaternion<FloatT> quat(
        node["qw"].as<FloatT>(), node["qx"].as<FloatT>(), node["qy"].as<FloatT>(), node["qz"].as<FloatT>());
"""),
 (S+"eigen.h","""    Eigen::Matrix<FloatT, 3, 1> trans;
    trans.x() = node["x"].as<FloatT>();
    trans.y() = node["y"].as<FloatT>();
    trans.z() = node["z"].as<FloatT>();
""","""    const Eigen::Matrix<FloatT, 3, 1> trans(node["x"].as<FloatT>(), node["y"].as<FloatT>(), node["z"].as<FloatT>());
"""),
 (S+"eigen.h","""    node["x"] = val.translation().x();
    node["y"] = val.translation().y();
    node["z"] = val.translation().z();

    Eigen::Quaternion<FloatT> quat(val.linear());
    node["qw"] = quat.w();
    node["qx"] = quat.x();
    node["qy"] = quat.y();
    node["qz"] = quat.z();
""","""    // The order of the fields does not matter
    const Eigen::Quaternion<FloatT> quat(val.linear());
    node["qx"] = quat.x();
    node["qy"] = quat.y();
    node["qz"] = quat.z();
    node["qw"] = quat.w();
    node["x"] = val.translation()(0);
    node["y"] = val.translation()(1);
    node["z"] = val.translation()(2);
""")]),
("yaml-result","C10",[
 (S+"problems.h","""  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitZ()) *
         Eigen::AngleAxisd(euler_zyx(1), Eigen::Vector3d::UnitY()) *
         Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitX());
""","""  Eigen::Isometry3d iso = Eigen::Isometry3d::Identity();
  iso.translate(trans);
  iso.rotate(Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitZ()));
  iso.rotate(Eigen::AngleAxisd(euler_zyx(1), Eigen::Vector3d::UnitY()));
  iso.rotate(Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitX()));
  return iso;
""")]),
("yaml-obs","C10 C01",[
 (S+"types.h","""    obs.correspondence_set = node["correspondences"].as<decltype(obs.correspondence_set)>();
    obs.to_target_mount = node["to_target_mount"].as<decltype(obs.to_target_mount)>();
    obs.to_camera_mount = node["to_camera_mount"].as<decltype(obs.to_camera_mount)>();
""","""    T decoded;
    decoded.to_camera_mount = node["to_camera_mount"].as<Eigen::Isometry3d>();
    decoded.to_target_mount = node["to_target_mount"].as<Eigen::Isometry3d>();
    decoded.correspondence_set = node["correspondences"].as<decltype(obs.correspondence_set)>();
    obs = decoded;
""")]),
("tool-multi-reproj","C24",[
 (X+"multi_static_camera_extrinsic.cpp","""      std::size_t cnt = 0;
      for (std::size_t c = 0; c < num_of_cameras; ++c)
      {
        if (corr_data_set.foundCorrespondence(c, i))
        {
          base_to_camera.push_back(opt_result.base_to_camera[c]);
          intr.push_back(problem_def.intr[c]);
          corr_set.push_back(corr_data_set.getCorrespondenceSet(c, i));
          if (cnt == 0)
          {
            image = maybe_data_set[c].images[i];
          }

          ++cnt;
        }
        else
        {
          continue;
        }
      }

      if (cnt >= 2)
""","""      for (std::size_t c = 0; c < num_of_cameras; ++c)
      {
        if (!corr_data_set.foundCorrespondence(c, i))
          continue;
        if (corr_set.empty())
          image = maybe_data_set[c].images[i];
        base_to_camera.push_back(opt_result.base_to_camera[c]);
        intr.push_back(problem_def.intr[c]);
        corr_set.push_back(corr_data_set.getCorrespondenceSet(c, i));
      }

      if (corr_set.size() >= 2)
"""),
 (X+"multi_static_camera_extrinsic.cpp","""    Eigen::Isometry3d t = opt_result.wrist_to_target;
    printTransform(t, "Wrist", "Target", "WRIST TO TARGET");
""","""    printTransform(opt_result.wrist_to_target, "Wrist", "Target", "WRIST TO TARGET");
"""),
 (X+"multi_static_camera_extrinsic.cpp","""      t = opt_result.base_to_camera[c];
""","""      Eigen::Isometry3d t = opt_result.base_to_camera[c];
"""),
 (X+"multi_static_camera_extrinsic.cpp","""  Eigen::Isometry3d camera_to_target = base_to_camera[0].inverse() * base_to_target;

""","""  const Eigen::Isometry3d camera_to_target = base_to_camera.front().inverse() * base_to_target;

""")]),
("tool-wrist","C24",[
 (X+"camera_on_wrist_extrinsic.cpp","""        Eigen::VectorXd homography_error =
            rct_optimizations::calculateHomographyError(obs.correspondence_set, random_sampler);
        if (homography_error.array().mean() > homography_threshold)
          throw std::runtime_error("Homography error exceeds threshold (" +
                                   std::to_string(homography_error.array().mean()) + ")");
""","""        const double mean_error =
            rct_optimizations::calculateHomographyError(obs.correspondence_set, random_sampler).mean();
        if (mean_error > homography_threshold)
          throw std::runtime_error("Homography error exceeds threshold (" + std::to_string(mean_error) + ")");
"""),
 (X+"camera_on_wrist_extrinsic.cpp","""    // Our 'base to camera guess': A camera off to the side, looking at a point centered in front of the robot
    problem.target_mount_to_target_guess = loadPose(pnh, "base_to_target_guess");
    problem.camera_mount_to_camera_guess = loadPose(pnh, "wrist_to_camera_guess");

    // Create a named OpenCV window for viewing the images
    cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
""","""    // Create a named OpenCV window for viewing the images
    cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);

    // Our 'base to camera guess': A camera off to the side, looking at a point centered in front of the robot
    problem.camera_mount_to_camera_guess = loadPose(pnh, "wrist_to_camera_guess");
    problem.target_mount_to_target_guess = loadPose(pnh, "base_to_target_guess");
""")]),
]
