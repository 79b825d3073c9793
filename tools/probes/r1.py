# Refactorings: each keeps the behaviour, so every check has to stay quiet (MISSED)
# (id, properties to try, [(file, old, new)])
O="rct_optimizations/src/rct_optimizations/"; OI="rct_optimizations/include/rct_optimizations/"; V=O+"validation/"
M="rct_image_tools/src/rct_image_tools/"; MI="rct_image_tools/include/rct_image_tools/"; R="rct_ros_tools/src/"; X="rct_examples/src/tools/"
CD=M+"circle_detector.cpp"; DS=R+"data_set.cpp"; CL=R+"command_line_cal.cpp"
LAB='''  std::vector<std::string> %s;
  for (auto label_isometry : params.labels_isometry3d)
  {
    %s.emplace_back(params.%s + "_" + label_isometry);
  }
'''
def lab(n,v,p): return ("#%d:"%n+LAB%(v,v,p),"  const std::vector<std::string> %s = composeLabels(params.%s, params.labels_isometry3d);\n"%(v,p))
HE=O+"extrinsic_hand_eye.cpp"
P=[
("hand-eye-labels","C01 C05 C06",[
 (HE,"bool isPointVisible(","template <typename Labels>\nstd::vector<std::string> composeLabels(const std::string& prefix, const Labels& elements)\n{\n  std::vector<std::string> labels;\n  labels.reserve(elements.size());\n  for (const auto& element : elements)\n    labels.push_back(prefix + \"_\" + element);\n  return labels;\n}\n\nbool isPointVisible("),
 (HE,)+lab(1,"labels_camera_mount_to_camera","label_camera_mount_to_camera"),
 (HE,)+lab(1,"labels_target_mount_to_target","label_target_mount_to_target"),
 (HE,)+lab(1,"labels_camera_mount_to_camera","label_camera_mount_to_camera"),
 (HE,)+lab(1,"labels_target_mount_to_target","label_target_mount_to_target")]),
("hand-eye-one-mount","C01 C05 C06 C21 C24",[
 (HE,"    : obs_(obs)\n    , camera_mount_to_base_(poseEigenToCal(camera_mount_to_base))\n    , base_to_target_mount_(poseEigenToCal(base_to_target_mount))\n","    : obs_(obs), camera_mount_to_target_mount_(poseEigenToCal(camera_mount_to_base * base_to_target_mount))\n"),
 (HE,"  Pose6d camera_mount_to_base_;\n  Pose6d base_to_target_mount_;\n","  Pose6d camera_mount_to_target_mount_;\n"),
 (HE,"    poseTransformPoint(base_to_target_mount_, target_mount_point, world_point);\n    poseTransformPoint(camera_mount_to_base_, world_point, camera_mount_point);\n","    poseTransformPoint(camera_mount_to_target_mount_, target_mount_point, camera_mount_point);\n"),
 (HE,"    T world_point[3];         // Point in world coordinates\n","")]),
("pnp-direct","C03 C05 C06 C12 C13 C21",[
 (O+"pnp.cpp","    Vector2 xy_image = projectPoint(intr_, camera_pt);\n","    Vector2 xy_image(camera_pt.x(), camera_pt.y());\n    using std::abs;\n    if (abs(camera_pt.z()) > T(1.e-10))\n      xy_image /= camera_pt.z();\n    xy_image.x() = xy_image.x() * intr_.fx() + intr_.cx();\n    xy_image.y() = xy_image.y() * intr_.fy() + intr_.cy();\n")]),
("pnp-result-helper","C03 C12 C13 C06",[
 (O+"pnp.cpp","#2:  result.camera_to_target = Eigen::Translation3d(cam_to_tgt_translation) *\n                            Eigen::AngleAxisd(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());","  const double angle = cam_to_tgt_angle_axis.norm();\n  result.camera_to_target = Eigen::Isometry3d::Identity();\n  if (angle > 0.0)\n    result.camera_to_target.linear() =\n        Eigen::Quaterniond(Eigen::AngleAxisd(angle, cam_to_tgt_angle_axis / angle)).toRotationMatrix();\n  result.camera_to_target.translation() = cam_to_tgt_translation;"),
 (O+"pnp.cpp","#1:  result.camera_to_target = Eigen::Translation3d(cam_to_tgt_translation) *\n                            Eigen::AngleAxisd(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());","  result.camera_to_target = Eigen::Isometry3d::Identity();\n  result.camera_to_target.rotate(Eigen::AngleAxisd(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized()));\n  result.camera_to_target.pretranslate(cam_to_tgt_translation);")]),
("intrinsic-horner","C04 C05 C06 C07 C21 C24",[
 (O+"camera_intrinsic.cpp","  T xpp = xp + intr.k1() * r2 * xp           // 2nd order term\n          + intr.k2() * r4 * xp              // 4th order term\n          + intr.k3() * r6 * xp              // 6th order term\n","  const T radial = T(1.0) + r2 * (intr.k1() + r2 * (intr.k2() + r2 * intr.k3()));\n  T xpp = xp * radial\n"),
 (O+"camera_intrinsic.cpp","  T ypp = yp + intr.k1() * r2 * yp           // 2nd order term\n          + intr.k2() * r4 * yp              // 4th order term\n          + intr.k3() * r6 * yp              // 6th order term\n","  T ypp = yp * radial\n"),
 (O+"camera_intrinsic.cpp","  T r4 = r2 * r2;    // r^4\n  T r6 = r2 * r4;    // r^6\n","")]),
("intrinsic-flags","C04 C05 C06 C24",[
 (O+"camera_intrinsic.cpp","  std::vector<std::size_t> valid_idx;\n","  std::vector<bool> usable(params.image_observations.size(), false);\n"),
 (O+"camera_intrinsic.cpp","      valid_idx.push_back(i);\n","      usable[i] = true;\n"),
 (O+"camera_intrinsic.cpp","#1:  for (std::size_t i : valid_idx)\n  {\n","  for (std::size_t i = 0; i < usable.size(); ++i)\n  {\n    if (!usable[i])\n      continue;\n"),
 (O+"camera_intrinsic.cpp","#1:  for (std::size_t i : valid_idx)\n  {\n","  for (std::size_t i = 0; i < usable.size(); ++i)\n  {\n    if (!usable[i])\n      continue;\n")]),
("multi-static-loops","C02 C05 C06 C24",[
 (O+"extrinsic_multi_static_camera.cpp","    internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());\n","    const auto& camera_observations = params.image_observations[c];\n    internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());\n"),
 (O+"extrinsic_multi_static_camera.cpp","      for (std::size_t j = 0; j < params.image_observations[c][i].size();\n           ++j)  // For each 3D point seen in the 2D image\n      {\n        // Define\n        const auto& img_obs = params.image_observations[c][i][j].in_image;\n        const auto& point_in_target = params.image_observations[c][i][j].in_target;\n","      for (const auto& correspondence : camera_observations[i])  // For each 3D point seen in the 2D image\n      {\n        // Define\n        const auto& img_obs = correspondence.in_image;\n        const auto& point_in_target = correspondence.in_target;\n"),
 (O+"extrinsic_multi_static_camera.cpp","  for (std::size_t i = 0; i < params.base_to_camera_guess.size(); ++i)\n    result.base_to_camera[i] = poseCalToEigen(internal_camera_to_base[i]).inverse();\n","  std::transform(internal_camera_to_base.begin(),\n                 internal_camera_to_base.end(),\n                 result.base_to_camera.begin(),\n                 [](const Pose6d& pose) { return poseCalToEigen(pose).inverse(); });\n")]),
("multi-pnp-const-pose","C03 C05 C07 C24",[
 (O+"multi_camera_pnp.cpp","    T xy_image[2];\n    projectPoint(intr_, camera_point, xy_image);\n\n    residual[0] = xy_image[0] - obs_.x();\n    residual[1] = xy_image[1] - obs_.y();\n","    T xy_image[2];\n    projectPoint(intr_, camera_point, xy_image);\n\n    for (int i = 0; i < 2; ++i)\n      residual[i] = xy_image[i] - obs_(i);\n"),
 (O+"multi_camera_pnp.cpp","  for (std::size_t c = 0; c < params.base_to_camera.size(); ++c)  // For each camera\n  {\n","  for (std::size_t c = 0; c < params.base_to_camera.size(); ++c)  // For each camera\n  {\n    const Eigen::Isometry3d camera_to_base = params.base_to_camera[c].inverse();\n"),
 (O+"multi_camera_pnp.cpp","      const auto& base_to_camera = params.base_to_camera[c];\n",""),
 (O+"multi_camera_pnp.cpp","base_to_camera.inverse(), point_in_target","camera_to_base, point_in_target")]),
("circle-fit","C15 C05 C06",[
 (O+"circle_fit.cpp","  double x = params.x_center_initial;\n  double y = params.y_center_initial;\n  double r = params.radius_initial;\n\n  double r_sqrt = sqrt(r);\n\n  std::vector<double> circle_params(3, 0.0);\n  circle_params[0] = x;\n  circle_params[1] = y;\n  circle_params[2] = r_sqrt;\n","  std::array<double, 3> circle_params{ params.x_center_initial, params.y_center_initial, std::sqrt(params.radius_initial) };\n"),
 (O+"circle_fit.cpp","#include <ceres/ceres.h>\n","#include <ceres/ceres.h>\n#include <array>\n"),
 (O+"circle_fit.cpp","pow(circle_params[2], 2)","circle_params[2] * circle_params[2]"),
 (O+"circle_fit.cpp","  std::cout << summary.BriefReport() << std::endl;\n\n","")]),
("covariance-sigma","C06",[
 (O+"covariance_analysis.cpp","  Eigen::MatrixXd out(num_vars, num_vars);\n","  Eigen::MatrixXd out(num_vars, num_vars);\n  const Eigen::VectorXd sigma = covariance_matrix.diagonal().cwiseAbs().cwiseSqrt();\n  const double eps = std::numeric_limits<double>::epsilon();\n  const Eigen::VectorXd scale = (sigma.array() < eps).select(Eigen::VectorXd::Ones(num_vars), sigma);\n"),
 (O+"covariance_analysis.cpp","    double sigma_i = sqrt(fabs(covariance_matrix(i, i)));  // standard deviation at the diagonal element in row i\n\n",""),
 (O+"covariance_analysis.cpp","      double sigma_j = sqrt(fabs(covariance_matrix(j, j)));  // standard deviation at the diagonal element in column j\n\n",""),
 (O+"covariance_analysis.cpp","= sigma_i;","= sigma(i);"),
 (O+"covariance_analysis.cpp","        const double scale_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;\n        const double scale_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;\n\n",""),
 (O+"covariance_analysis.cpp","(scale_i * scale_j)","scale(i) / scale(j)")]),
("covariance-masks","C06 C16",[
 (O+"covariance_analysis.cpp","    std::vector<int> masks;\n    auto it = param_masks.find(b);\n    if (it != param_masks.end())\n      masks = it->second;\n","    std::vector<bool> masked(static_cast<std::size_t>(block_size), false);\n    auto it = param_masks.find(b);\n    if (it != param_masks.end())\n    {\n      for (int index : it->second)\n      {\n        if (index >= 0 && index < block_size)\n          masked[static_cast<std::size_t>(index)] = true;\n      }\n    }\n"),
 (O+"covariance_analysis.cpp","      if (std::find(masks.begin(), masks.end(), i) == masks.end())","      if (!masked[i])")]),
("conversions-quaternion","C07 C01 C02 C05 C16",[
 (O+"eigen_conversions.cpp","  Eigen::AngleAxisd aa(pose.linear());\n","  const Eigen::AngleAxisd aa{ Eigen::Quaterniond(pose.linear()) };\n"),
 (O+"eigen_conversions.cpp","    p.linear()(0, 0) = 1.0;  // Logic taken from Ceres' own aaxis to rot matrix conversion\n    p.linear()(1, 0) = rr[2];\n    p.linear()(2, 0) = -rr[1];\n    p.linear()(0, 1) = -rr[2];\n    p.linear()(1, 1) = 1.0;\n    p.linear()(2, 1) = rr[0];\n    p.linear()(0, 2) = rr[1];\n    p.linear()(1, 2) = -rr[0];\n    p.linear()(2, 2) = 1.0;\n","    p.linear() << 1.0, -rr.z(), rr.y(), rr.z(), 1.0, -rr.x(), -rr.y(), rr.x(), 1.0;\n")]),
("transform-rodrigues","C07 C01 C03 C02 C16",[
 (OI+"ceres_math_utilities.h","  t_point[0] = t_point[0] + tx[0];\n  t_point[1] = t_point[1] + tx[1];\n  t_point[2] = t_point[2] + tx[2];\n","  for (int i = 0; i < 3; ++i)\n    t_point[i] += tx[i];\n"),
 (OI+"ceres_math_utilities.h","  T angle_axis[3];\n\n  angle_axis[0] = T(pose.rx());\n  angle_axis[1] = T(pose.ry());\n  angle_axis[2] = T(pose.rz());\n","  const T angle_axis[3] = { T(pose.rx()), T(pose.ry()), T(pose.rz()) };\n")]),
("homography-ls","C11 C24 C21",[
 (V+"homography_validation.cpp","A.colPivHouseholderQr().solve(b)","A.fullPivHouseholderQr().solve(b)"),
 (V+"homography_validation.cpp","    Eigen::Vector3d in_image_estimate = ki * H * xy;\n","    Eigen::Vector3d in_image_estimate = H * xy;\n    in_image_estimate *= ki;\n")]),
("homography-hnormalized","C11 C24",[
 (V+"homography_validation.cpp","    // Calculate the scaling factor\n    double ki = 1.0 / (H(2, 0) * corr.in_target.x() + H(2, 1) * corr.in_target.y() + 1.0);\n\n",""),
 (V+"homography_validation.cpp","    Eigen::Vector3d in_image_estimate = ki * H * xy;\n\n","    const Eigen::Vector2d in_image_estimate = (H * xy).hnormalized();\n\n"),
 (V+"homography_validation.cpp","in_image_estimate.head<2>()","in_image_estimate"),
 (V+"homography_validation.cpp","  std::vector<std::size_t> correspondence_indices;\n  correspondence_indices.reserve(n_samples);\n","  std::vector<std::size_t> correspondence_indices;\n"),]),
("noise-eigen","C12 C24",[
 (V+"noise_qualification.cpp","#include <Eigen/SVD>","#include <Eigen/Eigenvalues>"),
 (V+"noise_qualification.cpp","  Eigen::JacobiSVD<Eigen::Matrix4d> svd(M, Eigen::ComputeFullU);","  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> solver(M);"),
 (V+"noise_qualification.cpp","svd.matrixU().col(0)","solver.eigenvectors().col(3)")]),
("noise-two-pass","C12 C24",[
 (V+"noise_qualification.cpp","#1:  output.p_stat.mean << ba::mean(x_acc), ba::mean(y_acc), ba::mean(z_acc);\n  output.p_stat.stdev << std::sqrt(ba::variance(x_acc)), std::sqrt(ba::variance(y_acc)), std::sqrt(ba::variance(z_acc));\n","  Eigen::Vector3d sum = Eigen::Vector3d::Zero();\n  for (const Eigen::Vector3d& t : translations)\n    sum += t;\n  output.p_stat.mean = sum / translations.size();\n  Eigen::Vector3d var = Eigen::Vector3d::Zero();\n  for (const Eigen::Vector3d& t : translations)\n    var += (t - output.p_stat.mean).cwiseAbs2();\n  output.p_stat.stdev = (var / translations.size()).cwiseSqrt();\n")]),
("intrinsic-validation","C13 C24",[
 (V+"camera_intrinsic_calibration_validation.cpp","  res.angular_error = q1.angularDistance(q2);\n  res.positional_error = (camera_to_target_1.inverse() * camera_to_target_2).translation().norm();\n\n  // Return the transformation from target 1 to target 2\n  res.t1_to_t2 = camera_to_target_1.inverse() * camera_to_target_2;\n","  // Return the transformation from target 1 to target 2\n  res.t1_to_t2 = camera_to_target_1.inverse() * camera_to_target_2;\n  res.angular_error = q1.angularDistance(q2);\n  res.positional_error = (camera_to_target_2.translation() - camera_to_target_1.translation()).norm();\n"),
 (V+"camera_intrinsic_calibration_validation.cpp","  // Accumulate the position vector of the transformation\n","  const Eigen::Isometry3d camera_to_camera_mount = camera_mount_to_camera.inverse();\n\n  // Accumulate the position vector of the transformation\n"),
 (V+"camera_intrinsic_calibration_validation.cpp","    Eigen::Isometry3d camera_base_to_camera = obs.to_camera_mount * camera_mount_to_camera;\n",""),
 (V+"camera_intrinsic_calibration_validation.cpp","camera_base_to_camera.inverse() * camera_base_to_target;","camera_to_camera_mount * obs.to_camera_mount.inverse() * camera_base_to_target;")]),
("projection-direct","C14 C24",[
 (V+"projection.cpp","  // Transform the projected source points into the plane frame\n","  const Eigen::Isometry3d plane_to_source = source_to_plane.inverse();\n  for (Eigen::Index i = 0; i < n; ++i)\n    projected_source_3d.row(i) = (plane_to_source * Eigen::Vector3d(projected_source_3d.row(i))).transpose();\n  return projected_source_3d;\n}\n#if 0\n  // Transform the projected source points into the plane frame\n"),
 (V+"projection.cpp","  return projected_source_4d_in_plane.block(0, 0, n, 3);\n}\n","  return projected_source_4d_in_plane.block(0, 0, n, 3);\n}\n#endif\n"),
 (V+"projection.cpp","  Eigen::ArrayXd error;\n\n  // Iterate","  Eigen::Index total = 0;\n  for (const Observation2D3D& obs : observations)\n    total += static_cast<Eigen::Index>(obs.correspondence_set.size());\n  Eigen::ArrayXd error(total);\n  Eigen::Index done = 0;\n\n  // Iterate"),
 (V+"projection.cpp","    error.conservativeResize(error.rows() + n);\n    error.tail(n) = compute3D","    error.segment(done, n) = compute3D"),
 (V+"projection.cpp","camera_mount_to_camera, target_mount_to_target);\n  }\n\n  return error;","camera_mount_to_camera, target_mount_to_target);\n    done += n;\n  }\n\n  return error;")]),
("dh-combined","C08 C16 C22",[
 (OI+"dh_chain.h","    transform *= Eigen::Translation<T, 3>(T(0.0), T(0.0), updated_params(0));\n    transform.rotate(Eigen::AngleAxis<T>(updated_params(1), Vector3<T>::UnitZ()));\n    transform *= Eigen::Translation<T, 3>(updated_params(2), T(0.0), T(0.0));\n    transform.rotate(Eigen::AngleAxis<T>(updated_params(3), Vector3<T>::UnitX()));\n","    using std::cos;\n    using std::sin;\n    const T ct = cos(updated_params(1)), st = sin(updated_params(1));\n    const T ca = cos(updated_params(3)), sa = sin(updated_params(3));\n    transform.linear() << ct, -st * ca, st * sa, st, ct * ca, -ct * sa, T(0.0), sa, ca;\n    transform.translation() << updated_params(2) * ct, updated_params(2) * st, updated_params(0);\n")]),
("dh-fk-order","C08 C16 C22",[
 (OI+"dh_chain.h","    Isometry3<T> transform(base_offset_.cast<T>());\n    for (Eigen::Index i = 0;","    Isometry3<T> transform(Isometry3<T>::Identity());\n    for (Eigen::Index i = 0;"),
 (OI+"dh_chain.h","    return transform;\n  }\n\n  /**\n   * @brief Creates a random joint pose","    return Isometry3<T>(base_offset_.cast<T>()) * transform;\n  }\n\n  /**\n   * @brief Creates a random joint pose")]),
("dh-chain","C08 C22 C10",[
 (O+"dh_chain.cpp","  transforms_.reserve(other.transforms_.size());\n  for (std::size_t i = 0; i < other.transforms_.size(); ++i)\n  {\n    DHTransform transform = other.transforms_.at(i);\n    transform.params += dh_offsets.row(i).transpose();\n    transforms_.push_back(transform);\n  }\n\n  base_offset_ = other.base_offset_;\n","  *this = other;\n  for (std::size_t i = 0; i < transforms_.size(); ++i)\n    transforms_[i].params = transforms_[i].params + dh_offsets.row(i).transpose();\n"),
 (O+"dh_chain.cpp","  std::uniform_real_distribution<double> dist(min, max);\n\n  return dist(mt_rand);","  const double unit = std::generate_canonical<double, std::numeric_limits<double>::digits>(mt_rand);\n  return min + unit * (max - min);")]),
("detector-helpers","C18 C19 C21",[
 (CD,"    // Area filter\n    if (params.filterByArea)\n    {\n      double area = moms.m00;\n      if (area < params.minArea || area >= params.maxArea)\n        continue;\n    }\n","    auto outside = [](const double value, const double low, const double high) { return value < low || value >= high; };\n    if (params.filterByArea && outside(moms.m00, params.minArea, params.maxArea))\n      continue;\n"),
 (CD,"      if (ratio < params.minCircularity || ratio >= params.maxCircularity)","      if (outside(ratio, params.minCircularity, params.maxCircularity))"),
 (CD,"      if (ratio < params.minConvexity || ratio >= params.maxConvexity)","      if (outside(ratio, params.minConvexity, params.maxConvexity))"),
 (CD,"        double imin = 0.5 * (moms.mu20 + moms.mu02) - 0.5 * (moms.mu20 - moms.mu02) * cosmin - moms.mu11 * sinmin;\n        double imax = 0.5 * (moms.mu20 + moms.mu02) - 0.5 * (moms.mu20 - moms.mu02) * cosmax - moms.mu11 * sinmax;\n        ratio = imin / imax;\n","        const double sum = moms.mu20 + moms.mu02;\n        ratio = (sum - denominator) / (sum + denominator);\n"),
 (CD,"        double cosmin = (moms.mu20 - moms.mu02) / denominator;\n        double sinmin = 2 * moms.mu11 / denominator;\n        double cosmax = -cosmin;\n        double sinmax = -sinmin;\n\n",""),
 (CD,"  // Debug\n  cv::Mat debug_img;\n  cv::cvtColor(binarized_image, debug_img, cv::COLOR_GRAY2RGB);\n  const cv::Scalar color(255, 0, 0);\n\n","")]),
("detector-ellipse","C18 C19 C21",[
 (CD,"        double one = std::sqrt((std::pow(x, 2.0) / std::pow(a, 2.0)) + (std::pow(y, 2.0) / std::pow(b, 2.0)));","        const double one = std::hypot(x / a, y / b);"),
 (CD,"double x = v.x * std::cos(angle) + v.y * std::sin(angle);","double x = v.x * c + v.y * s;"),
 (CD,"double y = v.x * std::sin(angle) - v.y * std::cos(angle);","double y = v.y * c - v.x * s;"),
 (CD,"      double a = box.size.width / 2.0;\n","      const double c = std::cos(angle), s = std::sin(angle);\n      double a = box.size.width / 2.0;\n")]),
("detector-groups","C18 C19 C21",[
 (CD,"  const double threshold_range = params.maxThreshold - params.minThreshold;\n","  const double step = params.nThresholds < 2 ? 0.0 : static_cast<double>(params.maxThreshold - params.minThreshold) / (params.nThresholds - 1);\n"),
 (CD,"      threshold = params.minThreshold + (threshold_range / 2.0);","      threshold = 0.5 * (static_cast<double>(params.minThreshold) + params.maxThreshold);"),
 (CD,"params.minThreshold + (static_cast<double>(i) / (params.nThresholds - 1)) * threshold_range;","params.minThreshold + i * step;"),
 (CD,"      for (std::size_t j = 0; j < grouped_centers[i].size(); j++)\n      {\n        sum_point += grouped_centers[i][j].confidence * grouped_centers[i][j].location;\n        sum_radius += grouped_centers[i][j].confidence * grouped_centers[i][j].radius;\n        normalizer += grouped_centers[i][j].confidence;\n      }\n","      for (const CircleDetector::Center& center : grouped_centers[i])\n      {\n        normalizer += center.confidence;\n        sum_point += center.confidence * center.location;\n        sum_radius += center.confidence * center.radius;\n      }\n")]),
("data-set-save","C23 C25",[
 (DS,"bool writePose(const std::string& path, const Eigen::Isometry3d& pose)\n{\n  YAML::Node root(pose);\n  std::ofstream ofh(path);\n  ofh << root;\n  ofh.close();\n  return ofh.good();\n}\n","static bool writeNode(const std::string& path, const YAML::Node& root)\n{\n  const std::string text = YAML::Dump(root);\n  std::ofstream ofh(path, std::ios::binary | std::ios::trunc);\n  ofh.write(text.data(), static_cast<std::streamsize>(text.size()));\n  ofh.flush();\n  return ofh.good();\n}\n\nbool writePose(const std::string& path, const Eigen::Isometry3d& pose) { return writeNode(path, YAML::Node(pose)); }\n"),
 (DS,"  std::ofstream ofh(path);\n  ofh << root;\n  ofh.close();\n  return ofh.good();\n","  return writeNode(path, root);\n"),
 (DS,"  for (std::size_t i = 0; i < data.images.size(); ++i)\n  {\n    auto name = path + \"/images/\" + std::to_string(i) + \".png\";\n    if (!cv::imwrite(name, data.images[i]))","  std::vector<unsigned char> encoded;\n  for (std::size_t i = 0; i < data.images.size(); ++i)\n  {\n    auto name = path + \"/images/\" + std::to_string(i) + \".png\";\n    bool done = cv::imencode(\".png\", data.images[i], encoded);\n    if (done)\n    {\n      std::ofstream ofh(name, std::ios::binary);\n      ofh.write(reinterpret_cast<const char*>(encoded.data()), static_cast<std::streamsize>(encoded.size()));\n      ofh.close();\n      done = ofh.good();\n    }\n    if (!done)")]),
("data-set-poses-first","C23 C25",[
 (DS,"  for (std::size_t i = 0; i < data.images.size(); ++i)\n  {\n    auto name = path + \"/images/\" + std::to_string(i) + \".png\";\n    if (!cv::imwrite(name, data.images[i]))\n    {\n      ROS_ERROR_STREAM(\"Failed to write image: \" << name);\n      return false;\n    }\n  }\n\n",""),
 (DS,"      ROS_ERROR_STREAM(\"Failed to write pose: \" << name);\n      return false;\n    }\n","      ROS_ERROR_STREAM(\"Failed to write pose: \" << name);\n      return false;\n    }\n\n    name = path + \"/images/\" + std::to_string(i) + \".png\";\n    if (!cv::imwrite(name, data.images[i]))\n    {\n      ROS_ERROR_STREAM(\"Failed to write image: \" << name);\n      return false;\n    }\n")]),
("data-set-counts","C23 C24",[
 (DS,"  return mask_.col(image_index).sum();","  std::size_t count = 0;\n  for (std::size_t c = 0; c < getCameraCount(); ++c)\n    count += foundCorrespondence(c, image_index) ? 1 : 0;\n  return count;"),
 (DS,"  return mask_.row(camera_index).sum();","  std::size_t count = 0;\n  for (std::size_t i = 0; i < getImageCount(); ++i)\n    count += foundCorrespondence(camera_index, i) ? 1 : 0;\n  return count;"),
 (DS,"        mask_(c, i) = 1;\n\n","        mask_(c, i) = 0;\n\n"),
 (DS,"target_finder.target().createCorrespondences(target_features);\n","target_finder.target().createCorrespondences(target_features);\n        mask_(c, i) = 1;\n")]),
("node-pairs","C25",[
 (CL,"  std::vector<geometry_msgs::TransformStamped> poses;\n  std::vector<cv::Mat> images;\n","  std::vector<std::pair<geometry_msgs::TransformStamped, cv::Mat>> pairs;\n"),
 (CL,"      poses.push_back(pose);\n      images.push_back(image);\n","      pairs.emplace_back(pose, image.clone());\n"),
 (CL,"    for (std::size_t i = 0; i < poses.size(); ++i)\n    {\n      cv::Mat image = images[i];\n      auto msg = poses[i];\n      Eigen::Isometry3d pose = tf2::transformToEigen(msg.transform);\n\n      data.images.push_back(image);\n","    for (const auto& pair : pairs)\n    {\n      Eigen::Isometry3d pose = tf2::transformToEigen(pair.first.transform);\n\n      data.images.push_back(pair.second);\n"),
 (CL,"    if (tf_monitor.capture(pose) && image_monitor.capture(image))\n","    const bool has_image = image_monitor.capture(image);\n    const bool has_pose = tf_monitor.capture(pose);\n    if (has_image && has_pose)\n")]),
("node-eigen-poses","C25",[
 (CL,"  std::vector<geometry_msgs::TransformStamped> poses;\n  std::vector<cv::Mat> images;\n","  rct_ros_tools::ExtrinsicDataSet collected;\n"),
 (CL,"      poses.push_back(pose);\n      images.push_back(image);\n","      collected.tool_poses.push_back(tf2::transformToEigen(pose.transform));\n      collected.images.push_back(image);\n"),
 (CL,"    rct_ros_tools::ExtrinsicDataSet data;\n    for (std::size_t i = 0; i < poses.size(); ++i)\n    {\n      cv::Mat image = images[i];\n      auto msg = poses[i];\n      Eigen::Isometry3d pose = tf2::transformToEigen(msg.transform);\n\n      data.images.push_back(image);\n      data.tool_poses.push_back(pose);\n    }\n\n",""),
 (CL,"saveToDirectory(save_dir_, data)","saveToDirectory(save_dir_, collected)"),
 (CL,"#1:      if (msg->encoding == \"mono16\")","      const bool deep = msg->encoding == sensor_msgs::image_encodings::MONO16;\n      if (deep)")]),
]
