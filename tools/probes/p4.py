# bugs written from the statements of C21, C22, C12, C24 and C26: each has to be noticed
O="rct_optimizations/src/rct_optimizations/"; OI="rct_optimizations/include/rct_optimizations/"; V=O+"validation/"; I="rct_image_tools/src/rct_image_tools/"; II="rct_image_tools/include/rct_image_tools/"; R="rct_ros_tools/src/"; X="rct_examples/src/tools/"; G="rct_image_tools/script/calibration_target.py"
P=[
# C22: shared state between concurrent calls
("c22-sampler-static","C22",[(V+"homography_validation.cpp","  std::mt19937 rand_gen(seed);\n","  static std::mt19937 rand_gen;\n  rand_gen.seed(seed);\n")]),
("c22-reproj-static","C22",[(II+"image_utils.h","  std::vector<cv::Point2d> reprojections;\n  for (const auto& point_in_target","  static std::vector<cv::Point2d> reprojections;\n  reprojections.clear();\n  for (const auto& point_in_target")]),
("c22-quat-static","C22",[(V+"noise_qualification.cpp","  Eigen::Matrix4d M = Eigen::Matrix4d::Zero();\n","  static Eigen::Matrix4d M;\n  M.setZero();\n")]),
("c22-cov-stream","C22",[(OI+"covariance_types.h","    std::stringstream ss;\n    ss << names","    static std::stringstream ss;\n    ss.str(\"\");\n    ss << names")]),
("c22-binarized","C22",[(I+"circle_detector.cpp","  cv::Mat binarized_image;\n","  static cv::Mat binarized_image;\n")]),
("c22-hull","C22",[(I+"circle_detector.cpp","      std::vector<cv::Point> hull;\n","      static std::vector<cv::Point> hull;\n")]),
("c22-uv","C22",[(II+"image_utils.h","    double uv[2];\n","    static double uv[2];\n")]),
("c22-names","C22",[(O+"covariance_analysis.cpp","    std::vector<int> masks;\n    auto it","    static std::vector<int> masks;\n    masks.clear();\n    auto it")]),
("c22-labels","C22",[(O+"dh_chain.cpp","  std::vector<std::array<std::string, 4>> out;\n  for (const auto& t : transforms_)\n  {\n    out.push_back(t.getParamLabels());","  static std::vector<std::array<std::string, 4>> out;\n  out.clear();\n  for (const auto& t : transforms_)\n  {\n    out.push_back(t.getParamLabels());")]),
("c22-altered","C22",[(I+"modified_circle_grid_finder.cpp","      cv::Mat altered_image;\n","      static cv::Mat altered_image;\n")]),
("c22-charuco-corners","C22",[(I+"charuco_finder.cpp","  std::vector<cv::Point2f> charuco_corners;\n  std::vector<int> charuco_ids;\n","  static std::vector<cv::Point2f> charuco_corners;\n  static std::vector<int> charuco_ids;\n  charuco_corners.clear();\n  charuco_ids.clear();\n")]),
("c22-lock-removed","C22",[(O+"dh_chain.cpp","  std::lock_guard<std::mutex> lock(mt_rand_mutex);\n","")]),
("c22-lock-late","C22",[(O+"dh_chain.cpp","  static std::mutex mt_rand_mutex;\n  std::lock_guard<std::mutex> lock(mt_rand_mutex);\n","  static std::mutex mt_rand_mutex;\n  {\n    std::lock_guard<std::mutex> lock(mt_rand_mutex);\n  }\n")]),
("c22-pnp-scratch","C22",[(O+"pnp.cpp","#1:    // Transform","#1:    // Transform")]) if False else None,
# C21: history
("c21-sampler-static","C21",[(V+"homography_validation.cpp","  std::mt19937 rand_gen(seed);\n","  static std::mt19937 rand_gen(seed);\n")]),
("c21-hom-cache","C21",[(V+"homography_validation.cpp","  Eigen::MatrixXd b(2 * n_samples, 1);\n","  static Eigen::MatrixXd b;\n  b.conservativeResize(2 * n_samples, 1);\n"),(V+"homography_validation.cpp","  Eigen::Matrix<double, 3, 3, Eigen::RowMajor> H = Eigen::Matrix3d::Ones();\n","  static Eigen::Matrix<double, 3, 3, Eigen::RowMajor> H = Eigen::Matrix3d::Ones();\n"),(V+"homography_validation.cpp","    hv.head<8>() = A.colPivHouseholderQr().solve(b);\n","    const auto qr = A.colPivHouseholderQr();\n    if (qr.rank() == 8)\n      hv.head<8>() = qr.solve(b);\n")]),
("c21-threshold-once","C21",[(I+"circle_detector.cpp","  const double threshold_range = params.maxThreshold - params.minThreshold;\n","  static const double threshold_range = params.maxThreshold - params.minThreshold;\n")]),
("c21-quat-previous","C21",[(V+"noise_qualification.cpp","  q.coeffs() << svd.matrixU().col(0);\n","  q.coeffs() << svd.matrixU().col(0);\n  // Report neighboring means by neighboring quaternions\n  static Eigen::Quaterniond last = q;\n  if (last.dot(q) < 0)\n    q.coeffs() *= -1.0;\n  last = q;\n")]),
("c21-board-cache","C21",[(I+"charuco_finder.cpp","  cv::Ptr<cv::aruco::DetectorParameters> parameters = cv::aruco::DetectorParameters::create();\n","  static cv::Ptr<cv::aruco::DetectorParameters> parameters = cv::aruco::DetectorParameters::create();\n"),(I+"charuco_finder.cpp","  if (marker_ids.empty())\n  {\n","  if (marker_ids.empty())\n  {\n    // Try harder with the next image\n    parameters->adaptiveThreshConstant = 3;\n    parameters->minMarkerPerimeterRate = 0.3;\n")]),
("c21-cov-options","C21",[(O+"covariance_analysis.cpp","  ceres::Covariance covariance(options);\n","  static ceres::Covariance covariance(options);\n")]),
("c21-dh-fk","C21",[(OI+"dh_chain.h","    Eigen::Transform<T, 3, Eigen::Isometry> transform(Eigen::Transform<T, 3, Eigen::Isometry>::Identity());","    Eigen::Transform<T, 3, Eigen::Isometry> transform(Eigen::Transform<T, 3, Eigen::Isometry>::Identity());")]) if False else None,
# C12
("c12-unconverged","C12",[(V+"noise_qualification.cpp","#1:    if (result.converged)\n","#1:    if (result.converged || params.size() < 3)\n")]),
("c12-median","C12",[(V+"noise_qualification.cpp","    q_var += std::pow(q_stats.mean.angularDistance(q), 2.0);\n","    q_var += std::pow(2.0 * std::acos(std::min(1.0, std::abs(q_stats.mean.dot(q)))), 2.0);\n")]),
("c12-u","C12",[(V+"noise_qualification.cpp","    M += q.coeffs() * q.coeffs().transpose();\n","    M += q.coeffs() * q.coeffs().transpose() * std::abs(q.w());\n")]),
("c12-n","C12",[(V+"noise_qualification.cpp","  q_var /= static_cast<double>(quaternions.size() - 1);\n","  q_var /= static_cast<double>(quaternions.size() > 3 ? quaternions.size() - 1 : quaternions.size());\n")]),
# C26
("c26-page-height","C26",[(G,"    return (self.gridCount[0]*self.gridSpacing[0]+self.margins[0]*2,\r\n            self.gridCount[1]*self.gridSpacing[1]","    return (self.gridCount[0]*self.gridSpacing[0]+self.margins[0]*2,\r\n            self.gridCount[1]*self.gridSpacing[0]")]),
("c26-range","C26",[(G,"#2:    for c in range(0, self.gridCount[0]):\r\n","#2:    for c in range(0, min(self.gridCount[0], 10)):\r\n")]),
("c26-parity","C26",[(G,"if ( (r+c)%2 == 0):","if ( (r*self.gridCount[0]+c)%2 == 0):")]),
("c26-mark","C26",[(G,".03*self.dotSize",".03*10*mm")]),
("c26-stroke","C26",[(G,"#2:strokeWidth=0))  # big","#1:strokeWidth=1))  # big")]) if False else None,
("c26-invert-big","C26",[(G,"self.dotSize, fillColor=self.colorForeground, strokeColor=self.colorForeground, strokeWidth=0))  # big","self.dotSize, fillColor=black, strokeColor=black, strokeWidth=0))  # big")]),
("c26-footer-int","C26",[(G,"self.gridSpacing[0]/mm, self.gridSpacing[1]/mm, self.dotSize/mm)","self.gridSpacing[0]/mm, self.gridSpacing[1]/mm, int(self.dotSize/mm))")]),
("c26-dotsize-default","C26",[(G,"gridSpacing=args.spacing, dotSize=args.dotSize,","gridSpacing=args.spacing, dotSize=min(args.dotSize, args.spacing/2),")]),
# C24
("c24-yaw","C24",[("rct_common/include/rct_common/print_utils.h","eulerAngles(2, 1, 0)","eulerAngles(0, 1, 2)")]) if False else None,
]
P=[p for p in P if p]
