From 0e16627f1143e8a4cafbe7ce0a0dff0d567f4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 01/60] fix: divide by depth in projectPoint for points behind
 the camera

---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..b6b6b67 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z()) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From ffad00c7c019bbee788a0d91f4106ab79a03a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 02/60] fix: make PnP differentiable for guesses without
 rotation

---
 .../src/rct_optimizations/pnp.cpp             | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..0267825 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,15 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: this transformation is differentiable for all rotations, including zero rotation
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +56,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: this transformation is differentiable for all rotations, including zero rotation
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From a5ec5a8bd4eea6e5232fcf6c9c0cd49e93cb1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 03/60] fix: list covariance labels of six-vector poses in the
 order of their values

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 .../rct_optimizations/extrinsic_multi_static_camera_only.h    | 2 +-
 .../extrinsic_multi_static_camera_wrist_only.h                | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
index b369a08..f94922d 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
@@ -49,7 +49,7 @@ struct ExtrinsicMultiStaticCameraOnlyProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_base_to_target = "base_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
index 8b9de11..00c0ebd 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
@@ -50,7 +50,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem
    */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 344650bbe8c105a4e7590d80ad3c3fc943cd0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 04/60] fix: report a zero standard deviation for parameters
 without variance

---
 .../src/rct_optimizations/covariance_analysis.cpp        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..931d0dc 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -24,12 +24,11 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
-        if (sigma_j < std::numeric_limits<double>::epsilon())
-          sigma_j = 1;
+        // Do not divide by zero for parameters without variance, but leave their standard deviation as it is
+        const double scale_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
+        const double scale_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (scale_i * scale_j);
       }
     }
   }
-- 
2.43.0


From a695fb584528bccb15a65f35fee2600ba6dd4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 05/60] fix: refuse covariance requests for unknown parameter
 blocks and mismatched names

---
 .../src/rct_optimizations/covariance_analysis.cpp        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 931d0dc..284897f 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -39,6 +39,9 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
 CovarianceResult computeCovarianceResults(const Eigen::MatrixXd& cov_matrix,
                                           const std::vector<std::string>& parameter_names)
 {
+  if (static_cast<Eigen::Index>(parameter_names.size()) != cov_matrix.rows())
+    throw CovarianceException("Number of parameter names does not match the size of the covariance matrix");
+
   // 0. Save original covariance matrix output
   // For parameter blocks [p1, p2], the structure of this matrix will be:
   /*    |     p1    |     p2    |
@@ -109,6 +112,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::map<const double*, std::vector<std::string>> dummy_param_names;
   for (std::size_t block_index = 0; block_index < parameter_blocks.size(); block_index++)
   {
+    if (!problem.HasParameterBlock(parameter_blocks[block_index]))
+      throw CovarianceException("Provided parameter block is not part of the problem");
+
     int size = problem.ParameterBlockSize(parameter_blocks[block_index]);
     std::vector<std::string> block_names;
     for (int i = 0; i < size; i++)
@@ -152,6 +158,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
+    if (!problem.HasParameterBlock(b))
+      throw CovarianceException("Provided parameter block is not part of the problem");
+
     int block_size = problem.ParameterBlockSize(b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
-- 
2.43.0


From 9f6926fb41690b63e261dd687d076c37efe4a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 06/60] fix: refuse to report a non-finite covariance

---
 .../src/rct_optimizations/covariance_analysis.cpp              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 284897f..d24875c 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -201,6 +201,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
     throw CovarianceException("GetCovarianceMatrix failed in computeCovariance()");
   }
 
+  if (!cov_matrix.allFinite())
+    throw CovarianceException("Covariance is not finite in computeCovariance()");
+
   // 2. Extract the tangent space cov matrix
   Eigen::MatrixXd tangent_space_cov_matrix(tangent_space_labels.size(), tangent_space_labels.size());
   for (std::size_t r = 0; r < tangent_space_indices.size(); ++r)
-- 
2.43.0


From cdc1381f87961a2d0af225726f96c5d1fedf17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 07/60] fix: leave skipped images out of the intrinsic
 calibration covariance

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..e063601 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -235,7 +235,7 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
-- 
2.43.0


From 9be414844168dc654e24e1970c86caa06fdb559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 08/60] fix: return the target transforms estimated by the
 intrinsic calibration

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index e063601..555f8a5 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -268,6 +268,10 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.distortions[3] = internal_intrinsics_data[7];
   result.distortions[4] = internal_intrinsics_data[8];
 
+  result.target_transforms.reserve(internal_poses.size());
+  for (const Pose6d& pose : internal_poses)
+    result.target_transforms.push_back(poseCalToEigen(pose));
+
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-- 
2.43.0


From 65b569609cd3558878d181e2259a852d2765d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 09/60] fix: use the extrinsic guesses given to the intrinsic
 calibration

---
 .../rct_optimizations/experimental/camera_intrinsic.h    | 2 +-
 .../src/rct_optimizations/camera_intrinsic.cpp           | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index 7444477..a2578ce 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -11,7 +11,7 @@ struct IntrinsicEstimationProblem
 {
   std::vector<Correspondence2D3D::Set> image_observations;
   CameraIntrinsics intrinsics_guess;
-  bool use_extrinsic_guesses;
+  bool use_extrinsic_guesses = false;
   std::vector<Eigen::Isometry3d> extrinsic_guesses;
 
   std::string label_extr = "pose";
diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 555f8a5..95192ce 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -192,12 +192,17 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   std::vector<Pose6d> internal_poses(params.image_observations.size());
   std::vector<std::size_t> valid_idx;
 
-  // All of the target poses are seeded to be "in front of" and "looking at" the camera
+  if (params.use_extrinsic_guesses && params.extrinsic_guesses.size() != params.image_observations.size())
+    throw std::runtime_error("Number of extrinsic guesses does not match the number of image observations");
+
+  // Unless guesses are given, all of the target poses are seeded to be "in front of" and "looking at" the camera
   for (std::size_t i = 0; i < params.image_observations.size(); ++i)
   {
     try
     {
-      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guessInitialPose());
+      const Pose6d guess =
+          params.use_extrinsic_guesses ? poseEigenToCal(params.extrinsic_guesses[i]) : guessInitialPose();
+      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guess);
       valid_idx.push_back(i);
     }
     catch (const std::exception&)
-- 
2.43.0


From a75f499b1ddcd0b6ce9eaa4c1e095b1357d58ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 10/60] fix: compare correspondences and joint counts of
 kinematic observations

---
 rct_optimizations/include/rct_optimizations/types.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..69f33c5 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,8 +145,10 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
@@ -178,7 +180,9 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
-- 
2.43.0


From 71e72f06c0a9675155b16f64fdf3f9c845374a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 11/60] fix: keep joint names, limits and seeds of chains built
 with DH offsets

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..cde150d 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -53,11 +53,15 @@ DHChain::DHChain(std::vector<DHTransform> transforms, const Eigen::Isometry3d& b
 
 DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
 {
+  if (dh_offsets.rows() != static_cast<Eigen::Index>(other.transforms_.size()))
+    throw std::runtime_error("Number of rows of DH offsets does not match the number of DH transforms in the chain");
+
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    DHTransform transform = other.transforms_.at(i);
+    transform.params += dh_offsets.row(i).transpose();
+    transforms_.push_back(transform);
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From 1429e5b8f19246374a1ac42ce377f1f60198333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 12/60] fix: restore the orientation of saved hand-eye results

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..e36e502 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -111,11 +111,11 @@ struct convert<rct_optimizations::ExtrinsicHandEyeResult>
     rhs.final_cost_per_obs = node["final_cost_per_obs"].as<decltype(rhs.final_cost_per_obs)>();
 
     Eigen::Vector3d target_mount_to_target_pos = node["target_mount_to_target_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>();
     rhs.target_mount_to_target = toIsometry<double>(target_mount_to_target_pos, target_mount_to_target_rpy);
 
     Eigen::Vector3d camera_mount_to_camera_pos = node["camera_mount_to_camera_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>();
     rhs.camera_mount_to_camera = toIsometry<double>(camera_mount_to_camera_pos, camera_mount_to_camera_rpy);
 
     return true;
-- 
2.43.0


From 094e379024f9d2bd52deed7ae242ccd9f3377a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 13/60] fix: refuse vectors and transforms with additional
 fields

---
 .../include/rct_optimizations/serialization/eigen.h      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/eigen.h b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
index 4017eac..3b1659c 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/eigen.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
@@ -20,6 +20,9 @@ struct convert<Eigen::Matrix<FloatT, 2, 1>>
 
   static bool decode(const YAML::Node& node, T& val)
   {
+    if (node.size() != 2)
+      return false;
+
     val.x() = node["x"].as<FloatT>();
     val.y() = node["y"].as<FloatT>();
 
@@ -43,6 +46,9 @@ struct convert<Eigen::Matrix<FloatT, 3, 1>>
 
   static bool decode(const YAML::Node& node, T& val)
   {
+    if (node.size() != 3)
+      return false;
+
     val.x() = node["x"].as<FloatT>();
     val.y() = node["y"].as<FloatT>();
     val.z() = node["z"].as<FloatT>();
@@ -74,6 +80,9 @@ struct convert<Eigen::Transform<FloatT, 3, Eigen::Isometry>>
 
   static bool decode(const YAML::Node& node, T& val)
   {
+    if (node.size() != 7)
+      return false;
+
     Eigen::Matrix<FloatT, 3, 1> trans;
     trans.x() = node["x"].as<FloatT>();
     trans.y() = node["y"].as<FloatT>();
-- 
2.43.0


From 75d7482379d50d8dcdf6e9aaa4ef8cfdc60bbb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 14/60] fix: refuse DH chains whose transforms are not a list

---
 .../include/rct_optimizations/serialization/types.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..f631374 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -134,6 +134,9 @@ struct convert<rct_optimizations::DHChain>
     val.base_offset_ = n["base_transform"].as<Eigen::Isometry3d>();
 
     const YAML::Node& transforms = n["dh_transforms"];
+    if (!transforms.IsSequence())
+      return false;
+
     val.transforms_.clear();
     val.transforms_.reserve(transforms.size());
     for (std::size_t i = 0; i < transforms.size(); i++)
-- 
2.43.0


From 0c4196f48e588f984d91b762ba0135bde21757be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 15/60] fix: report non-negative homography errors for points
 with negative depth

---
 .../rct_optimizations/validation/homography_validation.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..c8ee2b6 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -204,8 +204,8 @@ Eigen::VectorXd calculateHomographyError(const Correspondence3D3D::Set& correspo
   // Calculate the homography error
   Eigen::VectorXd error = calculateHomographyError(correspondences_2d, correspondence_sampler);
 
-  // Scale the errors again by the z values of the original correspondences
-  return error.cwiseProduct(z_values);
+  // Scale the errors again by the (absolute) z values of the original correspondences
+  return error.cwiseProduct(z_values.cwiseAbs());
 }
 
 }  // namespace rct_optimizations
-- 
2.43.0


From efb486e37614cea65c33680a312819c3138526bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 16/60] fix: sample each correspondence for the homography at
 most once

---
 .../validation/homography_validation.cpp           | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index c8ee2b6..d74361c 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -1,5 +1,7 @@
 #include <rct_optimizations/validation/homography_validation.h>
 #include <Eigen/Dense>
+#include <algorithm>
+#include <numeric>
 #include <rct_optimizations/types.h>
 
 namespace rct_optimizations
@@ -63,14 +65,14 @@ RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n_cor
 
 std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const
 {
-  // Create a random number generator with a uniform distribution across all indices
+  // Shuffle all indices, such that each sampled correspondence is unique
   std::mt19937 rand_gen(seed);
-  std::uniform_int_distribution<std::size_t> dist(0, n_correspondences - 1);
-  auto fn = [&rand_gen, &dist]() -> std::size_t { return dist(rand_gen); };
+  std::vector<std::size_t> output(n_correspondences);
+  std::iota(output.begin(), output.end(), 0);
+  std::shuffle(output.begin(), output.end(), rand_gen);
 
-  // Generate a vector of 4 random correspondence indices
-  std::vector<std::size_t> output(n_samples);
-  std::generate(output.begin(), output.end(), fn);
+  // Keep the requested number of indices
+  output.resize(n_samples);
 
   return output;
 }
-- 
2.43.0


From 548114eca1c26718bdaf483d5e8b15c0373ad641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 17/60] fix: fit the homography to all sampled correspondences

---
 .../rct_optimizations/validation/homography_validation.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index d74361c..6fdede7 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -149,10 +149,10 @@ Eigen::VectorXd calculateHomographyError(const Correspondence2D3D::Set& correspo
   // Create the homography matrix
   Eigen::Matrix<double, 3, 3, Eigen::RowMajor> H = Eigen::Matrix3d::Ones();
 
-  // Map the elements of the H matrix into a column vector and solve for the first 8
+  // Map the elements of the H matrix into a column vector and solve for the first 8 in the least-squares sense
   {
     Eigen::Map<Eigen::VectorXd> hv(H.data(), 9);
-    hv.head<8>() = A.fullPivLu().solve(b);
+    hv.head<8>() = A.colPivHouseholderQr().solve(b);
   }
 
   // Estimate the image locations of all the target observations and compare to the actual image locations
-- 
2.43.0


From b73bc142ed9c9d13faef29b92457778b764bc949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 18/60] fix: refuse to measure the intrinsic calibration
 accuracy without observations

---
 .../validation/camera_intrinsic_calibration_validation.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..cbf00c8 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -64,6 +64,9 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
                                     const Eigen::Isometry3d& camera_base_to_target_base,
                                     const double pnp_sq_error_threshold)
 {
+  if (observations.empty())
+    throw OptimizationException("No observations were provided");
+
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
   for (std::size_t i = 0; i < observations.size() - 1; ++i)
-- 
2.43.0


From f68d664666a5ef7a618e303e08db8666d762728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 19/60] fix: let kinematic calibration rotate frames whose
 guess has no rotation

The derivative of the transform with respect to the angle axis vanished at zero
rotation, so the orientation of a frame with an identity guess was never calibrated
---
 .../rct_optimizations/dh_chain_kinematic_calibration.h     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..8b622b7 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -160,6 +160,13 @@ public:
     {
       result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
     }
+    else
+    {
+      // Use the first order approximation of the rotation such that its derivatives do not vanish at zero rotation
+      Eigen::Matrix<T, 3, 3> rot;
+      rot << T(1.0), -aa.z(), aa.y(), aa.z(), T(1.0), -aa.x(), -aa.y(), aa.x(), T(1.0);
+      result.linear() = rot;
+    }
     return result;
   }
 
-- 
2.43.0


From 0b3184b750a394ff1558216e7b69d485ab554037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 20/60] fix: keep the pose-based kinematic calibration
 differentiable without orientation error

The angular distance has no finite derivative at zero; ceres::IsNaN looks at the value of
a dual number only, so an exact orientation made the solver give up
---
 .../include/rct_optimizations/dh_chain_kinematic_calibration.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 8b622b7..98e5fc3 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -407,7 +407,8 @@ public:
     T rot_diff = Eigen::Quaternion<T>(camera_to_target_measured_.cast<T>().linear())
                      .angularDistance(Eigen::Quaternion<T>(camera_to_target.linear()));
 
-    residual[3] = ceres::IsNaN(rot_diff) ? T(0.0) : T(orientation_weight_) * rot_diff;
+    // The derivative of the angular distance is not finite when there is no orientation difference
+    residual[3] = rot_diff > T(0.0) ? T(orientation_weight_) * rot_diff : T(0.0);
 
     return true;
   }
-- 
2.43.0


From 5c327962130e8be904af5625ca280c030c85440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 21/60] fix: refuse maximum likelihood means and deviations of
 different shapes

---
 .../include/rct_optimizations/maximum_likelihood.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
index 1a26a60..d50591c 100644
--- a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
+++ b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
@@ -19,7 +19,7 @@ class MaximumLikelihood
 public:
   MaximumLikelihood(const Eigen::ArrayXXd& mean_, const Eigen::ArrayXXd& stdev_) : mean(mean_), stdev(stdev_)
   {
-    if (mean.size() != stdev.size())
+    if (mean.rows() != stdev.rows() || mean.cols() != stdev.cols())
       throw OptimizationException("Mean and standard deviation matrix are not the same size");
   }
 
-- 
2.43.0


From 2ca65717fa12d4c5b3b437a911278063057638a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 22/60] fix: refuse kinematic calibration data that does not
 fit the chains

Too many joint values ended the program inside a solver thread, too few were
silently evaluated at an intermediate link, and negative mask indices or no
observations at all aborted in the solver
---
 .../local_parameterization.h                  |  7 +++++
 .../dh_chain_kinematic_calibration.cpp        | 29 +++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/local_parameterization.h b/rct_optimizations/include/rct_optimizations/local_parameterization.h
index b907048..5a32b06 100644
--- a/rct_optimizations/include/rct_optimizations/local_parameterization.h
+++ b/rct_optimizations/include/rct_optimizations/local_parameterization.h
@@ -119,6 +119,13 @@ void addSubsetParameterization(ceres::Problem& problem, const std::map<const dou
           throw OptimizationException(ss.str());
         }
 
+        if (mask.front() < 0)
+        {
+          std::stringstream ss;
+          ss << "Mask indices cannot be negative (" << mask.front() << ")";
+          throw OptimizationException(ss.str());
+        }
+
         // Set local parameterization on the indices or set the entire block constant
         if (mask.size() >= block_size)
         {
diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index ca8c808..f950ae7 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -22,6 +22,31 @@ Eigen::Isometry3d createTransform(const Eigen::Vector3d& t, const Eigen::Vector3
   return result;
 }
 
+/**
+ * @brief Checks that there are observations and that the joint values of each fit the kinematic chains
+ * @throws OptimizationException
+ */
+template <typename ProblemT>
+void checkObservations(const ProblemT& params)
+{
+  if (params.observations.empty())
+    throw OptimizationException("Kinematic calibration requires at least one observation");
+
+  for (std::size_t i = 0; i < params.observations.size(); ++i)
+  {
+    const auto& obs = params.observations[i];
+    if (static_cast<std::size_t>(obs.camera_chain_joints.size()) != params.camera_chain.dof() ||
+        static_cast<std::size_t>(obs.target_chain_joints.size()) != params.target_chain.dof())
+    {
+      std::stringstream ss;
+      ss << "The joint values of observation " << i << " (camera chain: " << obs.camera_chain_joints.size()
+         << ", target chain: " << obs.target_chain_joints.size() << ") do not match the DoF of the kinematic chains ("
+         << params.camera_chain.dof() << ", " << params.target_chain.dof() << ")";
+      throw OptimizationException(ss.str());
+    }
+  }
+}
+
 void printLabels(const std::string& block_name, const std::vector<std::string>& param_labels)
 {
   std::cout << block_name << ":" << std::endl;
@@ -71,6 +96,8 @@ void printOptimizationLabels(ceres::Problem& problem,
 
 KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& params)
 {
+  checkObservations(params);
+
   // Initialize the optimization variables
   // Camera mount to camera (cm_to_c) unnormalized angle axis and translation
   Eigen::Vector3d t_cm_to_c(params.camera_mount_to_camera_guess.translation());
@@ -301,6 +328,8 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
                                     const double orientation_weight,
                                     const ceres::Solver::Options& options)
 {
+  checkObservations(params);
+
   // Initialize the optimization variables
   // Camera mount to camera (cm_to_c) quaternion and translation
   Eigen::Vector3d t_cm_to_c(params.camera_mount_to_camera_guess.translation());
-- 
2.43.0


From ac977c9df95c2a46a6e41ce0ae879ea93c8c734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 23/60] fix: leave placeholder offsets of chains without joints
 out of the covariance report

---
 .../dh_chain_kinematic_calibration.cpp               | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index f950ae7..54d2eb4 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -249,6 +249,12 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& param
   // Add subset parameterization to mask variables that shouldn't be optimized
   addSubsetParameterization(problem, param_masks);
 
+  // The dummy DH offsets are not parameters of the system, so leave them out of the reported results
+  if (params.camera_chain.dof() == 0)
+    param_masks[camera_chain_dh_offsets.data()] = { 0, 1, 2, 3 };
+  if (params.target_chain.dof() == 0)
+    param_masks[target_chain_dh_offsets.data()] = { 0, 1, 2, 3 };
+
   // Add a cost to drive the camera chain DH parameters towards an expected mean
   if (params.camera_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[0]))
   {
@@ -473,6 +479,12 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
   // Add subset parameterization to mask variables that shouldn't be optimized
   addSubsetParameterization(problem, param_masks);
 
+  // The dummy DH offsets are not parameters of the system, so leave them out of the reported results
+  if (params.camera_chain.dof() == 0)
+    param_masks[camera_chain_dh_offsets.data()] = { 0, 1, 2, 3 };
+  if (params.target_chain.dof() == 0)
+    param_masks[target_chain_dh_offsets.data()] = { 0, 1, 2, 3 };
+
   // Add a cost to drive the camera chain DH parameters towards an expected mean
   if (params.camera_chain.dof() != 0 && !problem.IsParameterBlockConstant(parameters[0]))
   {
-- 
2.43.0


From e3880196f2ce08e1b980a3d460b18dd91c2ad085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 24/60] fix: converge in kinematic calibration from pose
 measurements

The magnitude of the orientation error is not differentiable at the solution and
leaves a rank one Jacobian, so the solver stalled short of it; use the rotation vector
---
 .../dh_chain_kinematic_calibration.h                | 13 ++++++++-----
 .../dh_chain_kinematic_calibration.cpp              |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 98e5fc3..d67e383 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -404,11 +404,14 @@ public:
     residual[1] = tform_error.translation().y();
     residual[2] = tform_error.translation().z();
 
-    T rot_diff = Eigen::Quaternion<T>(camera_to_target_measured_.cast<T>().linear())
-                     .angularDistance(Eigen::Quaternion<T>(camera_to_target.linear()));
-
-    // The derivative of the angular distance is not finite when there is no orientation difference
-    residual[3] = rot_diff > T(0.0) ? T(orientation_weight_) * rot_diff : T(0.0);
+    // Use the full rotation vector rather than its magnitude, which cannot be differentiated where the error vanishes
+    const Eigen::Quaternion<T> rot_diff = Eigen::Quaternion<T>(camera_to_target_measured_.cast<T>().linear()) *
+                                          Eigen::Quaternion<T>(camera_to_target.linear()).conjugate();
+    const T rot_diff_wxyz[4] = { rot_diff.w(), rot_diff.x(), rot_diff.y(), rot_diff.z() };
+    ceres::QuaternionToAngleAxis(rot_diff_wxyz, residual + 3);
+    residual[3] *= T(orientation_weight_);
+    residual[4] *= T(orientation_weight_);
+    residual[5] *= T(orientation_weight_);
 
     return true;
   }
diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index 54d2eb4..0cf7bf7 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -464,7 +464,7 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
     cost_block->AddParameterBlock(3);
 
     // Residual error
-    cost_block->SetNumResiduals(4);
+    cost_block->SetNumResiduals(6);
 
     // Add the residual block to the problem
     problem.AddResidualBlock(cost_block, nullptr, parameters);
-- 
2.43.0


From ccdcc1b57f4a192c792552633f8ff83195650955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 25/60] fix: refuse features that do not match the modified
 circle grid target

---
 .../src/rct_image_tools/modified_circle_grid_target.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
index 2364a5e..58ccb83 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp
@@ -1,4 +1,6 @@
 #include "rct_image_tools/modified_circle_grid_target.h"
+#include <stdexcept>
+#include <string>
 
 namespace rct_image_tools
 {
@@ -21,7 +23,10 @@ rct_optimizations::Correspondence2D3D::Set
 ModifiedCircleGridTarget::createCorrespondences(const TargetFeatures& target_features) const
 {
   std::vector<Eigen::Vector3d> target_points = createPoints();
-  assert(target_features.size() == target_points.size());
+  if (target_features.size() != target_points.size())
+    throw std::runtime_error("Number of target features (" + std::to_string(target_features.size()) +
+                             ") does not match the number of points in the target (" +
+                             std::to_string(target_points.size()) + ")");
 
   rct_optimizations::Correspondence2D3D::Set correspondences;
   correspondences.reserve(target_features.size());
-- 
2.43.0


From 0bfda1646a51aafd196035cf00856e9cb1f06f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:22 +0000
Subject: [PATCH 26/60] fix: refuse target configurations without rows or
 columns or with an unknown dictionary

---
 rct_ros_tools/src/target_loader_plugins.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_ros_tools/src/target_loader_plugins.cpp b/rct_ros_tools/src/target_loader_plugins.cpp
index b8b613a..aa3f954 100644
--- a/rct_ros_tools/src/target_loader_plugins.cpp
+++ b/rct_ros_tools/src/target_loader_plugins.cpp
@@ -83,6 +83,9 @@ public:
     int rows = config["rows"].as<int>();
     int cols = config["cols"].as<int>();
     double spacing = config["spacing"].as<double>();
+    if (rows < 1 || cols < 1)
+      throw std::runtime_error("Modified circle grid target must have at least one row and one column");
+
     rct_image_tools::ModifiedCircleGridTarget target(rows, cols, spacing);
 
     try
@@ -113,6 +116,8 @@ public:
     float chessboard_dim = config["chessboard_dim"].as<float>();
     float aruco_marker_dim = config["aruco_marker_dim"].as<float>();
     int dictionary = config["dictionary"].as<int>();
+    if (dictionary < cv::aruco::DICT_4X4_50 || dictionary > cv::aruco::DICT_APRILTAG_36h11)
+      throw std::runtime_error("Unknown ArUco dictionary '" + std::to_string(dictionary) + "'");
 
     rct_image_tools::CharucoGridTarget target(rows, cols, chessboard_dim, aruco_marker_dim, dictionary);
     finder_ = std::make_shared<const rct_image_tools::CharucoGridBoardTargetFinder>(target);
-- 
2.43.0


From f24b052964afe62e52a782402b0da3345c41d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:21 +0000
Subject: [PATCH 27/60] fix: circle grid finder refuses grids that were not
 found completely

---
 .../modified_circle_grid_finder.cpp           | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..8742b6e 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -369,24 +369,18 @@ static std::vector<cv::Point2d> extractModifiedCircleGrid(const cv::Mat& image,
 
   std::vector<cv::Point2d> centers;
 
-  bool regular_pattern_found = cv::findCirclesGrid(
+  bool pattern_found = cv::findCirclesGrid(
       image, pattern_size, centers, cv::CALIB_CB_SYMMETRIC_GRID | cv::CALIB_CB_CLUSTERING, detector_ptr);
-  if (regular_pattern_found && (centers.size() == rows * cols))
+  if (!pattern_found || (centers.size() != rows * cols))  // Try flipped pattern size
   {
-    // Do nothing, there used to be something in here, may have
-    // to re-structure this in the future.
-  }
-  else  // Try flipped pattern size
-  {
-    bool flipped_pattern_found = cv::findCirclesGrid(
+    centers.clear();
+    pattern_found = cv::findCirclesGrid(
         image, pattern_size_flipped, centers, cv::CALIB_CB_SYMMETRIC_GRID | cv::CALIB_CB_CLUSTERING, detector_ptr);
-    if (flipped_pattern_found && (centers.size() == rows * cols))
-    {
-      flipped = true;
-    }
+    flipped = true;
   }
 
-  if (centers.size() == 0)
+  // Centers can be returned even if the complete pattern was not found
+  if (!pattern_found || centers.size() != rows * cols)
     throw std::runtime_error("Failed to find circle centers");
 
   return extractKeyPoints(image, centers, detector_ptr, rows, cols, flipped);
-- 
2.43.0


From 7c2a99955f9b3179dcae24206bd849487bb47b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 28/60] fix: use the flipped row length to locate the corners
 of a flipped circle grid

---
 .../rct_image_tools/modified_circle_grid_finder.cpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 8742b6e..c09740b 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -117,8 +117,8 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   std::size_t temp_cols = flipped ? rows : cols;
 
   std::size_t start_first_row = 0;
-  std::size_t end_first_row = cols - 1;
-  std::size_t start_last_row = rows * cols - cols;
+  std::size_t end_first_row = temp_cols - 1;
+  std::size_t start_last_row = rows * cols - temp_cols;
   std::size_t end_last_row = rows * cols - 1;
 
   // Determine size of corners relative to their adjacent circles
@@ -155,28 +155,28 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   // Comparing the start last row corner to the second point in the last row
   double start_last_row_rel_row_size = feature_sizes[start_last_row] / feature_sizes[start_last_row + 1];
   // Comparing the start last row corner to the start of the second to last row
-  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - cols];
+  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - temp_cols];
   // Find the average relative size of the start last row corner to its two adjacent circles
   start_last_row_avg_rel_size = (start_last_row_rel_row_size + start_last_row_rel_col_size) / 2.0;
 
   // Comparing the end last row corner to the second to last point in the last row
   double end_last_row_rel_row_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - 1];
   // Comparing the end last row corner to the end of the second to last row
-  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - cols];
+  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - temp_cols];
   // Find the average relative size of the end last row corner to its two adjacent circles
   end_last_row_avg_rel_size = (end_last_row_rel_row_size + end_last_row_rel_col_size) / 2.0;
 
   // Comparing the start fisrt row corner to the second point in the first row
   double start_first_row_rel_row_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + 1];
   // Comparing the start first row corner to the start of the second  row
-  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + cols];
+  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + temp_cols];
   // Find the average relative size of the start first row corner to its two adjacent circles
   start_first_row_avg_rel_size = (start_first_row_rel_row_size + start_first_row_rel_col_size) / 2.0;
 
   // Comparing the end first row corner to the second to last point in the first row
   double end_first_row_rel_row_size = feature_sizes[end_first_row] / feature_sizes[end_first_row - 1];
   // Comparing the end first row corner to the end of the second row
-  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + cols];
+  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + temp_cols];
   // Find the average relative size of the end first row corner to its two adjacent circles
   end_first_row_avg_rel_size = (end_first_row_rel_row_size + end_first_row_rel_col_size) / 2.0;
 
-- 
2.43.0


From fa174a8f98f65b5cee93d6dcb967dbb6bc61a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:39 +0000
Subject: [PATCH 29/60] fix: order of mirrored circle grids with the large
 circle at the end of the last or start of the first row

---
 .../rct_image_tools/modified_circle_grid_finder.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index c09740b..1556b04 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -297,11 +297,11 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     }
     else  // unusual ordering
     {
-      for (std::size_t j = 0; j < temp_cols; j++)
+      for (std::size_t k = 0; k < temp_rows; k++)
       {
-        for (std::size_t k = 0; k < temp_rows; k++)
+        for (int j = static_cast<int>(temp_cols) - 1; j >= 0; j--)
         {
-          observation_points.push_back(feature_coordinates[k * temp_cols + j]);
+          observation_points.push_back(feature_coordinates[k * temp_cols + static_cast<std::size_t>(j)]);
         }
       }
     }
@@ -332,12 +332,11 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     }
     else  // unusual ordering
     {
-      for (int j = static_cast<int>(temp_cols) - 1; j >= 0; j--)
+      for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
       {
-        for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
+        for (std::size_t j = 0; j < temp_cols; j++)
         {
-          observation_points.push_back(
-              feature_coordinates[static_cast<std::size_t>(k) * temp_cols + static_cast<std::size_t>(j)]);
+          observation_points.push_back(feature_coordinates[static_cast<std::size_t>(k) * temp_cols + j]);
         }
       }
     }
-- 
2.43.0


From fd5ab1bfd35a201dc14f0a26ebde33719622182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:48 +0000
Subject: [PATCH 30/60] fix: refuse circle grids too small to locate the large
 circle

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 1556b04..4ba238d 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -391,8 +391,8 @@ ModifiedCircleGridTargetFinder::ModifiedCircleGridTargetFinder(const ModifiedCir
                                                                const CircleDetectorParams& params)
   : TargetFinder(), target_(target), params_(params)
 {
-  assert(target_.cols > 0);
-  assert(target_.rows > 0);
+  if (target_.cols < 2 || target_.rows < 2)
+    throw std::runtime_error("Modified circle grid target must have at least two rows and two columns");
 }
 
 ModifiedCircleGridTargetFinder::ModifiedCircleGridTargetFinder(const ModifiedCircleGridTarget& target)
-- 
2.43.0


From b48817dffa550b77a8db7a17c301ec816bf69a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 31/60] fix: do not read the color of circle centers outside of
 the image

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..2d971ca 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,12 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of a fitted ellipse may be located outside of the image, in which case it has no color
+      const cv::Point center_pixel(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(cv::Point(0, 0), binarized_image.size()).contains(center_pixel))
+        continue;
+
+      if (binarized_image.at<uchar>(center_pixel) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From cf028a097a3b0a1da52a2e3108bdbdcc11fa3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:02 +0000
Subject: [PATCH 32/60] fix: do not report ArUco markers that are not part of
 the target

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 528129c..67f4240 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -25,6 +25,10 @@ TargetFeatures ArucoGridBoardTargetFinder::findTargetFeatures(const cv::Mat& ima
 
   for (unsigned i = 0; i < marker_ids.size(); i++)
   {
+    // Skip markers of the same dictionary that do not belong to the target
+    if (target_.points.find(marker_ids[i]) == target_.points.end())
+      continue;
+
     std::vector<cv::Point2f> corner_pts = marker_corners[i];
     VectorEigenVector<2> obs_pts(4);
 
-- 
2.43.0


From f81a7ae82700f2a05b15f62d78f38809443c2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 33/60] fix: draw ArUco and ChArUco features on a copy of the
 image

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp   | 5 +++--
 rct_image_tools/src/rct_image_tools/charuco_finder.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 67f4240..7eccc35 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -55,7 +55,8 @@ cv::Mat ArucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     });
     marker_corners.push_back(cv_obs);
   }
-  cv::aruco::drawDetectedMarkers(image, marker_corners, marker_ids);
-  return image;
+  cv::Mat output = image.clone();
+  cv::aruco::drawDetectedMarkers(output, marker_corners, marker_ids);
+  return output;
 }
 }  // namespace rct_image_tools
diff --git a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
index 0107117..f1aab9f 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
@@ -65,9 +65,10 @@ cv::Mat CharucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
   }
 
   // Draw the detected corners
-  cv::aruco::drawDetectedCornersCharuco(image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
+  cv::Mat output = image.clone();
+  cv::aruco::drawDetectedCornersCharuco(output, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
 
-  return image;
+  return output;
 }
 
 }  // namespace rct_image_tools
-- 
2.43.0


From 51565ae6df5e5f4f1e6a1b2d8d7295ddff22950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 34/60] fix: load data sets from the current directory by file
 name

---
 rct_ros_tools/src/data_set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09ae4e7..5596c58 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -11,7 +11,8 @@
 static std::string rootPath(const std::string& filename)
 {
   const auto last_idx = filename.find_last_of('/');
-  assert(last_idx != std::string::npos);
+  if (last_idx == std::string::npos)
+    return ".";  // The file is in the current directory
   return filename.substr(0, last_idx);
 }
 
-- 
2.43.0


From e8e7866e9266ab561e72d55a39ddd47fc5b5abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 35/60] fix: refuse to save data sets with different numbers of
 images and poses

---
 rct_ros_tools/src/data_set.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 5596c58..8bff1e3 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -100,6 +100,12 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
+  if (data.images.size() != data.tool_poses.size())
+  {
+    ROS_ERROR_STREAM("Data set has " << data.images.size() << " images but " << data.tool_poses.size() << " tool poses");
+    return false;
+  }
+
   mkdir(path.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/images").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/poses").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-- 
2.43.0


From 2c8acb73ed97bac115e4fd0733411df604bcad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 36/60] fix: report failures to write a data set

---
 rct_ros_tools/src/data_set.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 8bff1e3..024323a 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -74,14 +74,16 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
   }
 }
 
-void writePose(const std::string& path, const Eigen::Isometry3d& pose)
+bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
 {
   YAML::Node root(pose);
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return ofh.good();
 }
 
-void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
+bool writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
   YAML::Node root;
 
@@ -96,6 +98,8 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return ofh.good();
 }
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
@@ -113,16 +117,28 @@ bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
     auto name = path + "/images/" + std::to_string(i) + ".png";
-    cv::imwrite(name, data.images[i]);
+    if (!cv::imwrite(name, data.images[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write image: " << name);
+      return false;
+    }
   }
 
   for (std::size_t i = 0; i < data.tool_poses.size(); ++i)
   {
     auto name = path + "/poses/" + std::to_string(i) + ".yaml";
-    writePose(name, data.tool_poses[i]);
+    if (!writePose(name, data.tool_poses[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write pose: " << name);
+      return false;
+    }
   }
 
-  writeDirectory(path + "/data.yaml", data);
+  if (!writeDirectory(path + "/data.yaml", data))
+  {
+    ROS_ERROR_STREAM("Failed to write data set file in: " << path);
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From e547e1be166ec757abc16ac725255d7f2f6864e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 37/60] fix: do not leave a previous data set index next to
 partially overwritten entries

---
 rct_ros_tools/src/data_set.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 024323a..1328c61 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -3,6 +3,7 @@
 #include <rct_image_tools/image_utils.h>
 #include <rct_optimizations/serialization/eigen.h>
 
+#include <cstdio>
 #include <fstream>
 #include <opencv2/highgui.hpp>
 #include <ros/console.h>
@@ -114,6 +115,9 @@ bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools
   mkdir((path + "/images").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/poses").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
 
+  // Remove the index of a previous data set, such that its entries are not mixed with new ones if saving does not complete
+  std::remove((path + "/data.yaml").c_str());
+
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
     auto name = path + "/images/" + std::to_string(i) + ".png";
-- 
2.43.0


From 201fe0c8525fcec6abe70362e39478f4e0fc0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 38/60] fix: refuse cameras with different numbers of images in
 a correspondence data set

---
 rct_ros_tools/src/data_set.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 1328c61..760e400 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -156,8 +156,15 @@ rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
   if (debug)
     cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
 
-  correspondences_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
-  mask_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
+  const std::size_t n_images = extrinsic_data_set.empty() ? 0 : extrinsic_data_set[0].images.size();
+  for (const rct_ros_tools::ExtrinsicDataSet& data_set : extrinsic_data_set)
+  {
+    if (data_set.images.size() != n_images)
+      throw std::runtime_error("All cameras must have the same number of images");
+  }
+
+  correspondences_.resize(extrinsic_data_set.size(), n_images);
+  mask_.resize(extrinsic_data_set.size(), n_images);
   for (std::size_t c = 0; c < extrinsic_data_set.size(); ++c)
   {
     // We know it exists, so define a helpful alias
-- 
2.43.0


From dbf34bbf2fa693a923c672ae24f029c6425a1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 39/60] fix: refuse data set files that do not contain a list

---
 rct_ros_tools/src/data_set.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 760e400..fe6626f 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -33,6 +33,9 @@ rct_ros_tools::ExtrinsicDataSet parse(const YAML::Node& root, const std::string&
 {
   rct_ros_tools::ExtrinsicDataSet data;
 
+  if (root.IsScalar())
+    throw YAML::Exception(root.Mark(), "Data set is not a list of entries");
+
   for (std::size_t i = 0; i < root.size(); ++i)
   {
     // Each entry should have a pose and image path. This path is relative to the root_path directory!
-- 
2.43.0


From 4e738991cee514478a601f47fbbe9daef25defa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 40/60] fix: do not read circle grid features that are not
 there when drawing

---
 .../src/rct_image_tools/modified_circle_grid_finder.cpp  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 4ba238d..6f16765 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -38,12 +38,15 @@ static cv::Mat renderObservations(const cv::Mat& input,
     cv::Mat center_image = cv::Mat(observation_points);
     cv::Mat center_converted;
     center_image.convertTo(center_converted, CV_32F);
-    cv::drawChessboardCorners(output_image, pattern_size, center_converted, true);
+    // An incomplete set of observations cannot be drawn as a pattern
+    const bool complete = observation_points.size() == static_cast<std::size_t>(pattern_size.area());
+    cv::drawChessboardCorners(output_image, pattern_size, center_converted, complete);
 
     // Draw point labels // TODO
     drawPointLabel("First Point", observation_points[0], cv::Scalar(0, 255, 0), output_image);
-    drawPointLabel(
-        "Origin", observation_points[target.rows * target.cols - target.cols], cv::Scalar(255, 0, 0), output_image);
+    if (complete)
+      drawPointLabel(
+          "Origin", observation_points[target.rows * target.cols - target.cols], cv::Scalar(255, 0, 0), output_image);
     drawPointLabel(
         "Last Point", observation_points[observation_points.size() - 1], cv::Scalar(0, 0, 255), output_image);
   }
-- 
2.43.0


From eedf933f8de42f16c2c5f00e0fce9dbb13cee8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 41/60] fix: do not race on the random generator shared by all
 kinematic chains

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index cde150d..241bac2 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -1,4 +1,5 @@
 #include <rct_optimizations/dh_chain.h>
+#include <mutex>
 #include <random>
 
 namespace rct_optimizations
@@ -28,6 +29,10 @@ double DHTransform::createRandomJointValue() const
   // Create a static random number generator so that this object does not get continuously re-instantiated
   static std::mt19937 mt_rand = std::mt19937(random_seed);
 
+  // The generator is shared by all joints of all chains, which may be used by different threads
+  static std::mutex mt_rand_mutex;
+  std::lock_guard<std::mutex> lock(mt_rand_mutex);
+
   // Create a new uniform distribution object with the current min and max values
   std::uniform_real_distribution<double> dist(min, max);
 
-- 
2.43.0


From 35d81592acc8b6621943e1eea190d6eb7d72279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 42/60] fix: noise qualification tool reads every image instead
 of the first one only

---
 rct_examples/src/tools/noise_qualification_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 97f6e7d..3168f2a 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -62,7 +62,7 @@ int main(int argc, char** argv)
       // Each entry should have an image path. This path is relative to the root_path directory!
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
-      static cv::Mat image = readImageOpenCV(image_name);
+      cv::Mat image = readImageOpenCV(image_name);
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From 74381aee5b59b3b7c79a38671920b1d1edcf779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 43/60] fix: multi static camera tool reports an unreadable
 data set instead of dereferencing an empty optional

---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 14a817e..c51ebf6 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -108,7 +108,7 @@ int main(int argc, char** argv)
       data_path[c] = get<std::string>(pnh, param_name);
 
       // Attempt to load the data set from the specified path
-      boost::optional<ExtrinsicDataSet> data_set = *parseFromFile(data_path[c]);
+      boost::optional<ExtrinsicDataSet> data_set = parseFromFile(data_path[c]);
       if (!data_set)
         throw std::runtime_error("Failed to parse data set from path = " + data_path[c]);
       maybe_data_set[c] = *data_set;
-- 
2.43.0


From da53aea7bcbf08fbbcd49eca988d4a8b602a67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 44/60] fix: intrinsic calibration tool reports a data set
 without images instead of reading its first image

---
 rct_examples/src/tools/intrinsic_calibration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rct_examples/src/tools/intrinsic_calibration.cpp b/rct_examples/src/tools/intrinsic_calibration.cpp
index c75efe7..6f2d00a 100644
--- a/rct_examples/src/tools/intrinsic_calibration.cpp
+++ b/rct_examples/src/tools/intrinsic_calibration.cpp
@@ -93,6 +93,8 @@ int main(int argc, char** argv)
     if (!maybe_data_set)
       throw std::runtime_error("Failed to parse data set from path = " + data_path);
     auto& data_set = *maybe_data_set;
+    if (data_set.images.empty())
+      throw std::runtime_error("No images loaded from path = " + data_path);
 
     // Load the target finder
     auto target_finder_config = get<XmlRpc::XmlRpcValue>(pnh, "target_finder");
-- 
2.43.0


From d2d272558389d6a6c1c8f4e95c4abfdc0a1236e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 45/60] fix: multi step calibration tool shows reprojections on
 the image that they belong to

---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index e85653b..b5296ff 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -143,6 +143,9 @@ int main(int argc, char** argv)
 
     ExtrinsicCorrespondenceDataSet corr_data_set(maybe_data_set, *target_finder, true);
 
+    // The images in which all cameras found the target
+    std::vector<cv::Mat> found_images;
+
     // build problem
     problem_def.fix_first_camera = fix_first_camera;
     for (std::size_t i = 0; i < corr_data_set.getImageCount(); ++i)
@@ -153,6 +156,7 @@ int main(int argc, char** argv)
       {
         problem_def.base_to_target_guess.push_back(maybe_data_set[0].tool_poses[i] * wrist_to_target);
         problem_wrist_def.wrist_poses.push_back(maybe_data_set[0].tool_poses[i]);
+        found_images.push_back(maybe_data_set[0].images[i]);
         for (std::size_t c = 0; c < corr_data_set.getCameraCount(); ++c)
         {
           problem_def.image_observations[c].push_back(corr_data_set.getCorrespondenceSet(c, i));
@@ -239,7 +243,7 @@ int main(int argc, char** argv)
       }
 
       printTitle("REPROJECT IMAGE " + std::to_string(i));
-      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[i], corr_set);
+      reproject(base_to_target, base_to_camera, intr, found_images[i], corr_set);
     }
   }
   catch (const std::exception& ex)
-- 
2.43.0


From 17e0db7ca31b54a517738c86a4cd4028d34b957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 46/60] fix: noise qualification tool reports that no image is
 usable instead of statistics of nothing

---
 rct_examples/src/tools/noise_qualification_2d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 3168f2a..0830d10 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -96,6 +96,9 @@ int main(int argc, char** argv)
       problem_set.push_back(problem);
     }
 
+    if (problem_set.empty())
+      throw std::runtime_error("The target was not found in any of the images");
+
     // Perform the noise qualification
     PnPNoiseStat result = qualifyNoise2D(problem_set);
 
-- 
2.43.0


From 32a209aa5704cbef76687c21f91ea60666d64fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 47/60] fix: multi step tool reports that no image is usable
 instead of returning the guesses as converged

---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index b5296ff..b9cb05e 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -164,6 +164,9 @@ int main(int argc, char** argv)
       }
     }
 
+    if (found_images.empty())
+      throw std::runtime_error("There is no image in which all cameras found the target");
+
     // Run optimization
     printTitle("Running calibration for only cameras");
 
-- 
2.43.0


From 71c631c3344f19367d20af278a4da6f9fbd07d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 48/60] fix: data collection node survives every exception of
 the target finder, such as those of OpenCV

---
 rct_ros_tools/src/command_line_cal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 16fca3b..2a78548 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -91,7 +91,7 @@ public:
         cv_bridge::CvImagePtr ptr(new cv_bridge::CvImage(cv_ptr->header, cv_ptr->encoding, modified_image));
         im_pub_.publish(ptr->toImageMsg());
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_ERROR_STREAM(ex.what());
         im_pub_.publish(cv_ptr->toImageMsg());
-- 
2.43.0


From d5c9e4ce8c0fd0517b7a440a518b555674902046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 49/60] fix: data collection node tells the caller that the
 data set could not be saved

---
 rct_ros_tools/src/command_line_cal.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 2a78548..65a5ed8 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -182,8 +182,7 @@ struct DataCollection
     }
 
     ROS_INFO_STREAM("Saving data-set to " << save_dir_);
-    rct_ros_tools::saveToDirectory(save_dir_, data);
-    return true;
+    return rct_ros_tools::saveToDirectory(save_dir_, data);
   }
 
   ros::ServiceServer trigger_server;
-- 
2.43.0


From d8bc2365998301158e1a9000ccda104487644f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 50/60] fix: data collection node ignores empty images instead
 of going down or collecting what cannot be saved

---
 rct_ros_tools/src/command_line_cal.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 65a5ed8..cc7a97f 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -81,6 +81,8 @@ public:
       {
         cv_ptr = cv_bridge::toCvCopy(msg, sensor_msgs::image_encodings::BGR8);
       }
+      if (cv_ptr->image.empty())
+        throw std::runtime_error("Received an empty image");
       last_frame_ = cv_ptr;
 
       try
@@ -97,9 +99,9 @@ public:
         im_pub_.publish(cv_ptr->toImageMsg());
       }
     }
-    catch (cv_bridge::Exception& e)
+    catch (const std::exception& e)
     {
-      ROS_ERROR("cv_bridge exception: %s", e.what());
+      ROS_ERROR("Failed to read image: %s", e.what());
       return;
     }
   }
-- 
2.43.0


From 1f6f3994c3d954cef4bc70f3f1ea33f8ac584a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 51/60] fix: noise qualification tool skips an unreadable image
 instead of giving up

---
 rct_examples/src/tools/noise_qualification_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 0830d10..7d925cd 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -63,6 +63,11 @@ int main(int argc, char** argv)
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
       cv::Mat image = readImageOpenCV(image_name);
+      if (image.empty())
+      {
+        ROS_WARN_STREAM("Image " << i << ": failed to load. Skipping...");
+        continue;
+      }
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From e69398cb6b6c4fa29163c28d2e09599e3245391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 52/60] fix: a pose read from YAML is a rigid transform
 whatever the length of its quaternion

---
 .../include/rct_optimizations/serialization/eigen.h            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/eigen.h b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
index 3b1659c..972367d 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/eigen.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/eigen.h
@@ -94,7 +94,8 @@ struct convert<Eigen::Transform<FloatT, 3, Eigen::Isometry>>
     quat.y() = node["qy"].as<FloatT>();
     quat.z() = node["qz"].as<FloatT>();
 
-    val = Eigen::Translation<FloatT, 3>(trans) * quat;
+    // A quaternion of any length represents a rotation once it is normalized
+    val = Eigen::Translation<FloatT, 3>(trans) * quat.normalized();
 
     return true;
   }
-- 
2.43.0


From 6bca98a1be3e0daad554351d90f073a36adaeb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 53/60] fix: calibration_target.py accepts a grid spacing per
 axis

---
 rct_image_tools/script/calibration_target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_image_tools/script/calibration_target.py b/rct_image_tools/script/calibration_target.py
index 5951794..4dcbe4c 100644
--- a/rct_image_tools/script/calibration_target.py
+++ b/rct_image_tools/script/calibration_target.py
@@ -31,7 +31,7 @@ class calTarget:
   def __init__(self, gridCount, gridSpacing=None, invert=False):
     self.gridCount = gridCount;
     gridSpacing = 25 if gridSpacing is None else gridSpacing
-    self.gridSpacing = gridSpacing*mm if hasattr(gridSpacing, "__len__") else (gridSpacing*mm, gridSpacing*mm)
+    self.gridSpacing = tuple(s*mm for s in gridSpacing) if hasattr(gridSpacing, "__len__") else (gridSpacing*mm, gridSpacing*mm)
     if invert:
         self.colorBackground = black
         self.colorForeground = white
-- 
2.43.0


From ba9243755112623987a65060f8ec4e9eecb93bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 54/60] fix: dot target page holds the large dot beside the
 grid

---
 rct_image_tools/script/calibration_target.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rct_image_tools/script/calibration_target.py b/rct_image_tools/script/calibration_target.py
index 4dcbe4c..a26fa02 100644
--- a/rct_image_tools/script/calibration_target.py
+++ b/rct_image_tools/script/calibration_target.py
@@ -87,8 +87,9 @@ class dotTarget(calTarget):
     calTarget.__init__(self, gridCount, gridSpacing, invert=invert)
 
   def get_pageSize(self):
-    return ((self.gridCount[0]-1)*self.gridSpacing[0]+self.dotSize+self.margins[0]*3,
-            (self.gridCount[1]-1)*self.gridSpacing[1]+self.dotSize+self.margins[1]*3)
+    # the first dot is surrounded by the big corner dot, all others have half its size
+    return tuple(self.dotSize + max((self.gridCount[i]-1)*self.gridSpacing[i]+self.dotSize/2, self.dotSize) + self.margins[i]*2
+                 for i in range(2))
 
   def description(self):
     fmtStr = 'Dot Target, {0}x{1} grid, {2}x{3}mm spacing, {4}mm dots'
-- 
2.43.0


From ebd58979b006ecefb0ad20c156f26a1feabab3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 55/60] fix: saving a target as an image leaves the target
 itself unscaled

---
 rct_image_tools/script/calibration_target.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rct_image_tools/script/calibration_target.py b/rct_image_tools/script/calibration_target.py
index a26fa02..7e4a9b1 100644
--- a/rct_image_tools/script/calibration_target.py
+++ b/rct_image_tools/script/calibration_target.py
@@ -48,8 +48,9 @@ class calTarget:
     if (ext == 'pdf'):
       renderPDF.drawToFile(self.drawing, filename)
     elif ext in ('png','jpg'):
-      self.drawing.scale(dpi/72.0, dpi/72.0)
-      renderPM.drawToFile(self.drawing, filename, dpi=dpi, fmt=ext)
+      drawing = self.drawing.copy()  # the scale applies to this file only
+      drawing.scale(dpi/72.0, dpi/72.0)
+      renderPM.drawToFile(drawing, filename, dpi=dpi, fmt=ext)
     else:
       raise NotImplementedError('Unknown file type: '+ext)
 
-- 
2.43.0


From 803f09235ae7bf97e89e234274156540962b0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 56/60] fix: calibration_target.py --invert False no longer
 inverts

---
 rct_image_tools/script/calibration_target.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/script/calibration_target.py b/rct_image_tools/script/calibration_target.py
index 7e4a9b1..a6f447e 100644
--- a/rct_image_tools/script/calibration_target.py
+++ b/rct_image_tools/script/calibration_target.py
@@ -107,6 +107,13 @@ class dotTarget(calTarget):
         self.drawing.add(Circle(xy[0], xy[1], self.dotSize/2, fillColor=self.colorForeground, strokeColor=self.colorForeground, strokeWidth=0))
         self.drawing.add(Circle(xy[0], xy[1], .03*self.dotSize, fillColor=self.colorBackground, strokeColor=self.colorBackground, strokeWidth=0))
 
+def parse_bool(value):
+  if value.lower() in ('true', 't', 'yes', 'y', '1'):
+    return True
+  if value.lower() in ('false', 'f', 'no', 'n', '0', ''):
+    return False
+  raise argparse.ArgumentTypeError('Boolean value expected, not ' + value)
+
 def parse_args():
   parser = argparse.ArgumentParser(description='Generate calibration target')
   parser.add_argument('type', type=str, choices=['checker','dot'], help='Type of target')
@@ -117,7 +124,7 @@ def parse_args():
   parser.add_argument('--dpi', type=int, default=300, help='dots per inch (pixel formats only)')
   parser.add_argument('--addFooter', action='store_true', help='add footer text')
   parser.add_argument('-o',dest='filename',type=str, default='calibrationTarget.pdf', help='output filename (supports .pdf, .png, .jpg, ...)')
-  parser.add_argument('--invert', type=bool, default=False, help='If true, draw white dots on black background. Otherwise draw black dots on white background.')
+  parser.add_argument('--invert', type=parse_bool, default=False, help='If true, draw white dots on black background. Otherwise draw black dots on white background.')
   return parser.parse_args()
 
 if __name__=="__main__":
-- 
2.43.0


From 7e0970fff157bd75ffaa2b4b9160fa20f89cd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 57/60] fix: kinematic calibration example normalizes the
 quaternions of its measurements

---
 rct_examples/src/examples/kinematic_calibration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/examples/kinematic_calibration.cpp b/rct_examples/src/examples/kinematic_calibration.cpp
index de415c2..83a35fe 100644
--- a/rct_examples/src/examples/kinematic_calibration.cpp
+++ b/rct_examples/src/examples/kinematic_calibration.cpp
@@ -56,7 +56,7 @@ KinematicMeasurement::Set loadMeasurements(const std::string& filename)
 
         measurement.camera_to_target = Eigen::Isometry3d::Identity();
         measurement.camera_to_target.translate(Eigen::Vector3d(x, y, z));
-        measurement.camera_to_target.rotate(Eigen::Quaterniond(qw, qx, qy, qz));
+        measurement.camera_to_target.rotate(Eigen::Quaterniond(qw, qx, qy, qz).normalized());
 
         // Add the measurement to the set
         measurements.push_back(measurement);
-- 
2.43.0


From 4c8340942290f2d8a36b053687c795fe8460a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 58/60] fix: kinematic calibration example refuses measurements
 whose joints do not match the chains

---
 rct_examples/src/examples/kinematic_calibration.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_examples/src/examples/kinematic_calibration.cpp b/rct_examples/src/examples/kinematic_calibration.cpp
index 83a35fe..d0f3624 100644
--- a/rct_examples/src/examples/kinematic_calibration.cpp
+++ b/rct_examples/src/examples/kinematic_calibration.cpp
@@ -219,6 +219,14 @@ int main(int argc, char** argv)
   // Create the problem
   KinematicCalibrationProblemPose6D problem(DHChain(std::vector<DHTransform>{}), createTwoAxisPositioner());
 
+  // Every measurement must give the joints of both chains
+  for (const KinematicMeasurement& m : measurements)
+  {
+    if (m.camera_chain_joints.size() != static_cast<Eigen::Index>(problem.camera_chain.dof()) ||
+        m.target_chain_joints.size() != static_cast<Eigen::Index>(problem.target_chain.dof()))
+      throw BadFileException("Number of joint values of a measurement does not match the kinematic chain");
+  }
+
   // Add the observations
   problem.observations = measurements;
 
-- 
2.43.0


From 770d68a84b70773f74258de6bf757d3635c7893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 59/60] fix: kinematic calibration example reports a failed
 calibration instead of terminating

---
 rct_examples/src/examples/kinematic_calibration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_examples/src/examples/kinematic_calibration.cpp b/rct_examples/src/examples/kinematic_calibration.cpp
index d0f3624..a4025b5 100644
--- a/rct_examples/src/examples/kinematic_calibration.cpp
+++ b/rct_examples/src/examples/kinematic_calibration.cpp
@@ -205,6 +205,7 @@ bool get(const ros::NodeHandle& nh, const std::string& key, T& val)
 }
 
 int main(int argc, char** argv)
+try
 {
   ros::init(argc, argv, "kinematic_calibration_example");
   ros::NodeHandle pnh("~");
@@ -304,3 +305,8 @@ int main(int argc, char** argv)
 
   return 0;
 }
+catch (const std::exception& ex)
+{
+  ROS_ERROR_STREAM("Kinematic calibration failed: " << ex.what());
+  return -1;
+}
-- 
2.43.0


From c1e6438e24ac659cbf09148b27ef8f3704cc20a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 60/60] Revert the three repairs of the kinematic calibration
 example (its folder counts as examples, which stay as they were)

---
 .../src/examples/kinematic_calibration.cpp       | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/rct_examples/src/examples/kinematic_calibration.cpp b/rct_examples/src/examples/kinematic_calibration.cpp
index a4025b5..de415c2 100644
--- a/rct_examples/src/examples/kinematic_calibration.cpp
+++ b/rct_examples/src/examples/kinematic_calibration.cpp
@@ -56,7 +56,7 @@ KinematicMeasurement::Set loadMeasurements(const std::string& filename)
 
         measurement.camera_to_target = Eigen::Isometry3d::Identity();
         measurement.camera_to_target.translate(Eigen::Vector3d(x, y, z));
-        measurement.camera_to_target.rotate(Eigen::Quaterniond(qw, qx, qy, qz).normalized());
+        measurement.camera_to_target.rotate(Eigen::Quaterniond(qw, qx, qy, qz));
 
         // Add the measurement to the set
         measurements.push_back(measurement);
@@ -205,7 +205,6 @@ bool get(const ros::NodeHandle& nh, const std::string& key, T& val)
 }
 
 int main(int argc, char** argv)
-try
 {
   ros::init(argc, argv, "kinematic_calibration_example");
   ros::NodeHandle pnh("~");
@@ -220,14 +219,6 @@ try
   // Create the problem
   KinematicCalibrationProblemPose6D problem(DHChain(std::vector<DHTransform>{}), createTwoAxisPositioner());
 
-  // Every measurement must give the joints of both chains
-  for (const KinematicMeasurement& m : measurements)
-  {
-    if (m.camera_chain_joints.size() != static_cast<Eigen::Index>(problem.camera_chain.dof()) ||
-        m.target_chain_joints.size() != static_cast<Eigen::Index>(problem.target_chain.dof()))
-      throw BadFileException("Number of joint values of a measurement does not match the kinematic chain");
-  }
-
   // Add the observations
   problem.observations = measurements;
 
@@ -305,8 +296,3 @@ try
 
   return 0;
 }
-catch (const std::exception& ex)
-{
-  ROS_ERROR_STREAM("Kinematic calibration failed: " << ex.what());
-  return -1;
-}
-- 
2.43.0

