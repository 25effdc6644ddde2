From 1913748150c48731e99be3e1a7a43b3e18f409e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 01/16] fix: scale points behind the camera by their depth in
 projectPoint

The comparison was inside std::abs(), so points with negative z were not divided by z
---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..b6b6b67 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z()) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From ad1d331c3f98efd0139f399a112d0035b9cb9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 02/16] fix: compare correspondences of both kinematic
 observations in operator==

---
 rct_optimizations/include/rct_optimizations/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..12c5d79 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -146,7 +146,7 @@ struct KinematicObservation
   inline bool operator==(const KinematicObservation& rhs) const
   {
     return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
-- 
2.43.0


From 7f8365b6abf314846ddd0ec8489b15528a546290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 03/16] fix: report the standard deviation of parameters with
 zero variance as zero

---
 .../src/rct_optimizations/covariance_analysis.cpp        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..58b4287 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -24,12 +24,11 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
-        if (sigma_j < std::numeric_limits<double>::epsilon())
-          sigma_j = 1;
+        // Do not change sigma_i itself, the diagonal element of this row might still have to be written
+        const double scale_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
+        const double scale_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (scale_i * scale_j);
       }
     }
   }
-- 
2.43.0


From 427712421fa7ec21c2bb7b3a122828186cade91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 04/16] fix: raise CovarianceException for covariance requests
 on unknown or unlabelled blocks

A block without labels raised std::out_of_range and a block that is not part of the problem aborted the program
---
 .../rct_optimizations/covariance_analysis.cpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 58b4287..845b44d 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -109,6 +109,10 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::map<const double*, std::vector<std::string>> dummy_param_names;
   for (std::size_t block_index = 0; block_index < parameter_blocks.size(); block_index++)
   {
+    // Ceres aborts the program if it is asked about a block it does not know
+    if (!problem.HasParameterBlock(parameter_blocks[block_index]))
+      throw CovarianceException("Requested parameter block is not part of the problem");
+
     int size = problem.ParameterBlockSize(parameter_blocks[block_index]);
     std::vector<std::string> block_names;
     for (int i = 0; i < size; i++)
@@ -152,12 +156,21 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
+    const auto name_it = param_names.find(b);
+    if (name_it == param_names.end())
+      throw CovarianceException("No parameter labels provided for a requested parameter block");
+
+    // Ceres aborts the program if it is asked about a block it does not know
+    if (!problem.HasParameterBlock(b))
+      throw CovarianceException("Requested parameter block is not part of the problem");
+
+    const std::vector<std::string>& label = name_it->second;
     int block_size = problem.ParameterBlockSize(b);
-    if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
+    if (static_cast<std::size_t>(block_size) != label.size())
     {
       std::stringstream ss;
       ss << "Number of parameter labels provided for block does not match actual number of parameters in that block: "
-         << "have " << param_names.at(b).size() << " labels and " << block_size << " parameters";
+         << "have " << label.size() << " labels and " << block_size << " parameters";
       throw CovarianceException(ss.str());
     }
 
@@ -167,7 +180,6 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
     if (it != param_masks.end())
       masks = it->second;
 
-    const std::vector<std::string>& label = param_names.at(b);
     for (std::size_t i = 0; i < static_cast<std::size_t>(block_size); ++i)
     {
       if (std::find(masks.begin(), masks.end(), i) == masks.end())
-- 
2.43.0


From 54b6327aa138baf299f51be1cbfeb884d1399330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 05/16] fix: leave unseeded poses out of the intrinsic
 calibration covariance

Requesting the covariance of a pose that is not part of the problem aborted the calibration
---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..747a285 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -235,7 +235,8 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  // Poses without a seed are not part of the problem
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
-- 
2.43.0


From 31b49857385145e32a0b054a8ce57f9091e55257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 06/16] fix: return the optimised target transforms of the
 intrinsic calibration

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 747a285..54b94d4 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -269,6 +269,10 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.distortions[3] = internal_intrinsics_data[7];
   result.distortions[4] = internal_intrinsics_data[8];
 
+  result.target_transforms.reserve(internal_poses.size());
+  for (const Pose6d& pose : internal_poses)
+    result.target_transforms.push_back(poseCalToEigen(pose));
+
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-- 
2.43.0


From ace5b1a9aea8d54f10dfd65122acf8e2a2fc2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:54 +0000
Subject: [PATCH 07/16] fix: label the pose covariance in the order of the pose
 parameters (rotation first)

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 4bfff1f0b100a668dfd9c411e8b51a2055d34f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:16 +0000
Subject: [PATCH 08/16] fix: release the cost function when a feature behind
 the camera aborts the hand-eye calibration

---
 rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
index d6b418c..9c1109a 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
@@ -177,6 +177,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
       // Target features that project behind the camera tend to prevent the optimization from converging
       if (!isPointVisible(internal_camera_to_wrist, internal_base_to_target, cost_fn))
       {
+        delete cost_block;
         throw std::runtime_error("Projected target feature lies behind the image plane using the "
                                  "current target mount and camera mount transform guesses. Try updating the initial "
                                  "transform guesses to more accurately represent the problem");
-- 
2.43.0


From 3304e0a99cf0df52420189cca8587703933d574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 09/16] fix: keep name, limits and seed of the joints of a
 chain made with DH offsets

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..0a80ab4 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -56,8 +56,10 @@ DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    // Copy the whole joint (i.e. also its name, limits, and seed) before applying the offsets
+    DHTransform transform = other.transforms_.at(i);
+    transform.params += dh_offsets.row(i).transpose();
+    transforms_.push_back(transform);
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From 79ec25e602c3e11e6802063a7a71da3d0f362300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 10/16] fix: do not read past an empty observation set in
 measureIntrinsicCalibrationAccuracy

---
 .../validation/camera_intrinsic_calibration_validation.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..1bfcde7 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -66,7 +66,7 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
 {
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
-  for (std::size_t i = 0; i < observations.size() - 1; ++i)
+  for (std::size_t i = 0; i + 1 < observations.size(); ++i)
   {
     const Observation2D3D& obs_1 = observations[i];
     const Observation2D3D& obs_2 = observations[i + 1];
-- 
2.43.0


From 7eb685587563080c9ca48475550e9c7c01841630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 11/16] fix: index the corners of a flipped circle grid with
 the flipped column count

---
 .../rct_image_tools/modified_circle_grid_finder.cpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..362c5c8 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -117,8 +117,8 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   std::size_t temp_cols = flipped ? rows : cols;
 
   std::size_t start_first_row = 0;
-  std::size_t end_first_row = cols - 1;
-  std::size_t start_last_row = rows * cols - cols;
+  std::size_t end_first_row = temp_cols - 1;
+  std::size_t start_last_row = rows * cols - temp_cols;
   std::size_t end_last_row = rows * cols - 1;
 
   // Determine size of corners relative to their adjacent circles
@@ -155,28 +155,28 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   // Comparing the start last row corner to the second point in the last row
   double start_last_row_rel_row_size = feature_sizes[start_last_row] / feature_sizes[start_last_row + 1];
   // Comparing the start last row corner to the start of the second to last row
-  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - cols];
+  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - temp_cols];
   // Find the average relative size of the start last row corner to its two adjacent circles
   start_last_row_avg_rel_size = (start_last_row_rel_row_size + start_last_row_rel_col_size) / 2.0;
 
   // Comparing the end last row corner to the second to last point in the last row
   double end_last_row_rel_row_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - 1];
   // Comparing the end last row corner to the end of the second to last row
-  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - cols];
+  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - temp_cols];
   // Find the average relative size of the end last row corner to its two adjacent circles
   end_last_row_avg_rel_size = (end_last_row_rel_row_size + end_last_row_rel_col_size) / 2.0;
 
   // Comparing the start fisrt row corner to the second point in the first row
   double start_first_row_rel_row_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + 1];
   // Comparing the start first row corner to the start of the second  row
-  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + cols];
+  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + temp_cols];
   // Find the average relative size of the start first row corner to its two adjacent circles
   start_first_row_avg_rel_size = (start_first_row_rel_row_size + start_first_row_rel_col_size) / 2.0;
 
   // Comparing the end first row corner to the second to last point in the first row
   double end_first_row_rel_row_size = feature_sizes[end_first_row] / feature_sizes[end_first_row - 1];
   // Comparing the end first row corner to the end of the second row
-  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + cols];
+  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + temp_cols];
   // Find the average relative size of the end first row corner to its two adjacent circles
   end_first_row_avg_rel_size = (end_first_row_rel_row_size + end_first_row_rel_col_size) / 2.0;
 
-- 
2.43.0


From 2bfb6302747334de8e45f7970ad84940b138d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 12/16] fix: do not read the centre pixel of an ellipse centred
 outside the image

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..28a06c9 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,12 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The ellipse fit to a contour that is cut off by the image border can be centered outside of the image
+      const cv::Point center_px(cvRound(box.center.x), cvRound(box.center.y));
+      if (center_px.x < 0 || center_px.x >= binarized_image.cols || center_px.y < 0 ||
+          center_px.y >= binarized_image.rows)
+        continue;
+      if (binarized_image.at<uchar>(center_px.y, center_px.x) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From a086f86b479086e1ca5dbc20bb7f6560c614396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 13/16] fix: decode the roll, pitch and yaw of a hand-eye
 result in the order they are encoded

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..e36e502 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -111,11 +111,11 @@ struct convert<rct_optimizations::ExtrinsicHandEyeResult>
     rhs.final_cost_per_obs = node["final_cost_per_obs"].as<decltype(rhs.final_cost_per_obs)>();
 
     Eigen::Vector3d target_mount_to_target_pos = node["target_mount_to_target_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>();
     rhs.target_mount_to_target = toIsometry<double>(target_mount_to_target_pos, target_mount_to_target_rpy);
 
     Eigen::Vector3d camera_mount_to_camera_pos = node["camera_mount_to_camera_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>();
     rhs.camera_mount_to_camera = toIsometry<double>(camera_mount_to_camera_pos, camera_mount_to_camera_rpy);
 
     return true;
-- 
2.43.0


From 20165486e86b80bb7636da507ddd523d3457893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 14/16] fix: initialise the random seed of a decoded DH
 transform

---
 .../include/rct_optimizations/serialization/types.h           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..e33f150 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -3,6 +3,7 @@
 #include <rct_optimizations/dh_chain.h>
 #include <rct_optimizations/types.h>
 #include <rct_optimizations/serialization/eigen.h>
+#include <random>
 
 namespace YAML
 {
@@ -121,6 +122,9 @@ struct convert<rct_optimizations::DHTransform>
 
     val.name = n["joint_name"].as<std::string>();
 
+    // The seed is not serialized; draw one as the constructors do
+    val.random_seed = std::random_device{}();
+
     return true;
   }
 };
-- 
2.43.0


From 045bf80e37cfbd42e76034c16896c4eb663eb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 15/16] fix: draw target features on a copy instead of the
 caller's image

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp   | 5 +++--
 rct_image_tools/src/rct_image_tools/charuco_finder.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 528129c..49cadb0 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -51,7 +51,8 @@ cv::Mat ArucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     });
     marker_corners.push_back(cv_obs);
   }
-  cv::aruco::drawDetectedMarkers(image, marker_corners, marker_ids);
-  return image;
+  cv::Mat output_image = image.clone();
+  cv::aruco::drawDetectedMarkers(output_image, marker_corners, marker_ids);
+  return output_image;
 }
 }  // namespace rct_image_tools
diff --git a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
index 0107117..7f06a3e 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
@@ -65,9 +65,10 @@ cv::Mat CharucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
   }
 
   // Draw the detected corners
-  cv::aruco::drawDetectedCornersCharuco(image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
+  cv::Mat output_image = image.clone();
+  cv::aruco::drawDetectedCornersCharuco(output_image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
 
-  return image;
+  return output_image;
 }
 
 }  // namespace rct_image_tools
-- 
2.43.0


From 45e6e5f00a392e37e569300a18e90c8805ab28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 16/16] fix: reject negative indices in parameter masks

---
 .../include/rct_optimizations/local_parameterization.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/local_parameterization.h b/rct_optimizations/include/rct_optimizations/local_parameterization.h
index b907048..f5e3b8f 100644
--- a/rct_optimizations/include/rct_optimizations/local_parameterization.h
+++ b/rct_optimizations/include/rct_optimizations/local_parameterization.h
@@ -109,6 +109,14 @@ void addSubsetParameterization(ceres::Problem& problem, const std::map<const dou
         auto last = std::unique(mask.begin(), mask.end());
         mask.erase(last, mask.end());
 
+        // Check that the min index is not negative (the indices are sorted)
+        if (mask.front() < 0)
+        {
+          std::stringstream ss;
+          ss << "The smallest mask index cannot be negative (" << mask.front() << " < 0)";
+          throw OptimizationException(ss.str());
+        }
+
         // Check that the max index is not greater than the number of elements in the block
         auto it = std::max_element(mask.begin(), mask.end());
         if (static_cast<std::size_t>(*it) >= block_size)
-- 
2.43.0

