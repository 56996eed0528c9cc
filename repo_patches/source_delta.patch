From 35a6ad712af14a1b73ddf6deeff6472d6b407c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 01/29] fix: keep fractional edge weights in
 Graph::shortestPathBetween

The distance map truncated the co-visibility weights (1/n) to integers, so
paths were not the lightest ones.
---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..43e426d 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -115,7 +115,7 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
   std::vector<int> d(boost::num_vertices(graph_));
 
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From 66591b8b911b2ba6b1b8a48b9021f02c83b072dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 02/29] fix: an edge from a new vertex to itself adds the
 vertex once

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 43e426d..40ae4c7 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -19,10 +19,10 @@ void Graph::addEdge(const int v1, const int v2, const double weight) {
   Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v1]
                        : boost::add_vertex(std::to_string(v1), graph_);
+  idx_to_vertex_[v1] = vertex1;
   Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v2]
                        : boost::add_vertex(std::to_string(v2), graph_);
-  idx_to_vertex_[v1] = vertex1;
   idx_to_vertex_[v2] = vertex2;
 
   boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
-- 
2.43.0


From d4d0c48d693ea00ef5dc147ad0c2520a44ddba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 03/29] fix: compare different poses in the hand-eye
 consistency check

checkSetConsistency compared every pose with itself and used a relation that
does not hold for a correct solution, so correct solutions with a relative
rotation above a few degrees were all rejected.
---
 McCalib/src/geometrytools.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..02fc4da 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -583,11 +583,12 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // motions of both groups between the two poses: PP1 * X = X * PP2
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP2.inv() * pose_g1_g2.inv() * PP1 * pose_g1_g2;
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
-- 
2.43.0


From 425836fd2e39b88f9706b7b02768b552ab9a22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 04/29] fix: the hand-eye fallback uses the poses of both
 groups

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 02fc4da..031fb05 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -681,7 +681,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From bd18f27e4ec02fba877ba0008ade83dc0ae956a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 05/29] fix: do not pick more clusters than there are in the
 bootstrapped hand-eye

With fewer than six common poses selectClusters read past the end of the list.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 031fb05..7fa54ad 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -636,7 +636,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From f8eec38e0aa1a7d9b1eb4933129338f4db2a533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 06/29] fix: robust triangulation no longer reads past two or
 three views

---
 McCalib/src/geometrytools.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 7fa54ad..309fa79 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -174,8 +174,7 @@ void ransacTriangulation(const std::vector<cv::Point2f> &point2d,
     std::random_device rd;
     std::mt19937 g(rd());
     std::shuffle(myvector.begin(), myvector.end(), g);
-    std::array<int, 4> idx = {myvector[0], myvector[1], myvector[2],
-                              myvector[3]};
+    std::array<int, 2> idx = {myvector[0], myvector[1]};
 
     // Select the corresponding sample of 2D pts and corresponding rot and trans
     std::vector<cv::Point2f> image2Pts = {point2d[idx[0]], point2d[idx[1]]};
-- 
2.43.0


From 2c8ec67c00addc115b67cfc978ebe42dc7051153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 07/29] fix: robust pose estimation with fewer than four points
 finds no pose

---
 McCalib/src/BoardObs.cpp      | 4 ++--
 McCalib/src/Object3DObs.cpp   | 4 ++--
 McCalib/src/geometrytools.cpp | 4 ++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/BoardObs.cpp b/McCalib/src/BoardObs.cpp
index dd83468..afa78fe 100644
--- a/McCalib/src/BoardObs.cpp
+++ b/McCalib/src/BoardObs.cpp
@@ -129,8 +129,8 @@ void BoardObs::estimatePose(const float ransac_thresh,
   }
 
   // Estimate the pose using a RANSAC
-  cv::Mat r_vec(1, 3, CV_64F);
-  cv::Mat t_vec(1, 3, CV_64F);
+  cv::Mat r_vec = cv::Mat::zeros(1, 3, CV_64F);
+  cv::Mat t_vec = cv::Mat::zeros(1, 3, CV_64F);
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
   if (cam_ptr) {
     cv::Mat inliers = ransacP3PDistortion(
diff --git a/McCalib/src/Object3DObs.cpp b/McCalib/src/Object3DObs.cpp
index 6d566ca..feffaa0 100644
--- a/McCalib/src/Object3DObs.cpp
+++ b/McCalib/src/Object3DObs.cpp
@@ -230,8 +230,8 @@ void Object3DObs::estimatePose(const float ransac_thresh,
   }
 
   // Estimate the pose using a RANSAC
-  cv::Mat r_vec(1, 3, CV_64F);
-  cv::Mat t_vec(1, 3, CV_64F);
+  cv::Mat r_vec = cv::Mat::zeros(1, 3, CV_64F);
+  cv::Mat t_vec = cv::Mat::zeros(1, 3, CV_64F);
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
   if (cam_ptr) {
     cv::Mat inliers = ransacP3PDistortion(
diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 309fa79..7327d30 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -714,6 +714,10 @@ cv::Mat ransacP3PDistortion(const std::vector<cv::Point3f> &scene_points,
                             const int distortion_type, const double p,
                             const bool refine) {
   cv::Mat Inliers;
+  // a pose needs at least 4 points
+  if (image_points.size() < 4)
+    return Inliers;
+
   // P3P for perspective (Brown model)
   if (distortion_type == 0) {
     Inliers =
-- 
2.43.0


From 7b792bf756d02dbba53b175ef9b09f1b86cc8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 08/29] fix: projecting an empty set of points is not an error

---
 McCalib/src/geometrytools.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 7327d30..f023094 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -762,6 +762,11 @@ void projectPointsWithDistortion(const std::vector<cv::Point3f> &object_pts,
                                  const cv::Mat &distortion_vector,
                                  const int distortion_type,
                                  std::vector<cv::Point2f> &repro_pts) {
+  if (object_pts.empty()) // an observation left without points
+  {
+    repro_pts.clear();
+    return;
+  }
   if (distortion_type == 0) // perspective (Brown)
   {
     cv::projectPoints(object_pts, rot, trans, camera_matrix, distortion_vector,
-- 
2.43.0


From 19e422b769293c200ce31fdae640a9581190bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 09/29] fix: initialise the kernel size count in the corner
 refinement

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 62f0b7e97fa4ed2f9ee633cd9f0f0d59776df9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 10/29] fix: read the quaternion_averaging option

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..dbf1912 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From 154c00a77f3e3adf7e9112281ccd78c92197cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 11/29] fix: save the cameras of every group

---
 McCalib/src/McCalib.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index dbf1912..fce60bf 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,9 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+
+  fs.release();
 }
 
 /**
-- 
2.43.0


From 98917a1851136045cafe671ff461aae1bedaeb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 12/29] fix: chain the camera poses of a group in the right
 order

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index fce60bf..0ed4bf4 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1130,7 +1130,7 @@ void Calibration::initCameraGroup() {
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
           // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
-- 
2.43.0


From 8168c70dfbefb4559eeae06e84834350d4b572d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 13/29] fix: chain the poses of merged camera groups in the
 right order

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 0ed4bf4..4c24bc7 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1566,7 +1566,7 @@ void Calibration::mergeCameraGroup() {
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
           // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From 48f74f232d02cebd1f3f8c86e309c29bd3c26ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 14/29] fix: rebuild every object observation once

---
 McCalib/src/McCalib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4c24bc7..9bbb67f 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1851,12 +1851,8 @@ void Calibration::mergeAllObjectObs() {
   object_observations_.clear();
 
   // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From fab0ce3fbbd2dcd3381aac2eb5ffe005985ca974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 15/29] fix: forget the poses between camera groups once they
 are merged

---
 McCalib/src/McCalib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 9bbb67f..dbfb072 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1483,7 +1483,7 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
  */
 void Calibration::findPoseNoOverlapAllCamGroup() {
   no_overlap_camgroup_pair_pose_.clear();
-  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 
   // Iterate through the camera groups
   for (const auto &it_groups_1 : cam_group_) {
@@ -1607,6 +1607,9 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+  // The pairs refer to the groups which have just been replaced
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From 535c663d3823d22f0591e26cfd3eadd35531fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 16/29] fix: register a frame with every camera and board seen
 in it

---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index dbfb072..e910a4c 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -621,9 +621,9 @@ void Calibration::insertNewBoard(const int cam_idx, const int frame_idx,
         std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
     frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
     frames_[frame_idx]->insertNewBoard(new_board);
-    cams_[cam_idx]->insertNewFrame(newFrame);
-    boards_3d_[board_idx]->insertNewFrame(newFrame);
   }
+  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
+  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
 
   // Add CamObs in the CamobsList and frame
   std::pair<int, int> cam_frame_idx = std::make_pair(cam_idx, frame_idx);
-- 
2.43.0


From 8182add6412f9b7377a9631517bbc4f37254cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 17/29] fix: list only its own frames for every group of the
 error log

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index e910a4c..a9c774d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2251,7 +2251,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2259,6 +2258,7 @@ void Calibration::saveReprojectionErrorToFile() {
     int cam_group_idx = it.second->cam_group_idx_;
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
+    cv::Mat frame_list;
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
-- 
2.43.0


From b7f91ba60193c60f08db99e923be9fd2cf1243ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 18/29] fix: save the object poses with respect to the
 reference camera

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index a9c774d..6344a39 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -466,7 +466,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From f1482a3b2b6e1b907ade6865421590860e66b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 19/29] fix: create the save folder also with a trailing slash

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 6344a39..abc8f41 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -97,7 +97,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
            << "   Distortion mode : " << distortion_model;
 
   // check if the save dir exist and create it if it does not
-  if (!std::filesystem::exists(save_path_) && save_path_.has_filename()) {
+  if (!save_path_.empty() && !std::filesystem::exists(save_path_)) {
     std::filesystem::create_directories(save_path_);
   }
 
-- 
2.43.0


From eaae45b210991b0e813b5ad3b7305aae33eb6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 20/29] fix: a corner which cannot be refined does not stop the
 refinement of the others

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index abc8f41..a0b3f19 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -328,7 +328,7 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                  corner_ref_window_, corner_ref_max_iter_);
         for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
           if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
-            break;
+            continue;
           }
           charuco_corners[i][j].x = refined[j].x;
           charuco_corners[i][j].y = refined[j].y;
-- 
2.43.0


From 326ae947ad0a2584e964b66c5bd27f4b2fd28c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 21/29] fix: square counts and square sizes per board are
 independent options

---
 McCalib/src/Board.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..1c8bf4a 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -46,17 +46,20 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
   }
 
   if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
     fs["length_square"] >> length_square_;
     fs["length_marker"] >> length_marker_;
     fs["resolution_x"] >> res_x_;
     fs["resolution_y"] >> res_y_;
     fs["square_size"] >> square_size_;
+  } else {
+    square_size_ = square_size_per_board[boards_index[board_idx]];
+  }
+  if (number_x_square_per_board.size() == 0) {
+    fs["number_x_square"] >> nb_x_square_;
+    fs["number_y_square"] >> nb_y_square_;
   } else {
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
-    square_size_ = square_size_per_board[boards_index[board_idx]];
   }
 
   fs.release(); // close the input file
-- 
2.43.0


From ff525d05af8873e787accb6def6aefa97161ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 22/29] fix: generate boards also when only some of the
 per-board options are given

---
 .../src/create_charuco_boards.cpp                  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..da1469f 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -71,13 +71,13 @@ int main(int argc, char *argv[]) {
   fs.release(); // close the input file
 
   // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
+  if (number_x_square_per_board.size() == 0) {
+    number_x_square_per_board.assign(num_board, num_x_square);
+    number_y_square_per_board.assign(num_board, num_y_square);
+  }
+  if (resolution_x_per_board.size() == 0) {
+    resolution_x_per_board.assign(num_board, res_x);
+    resolution_y_per_board.assign(num_board, res_y);
   }
 
   const std::vector<cv::Mat> charuco_boards_images =
-- 
2.43.0


From b80b907e3a9be4c6a32ac4d16cc03763eb0a62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 23/29] fix: initialise the camera parameters unused by the
 fisheye model

---
 McCalib/include/Camera.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/Camera.hpp b/McCalib/include/Camera.hpp
index dba3284..73eaf36 100644
--- a/McCalib/include/Camera.hpp
+++ b/McCalib/include/Camera.hpp
@@ -43,7 +43,7 @@ public:
   // intrinsics
   // fx,fy,u0,v0,r1,r2,t1,t2,r3 (perspective)
   // fx,fy,u0,v0,k1,k2,k3,k4 (Kannala)
-  std::array<double, 9> intrinsics_;
+  std::array<double, 9> intrinsics_{};
 
   int cam_idx_ = 0; // camera index
   int distortion_model_ = 0;
-- 
2.43.0


From a248fa8cc9b578d66dc5f2a4d6e3a4e35e62c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 24/29] fix: set the shared detector parameters before the
 detection workers start

---
 McCalib/src/McCalib.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index a0b3f19..b1c6e04 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -233,6 +233,13 @@ void Calibration::boardExtraction() {
  */
 void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
                                          const int cam_idx) {
+#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
+     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
+  charuco_params_->adaptiveThreshConstant = 1;
+#else
+  charuco_params_.adaptiveThreshConstant = 1;
+#endif
+
   const unsigned int num_threads = std::thread::hardware_concurrency();
   boost::asio::thread_pool pool(num_threads);
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
@@ -290,13 +297,6 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
   // key == board id, value == ID corners on checkerboard
   std::map<int, std::vector<int>> charuco_idx;
 
-#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
-  charuco_params_->adaptiveThreshConstant = 1;
-#else
-  charuco_params_.adaptiveThreshConstant = 1;
-#endif
-
   for (std::size_t i = 0; i < nb_board_; i++) {
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-- 
2.43.0


From a3de3c8ac356a7cdde5d9fee4a62d131bb7eda70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 25/29] fix: leave out fisheye views which the initial
 calibration cannot represent

---
 McCalib/src/Camera.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/Camera.cpp b/McCalib/src/Camera.cpp
index 79305a4..81aa29a 100644
--- a/McCalib/src/Camera.cpp
+++ b/McCalib/src/Camera.cpp
@@ -249,11 +249,17 @@ bool Camera::checkBorderToleranceFisheye(
   bool valid_board = true;
   const float thresh_border_x = float(im_cols_) * border_marging;
   const float thresh_border_y = float(im_rows_) * border_marging;
+  // the initial guess of cv::fisheye::calibrate cannot represent the points
+  // farther from the center than half of the largest side (90 degrees)
+  const float thresh_radius =
+      float(std::max(im_cols_, im_rows_)) * (0.5f - border_marging);
   for (std::size_t i = 0; i < board_obs->pts_2d_.size(); i++) {
     const float &pt_x = board_obs->pts_2d_[i].x;
     const float &pt_y = board_obs->pts_2d_[i].y;
     if (pt_x <= thresh_border_x || pt_x >= (im_cols_ - thresh_border_x) ||
-        pt_y <= thresh_border_y || pt_y >= (im_rows_ - thresh_border_y)) {
+        pt_y <= thresh_border_y || pt_y >= (im_rows_ - thresh_border_y) ||
+        std::hypot(pt_x - 0.5f * im_cols_, pt_y - 0.5f * im_rows_) >=
+            thresh_radius) {
       valid_board = false;
       break;
     }
-- 
2.43.0


From b421a1c163ec39572532fad633d1b6a484ec8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 26/29] fix: leave board views whose pose could not be
 estimated out of the board pair poses and the object observations

---
 McCalib/src/McCalib.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index b1c6e04..7dd6cea 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -742,11 +742,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
@@ -950,7 +950,7 @@ void Calibration::init3DObjectObs(const int object_idx) {
         current_camobs->board_observations_;
     for (const auto &it_board_obs : current_board_obs) {
       auto board_obs_ptr = it_board_obs.second.lock();
-      if (board_obs_ptr) {
+      if (board_obs_ptr && board_obs_ptr->valid_) {
         // Check if this board correspond to the object of interest
         std::map<int, std::weak_ptr<Board>>::iterator it =
             object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
-- 
2.43.0


From c2b896726a711a67cc810183c4b204bec2727e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 27/29] fix: options absent from the configuration keep their
 declared defaults

FileStorage's >> assigns zero when the key is missing, so a configuration
without quaternion_averaging (as configs/Blender_Images/
calib_param_synth_diff_size.yml) silently switched it off.
---
 McCalib/src/McCalib.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 7dd6cea..a0d471d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -38,6 +38,12 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   }
   fs.open(config_path, cv::FileStorage::READ);
 
+  // options left out of the file keep the default value of their member
+  const auto read_if_present = [&fs](const char *name, auto &value) {
+    if (!fs[name].empty())
+      fs[name] >> value;
+  };
+
   int nb_camera;
   fs["number_camera"] >> nb_camera;
   assert(nb_camera > 0);
@@ -48,15 +54,15 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   assert(nb_board > 0);
   nb_board_ = static_cast<unsigned int>(nb_board);
 
-  fs["refine_corner"] >> refine_corner_;
+  read_if_present("refine_corner", refine_corner_);
   fs["min_perc_pts"] >> min_perc_pts_;
   fs["number_x_square"] >> nb_x_square;
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging"] >> quaternion_averaging_;
-  fs["ransac_threshold"] >> ransac_thresh_;
-  fs["number_iterations"] >> nb_iterations_;
+  read_if_present("quaternion_averaging", quaternion_averaging_);
+  read_if_present("ransac_threshold", ransac_thresh_);
+  read_if_present("number_iterations", nb_iterations_);
   fs["distortion_model"] >> distortion_model;
   fs["distortion_per_camera"] >> distortion_per_camera;
   fs["boards_index"] >> boards_index;
@@ -73,8 +79,8 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square_per_board"] >> number_y_square_per_board_;
   fs["resolution_x_per_board"] >> resolution_x_per_board_;
   fs["resolution_y_per_board"] >> resolution_y_per_board_;
-  fs["he_approach"] >> he_approach_;
-  fs["fix_intrinsic"] >> fix_intrinsic_;
+  read_if_present("he_approach", he_approach_);
+  read_if_present("fix_intrinsic", fix_intrinsic_);
 
   fs.release(); // close the input file
 
-- 
2.43.0


From 23b12ec0e48447304811948564048e8440c1e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:40 +0000
Subject: [PATCH 28/29] fix: hand-eye set-up inserted missing 3D objects as
 null pointers

initNonOverlapPair looked its two objects up with operator[] without using
them. When no object was observed at all, this left a null pointer in
object_3d_, which merge3DObjects then dereferenced.
---
 McCalib/src/McCalib.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index a0d471d..4c443dd 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1356,10 +1356,6 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
   int object_cam_1 = object_pair.first;
   int object_cam_2 = object_pair.second;
 
-  // Prepare the 3D objects
-  std::shared_ptr<Object3D> object_3D_1 = object_3d_[object_cam_1];
-  std::shared_ptr<Object3D> object_3D_2 = object_3d_[object_cam_2];
-
   // std::vector to store data for non-overlapping calibration
   std::vector<cv::Mat> pose_abs_1,
       pose_abs_2; // absolute pose stored to compute relative displacements
-- 
2.43.0


From d2251e04d28877a0212bca043c21dbe2217e31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:40 +0000
Subject: [PATCH 29/29] fix: RANSAC used an uninitialised pose when P3P found
 no solution

---
 McCalib/src/geometrytools.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index f023094..33ab9ff 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -268,8 +268,16 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
         imagePoints[idx[3]]};
 
     // Apply P3P (fourth point for disambiguation)
-    cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot, Trans,
-                 false, 2); // CV_P3P = 2
+    const bool found =
+        cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot,
+                     Trans, false, 2); // CV_P3P = 2
+
+    // no pose passes through these points
+    if (!found) {
+      trialcount++;
+      countit++;
+      continue;
+    }
 
     // Reproject points
     std::vector<cv::Point2f> reprojected_pts;
-- 
2.43.0

