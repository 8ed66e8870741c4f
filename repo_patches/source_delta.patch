From 74c2dcbb0f2a50820b1d1d34a06af258ecabd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 01/37] fix: keep fractional edge weights in shortest path
 distances

Dijkstra accumulated the (double) edge weights in a vector of int, so every
weight below one counted as zero and the returned path was arbitrary. All
graphs of the calibration use weights 1/n.
---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..43e426d 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -115,7 +115,7 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
   std::vector<int> d(boost::num_vertices(graph_));
 
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From fa5a66740240ad38ba20d79a4e8632d6292cc827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 02/37] fix: return an empty path between vertices that are not
 connected

getPath() followed the predecessor map forever when the destination was not
reachable (an unreached vertex is its own predecessor), exhausting memory.
---
 McCalib/src/Graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 43e426d..28701b7 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -143,6 +143,9 @@ std::vector<int> Graph::getPath(const std::vector<Vertex> &p_map,
   std::vector<int> path;
   Vertex current = destination;
   while (current != source) {
+    // a vertex which was never reached is its own predecessor
+    if (p_map[current] == current)
+      return {};
     path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, current)));
     current = p_map[current];
   }
-- 
2.43.0


From 6af93404a1d4282f9deed5bdead7aa50dafd5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 03/37] fix: do not create a vertex twice for an edge from a
 new vertex to itself

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 28701b7..18c959b 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -19,10 +19,10 @@ void Graph::addEdge(const int v1, const int v2, const double weight) {
   Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v1]
                        : boost::add_vertex(std::to_string(v1), graph_);
+  idx_to_vertex_[v1] = vertex1; // before looking up v2: it may be v1
   Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v2]
                        : boost::add_vertex(std::to_string(v2), graph_);
-  idx_to_vertex_[v1] = vertex1;
   idx_to_vertex_[v2] = vertex2;
 
   boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
-- 
2.43.0


From 5c5f947ef1a7419af54fd703878f2b011251b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 04/37] fix: use the poses of both groups in the hand-eye
 fallback

When the bootstrap found too few consistent subsets it calibrated the first
group against itself, which always gives the identity.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..b35cad3 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -680,7 +680,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From 9996ff1823e7131a1ef5f532940e9badf2b96170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 05/37] fix: compare different poses in the hand-eye
 consistency check

checkSetConsistency() compared every pose with itself (index i used twice) and
composed the transforms in an order that does not cancel out, so it measured
twice the rotation of the solution instead of its consistency. Rigs whose
groups are rotated by more than 7.5 degrees were always rejected, and
inconsistent subsets of the others always accepted.
---
 McCalib/src/geometrytools.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index b35cad3..4974ee7 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -583,18 +583,18 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // inv(P1) * X * P2 is the same for all the poses of a consistent set,
+        // so the motions of both groups must cancel out through X
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_1 * pose_cam_group_2_2.inv();
+        cv::Mat ErrMat = pose_g1_g2.inv() * PP1 * pose_g1_g2 * PP2;
+        if (!cv::checkRange(ErrMat))
+          return std::numeric_limits<double>::infinity();
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
-        cv::Mat ErrRotMat;
-        cv::Rodrigues(ErrRot, ErrRotMat);
-        double traceRot =
-            cv::trace(ErrRotMat)[0] - std::numeric_limits<double>::epsilon();
-        double err_degree = std::acos(0.5 * (traceRot - 1.0)) * 180.0 / M_PI;
+        double err_degree = cv::norm(ErrRot) * 180.0 / M_PI;
         max_rotational_error = std::max(max_rotational_error, err_degree);
       }
     }
-- 
2.43.0


From ef676827b029887768468b5b5ceb817b3df154ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 06/37] fix: do not pick more hand-eye clusters than there are

With four or five common poses the bootstrap read past the end of the list of
clusters.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 4974ee7..4d8a0c3 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -635,7 +635,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From 052e6746184a5ac6c1182e9922684895a021082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 07/37] fix: do not read past the views in the robust
 triangulation

Four indices were read from the shuffled list although two are used, beyond
its end with two or three views (and with fewer than two in any case).
---
 McCalib/src/geometrytools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 4d8a0c3..a19f62a 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -168,14 +168,17 @@ void ransacTriangulation(const std::vector<cv::Point2f> &point2d,
   std::vector<int> myvector(point2d.size());
   std::iota(myvector.begin(), myvector.end(), 0);
 
+  // at least two views are needed to triangulate
+  if (myvector.size() < 2)
+    return;
+
   // Ransac iterations
   while (N > trialcount && countit < it) {
     // pick 2 points
     std::random_device rd;
     std::mt19937 g(rd());
     std::shuffle(myvector.begin(), myvector.end(), g);
-    std::array<int, 4> idx = {myvector[0], myvector[1], myvector[2],
-                              myvector[3]};
+    std::array<int, 2> idx = {myvector[0], myvector[1]};
 
     // Select the corresponding sample of 2D pts and corresponding rot and trans
     std::vector<cv::Point2f> image2Pts = {point2d[idx[0]], point2d[idx[1]]};
-- 
2.43.0


From 5d17d0d643d16fc3902a8d7d8ebbd5c1ec0b9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 08/37] fix: do not read past the points in the RANSAC pose
 estimation

With fewer than four correspondences, which loaded detections may have, four
indices were read beyond the end of the list.
---
 McCalib/src/geometrytools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a19f62a..6191e54 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -254,6 +254,10 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   std::vector<int> myvector(imagePoints.size());
   std::iota(myvector.begin(), myvector.end(), 0);
 
+  // P3P and its disambiguation need four points: no pose, no inlier otherwise
+  if (myvector.size() < 4)
+    return InliersR;
+
   // Ransac iterations
   while (N > trialcount && countit < it) {
     // pick 4 points
-- 
2.43.0


From ea7218cdc6e111c80cd765f92fb267a1d4fa1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 09/37] fix: compose camera transforms along the path in the
 right order

initCameraGroup multiplied the pairwise transforms of a camera path from the
wrong side, so every camera two or more hops away from the reference camera
started from a wrong pose.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..4b53033 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1129,8 +1129,8 @@ void Calibration::initCameraGroup() {
           std::pair<int, int> cam_pair_idx =
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          // current_trans maps the current camera frame to the next one
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
-- 
2.43.0


From 570b0b3a3d867a6417be5e985e75f8dff74e30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 10/37] fix: compose camera group transforms along the path in
 the right order

Same as for the cameras of one group: groups two or more hops away from the
reference group were given a wrong initial pose when groups are merged.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4b53033..688ce95 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1565,8 +1565,8 @@ void Calibration::mergeCameraGroup() {
               std::make_pair(current_group, next_group);
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          // current_trans maps the current group frame to the next one
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From 1815a5964fc196eba1a11d0ff1b2f89353eff793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 11/37] fix: save the cameras of every camera group

The camera file was closed after the first group, so the cameras of all other
groups were missing from the results.
---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 688ce95..4105e08 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From 6d3f3b32bb0732de8e1ea5672e1c5cee69ddd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 12/37] fix: rebuild each object observation once after merging
 objects

The nested loop over the objects created every observation as many times as
there are objects, so detections were counted several times in the merged
groups and in the final refinement.
---
 McCalib/src/McCalib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4105e08..e671baf 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1850,12 +1850,8 @@ void Calibration::mergeAllObjectObs() {
   object_observations_.clear();
 
   // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  for (const auto &it_object : object_3d_)
+    this->init3DObjectObs(it_object.first);
 }
 
 /**
-- 
2.43.0


From 7ab082bbd97044372d213c8ec0abce54422c9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 13/37] fix: save object poses with respect to the reference
 camera

The README documents the saved poses as being relative to the reference
camera; the pose relative to whichever camera saw the object, from before the
joint refinement, was written instead.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index e671baf..2c4093e 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -465,7 +465,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From fe4092894cc31e6d9fe34ab32aa2a31a9490986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 14/37] fix: list only the frames of the group in the
 reprojection log

frame_list kept growing from group to group, so every group but the first was
given the frames of the groups before it.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 2c4093e..47eed69 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2247,7 +2247,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2256,6 +2255,7 @@ void Calibration::saveReprojectionErrorToFile() {
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
+    cv::Mat frame_list;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
       std::shared_ptr<Frame> it_frame_ptr = it_frame.second.lock();
-- 
2.43.0


From dda772a08a3e7cec37d6c1cdfda3c02045d4cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 15/37] fix: register a frame with every camera and board seen
 in it

Only the first detection of a frame linked the frame to its camera and board;
later cameras and boards of the same frame kept incomplete frame lists.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 47eed69..bc916bd 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -620,9 +620,9 @@ void Calibration::insertNewBoard(const int cam_idx, const int frame_idx,
         std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
     frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
     frames_[frame_idx]->insertNewBoard(new_board);
-    cams_[cam_idx]->insertNewFrame(newFrame);
-    boards_3d_[board_idx]->insertNewFrame(newFrame);
   }
+  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
+  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
 
   // Add CamObs in the CamobsList and frame
   std::pair<int, int> cam_frame_idx = std::make_pair(cam_idx, frame_idx);
-- 
2.43.0


From 3d6f839c27b948b0b8b04316d9675b89214dc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 16/37] fix: read the quaternion_averaging setting under its
 documented name

A stray colon in the key made the setting ineffective: quaternion averaging
could never be turned off.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index bc916bd..46713a2 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From 8cf0d4e32f16c10a581178ba71b6ae822927b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 17/37] fix: forget the inter-group poses once the camera
 groups are merged

Merging renumbers the groups, but the second merge of the pipeline still used
the poses found for the old numbers: a group without enough shared frames could
take the number of a merged one and be attached with an unrelated pose.
---
 McCalib/src/McCalib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 46713a2..ad4f39d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1482,7 +1482,7 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
  */
 void Calibration::findPoseNoOverlapAllCamGroup() {
   no_overlap_camgroup_pair_pose_.clear();
-  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 
   // Iterate through the camera groups
   for (const auto &it_groups_1 : cam_group_) {
@@ -1606,6 +1606,11 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+
+  // The groups were renumbered: the poses between the previous groups must not
+  // be used for the new ones
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From 1569baf8b960875448e97a438fe751e9f24686fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 18/37] fix: count of smoothing kernel weights was used
 uninitialised in the saddle refinement

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 46245fff3b47eaacf4380c9f2f32f955f882dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 19/37] fix: a corner that cannot be refined no longer stops
 the refinement of the others

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index ad4f39d..5736f8d 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -328,7 +328,7 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                  corner_ref_window_, corner_ref_max_iter_);
         for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
           if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
-            break;
+            continue;
           }
           charuco_corners[i][j].x = refined[j].x;
           charuco_corners[i][j].y = refined[j].y;
-- 
2.43.0


From 17c30ebdf626c9d07908f2f4c76caf16d6f0c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 20/37] fix: detector settings are set before the worker
 threads start, not by each of them

---
 McCalib/src/McCalib.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 5736f8d..d56b293 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -233,6 +233,14 @@ void Calibration::boardExtraction() {
  */
 void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
                                          const int cam_idx) {
+  // the detector parameters are shared by all the threads
+#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
+     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
+  charuco_params_->adaptiveThreshConstant = 1;
+#else
+  charuco_params_.adaptiveThreshConstant = 1;
+#endif
+
   const unsigned int num_threads = std::thread::hardware_concurrency();
   boost::asio::thread_pool pool(num_threads);
   LOG_INFO << "Number of threads for board detection :: " << num_threads;
@@ -290,13 +298,6 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
   // key == board id, value == ID corners on checkerboard
   std::map<int, std::vector<int>> charuco_idx;
 
-#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
-  charuco_params_->adaptiveThreshConstant = 1;
-#else
-  charuco_params_.adaptiveThreshConstant = 1;
-#endif
-
   for (std::size_t i = 0; i < nb_board_; i++) {
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-- 
2.43.0


From b5a4e99f33fa1da91b58bcd9c92d4f546b35ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 21/37] fix: hand-eye bootstrap uses the method without
 singularity at half turns

Tsai's method breaks down when the link to find is a half turn (groups mounted
back to back): its samples then pass the 15 degree consistency test with links
that are several degrees off, and so does their mean.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 6191e54..8adea8a 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -657,7 +657,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     cv::Mat r_g1_g2, t_g1_g2;
     cv::calibrateHandEye(r_cam_group_1, t_cam_group_1, r_cam_group_2,
                          t_cam_group_2, r_g1_g2, t_g1_g2,
-                         cv::CALIB_HAND_EYE_TSAI);
+                         cv::CALIB_HAND_EYE_HORAUD);
     cv::Mat pose_g1_g2 = RT2Proj(r_g1_g2, t_g1_g2);
 
     double max_rotational_error = checkSetConsistency(
-- 
2.43.0


From fb5844220b5c089a2496f20c18a6ff38eaf69c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:50 +0000
Subject: [PATCH 22/37] fix: board counts and sizes given per board are each
 honoured on their own

---
 McCalib/src/Board.cpp   | 24 +++++++++++++++---------
 McCalib/src/McCalib.cpp |  2 ++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..8c61bd2 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -45,17 +45,23 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     std::iota(boards_index.begin(), boards_index.end(), 0);
   }
 
-  if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
-    fs["length_square"] >> length_square_;
-    fs["length_marker"] >> length_marker_;
-    fs["resolution_x"] >> res_x_;
-    fs["resolution_y"] >> res_y_;
-    fs["square_size"] >> square_size_;
-  } else {
+  // Values common to all boards ...
+  fs["number_x_square"] >> nb_x_square_;
+  fs["number_y_square"] >> nb_y_square_;
+  fs["length_square"] >> length_square_;
+  fs["length_marker"] >> length_marker_;
+  fs["resolution_x"] >> res_x_;
+  fs["resolution_y"] >> res_y_;
+  fs["square_size"] >> square_size_;
+
+  // ... unless they are specified per board
+  if (number_x_square_per_board.size() != 0) {
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
+  }
+  if (number_y_square_per_board.size() != 0) {
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
+  }
+  if (square_size_per_board.size() != 0) {
     square_size_ = square_size_per_board[boards_index[board_idx]];
   }
 
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index d56b293..e1f82e2 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -88,6 +88,8 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   }
   if (number_x_square_per_board_.size() == 0) {
     number_x_square_per_board_.assign(max_board_idx + 1, nb_x_square);
+  }
+  if (number_y_square_per_board_.size() == 0) {
     number_y_square_per_board_.assign(max_board_idx + 1, nb_y_square);
   }
 
-- 
2.43.0


From afff86864b0b6a7635dfdd398801fb308fa524b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:50 +0000
Subject: [PATCH 23/37] fix: the board generator honours per-board counts
 without per-board sizes and resolutions

---
 .../src/create_charuco_boards.cpp             | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..d2a3253 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -41,7 +41,6 @@ int main(int argc, char *argv[]) {
   float length_square, length_marker;
   std::vector<int> number_x_square_per_board, number_y_square_per_board;
   std::vector<int> resolution_x_per_board, resolution_y_per_board;
-  std::vector<double> square_size_per_board;
   cv::FileStorage fs; // FileStorage to read calibration params from file
   const bool is_file_available = std::filesystem::exists(pathInt) &&
                                  pathInt.has_filename() &&
@@ -62,7 +61,6 @@ int main(int argc, char *argv[]) {
   assert(NbBoard > 0);
   const unsigned int num_board = static_cast<unsigned int>(NbBoard);
 
-  fs["square_size_per_board"] >> square_size_per_board;
   fs["number_x_square_per_board"] >> number_x_square_per_board;
   fs["number_y_square_per_board"] >> number_y_square_per_board;
   fs["resolution_x_per_board"] >> resolution_x_per_board;
@@ -70,14 +68,18 @@ int main(int argc, char *argv[]) {
 
   fs.release(); // close the input file
 
-  // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
+  // Use the common values for what is not specified per board
+  if (number_x_square_per_board.size() == 0) {
+    number_x_square_per_board.assign(num_board, num_x_square);
+  }
+  if (number_y_square_per_board.size() == 0) {
+    number_y_square_per_board.assign(num_board, num_y_square);
+  }
+  if (resolution_x_per_board.size() == 0) {
+    resolution_x_per_board.assign(num_board, res_x);
+  }
+  if (resolution_y_per_board.size() == 0) {
+    resolution_y_per_board.assign(num_board, res_y);
   }
 
   const std::vector<cv::Mat> charuco_boards_images =
-- 
2.43.0


From 092d7bebdff4c50ee38f5170a245eca6bc759ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 24/37] fix: calibrate without an argument reports it instead
 of reading a null path

---
 apps/calibrate/src/calibrate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/calibrate/src/calibrate.cpp b/apps/calibrate/src/calibrate.cpp
index 3834662..80ce794 100644
--- a/apps/calibrate/src/calibrate.cpp
+++ b/apps/calibrate/src/calibrate.cpp
@@ -85,7 +85,10 @@ void runCalibrationWorkflow(const std::filesystem::path &config_path) {
 }
 
 int main(int argc, char *argv[]) {
-  (void)argc; // casting to fix -Werror=unused-parameter
+  if (argc < 2) {
+    LOG_FATAL << "You need to provide the path to the configuration file";
+    return -1;
+  }
   const std::filesystem::path config_path = argv[1];
   const bool is_file_available = std::filesystem::exists(config_path) &&
                                  config_path.has_filename() &&
-- 
2.43.0


From bf6b9492b971c75e968b6d3e5cc28074228db57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 25/37] fix: board views without a valid pose are left out of
 pairwise poses and object observations

---
 McCalib/src/McCalib.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index e1f82e2..52bbbec 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -744,11 +744,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
@@ -952,7 +952,7 @@ void Calibration::init3DObjectObs(const int object_idx) {
         current_camobs->board_observations_;
     for (const auto &it_board_obs : current_board_obs) {
       auto board_obs_ptr = it_board_obs.second.lock();
-      if (board_obs_ptr) {
+      if (board_obs_ptr && board_obs_ptr->valid_) {
         // Check if this board correspond to the object of interest
         std::map<int, std::weak_ptr<Board>>::iterator it =
             object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
-- 
2.43.0


From ef0a7f261265de92b46a81abec9b44730b1300c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 26/37] fix: RANSAC leaves out samples without a P3P solution
 instead of using uninitialised poses

---
 McCalib/src/geometrytools.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 8adea8a..c21f0d8 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -276,8 +276,13 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
         imagePoints[idx[3]]};
 
     // Apply P3P (fourth point for disambiguation)
-    cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot, Trans,
-                 false, 2); // CV_P3P = 2
+    if (!cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot,
+                      Trans, false, 2)) { // CV_P3P = 2
+      // no pose for this sample
+      trialcount++;
+      countit++;
+      continue;
+    }
 
     // Reproject points
     std::vector<cv::Point2f> reprojected_pts;
-- 
2.43.0


From 89ff1d14502296b138291a1570406247e77fc6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 27/37] fix: fisheye cameras and cameras without data no longer
 carry uninitialised intrinsics and image sizes

---
 McCalib/include/Camera.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/include/Camera.hpp b/McCalib/include/Camera.hpp
index dba3284..b27454f 100644
--- a/McCalib/include/Camera.hpp
+++ b/McCalib/include/Camera.hpp
@@ -43,11 +43,11 @@ public:
   // intrinsics
   // fx,fy,u0,v0,r1,r2,t1,t2,r3 (perspective)
   // fx,fy,u0,v0,k1,k2,k3,k4 (Kannala)
-  std::array<double, 9> intrinsics_;
+  std::array<double, 9> intrinsics_ = {};
 
   int cam_idx_ = 0; // camera index
   int distortion_model_ = 0;
-  int im_cols_, im_rows_;
+  int im_cols_ = 0, im_rows_ = 0;
 
   // Functions
   Camera() = delete;
-- 
2.43.0


From 3b2189563167f9272e276c0afce76618ebf8bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 28/37] fix: board and object poses are zero, not
 uninitialised, when RANSAC finds none

---
 McCalib/src/BoardObs.cpp    | 4 ++--
 McCalib/src/Object3DObs.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/BoardObs.cpp b/McCalib/src/BoardObs.cpp
index dd83468..afa78fe 100644
--- a/McCalib/src/BoardObs.cpp
+++ b/McCalib/src/BoardObs.cpp
@@ -129,8 +129,8 @@ void BoardObs::estimatePose(const float ransac_thresh,
   }
 
   // Estimate the pose using a RANSAC
-  cv::Mat r_vec(1, 3, CV_64F);
-  cv::Mat t_vec(1, 3, CV_64F);
+  cv::Mat r_vec = cv::Mat::zeros(1, 3, CV_64F);
+  cv::Mat t_vec = cv::Mat::zeros(1, 3, CV_64F);
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
   if (cam_ptr) {
     cv::Mat inliers = ransacP3PDistortion(
diff --git a/McCalib/src/Object3DObs.cpp b/McCalib/src/Object3DObs.cpp
index 6d566ca..feffaa0 100644
--- a/McCalib/src/Object3DObs.cpp
+++ b/McCalib/src/Object3DObs.cpp
@@ -230,8 +230,8 @@ void Object3DObs::estimatePose(const float ransac_thresh,
   }
 
   // Estimate the pose using a RANSAC
-  cv::Mat r_vec(1, 3, CV_64F);
-  cv::Mat t_vec(1, 3, CV_64F);
+  cv::Mat r_vec = cv::Mat::zeros(1, 3, CV_64F);
+  cv::Mat t_vec = cv::Mat::zeros(1, 3, CV_64F);
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
   if (cam_ptr) {
     cv::Mat inliers = ransacP3PDistortion(
-- 
2.43.0


From 6db41466b5165455d0a1f68835c11d596646bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:27 +0000
Subject: [PATCH 29/37] fix: a view left without points no longer ends the
 calibration

---
 McCalib/src/geometrytools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index c21f0d8..6de8bce 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -770,6 +770,9 @@ void projectPointsWithDistortion(const std::vector<cv::Point3f> &object_pts,
                                  const cv::Mat &distortion_vector,
                                  const int distortion_type,
                                  std::vector<cv::Point2f> &repro_pts) {
+  repro_pts.clear();
+  if (object_pts.empty()) // refused by OpenCV
+    return;
   if (distortion_type == 0) // perspective (Brown)
   {
     cv::projectPoints(object_pts, rot, trans, camera_matrix, distortion_vector,
-- 
2.43.0


From b18272821638405f6ca09140c9fe53d89de375f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 30/37] fix: an object whose RANSAC finds no pose takes that of
 one of its boards

---
 McCalib/src/Object3DObs.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/McCalib/src/Object3DObs.cpp b/McCalib/src/Object3DObs.cpp
index feffaa0..9ae452d 100644
--- a/McCalib/src/Object3DObs.cpp
+++ b/McCalib/src/Object3DObs.cpp
@@ -244,6 +244,20 @@ void Object3DObs::estimatePose(const float ransac_thresh,
     r_vec.convertTo(r_vec, CV_64F);
     t_vec.convertTo(t_vec, CV_64F);
     setPoseVec(r_vec, t_vec);
+
+    // no pose found for the object: rely on the pose of one of its boards
+    auto object_3d_ptr = object_3d_.lock();
+    if (inliers.rows == 0 && object_3d_ptr) {
+      for (const auto &it : board_observations_) {
+        auto board_obs_ptr = it.second.lock();
+        if (board_obs_ptr) {
+          setPoseMat(
+              board_obs_ptr->getPoseMat() *
+              object_3d_ptr->getBoardPoseMat(board_obs_ptr->board_id_).inv());
+          break;
+        }
+      }
+    }
   }
 }
 
-- 
2.43.0


From 461249da6c35aecf2aaa9c89bf4f5dae195d4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 31/37] fix: two camera groups without common objects no longer
 leave an empty object behind

no_overlap_object_pair_ holds (0, 0) for such a pair, and looking these up in
object_3d_ inserted a null object when there is none; initInterObjectsGraph
then dereferenced it.
---
 McCalib/src/McCalib.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 52bbbec..565ea59 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1352,10 +1352,6 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
   int object_cam_1 = object_pair.first;
   int object_cam_2 = object_pair.second;
 
-  // Prepare the 3D objects
-  std::shared_ptr<Object3D> object_3D_1 = object_3d_[object_cam_1];
-  std::shared_ptr<Object3D> object_3D_2 = object_3d_[object_cam_2];
-
   // std::vector to store data for non-overlapping calibration
   std::vector<cv::Mat> pose_abs_1,
       pose_abs_2; // absolute pose stored to compute relative displacements
-- 
2.43.0


From 95801b596c70106ccfd9b437aa60222ba13cb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 32/37] fix: supplied intrinsics are checked before they are
 read

A camera missing from the file, a distortion vector shorter than the model
needs (that of a fisheye camera used as perspective) or matrices saved in
single precision were read beyond their end.
---
 McCalib/src/McCalib.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 565ea59..0939e08 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -685,6 +685,18 @@ void Calibration::initializeCalibrationAllCam() {
       loaded_cam_params["camera_matrix"] >> camera_matrix;
       loaded_cam_params["distortion_vector"] >> distortion_coeffs;
 
+      const std::size_t nb_coeffs = it.second->distortion_model_ == 1 ? 4u : 5u;
+      if (camera_matrix.size() != cv::Size(3, 3) ||
+          camera_matrix.channels() != 1 ||
+          distortion_coeffs.total() * distortion_coeffs.channels() <
+              nb_coeffs) {
+        throw std::runtime_error("Camera " + std::to_string(it.first) +
+                                 ": incomplete parameters in " +
+                                 cam_params_path_.string());
+      }
+      camera_matrix.convertTo(camera_matrix, CV_64F);
+      distortion_coeffs.reshape(1, 1).convertTo(distortion_coeffs, CV_64F);
+
       it.second->setIntrinsics(camera_matrix, distortion_coeffs);
     }
 
-- 
2.43.0


From b623697f301b7955bc14614225c3606bdb3eca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:12 +0000
Subject: [PATCH 33/37] fix: saved keypoints are checked against the boards
 before they are used

With NDEBUG nothing compared the lengths of the lists, and a board or corner
number which the configuration does not know was used as an index.
---
 McCalib/src/McCalib.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 0939e08..8c96215 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -201,12 +201,34 @@ void Calibration::loadDetectedKeypoints() {
 
     cams_[cam_idx]->im_cols_ = img_cols;
     cams_[cam_idx]->im_rows_ = img_rows;
-    assert(frame_idxs.size() != 0 && frame_idxs.size() == frame_paths.size() &&
-           frame_paths.size() == board_idxs.size() &&
-           board_idxs.size() == points.size() &&
-           points.size() == charuco_idxs.size());
+    if (frame_idxs.size() != frame_paths.size() ||
+        frame_paths.size() != board_idxs.size() ||
+        board_idxs.size() != points.size() ||
+        points.size() != charuco_idxs.size()) {
+      throw std::runtime_error("Camera " + std::to_string(cam_idx) +
+                               ": incomplete keypoints in " +
+                               keypoints_path_.string());
+    }
 
     for (unsigned int i = 0u; i < frame_idxs.size(); ++i) {
+      // the keypoints must be those of the boards of the configuration
+      const auto board = boards_3d_.find(board_idxs[i]);
+      const bool is_valid =
+          board != boards_3d_.end() &&
+          points[i].size() == charuco_idxs[i].size() &&
+          std::all_of(charuco_idxs[i].begin(), charuco_idxs[i].end(),
+                      [&](const int charuco_idx) {
+                        return charuco_idx >= 0 &&
+                               static_cast<std::size_t>(charuco_idx) <
+                                   board->second->pts_3d_.size();
+                      });
+      if (!is_valid) {
+        throw std::runtime_error(
+            "Camera " + std::to_string(cam_idx) + ", frame " +
+            std::to_string(frame_idxs[i]) +
+            ": keypoints do not match the boards in " +
+            keypoints_path_.string());
+      }
       insertNewBoard(cam_idx, frame_idxs[i], board_idxs[i], points[i],
                      charuco_idxs[i], frame_paths[i]);
     }
-- 
2.43.0


From eacf2b2cd0396d549ee1f626b48524fe2abb5362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:37 +0000
Subject: [PATCH 34/37] fix: settings whose lists are too short for the cameras
 or boards are refused

distortion_per_camera, the lists per board and boards_index are used as (or
indexed with) board and camera numbers; a list that was too short was read
beyond its end. The assertions are not part of a release build.
---
 McCalib/src/McCalib.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 8c96215..3e1b2cb 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -86,6 +86,24 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   if (boards_index.size() != 0) {
     max_board_idx = *max_element(boards_index.begin(), boards_index.end());
   }
+
+  // Check that the settings fit together, these are used as indices below
+  const auto covers_all_boards = [&](const std::size_t nb_values) {
+    return nb_values == 0 ||
+           nb_values > static_cast<std::size_t>(max_board_idx);
+  };
+  if (nb_camera <= 0 || max_board_idx < 0 ||
+      std::any_of(boards_index.begin(), boards_index.end(),
+                  [](const int board_idx) { return board_idx < 0; }) ||
+      !covers_all_boards(number_x_square_per_board_.size()) ||
+      !covers_all_boards(number_y_square_per_board_.size()) ||
+      !covers_all_boards(square_size_per_board_.size()) ||
+      (distortion_per_camera.size() != 0 &&
+       distortion_per_camera.size() < nb_camera_)) {
+    throw std::runtime_error("Inconsistent number of cameras or boards in " +
+                             config_path.string());
+  }
+
   if (number_x_square_per_board_.size() == 0) {
     number_x_square_per_board_.assign(max_board_idx + 1, nb_x_square);
   }
-- 
2.43.0


From 8aa9586629c0bfab66388af63fdfb14c8c2371d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:37 +0000
Subject: [PATCH 35/37] fix: boards whose size or resolution is missing from a
 list are refused

The lists per board were read beyond their end when they are shorter than the
number of boards.
---
 McCalib/src/utilities.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/McCalib/src/utilities.cpp b/McCalib/src/utilities.cpp
index d59b0a9..c7f7860 100644
--- a/McCalib/src/utilities.cpp
+++ b/McCalib/src/utilities.cpp
@@ -29,6 +29,10 @@ createCharucoBoards(const unsigned int num_board,
                     const std::vector<int> &number_y_square_per_board,
                     const float length_square, const float length_marker,
                     const cv::Ptr<cv::aruco::Dictionary> dict) {
+  if (number_x_square_per_board.size() < num_board ||
+      number_y_square_per_board.size() < num_board) {
+    throw std::invalid_argument("The number of squares of a board is missing");
+  }
   std::map<int, cv::Ptr<cv::aruco::CharucoBoard>> charuco_boards;
   int offset_count = 0;
   for (std::size_t i = 0; i < num_board; i++) {
@@ -57,6 +61,10 @@ createCharucoBoardsImages(const unsigned int num_board,
                           const float length_square, const float length_marker,
                           const std::vector<int> &resolution_x_per_board,
                           const std::vector<int> &resolution_y_per_board) {
+  if (resolution_x_per_board.size() < num_board ||
+      resolution_y_per_board.size() < num_board) {
+    throw std::invalid_argument("The resolution of a board is missing");
+  }
   cv::Ptr<cv::aruco::Dictionary> dict =
       cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
   const std::map<int, cv::Ptr<cv::aruco::CharucoBoard>> charuco_boards =
@@ -84,6 +92,10 @@ createCharucoBoards(const unsigned int num_board,
                     const std::vector<int> &number_y_square_per_board,
                     const float length_square, const float length_marker,
                     const cv::aruco::Dictionary &dict) {
+  if (number_x_square_per_board.size() < num_board ||
+      number_y_square_per_board.size() < num_board) {
+    throw std::invalid_argument("The number of squares of a board is missing");
+  }
   std::map<int, cv::Ptr<cv::aruco::CharucoBoard>> charuco_boards;
   int offset_count = 0;
   for (std::size_t i = 0; i < num_board; i++) {
@@ -118,6 +130,10 @@ createCharucoBoardsImages(const unsigned int num_board,
                           const float length_square, const float length_marker,
                           const std::vector<int> &resolution_x_per_board,
                           const std::vector<int> &resolution_y_per_board) {
+  if (resolution_x_per_board.size() < num_board ||
+      resolution_y_per_board.size() < num_board) {
+    throw std::invalid_argument("The resolution of a board is missing");
+  }
   const cv::aruco::Dictionary dict =
       cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
   const std::map<int, cv::Ptr<cv::aruco::CharucoBoard>> charuco_boards =
-- 
2.43.0


From e42234097ba4549b573a39f4da08dd11ef1ac7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 36/37] fix: an unsupported distortion model is refused

It left the camera matrix empty, which setIntrinsics read.
---
 McCalib/src/Camera.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/Camera.cpp b/McCalib/src/Camera.cpp
index 79305a4..3cb7043 100644
--- a/McCalib/src/Camera.cpp
+++ b/McCalib/src/Camera.cpp
@@ -14,7 +14,11 @@
 namespace McCalib {
 
 Camera::Camera(const int cam_idx, const int distortion_model)
-    : cam_idx_(cam_idx), distortion_model_(distortion_model) {}
+    : cam_idx_(cam_idx), distortion_model_(distortion_model) {
+  if (distortion_model != 0 && distortion_model != 1) {
+    throw std::invalid_argument("Unsupported distortion model");
+  }
+}
 
 /**
  * @brief Get camera matrix (K)
-- 
2.43.0


From b6c13cebdc7cc114391174029124119868a3e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 37/37] fix: views of fewer than four points are left out of
 the initial intrinsics

OpenCV refuses them, which ended the calibration. The keypoints saved by a
calibration contain such views once outliers were removed from them.
---
 McCalib/src/Camera.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/Camera.cpp b/McCalib/src/Camera.cpp
index 3cb7043..1571bfd 100644
--- a/McCalib/src/Camera.cpp
+++ b/McCalib/src/Camera.cpp
@@ -198,7 +198,9 @@ void Camera::initializeCalibration() {
   for (std::size_t i = 0; i < nb_board_est; i++) {
     std::shared_ptr<BoardObs> board_obs_temp =
         board_observations_[indbv[shuffled_board_ind[i]]].lock();
-    if (board_obs_temp) {
+    // a view needs four points (those left of an earlier calibration, if the
+    // keypoints it saved are used, can be fewer)
+    if (board_obs_temp && board_obs_temp->pts_2d_.size() >= 4u) {
       // if fisheye, check if points are not too close to borders
       bool valid_board = true;
       if (distortion_model_ == 1) {
-- 
2.43.0

