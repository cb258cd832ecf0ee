From d93d373c9a8de015189d5cf04772249a6bde2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 01/27] fix: keep fractional edge weights in Graph shortest
 path

The distance map handed to Dijkstra was a vector<int>: every tentative
distance was truncated, so the path reported for fractional weights (the
pipeline uses 1/number of common views) was not the shortest one.
---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..43e426d 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -115,7 +115,7 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
   std::vector<int> d(boost::num_vertices(graph_));
 
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From b78021fe5c8bb87e7f347bf806058c03c9ecb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 02/27] fix: no endless loop in Graph::getPath for unconnected
 vertices

Dijkstra leaves an unreachable vertex as its own predecessor, so walking
the predecessors never met the source and the path grew until memory ran
out. Return an empty path instead.
---
 McCalib/src/Graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 43e426d..b669061 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -142,6 +142,9 @@ std::vector<int> Graph::getPath(const std::vector<Vertex> &p_map,
                                 const Vertex &destination) {
   std::vector<int> path;
   Vertex current = destination;
+  // an unreachable vertex is its own predecessor: there is no path to it
+  if (destination != source && p_map[destination] == destination)
+    return path;
   while (current != source) {
     path.push_back(std::stoi(boost::get(boost::vertex_name, graph_, current)));
     current = p_map[current];
-- 
2.43.0


From 772e99a3c20e824bd6b1e1346a9dc7e18c4e8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 03/27] fix: register a frame with every camera and board seen
 in it

Calibration::insertNewBoard registered the frame only with the camera and
board whose observation created it, so the frame lists of all the others
depended on the order in which images were processed.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..019f86f 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -621,9 +621,9 @@ void Calibration::insertNewBoard(const int cam_idx, const int frame_idx,
         std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
     frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
     frames_[frame_idx]->insertNewBoard(new_board);
-    cams_[cam_idx]->insertNewFrame(newFrame);
-    boards_3d_[board_idx]->insertNewFrame(newFrame);
   }
+  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
+  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
 
   // Add CamObs in the CamobsList and frame
   std::pair<int, int> cam_frame_idx = std::make_pair(cam_idx, frame_idx);
-- 
2.43.0


From 8dc148c027e0cac360dfa0a615628222f24f218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 04/27] fix: data race on the shared detection parameters

Every image task of the thread pool wrote adaptiveThreshConstant of the
detector parameters shared by all tasks, without a lock, while others
were reading them. Set it once before the tasks are posted.
---
 McCalib/src/McCalib.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 019f86f..93229f7 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -247,6 +247,16 @@ void Calibration::detectBoardsWithCamera(const std::vector<cv::String> &fn,
     cams_[cam_idx]->im_cols_ = image.cols;
     cams_[cam_idx]->im_rows_ = image.rows;
   }
+
+  // the detection parameters are shared by all the tasks posted below: they are
+  // only read from now on
+#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
+     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
+  charuco_params_->adaptiveThreshConstant = 1;
+#else
+  charuco_params_.adaptiveThreshConstant = 1;
+#endif
+
   for (std::size_t frame_idx = 0u; frame_idx < num_frames; ++frame_idx) {
     LOG_DEBUG << "Frame index :: " << frame_idx;
 
@@ -290,13 +300,6 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
   // key == board id, value == ID corners on checkerboard
   std::map<int, std::vector<int>> charuco_idx;
 
-#if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-     defined(CV_VERSION_MINOR) && CV_VERSION_MINOR < 7)
-  charuco_params_->adaptiveThreshConstant = 1;
-#else
-  charuco_params_.adaptiveThreshConstant = 1;
-#endif
-
   for (std::size_t i = 0; i < nb_board_; i++) {
 
 #if (defined(CV_VERSION_MAJOR) && CV_VERSION_MAJOR <= 4 &&                     \
-- 
2.43.0


From ddb7fc9f76b5a2dd40c85b62ebb39ccbcbbff9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 05/27] fix: board geometry follows each documented per-board
 setting

Board only looked at number_{x,y}_square_per_board when
square_size_per_board was given too, although the README documents them
as independent: with [10,5]x[3,4] boards of one square size every board
got the layout of number_x_square x number_y_square while the detector
used the real one, and corner ids indexed past the board's points. With
only square_size_per_board set the empty count vectors were read.
---
 McCalib/src/Board.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..bb31d89 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -45,18 +45,23 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
     std::iota(boards_index.begin(), boards_index.end(), 0);
   }
 
-  if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
-    fs["length_square"] >> length_square_;
-    fs["length_marker"] >> length_marker_;
-    fs["resolution_x"] >> res_x_;
-    fs["resolution_y"] >> res_y_;
-    fs["square_size"] >> square_size_;
-  } else {
-    nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
-    nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
-    square_size_ = square_size_per_board[boards_index[board_idx]];
+  fs["number_x_square"] >> nb_x_square_;
+  fs["number_y_square"] >> nb_y_square_;
+  fs["length_square"] >> length_square_;
+  fs["length_marker"] >> length_marker_;
+  fs["resolution_x"] >> res_x_;
+  fs["resolution_y"] >> res_y_;
+  fs["square_size"] >> square_size_;
+
+  // the number of squares and their size can be specified per board
+  // independently of each other
+  const int charuco_board_idx = boards_index[board_idx];
+  if (number_x_square_per_board.size() != 0) {
+    nb_x_square_ = number_x_square_per_board[charuco_board_idx];
+    nb_y_square_ = number_y_square_per_board[charuco_board_idx];
+  }
+  if (square_size_per_board.size() != 0) {
+    square_size_ = square_size_per_board[charuco_board_idx];
   }
 
   fs.release(); // close the input file
-- 
2.43.0


From a8b43725200e2689c04196bffa6e78a00f447360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 06/27] fix: read the documented quaternion_averaging key

The key was looked up with a trailing colon, so the setting never took
effect and the flag was always false.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 93229f7..813a012 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From e1f75b1a5a4862b7ace5a197c35ecc5457170941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 07/27] fix: hand-eye fallback uses the poses of both camera
 groups

---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..b35cad3 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -680,7 +680,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From 0dc775560bc181c9c0b14b6d12d6dd4caaa45aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 08/27] fix: hand-eye consistency check compares different pose
 pairs

---
 McCalib/src/geometrytools.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index b35cad3..fd6d2f5 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -583,11 +583,13 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // displacements of the objects seen by each group: for a rigid
+        // rig PP1 * pose_g1_g2 = pose_g1_g2 * PP2
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP1 * pose_g1_g2 * PP2.inv() * pose_g1_g2.inv();
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
-- 
2.43.0


From c06077adfdcc232b13a6b407858727e4c01d1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 09/27] fix: never pick more clusters than there are

---
 McCalib/src/geometrytools.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index fd6d2f5..49710fc 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -455,13 +455,14 @@ std::vector<unsigned int> selectClusters(const unsigned int num_clusters,
   std::random_device rd;
   std::mt19937 g(rd());
   std::shuffle(shuffled_ind.begin(), shuffled_ind.end(), g);
+  const unsigned int nb_selected = std::min(nb_clust_pick, num_clusters);
   std::vector<unsigned int> cluster_select;
-  cluster_select.reserve(nb_clust_pick);
-  for (unsigned int k = 0; k < nb_clust_pick; ++k) {
+  cluster_select.reserve(nb_selected);
+  for (unsigned int k = 0; k < nb_selected; ++k) {
     cluster_select.push_back(shuffled_ind[k]);
   }
 
-  assert(cluster_select.size() == nb_clust_pick);
+  assert(cluster_select.size() == nb_selected);
   return cluster_select;
 }
 
-- 
2.43.0


From 4a6a640a6215c054f660e2b9044f54bf1a0ab6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 10/27] fix: chain camera poses in the right order along a path
 of cameras

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 813a012..3cecb13 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1133,7 +1133,7 @@ void Calibration::initCameraGroup() {
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
           // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
-- 
2.43.0


From 3f1d09aa4c7baee35ebf3b2744304b44e29d172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 11/27] fix: chain camera group poses in the right order along
 a path of groups

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 3cecb13..09051ca 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1569,7 +1569,7 @@ void Calibration::mergeCameraGroup() {
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
           // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From ca504b79bc8e9e5f0547c7b5f5f1b08e4ef54a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 12/27] fix: register merged object observations once

---
 McCalib/src/McCalib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 09051ca..2a2f8f2 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1854,12 +1854,8 @@ void Calibration::mergeAllObjectObs() {
   object_observations_.clear();
 
   // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From b0fbde3de11241e87ea1d8bdc7843c679fe492b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 13/27] fix: save the parameters of the cameras of all groups

---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 2a2f8f2..f7db690 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -381,9 +381,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -402,9 +402,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From 25d4dc62b78e8bff5e04a3a3838bcd68bf2dcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 14/27] fix: forget the poses between camera groups once the
 groups are merged

---
 McCalib/src/McCalib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f7db690..b98329b 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1609,6 +1609,11 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+
+  // The poses between the previous groups have been used and their indexes do
+  // not refer to the merged groups
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From 755be15b504cccce39d6e5572b3ea3e77e9a2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 15/27] fix: boards whose pose estimation failed do not take
 part in objects

---
 McCalib/src/McCalib.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index b98329b..0eea8e8 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -744,11 +744,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
@@ -952,7 +952,7 @@ void Calibration::init3DObjectObs(const int object_idx) {
         current_camobs->board_observations_;
     for (const auto &it_board_obs : current_board_obs) {
       auto board_obs_ptr = it_board_obs.second.lock();
-      if (board_obs_ptr) {
+      if (board_obs_ptr && board_obs_ptr->valid_) {
         // Check if this board correspond to the object of interest
         std::map<int, std::weak_ptr<Board>>::iterator it =
             object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
-- 
2.43.0


From 15e7e6958b5423178b6de481ef4f69dc90c14219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 16/27] fix: reset both tables of poses between camera groups

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 0eea8e8..b6994ed 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1485,7 +1485,7 @@ void Calibration::initNonOverlapPair(const int cam_group_id1,
  */
 void Calibration::findPoseNoOverlapAllCamGroup() {
   no_overlap_camgroup_pair_pose_.clear();
-  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 
   // Iterate through the camera groups
   for (const auto &it_groups_1 : cam_group_) {
-- 
2.43.0


From 99503e390c71029565220efd3e919d40be763651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 17/27] fix: save the object poses in the referential of the
 reference camera

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index b6994ed..a3e9c58 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -468,7 +468,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From 8ce21dc54bf851912b4ece95fc2984490ff02d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 18/27] fix: keep refining the corners after one that does not
 converge

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index a3e9c58..d98a2cf 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -331,7 +331,7 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                  corner_ref_window_, corner_ref_max_iter_);
         for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
           if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
-            break;
+            continue;
           }
           charuco_corners[i][j].x = refined[j].x;
           charuco_corners[i][j].y = refined[j].y;
-- 
2.43.0


From d5a0a2598006dbdd84070c6a5370a45747c51369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 19/27] fix: initialise the number of kernel weights of the
 corner refinement

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 0e3f27890ad3db388964f51138bd3fa8acc9b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 20/27] fix: projecting no point gives no point

---
 McCalib/src/geometrytools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 49710fc..e2a1da9 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -761,6 +761,10 @@ void projectPointsWithDistortion(const std::vector<cv::Point3f> &object_pts,
                                  const cv::Mat &distortion_vector,
                                  const int distortion_type,
                                  std::vector<cv::Point2f> &repro_pts) {
+  if (object_pts.empty()) {
+    repro_pts.clear();
+    return;
+  }
   if (distortion_type == 0) // perspective (Brown)
   {
     cv::projectPoints(object_pts, rot, trans, camera_matrix, distortion_vector,
-- 
2.43.0


From 0e168bfa46611c1daaf1b7485e760cca950b75d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 21/27] fix: skip pose hypotheses that have no solution

---
 McCalib/src/geometrytools.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index e2a1da9..fdcf0af 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -269,8 +269,12 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
         imagePoints[idx[3]]};
 
     // Apply P3P (fourth point for disambiguation)
-    cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot, Trans,
-                 false, 2); // CV_P3P = 2
+    if (!cv::solvePnP(scenePoints3Pts, imagePoints3Pts, Intrinsic, Disto, Rot,
+                      Trans, false, 2)) { // CV_P3P = 2
+      trialcount++;
+      countit++;
+      continue;
+    }
 
     // Reproject points
     std::vector<cv::Point2f> reprojected_pts;
-- 
2.43.0


From 7e2687c5d6792dc3a177a087bf980d6944e9f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 22/27] fix: no pose from fewer than 4 points

---
 McCalib/src/geometrytools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index fdcf0af..088835c 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -246,6 +246,10 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   cv::Mat Rot(1, 3, CV_64F);
   cv::Mat Trans(1, 3, CV_64F);
 
+  // a hypothesis needs 4 points
+  if (imagePoints.size() < 4)
+    return InliersR;
+
   // Vector of index to shuffle
   std::srand(unsigned(std::time(0)));
   std::vector<int> myvector(imagePoints.size());
-- 
2.43.0


From 494fc08d979bec04d76e88a420c0648203cf23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 23/27] fix: defined pose when the pose estimation has no
 inlier

---
 McCalib/src/BoardObs.cpp    | 4 ++--
 McCalib/src/Object3DObs.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/BoardObs.cpp b/McCalib/src/BoardObs.cpp
index dd83468..e4f613c 100644
--- a/McCalib/src/BoardObs.cpp
+++ b/McCalib/src/BoardObs.cpp
@@ -129,8 +129,8 @@ void BoardObs::estimatePose(const float ransac_thresh,
   }
 
   // Estimate the pose using a RANSAC
-  cv::Mat r_vec(1, 3, CV_64F);
-  cv::Mat t_vec(1, 3, CV_64F);
+  cv::Mat r_vec(1, 3, CV_64F, cv::Scalar(0));
+  cv::Mat t_vec(1, 3, CV_64F, cv::Scalar(0));
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
   if (cam_ptr) {
     cv::Mat inliers = ransacP3PDistortion(
diff --git a/McCalib/src/Object3DObs.cpp b/McCalib/src/Object3DObs.cpp
index 6d566ca..06fd367 100644
--- a/McCalib/src/Object3DObs.cpp
+++ b/McCalib/src/Object3DObs.cpp
@@ -230,8 +230,8 @@ void Object3DObs::estimatePose(const float ransac_thresh,
   }
 
   // Estimate the pose using a RANSAC
-  cv::Mat r_vec(1, 3, CV_64F);
-  cv::Mat t_vec(1, 3, CV_64F);
+  cv::Mat r_vec(1, 3, CV_64F, cv::Scalar(0));
+  cv::Mat t_vec(1, 3, CV_64F, cv::Scalar(0));
   std::shared_ptr<Camera> cam_ptr = cam_.lock();
   if (cam_ptr) {
     cv::Mat inliers = ransacP3PDistortion(
-- 
2.43.0


From 2845999a10890f25d5ee955e5b94e2a7bebf56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 24/27] fix: board generator follows each per-board setting

---
 .../src/create_charuco_boards.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..142b099 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -71,14 +71,14 @@ int main(int argc, char *argv[]) {
   fs.release(); // close the input file
 
   // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
-  }
+  if (number_x_square_per_board.size() == 0)
+    number_x_square_per_board.assign(num_board, num_x_square);
+  if (number_y_square_per_board.size() == 0)
+    number_y_square_per_board.assign(num_board, num_y_square);
+  if (resolution_x_per_board.size() == 0)
+    resolution_x_per_board.assign(num_board, res_x);
+  if (resolution_y_per_board.size() == 0)
+    resolution_y_per_board.assign(num_board, res_y);
 
   const std::vector<cv::Mat> charuco_boards_images =
       McCalib::createCharucoBoardsImages(
-- 
2.43.0


From 07d47fc37dd590ec0026084d835f78103c166c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 25/27] fix: list only the frames of its own camera group in
 the reprojection error file

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index d98a2cf..648d5cf 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2255,7 +2255,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2263,6 +2262,7 @@ void Calibration::saveReprojectionErrorToFile() {
     int cam_group_idx = it.second->cam_group_idx_;
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
+    cv::Mat frame_list;
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
-- 
2.43.0


From 3d27e20be1d12ea6cab9bc3febdfe17ff7e46952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 26/27] fix: count each common frame once when choosing the
 objects that link two camera groups

---
 McCalib/src/McCalib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 648d5cf..f6c8a39 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -3,6 +3,7 @@
 #include <opencv2/aruco/charuco.hpp>
 #include <opencv2/opencv.hpp>
 #include <random>
+#include <set>
 #include <stdio.h>
 
 #include "McCalib.hpp"
@@ -1298,6 +1299,8 @@ void Calibration::findPairObjectForNonOverlap() {
                 common_frames_cam_group1_obs_ptr->object_observations_;
             std::map<int, std::weak_ptr<Object3DObs>> object_obs_2 =
                 common_frames_cam_group2_obs_ptr->object_observations_;
+            // several cameras of a group may see the same object
+            std::set<std::pair<int, int>> pairs_in_frame;
             for (const auto &it_object_obs_1 : object_obs_1) {
               auto object_obs_1_ptr = it_object_obs_1.second.lock();
               if (object_obs_1_ptr) {
@@ -1306,7 +1309,9 @@ void Calibration::findPairObjectForNonOverlap() {
                   auto object_obs_2_ptr = it_object_obs_2.second.lock();
                   if (object_obs_2_ptr) {
                     int obj_ind_2 = object_obs_2_ptr->object_3d_id_;
-                    count_pair_obs[std::make_pair(obj_ind_1, obj_ind_2)]++;
+                    if (pairs_in_frame.insert(std::make_pair(obj_ind_1, obj_ind_2))
+                            .second)
+                      count_pair_obs[std::make_pair(obj_ind_1, obj_ind_2)]++;
                   }
                 }
               }
-- 
2.43.0


From a5e29cc58cdcc5daa28404a4e62a3338bd321613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:10 +0000
Subject: [PATCH 27/27] fix: accept a per-board number of squares in one
 direction only

---
 McCalib/src/Board.cpp   | 2 ++
 McCalib/src/McCalib.cpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index bb31d89..be63267 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -58,6 +58,8 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
   const int charuco_board_idx = boards_index[board_idx];
   if (number_x_square_per_board.size() != 0) {
     nb_x_square_ = number_x_square_per_board[charuco_board_idx];
+  }
+  if (number_y_square_per_board.size() != 0) {
     nb_y_square_ = number_y_square_per_board[charuco_board_idx];
   }
   if (square_size_per_board.size() != 0) {
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f6c8a39..c806f9e 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -87,10 +87,10 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   if (boards_index.size() != 0) {
     max_board_idx = *max_element(boards_index.begin(), boards_index.end());
   }
-  if (number_x_square_per_board_.size() == 0) {
+  if (number_x_square_per_board_.size() == 0)
     number_x_square_per_board_.assign(max_board_idx + 1, nb_x_square);
+  if (number_y_square_per_board_.size() == 0)
     number_y_square_per_board_.assign(max_board_idx + 1, nb_y_square);
-  }
 
   LOG_INFO << "Nb of cameras : " << nb_camera_
            << "   Nb of Boards : " << nb_board_
-- 
2.43.0

