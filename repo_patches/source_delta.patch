From cccd1593e7fe3f30d60992906a53deb3d6c7d904 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:13:30 +0000
Subject: [PATCH 01/32] fix: do not loop forever when a staged feature cannot
 be converted to a map feature

---
 src/map_management/feature_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index a11bb15..8a6bcd9 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -816,6 +816,8 @@ class Feature_Map
                     outputs::log_error(get_display_name() +
                                        ": Caught exeption while creating a map feature from a staged feature: " +
                                        std::string(ex.what()));
+                    // keep it in the staged map, it will be tried again at the next update
+                    ++stagedFeatureIterator;
                 }
             }
             else if (stagedFeature.should_remove_from_staged())
-- 
2.43.0


From 52cedca149203c032892c09d848cecded2b258ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 02/32] fix: compare and replace the best RANSAC candidate in a
 single critical section

---
 src/pose_optimization/pose_optimization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 431aa41..1ada1f9 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -201,13 +201,15 @@ bool Pose_Optimization::compute_pose_with_ransac(const utils::PoseBase& currentP
 #endif
                 }
 
+                // the comparison and the replacement must be a single step for the other threads
+                std::scoped_lock<std::mutex> lock(mut);
+
                 // Better score, or same score but more inliers
                 const bool canOverload = (featureInlierScore > maxScore) or
                                          (utils::double_equal(featureInlierScore, maxScore, 0.1) and
                                           finalFeatureSets._inliers.size() < potentialInliersOutliers._inliers.size());
                 if (canOverload)
                 {
-                    std::scoped_lock<std::mutex> lock(mut);
                     maxScore = featureInlierScore;
                     bestPose = candidatePose;
                     // save features inliers and outliers
-- 
2.43.0


From f0fc0786b745de0d738a3d612c8202b4a65c093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 03/32] fix: do not return a pose covariance computed from no
 pose at all

---
 src/pose_optimization/pose_optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 1ada1f9..978bff9 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -407,7 +407,8 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
     );
 #endif
 
-    if (poses.size() < iterations / 2)
+    // a sample covariance needs at least two poses
+    if (poses.size() < 2 or poses.size() < iterations / 2)
     {
         outputs::log_error("Could not compute covariance: too many faileds iterations");
         _meanComputePoseVarianceDuration +=
-- 
2.43.0


From 2ac1ddb4b1350b5b45312abf568fe6c9b5db306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 04/32] fix: index the keypoint search cells by row with the
 number of columns

---
 src/features/keypoints/keypoint_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 9bfd98c..78fab9d 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -125,7 +125,7 @@ uint Keypoint_Handler::get_search_space_index(const uint_pair& searchSpaceIndex)
 {
     return get_search_space_index(searchSpaceIndex.second, searchSpaceIndex.first);
 }
-uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountY + x; }
+uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountX + x; }
 
 Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
         const ScreenCoordinate2D& pointToPlace) const noexcept
-- 
2.43.0


From ad9d838f3e428591648afe62414bb07fe3d5a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 05/32] fix: search keypoint matches near the left and top
 image borders

---
 src/features/keypoints/keypoint_handler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 78fab9d..5660209 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -142,8 +142,9 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
-    const uint startY = std::max(0U, searchSpaceCoordinatesY - searchSpaceCellRadius);
-    const uint startX = std::max(0U, searchSpaceCoordinatesX - searchSpaceCellRadius);
+    // (unsigned coordinates: do not underflow on the first cells)
+    const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
+    const uint startX = searchSpaceCoordinatesX - std::min(searchSpaceCoordinatesX, searchSpaceCellRadius);
 
     const uint endY = std::min(_cellCountY, searchSpaceCoordinatesY + searchSpaceCellRadius + 1);
     const uint endX = std::min(_cellCountX, searchSpaceCoordinatesX + searchSpaceCellRadius + 1);
-- 
2.43.0


From c0877ac6849b3b37961914f9d116b05bac2ecfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:52 +0000
Subject: [PATCH 06/32] fix: use the requested radius when searching for
 keypoint matches

---
 src/features/keypoints/keypoint_handler.cpp | 12 ++++++++----
 src/features/keypoints/keypoint_handler.hpp |  8 ++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 5660209..bffb0cc 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -138,7 +138,8 @@ Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
 
 cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept
+                                                         const uint searchSpaceCellRadius,
+                                                         const double searchSpaceRadius) const noexcept
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
@@ -160,7 +161,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 
             // get all keypoints in this area
             const index_container& keypointIndexContainer = _searchSpaceIndexContainer[searchSpaceIndex];
-            fill_keypoint_mask(pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, keyPointMask);
+            fill_keypoint_mask(
+                    pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, searchSpaceRadius, keyPointMask);
         }
     }
 
@@ -170,10 +172,11 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                                           const index_container& keypointIndexContainer,
                                           const vectorb& isKeyPointMatchedContainer,
+                                          const double searchSpaceRadius,
                                           cv::Mat_<uchar>& keyPointMask) const noexcept
 {
     // Squared search diameter, to compare distance without sqrt
-    constexpr float squaredSearchDiameter = static_cast<float>(SQR(parameters::matching::matchSearchRadius_px));
+    const double squaredSearchDiameter = SQR(searchSpaceRadius);
     for (const uint keypointIndex: keypointIndexContainer)
     {
         // ignore this point if it is already matched (prevent multiple matches of one point)
@@ -256,7 +259,8 @@ Keypoint_Handler::matchIndexSet Keypoint_Handler::get_match_indexes(const Screen
     assert(mapPointDescriptor.cols == _descriptors.cols);
 
     const cv::Mat_<uchar>& keyPointMask =
-            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius);
+            compute_key_point_mask(
+                    projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius, searchSpaceRadius);
 
     std::vector<std::vector<cv::DMatch>> knnMatches;
     _featuresMatcher->knnMatch(mapPointDescriptor, _descriptors, knnMatches, 2, keyPointMask);
diff --git a/src/features/keypoints/keypoint_handler.hpp b/src/features/keypoints/keypoint_handler.hpp
index 6c313f1..130e018 100644
--- a/src/features/keypoints/keypoint_handler.hpp
+++ b/src/features/keypoints/keypoint_handler.hpp
@@ -184,13 +184,15 @@ class Keypoint_Handler
      *
      * \param[in] pointToSearch The 2D screen coordinates of the point to match
      * \param[in] isKeyPointMatchedContainer A vector of size _keypoints, use to flag is a keypoint is already matched
-     * \param[in] searchSpaceCellRadius Radius of the match search
+     * \param[in] searchSpaceCellRadius Radius of the match search, in search space cells
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      *
      * \return A Mat the same size as our keypoint array, with 0 where the index is not a candidate, and 1 where it is
      */
     [[nodiscard]] cv::Mat_<uchar> compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept;
+                                                         const uint searchSpaceCellRadius,
+                                                         const double searchSpaceRadius) const noexcept;
 
     using index_container = std::vector<uint>;
     /**
@@ -198,11 +200,13 @@ class Keypoint_Handler
      * \param[in] pointToSearch The cooridnates of the point we want to match
      * \param[in] keypointIndexContainer A container with all the keypoints to draw an area around
      * \param[in] isKeyPointMatchedContainer If a keypoint is already matched, it's index will be true
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      * \param[in, out] keyPointMask The match mask for each keypoints
      */
     void fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                             const index_container& keypointIndexContainer,
                             const vectorb& isKeyPointMatchedContainer,
+                            const double searchSpaceRadius,
                             cv::Mat_<uchar>& keyPointMask) const noexcept;
 
     using uint_pair = std::pair<uint, uint>;
-- 
2.43.0


From 0f5f46e535de417c1fc8c132d1fb709be288ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 07/32] fix: return and use the matches found for 2D map points

---
 .../map_features/map_point2d.cpp              | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index cd6e467..61664bf 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -100,7 +100,13 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
 
     // try to match with tracking
     int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
+    if (matchIndex != features::keypoints::INVALID_MATCH_INDEX)
+    {
+        assert(matchIndex >= 0);
+        assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
+        matchIndexRes.emplace(matchIndex);
+    }
+    else
     {
         // No match: try to find match in a window around the point
         ScreenCoordinate2D screenCoordinates;
@@ -112,20 +118,6 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
         }
     }
 
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
-    {
-        // unmatched point
-        return matchIndexRes;
-    }
-
-    assert(matchIndex >= 0);
-    assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
-    if (isDetectedFeatureMatched[matchIndex])
-    {
-        // point was already matched
-        outputs::log_error("The requested point unique index is already matched");
-    }
-
     if (shouldAddToMatches)
     {
         for (const auto i: matchIndexRes)
-- 
2.43.0


From 6030d422379d1e19eb0980a26a25245f90a7f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:30 +0000
Subject: [PATCH 08/32] fix: accept a match with the first detected plane

---
 src/map_management/map_features/map_primitive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 2021478..5a91c0f 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -143,7 +143,7 @@ matchIndexSet MapPlane::find_matches(const DetectedPlaneObject& detectedFeatures
         }
     }
 
-    if (selectedIndex <= 0)
+    if (selectedIndex < 0)
         return matchIndexes;
 
     if (shouldAddToMatches)
-- 
2.43.0


From a9e03f324ae800ab38c1f833ef0c064a5ed7361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:04 +0000
Subject: [PATCH 09/32] fix: a plane behind the camera is not visible

---
 src/coordinates/polygon_coordinates.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 1b6871f..5e0853a 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -119,9 +119,15 @@ utils::Polygon::polygon CameraPolygon::to_screen_space() const
 
 bool CameraPolygon::is_visible_in_screen_space() const
 {
+    // a polygon that is entirely behind the camera is not visible
+    if (std::ranges::none_of(get_screen_points(), [](const ScreenCoordinate& point) {
+            return point.z() > 0;
+        }))
+        return false;
+
     // intersecton of this polygon in screen space, and the screen limits; if it exists, the polygon is visible
     multi_polygon res;
-    // TODO: can this be a problem  when the polygon is behind the camera ?
+    // TODO: can this be a problem  when the polygon is partially behind the camera ?
     boost::geometry::intersection(to_screen_space(), utils::get_static_screen_boundary_polygon(), res);
     return not res.empty(); // intersection exists, polygon is visible
 }
-- 
2.43.0


From 85025ba2f80c1bb4ec1f11d78b390b54cafe7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:26 +0000
Subject: [PATCH 10/32] fix: use the absolute retroprojection error of 2D
 points to select inliers

---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 61664bf..5fd374d 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -32,7 +32,7 @@ double Point2dOptimizationFeature::get_score() const noexcept
 
 bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
-    return (get_distance(worldToCamera).array() <=
+    return (get_distance(worldToCamera).array().abs() <=
             parameters::optimization::ransac::maximumRetroprojectionErrorForPoint2DInliers_px)
             .all();
 }
-- 
2.43.0


From 3c976400962e5eef35ebd23473bb2af8d275bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:02 +0000
Subject: [PATCH 11/32] fix: bound the inverse depth of the furthest and
 closest estimations from below

---
 src/coordinates/inverse_depth_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/inverse_depth_coordinates.cpp b/src/coordinates/inverse_depth_coordinates.cpp
index d957b3c..46f771f 100644
--- a/src/coordinates/inverse_depth_coordinates.cpp
+++ b/src/coordinates/inverse_depth_coordinates.cpp
@@ -143,14 +143,14 @@ WorldCoordinate InverseDepthWorldPoint::get_furthest_estimation(const double inv
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm - depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm - depthVariation, 1e-9));
 }
 
 WorldCoordinate InverseDepthWorldPoint::get_closest_estimation(const double inverseDepthStandardDev) const
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm + depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm + depthVariation, 1e-9));
 }
 
 bool InverseDepthWorldPoint::to_screen_coordinates(const WorldToCameraMatrix& w2c,
-- 
2.43.0


From de587d0976c56434c63527cf255bec874888836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:43 +0000
Subject: [PATCH 12/32] fix: a 2D point behind the camera is not visible

---
 src/map_management/map_features/map_point2d.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 5fd374d..ee9b515 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -181,9 +181,15 @@ void MapPoint2D::draw(const WorldToCameraMatrix& worldToCamMatrix,
 bool MapPoint2D::is_visible(const WorldToCameraMatrix& worldToCamMatrix) const noexcept
 {
     // Those points should laways be visible but we never know
-    utils::Segment<2> screenSegment;
-    if (_coordinates.to_screen_coordinates(worldToCamMatrix, _covariance.get_inverse_depth_variance(), screenSegment))
+    utils::Segment<3> screenSegment3D;
+    if (_coordinates.to_screen_coordinates(worldToCamMatrix, _covariance.get_inverse_depth_variance(), screenSegment3D))
     {
+        // all the possible positions are behind the camera
+        if (screenSegment3D.get_start_point().z() <= 0 and screenSegment3D.get_end_point().z() <= 0)
+            return false;
+
+        const utils::Segment<2> screenSegment(screenSegment3D.get_start_point().head<2>(),
+                                              screenSegment3D.get_end_point().head<2>());
         // clamp to screen: if this fails, point is not visible
         utils::Segment<2> screenCoordinates;
         return utils::clamp_to_screen(screenSegment, screenCoordinates);
-- 
2.43.0


From 292f7bfb3f53b7b5bf683c860eae48175c6568b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:21 +0000
Subject: [PATCH 13/32] fix: reference the written vertex in the points of the
 obj map

---
 src/outputs/map_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index 23d98ae..cae4465 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -103,8 +103,8 @@ void OBJ_Map_Writer::add_point(const vector3& point) noexcept
 
     // points are not really visible
     _file << "v " << point.x() << " " << point.y() << " " << point.z() << "\n";
-    _vertexIndex++;
     _file << "p " << _vertexIndex << "\n";
+    _vertexIndex++;
 }
 
 void OBJ_Map_Writer::add_line(const std::vector<vector3>& coordinates) noexcept
-- 
2.43.0


From 8e96bf21e23edfb6bf75828ba6cf572713011988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:21 +0000
Subject: [PATCH 14/32] fix: keep the point count of the pcd map header up to
 date

---
 src/outputs/map_writer.cpp | 29 +++++++++++++++++------------
 src/outputs/map_writer.hpp |  6 ++++++
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index cae4465..3624995 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -1,5 +1,6 @@
 #include "map_writer.hpp"
 #include "logger.hpp"
+#include <iomanip>
 #include <string>
 
 namespace rgbd_slam::outputs {
@@ -55,8 +56,16 @@ PCD_Map_Writer::PCD_Map_Writer(const std::string& filename) : IMap_Writer(filena
     _file << "FIELDS x y z\n";
     _file << "SIZE 4 4 4\n";
     _file << "TYPE F F F\n";
-    _file << "POINTS 0\n"; // Index 5
-    _file << "DATA ascii\n";
+    _file << "POINTS ";
+    _pointCountPosition = _file.tellp();
+    write_point_count();
+    _file << "\nDATA ascii\n";
+}
+
+void PCD_Map_Writer::write_point_count() noexcept
+{
+    // fixed width, to be overwritten in place
+    _file << std::setw(10) << _pointCount;
 }
 
 void PCD_Map_Writer::add_point(const vector3& pointCoordinates) noexcept
@@ -67,17 +76,13 @@ void PCD_Map_Writer::add_point(const vector3& pointCoordinates) noexcept
         exit(-1);
     }
 
-    /*
-    TODO: update point count
-    const std::string searchString = "POINTS";
-    uint indexOfLine = 0;
-    while(std::getline(_file, line)) { // I changed this, see below
-        ++indexOfLine;
-        if (line.find(search, 0) != string::npos) {
-            cout << "found: " << search << "line: " << curLine << endl;
-        }
-    }*/
     _file << pointCoordinates.x() << " " << pointCoordinates.y() << " " << pointCoordinates.z() << "\n";
+
+    // update the point count in the header
+    ++_pointCount;
+    _file.seekp(_pointCountPosition);
+    write_point_count();
+    _file.seekp(0, std::ios_base::end);
 }
 
 void PCD_Map_Writer::add_polygon(const std::vector<vector3>& coordinates, const vector3& normal) noexcept
diff --git a/src/outputs/map_writer.hpp b/src/outputs/map_writer.hpp
index 8a2416e..1a3fb2a 100644
--- a/src/outputs/map_writer.hpp
+++ b/src/outputs/map_writer.hpp
@@ -55,6 +55,12 @@ class PCD_Map_Writer : public IMap_Writer
     void add_line(const std::vector<vector3>& coordinates) noexcept override;
 
     void add_polygon(const std::vector<vector3>& coordinates, const vector3& normal) noexcept override;
+
+  private:
+    void write_point_count() noexcept;
+
+    std::streampos _pointCountPosition;
+    size_t _pointCount = 0;
 };
 
 /**
-- 
2.43.0


From 313def2b19e137fc91d008b0068f03e3b7361b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 15/32] fix: clamp a segment entering the screen to its visible
 part

---
 src/utils/line.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e1801c1..0fc5f8b 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -3,6 +3,7 @@
 #include "logger.hpp"
 #include "polygon.hpp"
 
+#include <boost/geometry/algorithms/covered_by.hpp>
 #include <boost/geometry/geometries/infinite_line.hpp>
 #include <boost/geometry/geometries/linestring.hpp>
 #include <boost/geometry/geometries/point_xyz.hpp>
@@ -41,17 +42,11 @@ namespace rgbd_slam::utils {
                 }
             case 1:
                 {
-                    // find the point in the screen boundary
-                    const ScreenCoordinate2D startPoint(output[0].x(), output[0].y());
-                    const ScreenCoordinate2D endPoint(output[0].x(), output[0].y());
-                    if (startPoint.is_in_screen_boundaries())
-                    {
-                        out.set_points(startPoint, vector2(output[0].x(), output[0].y()));
-                    }
-                    else
-                    {
-                        out.set_points(vector2(output[0].x(), output[0].y()), endPoint);
-                    }
+                    // keep the extremity in the screen boundary
+                    const vector2 crossing(output[0].x(), output[0].y());
+                    out.set_points(
+                            boost::geometry::covered_by(lineBoost.front(), boundar) ? line.get_start_point() : crossing,
+                            boost::geometry::covered_by(lineBoost.back(), boundar) ? line.get_end_point() : crossing);
                     break;
                 }
             case 2:
-- 
2.43.0


From e5279ae4dc53f60d3fa8ef83b19ace3548014035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 16/32] fix: recognise parallel lines despite rounding errors

---
 src/utils/distance_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 30de17e..29b724d 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -45,7 +45,7 @@ template<int Dim> [[nodiscard]] bool compute_closest_points(const Eigen::Vector<
 
     const Eigen::Vector<double, Dim> n = line1normal.cross(line2normal);
     // normals are parallels, distance is the distance between points
-    if (n.isApproxToConstant(0.0))
+    if (n.isZero())
     {
         // parallel line distance
         return false;
-- 
2.43.0


From f3da7db8a164ca9458deb5f5a80b2f9eb3263bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:10 +0000
Subject: [PATCH 17/32] fix: predict the orientation with the angular velocity
 in its own frame

---
 src/tracking/motion_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracking/motion_model.cpp b/src/tracking/motion_model.cpp
index 02df3f6..6ab0965 100644
--- a/src/tracking/motion_model.cpp
+++ b/src/tracking/motion_model.cpp
@@ -65,7 +65,7 @@ utils::Pose Motion_Model::predict_next_pose(const utils::Pose& currentPose, cons
 
     // Integrate to compute predictions
     const vector3 integralPos = _lastPosition + _linearVelocity;
-    const quaternion& integralQ = (currentRotation * newAngularVelocity).normalized();
+    const quaternion& integralQ = (newAngularVelocity * currentRotation).normalized();
 
     return utils::Pose(integralPos, integralQ, currentPose.get_pose_variance() + poseError);
 }
-- 
2.43.0


From efc7f0d177cfb9570f045a84ff445302b0c357e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:35 +0000
Subject: [PATCH 18/32] fix: declare the default parameters valid once they are
 loaded

---
 src/parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e8c1c7d..0458609 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -14,7 +14,6 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
         load_defaut();
-        check_parameters_validity();
         return false;
     }
 
@@ -71,6 +70,8 @@ void Parameters::load_defaut() noexcept
 
     // Camera 2 position & rotation
     _camera2toCamera1transformation = utils::get_transformation_matrix(quaternion::Identity(), vector3::Zero());
+
+    check_parameters_validity();
 }
 
 void Parameters::check_parameters_validity() noexcept
-- 
2.43.0


From be5cc9be9568faf44b0c5959a9b86c4d0c9739c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:35 +0000
Subject: [PATCH 19/32] fix: refuse negative image sizes instead of wrapping
 them

---
 src/parameters.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 0458609..f752c6f 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -77,12 +77,12 @@ void Parameters::load_defaut() noexcept
 void Parameters::check_parameters_validity() noexcept
 {
     _isValid = true;
-    if (_camera1ImageSize.x() <= 0)
+    if (static_cast<int>(_camera1ImageSize.x()) <= 0)
     {
         outputs::log_error("Camera 1 size X must be > 0");
         _isValid = false;
     }
-    if (_camera1ImageSize.y() <= 0)
+    if (static_cast<int>(_camera1ImageSize.y()) <= 0)
     {
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
@@ -98,12 +98,12 @@ void Parameters::check_parameters_validity() noexcept
         _isValid = false;
     }
 
-    if (_camera2ImageSize.x() <= 0)
+    if (static_cast<int>(_camera2ImageSize.x()) <= 0)
     {
         outputs::log_error("Camera 2 size X must be > 0");
         _isValid = false;
     }
-    if (_camera2ImageSize.y() <= 0)
+    if (static_cast<int>(_camera2ImageSize.y()) <= 0)
     {
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
-- 
2.43.0


From e087e06e0535d02690366bcbaa66154ed3608282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:35 +0000
Subject: [PATCH 20/32] fix: refuse focal lengths that are not positive

---
 src/parameters.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index f752c6f..d07e11e 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -87,6 +87,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
+    if (_camera1Focal.x() <= 0)
+    {
+        outputs::log_error("Camera 1 focal X distance must be > 0");
+        _isValid = false;
+    }
+    if (_camera1Focal.y() <= 0)
+    {
+        outputs::log_error("Camera 1 focal Y distance must be > 0");
+        _isValid = false;
+    }
     if (_camera1Center.x() < 0)
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
@@ -108,6 +118,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
+    if (_camera2Focal.x() <= 0)
+    {
+        outputs::log_error("Camera 2 focal X distance must be > 0");
+        _isValid = false;
+    }
+    if (_camera2Focal.y() <= 0)
+    {
+        outputs::log_error("Camera 2 focal Y distance must be > 0");
+        _isValid = false;
+    }
     if (_camera2Center.x() < 0)
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
-- 
2.43.0


From a02299de07dbfb21a1b91a1e9e1734bdf10af36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:36 +0000
Subject: [PATCH 21/32] fix: turn the second camera around the axis named in
 the configuration

---
 src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index d07e11e..954e1e5 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -43,7 +43,7 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     const float camera2RotationY = configFile["camera_2_rotation_offset_y"];
     const float camera2RotationZ = configFile["camera_2_rotation_offset_z"];
     const quaternion& cam2tocam1Rotation =
-            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationX, camera2RotationY, camera2RotationZ));
+            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationZ, camera2RotationY, camera2RotationX));
 
     _camera2toCamera1transformation = utils::get_transformation_matrix(cam2tocam1Rotation, cam2tocam1Translation);
 
-- 
2.43.0


From 064b9c4a6cb17ad46418c0cecec3d3e137710987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:01 +0000
Subject: [PATCH 22/32] fix: leave the pixels out of the whole cells out of the
 organized cloud

---
 .../primitives/depth_map_transformation.cpp       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index fb3e035..22998f7 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -107,7 +107,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
             {
                 // set convertion matrix
                 const int id = _cellMap.at<int>(static_cast<int>(row), static_cast<int>(column));
-                assert(id >= 0 and id < organizedCloudArray.rows());
+                if (id < 0)
+                    continue; // not part of a whole cell
+                assert(id < organizedCloudArray.rows());
 
                 const CameraCoordinate& cameraCoordinates = ScreenCoordinate(column, row, z).to_camera_coordinates();
 
@@ -125,7 +127,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
         {
             // set convertion matrix
             const int id = _cellMap(position[0], position[1]);
-            assert(id >= 0 and id < organizedCloudArray.rows());
+            if (id < 0)
+                return; // not part of a whole cell
+            assert(id < organizedCloudArray.rows());
 
             const CameraCoordinate& cameraCoordinates =
                     ScreenCoordinate(position[1], position[0], z).to_camera_coordinates();
@@ -147,6 +151,7 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const uint verticalCellsCount = _height / _cellSize;
 
     // Pre-computations for backprojection
     for (uint row = 0; row < _height; ++row)
@@ -166,6 +171,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
             // clouds are contiguous
             const uint cellC = static_cast<uint>(floor(colum / _cellSize));
             const uint localC = static_cast<uint>(floor(colum % _cellSize));
+            if (cellR >= verticalCellsCount or cellC >= horizontalCellsCount)
+            {
+                // the image borders that do not fill a cell have no place in the array
+                _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = -1;
+                continue;
+            }
             _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<int>(
                     floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) + localR * _cellSize + localC));
         }
-- 
2.43.0


From 01e5503dc9d8f0421d4db88c602fc4f89e8b722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:01 +0000
Subject: [PATCH 23/32] fix: undistort the depth image with the parameters of
 the depth camera

---
 src/features/primitives/depth_map_transformation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 22998f7..3300ed6 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -153,6 +153,9 @@ void Depth_Map_Transformation::init_matrices() noexcept
     const uint horizontalCellsCount = _width / _cellSize;
     const uint verticalCellsCount = _height / _cellSize;
 
+    const vector2 depthFocal = Parameters::get_camera_2_focal();
+    const vector2 depthCenter = Parameters::get_camera_2_center();
+
     // Pre-computations for backprojection
     for (uint row = 0; row < _height; ++row)
     {
@@ -161,7 +164,9 @@ void Depth_Map_Transformation::init_matrices() noexcept
 
         for (uint colum = 0; colum < _width; ++colum)
         {
-            const CameraCoordinate2D& cameraProjection = ScreenCoordinate2D(colum, row).to_camera_coordinates();
+            // the depth image comes from the camera 2
+            const vector2 cameraProjection =
+                    (vector2(colum, row) - depthCenter).cwiseQuotient(depthFocal);
 
             // Not efficient but at this stage doesn t matter
             _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.x());
-- 
2.43.0


From ec2ba1d2ff931194238473793dd5f73bcc16f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:01 +0000
Subject: [PATCH 24/32] fix: ignore the depths that are behind the rgb camera

---
 src/features/primitives/depth_map_transformation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 3300ed6..34ea01e 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -55,6 +55,12 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                     const vector3 projected =
                             (Parameters::get_camera_2_to_camera_1_transformation() * original.homogeneous()).head<3>();
 
+                    if (projected.z() <= 0)
+                    {
+                        // behind the camera 1
+                        continue;
+                    }
+
                     // distord to align with camera1 image
                     ScreenCoordinate2D screenCoordinates;
                     if (CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
-- 
2.43.0


From d2d03cc6b42e4b5b9e716938f7a112c7a7285185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:01 +0000
Subject: [PATCH 25/32] fix: align a depth with the nearest pixel of the rgb
 image, borders included

---
 src/features/primitives/depth_map_transformation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 34ea01e..70c878a 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -65,11 +65,11 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                     ScreenCoordinate2D screenCoordinates;
                     if (CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
                     {
-                        const uint projCoordColumn = static_cast<uint>(floor(screenCoordinates.x()));
-                        const uint projCoordRow = static_cast<uint>(floor(screenCoordinates.y()));
+                        const double projCoordColumn = std::round(screenCoordinates.x());
+                        const double projCoordRow = std::round(screenCoordinates.y());
 
                         // keep projected coordinates that are in rgb image boundaries
-                        if (projCoordColumn > 0 and projCoordRow > 0 and projCoordColumn < _width and
+                        if (projCoordColumn >= 0 and projCoordRow >= 0 and projCoordColumn < _width and
                             projCoordRow < _height)
                         {
                             // set transformed depth image
-- 
2.43.0


From 8debe5cf6ac323b608532db63e0a188ec235a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 26/32] fix: accept normalized vectors as unit vectors despite
 rounding errors

---
 src/coordinates/point_coordinates.cpp         |  8 ++---
 src/coordinates/polygon_coordinates.cpp       |  8 ++---
 src/features/primitives/plane_segment.cpp     |  2 +-
 src/features/primitives/shape_primitives.cpp  |  4 +--
 .../map_features/map_primitive.cpp            |  4 +--
 src/tracking/plane_with_tracking.cpp          |  2 +-
 src/utils/covariances.cpp                     |  4 +--
 src/utils/distance_utils.hpp                  |  3 ++
 src/utils/polygon.cpp                         | 34 +++++++++----------
 9 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/coordinates/point_coordinates.cpp b/src/coordinates/point_coordinates.cpp
index 9cbbae9..8b2e045 100644
--- a/src/coordinates/point_coordinates.cpp
+++ b/src/coordinates/point_coordinates.cpp
@@ -29,11 +29,11 @@ matrix44 get_transformation_matrix(const vector3& xFrom,
                                    const vector3& centerTo)
 {
     // sanity checks
-    if (not utils::double_equal(xFrom.norm(), 1.0))
+    if (not utils::double_equal(xFrom.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: xFrom as a norm different than 1");
     }
-    if (not utils::double_equal(yFrom.norm(), 1.0))
+    if (not utils::double_equal(yFrom.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: yFrom as a norm different than 1");
     }
@@ -42,11 +42,11 @@ matrix44 get_transformation_matrix(const vector3& xFrom,
         throw std::invalid_argument("get_transformation_matrix: yFrom and xFrom should be orthogonals");
     }
 
-    if (not utils::double_equal(xTo.norm(), 1.0))
+    if (not utils::double_equal(xTo.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: xTo as a norm different than 1");
     }
-    if (not utils::double_equal(yTo.norm(), 1.0))
+    if (not utils::double_equal(yTo.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: yTo as a norm different than 1");
     }
diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 5e0853a..1119759 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -54,11 +54,11 @@ WorldPolygon CameraPolygon::to_world_space(const CameraToWorldMatrix& cameraToWo
     const vector3 newXAxis = (rotationMatrix * _xAxis).normalized();
     const vector3 newYAxis = (rotationMatrix * _yAxis).normalized();
 
-    if (not utils::double_equal(newXAxis.norm(), 1.0))
+    if (not utils::double_equal(newXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_world_space: newXAxis norm should be 1");
     }
-    if (not utils::double_equal(newYAxis.norm(), 1.0))
+    if (not utils::double_equal(newYAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_world_space: newYAxis norm should be 1");
     }
@@ -147,11 +147,11 @@ CameraPolygon WorldPolygon::to_camera_space(const WorldToCameraMatrix& worldToCa
     const vector3 newXAxis = (rotationMatrix * _xAxis).normalized();
     const vector3 newYAxis = (rotationMatrix * _yAxis).normalized();
 
-    if (not utils::double_equal(newXAxis.norm(), 1.0))
+    if (not utils::double_equal(newXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_camera_space: newXAxis norm should be 1");
     }
-    if (not utils::double_equal(newYAxis.norm(), 1.0))
+    if (not utils::double_equal(newYAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_camera_space: newYAxis norm should be 1");
     }
diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index 1aa95d3..b043f58 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -271,7 +271,7 @@ void Plane_Segment::fit_plane() noexcept
         _parametrization = PlaneCoordinates(-normal, -d);
     else
         _parametrization = PlaneCoordinates(normal, d);
-    assert(utils::double_equal(normal.norm(), 1.0));
+    assert(utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance));
 
     // variance of points in our plane divided by number of points in the plane
     _MSE = eigenValues(0) * oneOverCount;
diff --git a/src/features/primitives/shape_primitives.cpp b/src/features/primitives/shape_primitives.cpp
index 6a0a7b7..be70f35 100644
--- a/src/features/primitives/shape_primitives.cpp
+++ b/src/features/primitives/shape_primitives.cpp
@@ -50,7 +50,7 @@ Plane::Plane(const Plane_Segment& planeSeg, const CameraPolygon& boundaryPolygon
     _pointCloudCovariance(planeSeg.get_point_cloud_covariance()),
     _boundaryPolygon(boundaryPolygon)
 {
-    assert(utils::double_equal(get_normal().norm(), 1.0));
+    assert(utils::double_equal(get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(utils::is_covariance_valid(_pointCloudCovariance));
     assert(_boundaryPolygon.boundary_length() >= 3);
 }
@@ -60,7 +60,7 @@ Plane::Plane(const Plane& plane) :
     _pointCloudCovariance(plane._pointCloudCovariance),
     _boundaryPolygon(plane._boundaryPolygon)
 {
-    assert(utils::double_equal(get_normal().norm(), 1.0));
+    assert(utils::double_equal(get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(utils::is_covariance_valid(_pointCloudCovariance));
     assert(_boundaryPolygon.boundary_length() >= 3);
 }
diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 5a91c0f..e6b4509 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -277,7 +277,7 @@ StagedMapPlane::StagedMapPlane(const matrix33& poseCovariance,
             detectedFeatureParams, cameraToWorld, planeCameraToWorld, planeParameterCovariance, poseCovariance);
     _boundaryPolygon = detectedFeature.get_boundary_polygon().to_world_space(cameraToWorld);
 
-    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0))
+    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("parametrization of detected feature as an invalid normal vector");
     }
@@ -307,7 +307,7 @@ LocalMapPlane::LocalMapPlane(const StagedMapPlane& stagedPlane) : MapPlane(stage
     {
         throw std::invalid_argument("covariance of stagedPlane is an invalid covariance matrix");
     }
-    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0))
+    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("parametrization of stagedPlane as an invalid normal vector");
     }
diff --git a/src/tracking/plane_with_tracking.cpp b/src/tracking/plane_with_tracking.cpp
index 122997f..dff2414 100644
--- a/src/tracking/plane_with_tracking.cpp
+++ b/src/tracking/plane_with_tracking.cpp
@@ -51,7 +51,7 @@ double Plane::track(const CameraToWorldMatrix& cameraToWorld,
     }
 
     // static sanity checks
-    assert(utils::double_equal(_parametrization.get_normal().norm(), 1.0));
+    assert(utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(not _covariance.hasNaN());
     assert(utils::is_covariance_valid(_covariance));
     assert(not _parametrization.hasNaN());
diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 0f179b6..245493f 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -107,7 +107,7 @@ matrix44 compute_plane_covariance(const PlaneCoordinates& planeParameters, const
     {
         throw std::invalid_argument("compute_plane_covariance: The d of planeParameters should not be 0");
     }
-    if (not utils::double_equal(normal.norm(), 1.0))
+    if (not utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("compute_plane_covariance: The normal of planeParameters should have a norm of 1");
     }
@@ -166,7 +166,7 @@ matrix33 compute_reduced_plane_point_cloud_covariance(const PlaneCoordinates& pl
                 "compute_reduced_plane_point_cloud_covariance: compute_plane_covariance: The d of planeParameters "
                 "should not be 0");
     }
-    if (not utils::double_equal(normal.norm(), 1.0))
+    if (not utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument(
                 "compute_reduced_plane_point_cloud_covariance: compute_plane_covariance: The normal of planeParameters "
diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 29b724d..51d01a4 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -7,6 +7,9 @@
 
 namespace rgbd_slam::utils {
 
+// a vector is considered of unit norm at +- this tolerance (a normalized vector is not exactly of norm 1)
+constexpr double unitNormTolerance = 1e-9;
+
 /**
  * \brief compute a distance bewteen two angles in radian
  * \param[in] angleA
diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 499bb68..bd27cc3 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -73,14 +73,14 @@ vector3 select_correct_transform(const vector3& normal) noexcept
  */
 std::pair<vector3, vector3> get_plane_coordinate_system(const vector3& normal)
 {
-    if (not double_equal(normal.norm(), 1.0))
+    if (not double_equal(normal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_plane_coordinate_system: The normal should have a norm of 1");
     }
 
     // define a vector orthogonal to the normal (r.dot normal should be close to 0)
     const vector3& r = select_correct_transform(normal);
-    if (not double_equal(r.norm(), 1.0))
+    if (not double_equal(r.norm(), 1.0, unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The selected vector r should have a norm of 1");
     }
@@ -90,11 +90,11 @@ std::pair<vector3, vector3> get_plane_coordinate_system(const vector3& normal)
     const vector3 yAxis = normal.cross(xAxis).normalized();
 
     // check that angles between vectors is close to 0
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The x axis as an invalid norm");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The y axis as an invalid norm");
     }
@@ -127,11 +127,11 @@ vector2 get_projected_plan_coordinates(const vector3& pointToProject,
                                        const vector3& xAxis,
                                        const vector3& yAxis)
 {
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_projected_plan_coordinates: xAxis norm should be 1");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_projected_plan_coordinates: yAxis norm should be 1");
     }
@@ -149,11 +149,11 @@ vector3 get_point_from_plane_coordinates(const vector2& pointToProject,
                                          const vector3& xAxis,
                                          const vector3& yAxis)
 {
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_point_from_plane_coordinates: xAxis norm should be 1");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_point_from_plane_coordinates: yAxis norm should be 1");
     }
@@ -167,7 +167,7 @@ vector3 get_point_from_plane_coordinates(const vector2& pointToProject,
 
 Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, const vector3& center) : _center(center)
 {
-    if (not double_equal(normal.norm(), 1.0))
+    if (not double_equal(normal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: normal norm should be 1");
     }
@@ -241,11 +241,11 @@ Polygon::Polygon(const std::vector<point_2d>& boundaryPoints,
     _xAxis(xAxis),
     _yAxis(yAxis)
 {
-    if (not double_equal(_xAxis.norm(), 1.0))
+    if (not double_equal(_xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: _xAxis norm should be 1");
     }
-    if (not double_equal(_yAxis.norm(), 1.0))
+    if (not double_equal(_yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: _yAxis norm should be 1");
     }
@@ -337,7 +337,7 @@ void Polygon::merge_union(const Polygon& other)
 
 Polygon Polygon::project(const vector3& nextNormal, const vector3& nextCenter) const
 {
-    if (not double_equal(nextNormal.norm(), 1.0))
+    if (not double_equal(nextNormal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextNormal norm should be 1");
     }
@@ -348,11 +348,11 @@ Polygon Polygon::project(const vector3& nextNormal, const vector3& nextCenter) c
 
 Polygon Polygon::project(const vector3& nextXAxis, const vector3& nextYAxis, const vector3& nextCenter) const
 {
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextXAxis norm should be 1");
     }
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextYAxis norm should be 1");
     }
@@ -383,7 +383,7 @@ Polygon Polygon::project(const vector3& nextXAxis, const vector3& nextYAxis, con
 
 Polygon Polygon::transform(const vector3& nextNormal, const vector3& nextCenter) const
 {
-    if (not double_equal(nextNormal.norm(), 1.0))
+    if (not double_equal(nextNormal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextNormal norm should be 1");
     }
@@ -401,11 +401,11 @@ Polygon Polygon::transform(const vector3& nextNormal, const vector3& nextCenter)
 
 Polygon Polygon::transform(const vector3& nextXAxis, const vector3& nextYAxis, const vector3& nextCenter) const
 {
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextXAxis norm should be 1");
     }
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextYAxis norm should be 1");
     }
-- 
2.43.0


From 053c80b7d1ee45738491c9420a70a751f187d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:18 +0000
Subject: [PATCH 27/32] fix: keep the boundary of a polygon around its center
 when transforming it

---
 src/utils/polygon.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index bd27cc3..a1481e4 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -418,11 +418,8 @@ Polygon Polygon::transform(const vector3& nextXAxis, const vector3& nextYAxis, c
     if (_center.isApprox(nextCenter) and _xAxis.isApprox(nextXAxis) and _yAxis.isApprox(nextYAxis))
         return *this;
 
-    // compute transformation matrix between the two spaces
-    const matrix44& transfoMatrix =
-            get_transformation_matrix(_xAxis, _yAxis, _center, nextXAxis, nextYAxis, nextCenter);
-    // project the boundary to the new space
-    const std::vector<point_2d>& newBoundary = transform_boundary(transfoMatrix, nextXAxis, nextYAxis, nextCenter);
+    // the boundary is relative to the center and axis: it is the same one in the new space
+    const std::vector<point_2d> newBoundary(_polygon.outer().cbegin(), _polygon.outer().cend());
 
     // compute new polygon
     return Polygon(newBoundary, nextXAxis, nextYAxis, nextCenter);
-- 
2.43.0


From e2aef3a027b687a4bfa231a8c73dff7e168e469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:01 +0000
Subject: [PATCH 28/32] fix: remove a point of the normals histogram only once

---
 src/features/primitives/histogram.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/histogram.hpp b/src/features/primitives/histogram.hpp
index 225a3e9..7827785 100644
--- a/src/features/primitives/histogram.hpp
+++ b/src/features/primitives/histogram.hpp
@@ -107,9 +107,13 @@ template<size_t Size> class Histogram
             outputs::log_error(std::format("Histogram: remove_point called on invalid ID {}", pointId));
             exit(-1);
         }
-        if (_histogram[_bins[pointId]] != 0)
-            _histogram[_bins[pointId]] -= 1;
-        _bins[pointId] = 1;
+        // a point can be removed only once
+        const int bin = _bins[pointId];
+        if (bin < 0)
+            return;
+        if (_histogram[bin] != 0)
+            _histogram[bin] -= 1;
+        _bins[pointId] = -1;
     }
 
     /**
-- 
2.43.0


From d344317d96330d6abb24511613027bb2d76abf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:01 +0000
Subject: [PATCH 29/32] fix: reject concave hulls that leave points outside

---
 third_party/concave_fitting.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/third_party/concave_fitting.cpp b/third_party/concave_fitting.cpp
index 2256d2b..f640d13 100644
--- a/third_party/concave_fitting.cpp
+++ b/third_party/concave_fitting.cpp
@@ -410,6 +410,15 @@ auto PointInPolygon(const Point& p, const PointVector& list) -> bool
 
     while (v1 != list.end())
     {
+        // a point on the boundary is in the polygon
+        const double dx = v1->x - v0->x;
+        const double dy = v1->y - v0->y;
+        const double squaredLength = dx * dx + dy * dy;
+        const double along = dx * (x - v0->x) + dy * (y - v0->y);
+        const double across = dx * (y - v0->y) - dy * (x - v0->x);
+        if (along >= 0 and along <= squaredLength and fabs(across) <= 1e-6 * squaredLength)
+            return true;
+
         if (((LessThanOrEqual(v0->y, y) and LessThan(y, v1->y)) or
              (LessThanOrEqual(v1->y, y) and LessThan(y, v0->y))) and
             !Zero(v1->y - v0->y) and LessThan(x, v0->x + ((v1->x - v0->x) * (y - v0->y) / (v1->y - v0->y))))
@@ -420,13 +429,8 @@ auto PointInPolygon(const Point& p, const PointVector& list) -> bool
         v1++;
     }
 
-    if (inout == 0)
-        return true;         // no iteration, point is good
-    else if (inout % 2 == 0) // par: point is outside of polygon
-        return false;
-
-    // point is in the polygon
-    return true;
+    // par: point is outside of polygon
+    return inout % 2 != 0;
 }
 
 // Test whether two line segments intersect each other
-- 
2.43.0


From 388aba844523cc485eb29f712eddd2410c5534a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:01 +0000
Subject: [PATCH 30/32] fix: keep the biggest part of a corrected polygon

---
 src/utils/polygon.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index a1481e4..7a1d3a4 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -210,8 +210,10 @@ Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, cons
         }
         else
         {
-            // TODO: should select the greatest area ?
-            _polygon = result[0];
+            // the boundary is the part with the greatest area
+            _polygon = *std::ranges::max_element(result, {}, [](const polygon& part) {
+                return boost::geometry::area(part);
+            });
 
             std::string failureReason;
             if (!is_valid(failureReason))
-- 
2.43.0


From 64df6c91bebf288eb11c4a7688aa1d808dfc2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:57 +0000
Subject: [PATCH 31/32] fix: keep the orientation of the pose away from the
 singularity of its parameters

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 7c4b732..f8c4d1f 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -19,9 +19,9 @@ vector3 get_optimization_coefficients_from_quaternion(const quaternion& quat)
     /// by: G. Terzakis, P. Culverhouse, G. Bugmann, S. Sharma and R. Sutton
     ///
 
-    // The max is an addition on my part to resolve the occasional case where we have a pure rotation that gives quat.z
-    // at -1
-    const double divider = 1.0 / std::max(1.0 + quat.z(), 0.001);
+    // a quaternion and its opposite are the same orientation: use the one that is away from the singularity (quat.z at -1)
+    const double sign = (quat.z() < 0.0) ? -1.0 : 1.0;
+    const double divider = sign / (1.0 + sign * quat.z());
 
     return vector3(quat.w() * divider, quat.x() * divider, quat.y() * divider);
 }
-- 
2.43.0


From 4fdd1f6d3e1a316800a825bf0aa6cf9632878e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 32/32] fix: sign of the diagonal of the derivative of an
 orientation

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index f8c4d1f..76d8eba 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -49,7 +49,7 @@ Eigen::Matrix<double, 4, 3> get_quaternion_from_optimization_coefficients_jacobi
     const double theta3 = -(4.0 * optCoeff.x() * optCoeff.z()) / SQR(theta5);
     const double theta4 = -(4.0 * optCoeff.x() * optCoeff.y()) / SQR(theta5);
 
-    const double multiplierDiag = -4.0 / SQR(theta5);
+    const double multiplierDiag = 4.0 / SQR(theta5);
 
     jacobian(0, 0) = 2.0 / theta5 - SQR(optCoeff.x()) * multiplierDiag;
     jacobian(0, 1) = theta4;
-- 
2.43.0

