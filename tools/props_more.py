PO = ["src/pose_optimization/pose_optimization.cpp"]
prop("C11", "The pose search returns the best consensus it evaluated, on every schedule",
     "The robust pose search returns, among all hypotheses it evaluated in parallel, one with the highest consensus score "
     "(ties broken by the number of agreeing matches), or fails exactly when none reaches the minimum score; the reported "
     "inliers are exactly the matches agreeing with the returned pose and every other match is reported as an outlier. "
     "Hypotheses may be left unevaluated only once a consensus of more than 80% of the matches was found, and unusable "
     "matches are refused.",
     ["schedules", "inputs"], "every interleaving of the parallel hypothesis evaluations and every consensus structure",
     "The tests run one uncontrolled schedule on well behaved data; a lost best candidate needs a preemption at one point.",
     PO, "Pose_Optimization::compute_optimized_pose, compute_pose_with_ransac",
     "TLA+ spec Ransac model-checked with TLC over all interleavings (and shown to fail without atomicity); TLC-generated "
     "schedules executed on the real code under a controlled scheduler; outcomes validated against the spec by TLC",
     "two and three live hypotheses, all schedules with up to two preemptions at the instrumented points; matches are "
     "scripted behind the matcher interface")
prop("C12", "The pose uncertainty is the spread of the re-estimated poses, on every schedule",
     "The position uncertainty attached to an optimised pose is the sample covariance of exactly the poses re-estimated from "
     "perturbed matches, whatever their number, order and interleaving; failed re-estimations contribute nothing. No "
     "uncertainty is returned when too many re-estimations fail or fewer than two succeed.",
     ["schedules", "inputs"], "every interleaving of the parallel re-estimations and every pattern of failing ones",
     "The result of a racy accumulation differs only under particular preemptions; no test looks at the covariance.",
     PO, "Pose_Optimization::compute_pose_variance",
     "TLA+ spec Ransac (Spread) generates re-estimation outcomes and schedules with TLC; executed on the real code under a "
     "controlled scheduler; covariances validated against exact integer arithmetic by TLC",
     "up to five re-estimations with integer positions; four workers with up to two preemptions; the orientation block is not claimed")
prop("C14", "The keypoint search returns the right candidate, whatever the positions",
     "Searching the detected points of a frame for a given image position returns a point of that frame, not already taken, "
     "within the requested radius, whose descriptor is the best among all eligible points there and is accepted by the ratio "
     "test; it returns nothing when no such point exists. A tracked identifier is found exactly when that frame reported it, "
     "and nothing from an earlier frame is ever returned.",
     ["inputs", "histories"], "every image size, keypoint layout (borders included), radius, exclusion mask and frame sequence",
     "No test covers the keypoint container; the failures depend on image shape, border positions and reuse over frames.",
     ["src/features/keypoints/keypoint_handler.cpp", "src/features/keypoints/keypoint_handler.hpp"],
     "Keypoint_Handler::set, get_match_index, get_tracking_match_index, clear",
     "TLA+ spec KeypointIndex model-checked with TLC; TLC-generated frames and queries executed on the real container; "
     "answers validated against the spec by TLC",
     "random frames over four image shapes, up to a dozen keypoints, border and cell-edge positions; ties leave the choice free")
MF = ["src/map_management/map_features/map_point.cpp", "src/map_management/map_features/map_point2d.cpp",
      "src/map_management/map_features/map_primitive.cpp"]
prop("C08", "A map feature is confirmed, kept and lost only as its sightings justify",
     "A newly seen point, 2D point or plane enters the map used for localisation only after being seen repeatedly, an "
     "unconfirmed one is dropped once it is missed too often, and a confirmed one leaves the map only after an uninterrupted "
     "run of missed frames of fixed length. A confirmed point or plane that leaves is written to the map output exactly once, "
     "at its place in the world; frames that could not be located count as missed and create nothing.",
     ["histories"], "every sequence of sightings, misses, looks away and unlocated frames, for the three kinds of features",
     "No test drives a map feature over frames; a wrong counter shows only after a particular run of events.",
     MF + ["src/map_management/feature_map.hpp"], "StagedMapPoint, LocalMapPoint, StagedMapPoint2D, LocalMapPoint2D, StagedMapPlane, LocalMapPlane, Feature_Map::update_map",
     "TLA+ spec FeatureLife model-checked with TLC; all event words up to a length and TLC-generated long words driven through "
     "the real maps; recorded lives validated against the spec by TLC",
     "one feature at a time; all words of five events (seven in thorough) and long random words; 2D points straight above or below "
     "the camera (the singularity of their angles) are left out")
prop("C09", "Map features are matched, seen and used exactly where geometry says",
     "A map feature seen from any camera position is matched with a free detection only where the feature should appear: points "
     "near their reprojection with the best accepted descriptor, planes with the detected plane of greatest sufficient overlap "
     "and similar orientation and distance. A feature is reported visible exactly when it lies in front of the camera and inside "
     "the image, and a match agrees with a pose exactly when its reprojection, or plane parameters, fall within the tolerances.",
     ["inputs"], "every camera pose, feature position, set of detections and already taken detections",
     "No test covers matching; errors appear only for particular positions (behind the camera, first detection, borders).",
     MF, "MapPoint::find_matches, MapPoint2D::find_matches, MapPlane::find_matches, is_visible, is_inlier",
     "TLA+ spec FeatureMatch (exact lattice geometry) generates cases with TLC; executed on the real features; answers "
     "validated against the spec by TLC",
     "axis-aligned camera rotations (24) with integer translations; planes facing the camera or turned by right angles, detected "
     "planes tilted by rational angles; values exactly on a threshold leave the choice free")
prop("C06", "The exported map file shows exactly what was exported",
     "Reading back the exported map gives exactly the points, lines and polygons handed to the writer, in order, at the same "
     "coordinates, whatever their number and mix and whatever file was there before. In the obj format every element names only "
     "vertices that exist and are its own, faces being the boundary in reversed order without its closing point; the point "
     "cloud formats hold exactly the exported points and announce their number.",
     ["histories", "inputs"], "every sequence of exported points, lines and polygons, for the three file formats",
     "No test writes a map; a wrong vertex number shows only for particular mixes of exported items.",
     ["src/outputs/map_writer.cpp"], "OBJ_Map_Writer, XYZ_Map_Writer, PCD_Map_Writer",
     "TLA+ spec MapFile (a reader of the file) model-checked with TLC; TLC-generated exports executed on the real writers; files "
     "validated against the spec by TLC",
     "up to eleven items a file, coordinates in half millimetres below 50 m (six printed digits); crash points while writing are not claimed")
prop("C10", "The tracking engine answers, recovers and maintains its maps consistently",
     "For every frame the engine answers the estimated pose with its uncertainty when one was found and otherwise the last "
     "answered pose, starts each estimation from the last answer with exactly the admissible matches, and never estimates on the "
     "first frame. Tracking is declared lost exactly at the start and after more than three consecutive frames without a pose; "
     "detections enter the maps only when located or while lost, at the answered pose, and a 2D point measured with a depth becomes "
     "a map point. At the end of a session every point and plane that ever was confirmed is in the exported map exactly once, where "
     "it was seen.",
     ["histories", "faults"], "every sequence of frames: any detections, failing estimations, rejected matches, camera moves",
     "No test runs the engine; the guarantees are over histories of frames and failures.",
     ["src/rgbd_slam.cpp", "src/map_management/local_map.hpp"], "RGBD_SLAM::track, RGBD_SLAM::compute_new_pose, Local_Map::update, Local_Map::update_no_pose, Local_Map::add_all_features_to_map",
     "TLA+ spec Slam model-checked with TLC; TLC-generated sessions executed on the real engine and maps with scripted detectors and "
     "pose estimation; recorded sessions validated against the spec by TLC",
     "sessions of up to 27 frames, 20 point and 3 plane sites of a still scene, camera moves parallel to the image; the detectors and "
     "the pose estimation are scripted (they have their own properties)")
CO = ["src/coordinates/point_coordinates.cpp", "src/coordinates/plane_coordinates.cpp", "src/utils/camera_transformation.cpp"]
prop("C13", "Points and planes keep their place when changing frame, for every pose",
     "For every camera pose, the position of a point in the world and its position in the camera determine each other, its image "
     "position is the pinhole projection of that camera position, and an image position with a depth gives back the point. A plane "
     "moved between the camera and the world still contains the moved points, on the same side and at the same distance. Distances "
     "between map and detected points or planes are those of the changed coordinates, and visibility is decided by the image bounds and the depth.",
     ["inputs"], "every pose, point, pixel, depth and plane",
     "The tests try a few rotations with round trips, which a symmetric error (both directions wrong) passes.",
     CO, "WorldCoordinate, CameraCoordinate, ScreenCoordinate, PlaneCameraCoordinates, PlaneWorldCoordinates, compute_world_to_camera_transform",
     "TLA+ spec Frames (exact rational rotations) model-checked with TLC; TLC-generated poses, points and planes executed on the real "
     "conversions; results validated against exact integer arithmetic by TLC",
     "rotations of small integer quaternions, integer coordinates and planes of rational normals; a depth of exactly zero is left out")
prop("C15", "Sight lines, possible positions and clipped segments are exact",
     "A point seen without a depth is the half line from the camera through its pixel; its closest and furthest possible positions "
     "lie on it where its inverse depth uncertainty puts them, and knowing its distance gives back the position. The gap between two "
     "sight lines is their shortest distance, parallel ones included, the closest point of a line is its orthogonal projection, and "
     "a segment is clipped to exactly its part inside the image or refused when there is none.",
     ["inputs"], "every pose, pixel, inverse depth and uncertainty, pair of lines and segment",
     "The tests check inverse depth round trips only; parallel lines and segments with one end outside are not tried.",
     ["src/coordinates/inverse_depth_coordinates.cpp", "src/utils/line.cpp"],
     "InverseDepthWorldPoint, signed_line_distance, vector_from_point_to_line, clamp_to_screen",
     "TLA+ spec Lines model-checked with TLC; TLC-generated lines and segments executed on the real code; results validated against "
     "exact integer arithmetic by TLC",
     "directions of integer length; near parallel lines are left out; segments in the one pixel border of the image may be kept or refused")
prop("C16", "Uncertainties are carried through exactly when coordinates change",
     "The uncertainty of a point or of the orientation of a plane moved to another frame is the exact first order transformation of the "
     "given one, to which the uncertainty of the camera position adds, and the uncertainty of a pixel or of a measured point follows "
     "the camera model. The uncertainty of a depth follows the quadratic sensor model, never shrinking when the depth grows, and an unusable depth is never more certain "
     "than a usable one. A matrix is accepted as an uncertainty exactly when it is finite, symmetric and non negative.",
     ["inputs"], "every pose, position, and uncertainty",
     "Tests check only that the results are valid uncertainties; a wrong one that is symmetric and positive passes.",
     ["src/utils/covariances.cpp", "src/coordinates/plane_coordinates.cpp"],
     "get_world_point_covariance, get_camera_point_covariance, get_screen_point_covariance, compute_plane_covariance, get_world_plane_covariance, is_covariance_valid",
     "TLA+ spec Uncertainty model-checked with TLC; TLC-generated poses and covariances executed on the real code; results validated "
     "against exact integer arithmetic by TLC",
     "integer covariances; the sign of the correlation between the axes of a measured point and the uncertainty of the offset of a plane "
     "are not claimed")
TR = ["src/tracking/kalman_filter.hpp", "src/tracking/point_with_tracking.cpp", "src/tracking/inverse_depth_with_tracking.cpp", "src/tracking/plane_with_tracking.cpp"]
prop("C17", "Every tracked estimate is the exact optimal fusion of its measurements",
     "The state and uncertainty of a tracked point, 2D point or plane, and of the generic filter behind them, after a measurement are exactly "
     "those of the Kalman update of the previous ones, whatever the dimensions, dynamics and uncertainties, and each further measurement "
     "is fused with the result of the former. A measurement or estimate without a valid uncertainty is refused and changes nothing. The "
     "uncertainty of a 2D point is carried exactly between its inverse depth form and its position, and its first sight never changes.",
     ["inputs", "histories"], "every estimate, measurement, dynamics and uncertainty",
     "The tests run the filter on a few trajectories with loose tolerances; tracked features are not tested.",
     TR, "SharedKalmanFilter, KalmanFilter, tracking::Point, tracking::PointInverseDepth, tracking::Plane",
     "TLA+ spec Fusion (exact rational Kalman step) model-checked with TLC; TLC-generated estimates and measurements executed on the real "
     "filters and features; results validated against exact integer arithmetic by TLC",
     "one to three dimensions with small integers (four, diagonal, for planes); singular predicted uncertainties are left out; the signed "
     "test for moving points is a known finding")
PS = ["src/utils/pose.cpp", "src/utils/angle_utils.cpp", "src/tracking/motion_model.cpp"]
prop("C18", "Predicted poses follow the motion, and poses compose exactly",
     "The predicted pose continues the last one with velocities that average the last move and the former velocity, in position and "
     "in orientation about any axis and from any orientation, so that a steady motion is predicted with an error halving at each frame; "
     "nothing is predicted from a single pose or after a reset, and uncertainty is added only on request. A pose holds exactly the position and unit "
     "rotation it was given, updates compose, distances and angles between poses are exact, and angles convert to rotations about their axis and back.",
     ["histories", "inputs"], "every sequence of poses and resets, every orientation and axis",
     "The tests only turn from the identity, where the order of rotations does not matter, and stay still or move slowly.",
     PS, "Motion_Model::predict_next_pose, Motion_Model::reset, PoseBase, Pose, get_quaternion_from_euler_angles, get_euler_angles_from_quaternion",
     "TLA+ spec Motion model-checked with TLC; TLC-generated pose histories executed on the real model; predictions validated against the spec "
     "with exact dyadic arithmetic by TLC",
     "up to nine operations; turns of whole degrees about one axis at a time, by less than 80 degrees a frame")
prop("C19", "A configuration is loaded exactly as written, refused, or replaced by defaults",
     "After loading a configuration file, every camera parameter in use is the one written there, and the second camera is placed by the written translation and "
     "by rotations about the axis each is named after. The load succeeds, and the configuration is declared valid, exactly when all sizes and focal "
     "lengths are positive and no optical centre is negative. When the file cannot be opened, or when no file is used, the documented defaults "
     "are in force and valid, whatever was loaded before.",
     ["inputs", "histories"], "every sequence of configuration files, missing files and resets",
     "No test loads a configuration.",
     ["src/parameters.cpp"], "Parameters::parse_file, Parameters::load_defaut, Parameters::check_parameters_validity",
     "TLA+ spec Config model-checked with TLC; TLC-generated sequences of files loaded by the real parser; the parameters in force validated "
     "against the spec by TLC",
     "values in halves, rotations of whole quarter turns; malformed yaml is left out")
prop("C20", "Depth images are aligned with the colour image and turned into exact points",
     "In the aligned depth image every depth is that of a measured pixel whose position, placed by the parameters of the depth camera and the offset "
     "between the cameras, projects nearest to that pixel of the colour camera; no measured point in the image is lost but to another one at the same pixel, and nothing "
     "behind the camera appears. In the cloud of points, every pixel of a whole cell is at its own place in the block of its cell, at the "
     "position given by the camera parameters, and pixels without depth are null; nothing is ever overwritten by other pixels.",
     ["inputs", "schedules"], "every image size, cell size, depth image, and pair of cameras",
     "No test covers depth images.",
     ["src/features/primitives/depth_map_transformation.cpp", "src/coordinates/point_coordinates.cpp"],
     "Depth_Map_Transformation::rectify_depth, Depth_Map_Transformation::get_organized_cloud_array, Depth_Map_Transformation::init_matrices",
     "TLA+ spec DepthMap (cell layout proved bijective on small images) model-checked with TLC; TLC-generated cameras and images processed by the real code; "
     "images and clouds validated against the spec by TLC",
     "images up to 13x10; focal lengths powers of two; offsets with turns about the optical axis or facing backwards; which of several points at the same pixel is kept is left "
     "free (it depends on the schedule)")
prop("C21", "Plane boundaries keep their shape, place and overlaps in every frame",
     "A polygon has exactly the area, contents and places in space of its outline; projecting it gives the orthogonal projection of each vertex, transforming it "
     "gives the same shape in the target frame, and going to the world or back to the camera moves it rigidly. The areas shared and covered by "
     "two polygons of any orientation and the ratio of the two are exact, and merging gives their union (the biggest part of it when they are apart), simplified only within the "
     "tolerance that grows with the area. A convex hull is the hull of its points, and a polygon fitted to points holds them all up to that tolerance.",
     ["inputs"], "every shape, pose and orientation of the planes",
     "Tests use two shapes in one plane around the origin.",
     ["src/utils/polygon.cpp", "src/coordinates/polygon_coordinates.cpp", "third_party/concave_fitting.cpp"],
     "Polygon::project, Polygon::transform, Polygon::merge_union, Polygon::inter_area, Polygon::union_area, Polygon::inter_over_union, Polygon::simplify, Polygon::compute_convex_hull, "
     "CameraPolygon::to_world_space, WorldPolygon::to_camera_space",
     "TLA+ spec Shape (overlaps as counts of cells, places as exact rational points) model-checked with TLC; TLC-generated shapes and frames executed on the real polygons; "
     "results validated against the spec by TLC",
     "shapes made of columns of cells whose sides never coincide (overlap of coincident sides is at the mercy of the geometry library); holes are not claimed after a projection")
prop("C22", "Flat parts of the scene are each found once, with their true plane and extent",
     "In a depth image made of flat surfaces with the noise of a sensor, every connected flat part that is big enough is found exactly once, with its true "
     "normal (towards the camera) and distance and a boundary that holds the part and does not reach beyond it; parts of different planes are never joined, parts that are too small, rough or "
     "without depth give no plane, and no cylinder is reported. The result depends on the last image only. A plane fitted to points has their centroid, normal, distance and "
     "mean error, and patches are joined exactly when their directions and distances are close enough; the seeds of the search are the points of the fullest bin of the "
     "remaining directions.",
     ["inputs", "histories"], "every arrangement of flat surfaces, sequence of images and order of removals",
     "Tests do not cover the detection of planes.",
     ["src/features/primitives/primitive_detection.cpp", "src/features/primitives/plane_segment.cpp", "src/features/primitives/histogram.hpp",
      "third_party/concave_fitting.cpp"],
     "Primitive_Detection::find_primitives, Plane_Segment::fit_plane, Plane_Segment::can_be_merged, Histogram::remove_point",
     "TLA+ spec Planes (the search as a system, proved to find each region once whatever the seeds) model-checked with TLC; TLC-generated scenes rendered and processed by the "
     "real detector; results validated against the spec by TLC",
     "surfaces follow the grid of cells and differ by 25 degrees or 120 mm; parts of 4 to 23 cells may or may not be found; sensor noise of 0.3 mm and more (perfect images are not claimed)")

prop("C23", "The camera is located from exact matches, in spite of wrong ones",
     "Given map points, 2D points and planes matched with what the camera sees from some pose, of which at most one in five is grossly wrong, the estimation started near this pose answers "
     "this pose, whatever the orientation of the camera, with every exact match among the agreeing ones, every wrong one among the rejected ones and each match in exactly one of these sets. The answered uncertainty "
     "is a valid one, and grows with that of the matched features. Too few matches, or one with unusable values, are refused. An orientation and the three numbers it is "
     "optimised through give each other back, and the derivative of one by the other is exact.",
     ["inputs", "random choices"], "every pose, arrangement of features, choice of wrong matches and random subset",
     "Tests estimate poses of a few fixed scenes without wrong matches.",
     ["src/pose_optimization/pose_optimization.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp", "src/pose_optimization/ransac.hpp",
      "src/map_management/map_features/map_point.cpp", "src/map_management/map_features/map_point2d.cpp", "src/map_management/map_features/map_primitive.cpp"],
     "Pose_Optimization::compute_optimized_pose, Global_Pose_Estimator, get_optimization_coefficient_from_pose, get_random_subset_with_score",
     "TLA+ spec Locate (parameters of orientations, decision on matches) model-checked with TLC; TLC-generated scenes with exact rational poses located by the real estimation; "
     "answers validated against the spec by TLC",
     "starts within 17 degrees and 100 mm; five to thirty matches spread over the image; wrong ones off by 40 pixels or 400 mm; poses within 2 mm and 2 mrad")
