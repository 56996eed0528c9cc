#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
SRC = "McCalib/src/"
INC = "McCalib/include/"

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOTEST = "The existing tests only exercise the graph class and quaternion conversions on a handful of fixed inputs; "

prop("C01", "Overlapping rigs are calibrated to their true geometry",
 "For any rig of cameras with overlapping views observing one or several boards with enough well-spread, noise-free corner observations, the calibration application writes camera matrices, distortion coefficients, camera poses and object structure that match the rig that produced the observations, expressed in the frame of the lowest-numbered camera, with a mean reprojection error close to zero. With pixel noise the errors stay commensurate with the noise. This holds for perspective and fisheye cameras, mixed rigs, any number of cameras and boards, and any covisibility pattern that links them.",
 ["inputs", "configurations"],
 "all rigs (1-6 cameras, Brown/Kannala/mixed, chained or all-to-all covisibility), board sets and board motions",
 NOTEST + "no test runs the calibration on observations other than fixed image sequences that are not part of the reliable set; correctness over all rigs and covisibility chains needs generated rigs.",
 ["apps/calibrate/src/calibrate.cpp", SRC+"McCalib.cpp", SRC+"Camera.cpp", SRC+"CameraGroup.cpp", SRC+"Object3D.cpp"],
 [("calibration workflow", "apps/calibrate/src/calibrate.cpp:runCalibrationWorkflow"),
  ("intrinsic initialisation and refinement", SRC+"Camera.cpp:initializeCalibration, refineIntrinsicCalibration"),
  ("camera chaining", SRC+"McCalib.cpp:initCameraGroup"),
  ("bundle adjustment", SRC+"CameraGroup.cpp:refineCameraGroupAndObjectsAndIntrinsics")],
 ["calibrated_cameras_data.yml", "calibrated_objects_data.yml", "reprojection_error_data.yml"])

prop("C02", "Non-overlapping rigs are merged with the true relative poses",
 "When cameras or camera groups share no view of a common board but observe boards that move rigidly with each other over enough sufficiently exciting frames, all of them end in one group whose camera poses match the true rig. This holds for two or more groups, for chains of groups that only share frames pairwise, for both hand-eye approaches and for any number of common frames at or above the required minimum of four.",
 ["inputs", "configurations"],
 "all non-overlapping and hybrid rigs, group graphs, frame counts and both hand-eye settings",
 NOTEST + "no reliable test reaches the hand-eye path or the group merging.",
 [SRC+"McCalib.cpp", SRC+"geometrytools.cpp"],
 [("pair selection", SRC+"McCalib.cpp:findPairObjectForNonOverlap"),
  ("hand-eye between groups", SRC+"McCalib.cpp:initNonOverlapPair"),
  ("group merge", SRC+"McCalib.cpp:mergeCameraGroup"),
  ("bootstrapped hand-eye", SRC+"geometrytools.cpp:handeyeBootstraptTranslationCalibration")],
 ["calibrated_cameras_data.yml"])

prop("C03", "Cameras share a group exactly when their observations link them",
 "Two cameras are reported in the same camera group if and only if a chain of shared board views (or of enough jointly observed moving boards for the non-overlapping case) links them. Every camera that observed a board appears exactly once in the camera parameter file with its own intrinsics, image size, distortion type, group number and pose, however many groups remain, and each group's lowest-numbered camera has the identity pose.",
 ["inputs", "histories"],
 "all observation patterns, including rigs that split into several unlinked groups or only partly merge",
 NOTEST + "grouping over all covisibility patterns and the saved file with more than one group is never tested.",
 [SRC+"McCalib.cpp", SRC+"CameraGroup.cpp"],
 [("covisibility graph", SRC+"McCalib.cpp:initInterCamerasGraph"),
  ("group graph", SRC+"McCalib.cpp:initInterCamGroupGraph, mergeCameraGroup"),
  ("camera parameter export", SRC+"McCalib.cpp:saveCamerasParams")],
 ["calibrated_cameras_data.yml"])

prop("C04", "Boards are assembled into objects exactly as their views link them",
 "Boards end in the same 3D object if and only if a chain of simultaneous views (in one image, or by cameras of one group in one frame) links them. The object file lists every corner of every observed board exactly once, with its board number, its corner number and a position that equals the true corner position relative to the object's lowest-numbered board, and that board's corners keep their nominal planar coordinates.",
 ["inputs", "configurations"],
 "all board sets (mixed sizes, square sizes, index subsets), arrangements and covisibility patterns",
 NOTEST + "no reliable test builds a 3D object.",
 [SRC+"McCalib.cpp", SRC+"Object3D.cpp", SRC+"Object3DObs.cpp", SRC+"Board.cpp"],
 [("inter-board poses", SRC+"McCalib.cpp:computeBoardsPairPose, initInterTransform"),
  ("object construction", SRC+"McCalib.cpp:init3DObjects"),
  ("object merge", SRC+"McCalib.cpp:computeObjectsPairPose, mergeObjects"),
  ("object export", SRC+"McCalib.cpp:save3DObj")],
 ["calibrated_objects_data.yml"])

prop("C05", "Saved results are mutually consistent and explain the saved errors",
 "Projecting the saved object points with the saved object poses, camera poses, camera matrices and distortion coefficients reproduces, point by point, the error list saved for every camera and frame against the input observations. The error log covers each observation exactly once under the right group, frame and camera, and the reported mean reprojection error is the mean over those lists of each list's mean.",
 ["inputs", "configurations"],
 "all runs of the application: perspective/fisheye, one or several groups, one or several objects, with noise and outliers",
 NOTEST + "no test reads any output file.",
 [SRC+"McCalib.cpp"],
 [("error log", SRC+"McCalib.cpp:saveReprojectionErrorToFile"),
  ("mean error", SRC+"McCalib.cpp:computeAvgReprojectionError"),
  ("object poses", SRC+"McCalib.cpp:save3DObjPose"),
  ("camera parameters", SRC+"McCalib.cpp:saveCamerasParams")],
 ["calibrated_cameras_data.yml", "calibrated_objects_data.yml", "calibrated_objects_pose_data.yml", "reprojection_error_data.yml", "log line with the mean reprojection error"])

prop("C06", "Saved keypoints reload to the same observations",
 "The keypoint file written after a calibration contains exactly the board observations the run used: camera, frame, board, corner numbers, image positions, image sizes and image paths. Loading that file instead of detecting corners restores exactly the same observations, and saving again gives the same content.",
 ["inputs", "histories"],
 "all observation sets: any cameras, sparse frame numbers, several boards per image, any insertion order, any corner subset",
 NOTEST + "save/load is never tested.",
 [SRC+"McCalib.cpp"],
 [("save", SRC+"McCalib.cpp:saveDetectedKeypoints"), ("load", SRC+"McCalib.cpp:loadDetectedKeypoints"),
  ("source selection", SRC+"McCalib.cpp:boardExtraction")],
 ["detected_keypoints_data.yml"])

prop("C07", "Gross outliers do not corrupt the calibration",
 "Replacing a minority of the corners of some board views by positions that are wrong by much more than the configured threshold leaves the calibrated cameras and structure close to those of the clean data. A board view that is entirely wrong or left with too few consistent corners does not corrupt the result either.",
 ["inputs", "fault_sequences"],
 "all placements and magnitudes of outlier corners up to a stated minority fraction per view, both camera models",
 NOTEST + "robustness quantifies over outlier placements that no fixed dataset samples.",
 [SRC+"geometrytools.cpp", SRC+"BoardObs.cpp", SRC+"Object3DObs.cpp", SRC+"CameraGroup.cpp"],
 [("robust pose and outlier removal", SRC+"BoardObs.cpp:estimatePose, "+SRC+"Object3DObs.cpp:estimatePose"),
  ("RANSAC", SRC+"geometrytools.cpp:ransacP3PDistortion"),
  ("robust loss", SRC+"CameraGroup.cpp:refineCameraGroupAndObjects")],
 ["calibrated_cameras_data.yml"])

prop("C08", "Results do not depend on units, numbering or order",
 "Multiplying every square size by a factor multiplies all translations and object points by that factor and changes nothing else. Renumbering frames, reordering the observations, permuting cameras or permuting boards gives the same calibration up to that renumbering and the change of reference.",
 ["inputs", "configurations"],
 "all rigs, scale factors, permutations of frames, cameras, boards and observation order",
 NOTEST + "a metamorphic relation between two runs is outside what the fixed datasets test.",
 [SRC+"McCalib.cpp", SRC+"Board.cpp", SRC+"CameraGroup.cpp"],
 [("board geometry", SRC+"Board.cpp:Board"), ("reference selection", SRC+"McCalib.cpp:initCameraGroup, init3DObjects"),
  ("observation insertion", SRC+"McCalib.cpp:insertNewBoard")],
 ["calibrated_cameras_data.yml", "calibrated_objects_data.yml"])

prop("C09", "Provided intrinsics are used and, when fixed, never altered",
 "When a camera parameter file is configured, each camera starts from its own matrix and distortion in that file, and when intrinsics are configured as fixed the saved camera matrices and distortion vectors equal the provided ones exactly, for both camera models. The poses and structure are then the best ones for those intrinsics. When intrinsics are not fixed they are refined.",
 ["inputs", "configurations"],
 "all intrinsics, camera models, rigs and both settings of the fix option",
 NOTEST + "no reliable test loads camera parameters.",
 [SRC+"McCalib.cpp", SRC+"Camera.cpp", SRC+"CameraGroup.cpp"],
 [("load", SRC+"McCalib.cpp:initializeCalibrationAllCam"), ("fix option", SRC+"McCalib.cpp:initIntrinsic, apps/calibrate/src/calibrate.cpp"),
  ("fixed-intrinsics refinement", SRC+"CameraGroup.cpp:refineCameraGroupAndObjects")],
 ["calibrated_cameras_data.yml"])

prop("C10", "Every documented configuration option takes effect",
 "Each documented option of the configuration file is read under its documented name and has its documented effect: board counts, index lists, common and per-board square counts and sizes, camera models common or per camera, thresholds and iteration limits, averaging method, hand-eye approach, input and output paths and file names. An option left empty or absent where that is documented or done in the shipped examples falls back to its common value.",
 ["configurations"],
 "all combinations of documented options, present, empty or absent",
 NOTEST + "combinations of options are not enumerated by any test.",
 [SRC+"McCalib.cpp", SRC+"Board.cpp", "README.md"],
 [("configuration parsing", SRC+"McCalib.cpp:Calibration::Calibration"), ("board parsing", SRC+"Board.cpp:Board")],
 ["state of the calibration object after construction", "names and contents of the output files"])

prop("C11", "Rigid-transform conversions are exact and mutually consistent",
 "Converting a pose between rotation-vector/translation, rotation-matrix/translation, 4x4 matrix and 6-vector forms and back yields the same rigid transform, inversion composed with the original yields the identity, and transforming points agrees with multiplying by the 4x4 matrix. The pose accessors of boards, objects, observations and camera groups return what was stored, in every form.",
 ["inputs"],
 "all rotations (including zero and close to a half turn), all translations, all point sets including empty ones",
 "The existing tests check quaternion conversion only, on a few fixed rotations.",
 [SRC+"geometrytools.cpp", SRC+"BoardObs.cpp", SRC+"Object3D.cpp", SRC+"Object3DObs.cpp", SRC+"CameraGroup.cpp", SRC+"CameraGroupObs.cpp"],
 [("conversions", SRC+"geometrytools.cpp:RT2Proj, RVecT2Proj, RVecT2ProjInt, Proj2RT, vectorProj, ProjToVec, invertRvecT, transform3DPts"),
  ("accessors", SRC+"BoardObs.cpp, Object3D.cpp, Object3DObs.cpp, CameraGroup.cpp, CameraGroupObs.cpp: get/set pose")])

prop("C12", "Averaging rotations and translations is a true, robust average",
 "The quaternion average of a set of rotations is the rotation that maximises the summed squared quaternion agreement with them: identical rotations return themselves, the result does not depend on order or on the rotation-vector representative chosen, and it turns with the inputs. The median variant and the scalar median return the exact middle value (mean of the two middle values), and rotation matrix to quaternion conversion round-trips for every rotation. Transforms between pairs use these per pair.",
 ["inputs"],
 "all multisets of rotations with a well-defined mean, including near half turns, and all value lists",
 "The existing tests check quaternion conversions for a few rotations, never the averages.",
 [SRC+"geometrytools.cpp", SRC+"McCalib.cpp", SRC+"CameraGroupObs.cpp"],
 [("average", SRC+"geometrytools.cpp:getAverageRotation"), ("median", SRC+"geometrytools.cpp:median"),
  ("quaternions", SRC+"geometrytools.cpp:convertRotationMatrixToQuaternion, convertQuaternionToRotationMatrix"),
  ("pair averages", SRC+"McCalib.cpp:initInterTransform")])

prop("C13", "Graph components and paths are correct for every history",
 "After any sequence of vertex additions, edge additions and clearings, the connected components partition exactly the added vertices by reachability, and the path returned between two connected vertices is a real path that starts and ends at them and has the smallest possible total weight. Adding an existing vertex again or clearing and refilling leaves no trace of the past.",
 ["histories", "inputs"],
 "all operation histories with arbitrary vertex numbers and positive weights, including fractional ones and parallel edges",
 "The existing tests use a few fixed graphs with integer weights and no clearing histories.",
 [SRC+"Graph.cpp", INC+"Graph.hpp"],
 [("components", SRC+"Graph.cpp:connectedComponents"), ("shortest path", SRC+"Graph.cpp:shortestPathBetween"),
  ("mutation", SRC+"Graph.cpp:addVertex, addEdge, clearGraph")])

prop("C14", "Optimised residuals are the true reprojection errors",
 "For every camera model, the residual minimised in each non-linear refinement equals the difference between observed and projected position where the projection is the documented camera model applied to the chain of board, object, and camera transforms, and its derivatives are those of that projection. The point-projection routine used for reporting follows the same models, and parameters of the reference board and reference camera do not influence residuals declared to be relative to them.",
 ["inputs"],
 "all intrinsics, distortion coefficients, poses and points in front of the camera, for both models and all refinement stages",
 NOTEST + "no test evaluates a residual or a projection.",
 [INC+"OptimizationCeres.h", SRC+"geometrytools.cpp"],
 [("residuals", INC+"OptimizationCeres.h:ReprojectionError, ReprojectionError_3DObjRef, ReprojectionError_CameraGroupRef, ReprojectionError_CameraGroupAndObjectRef, ReprojectionError_CameraGroupAndObjectRefAndIntrinsics"),
  ("projection", SRC+"geometrytools.cpp:projectPointsWithDistortion")])

prop("C15", "Robust pose estimation finds the pose and the exact inlier set",
 "Given 3D-2D correspondences of which a clear majority follow a pose and the rest are off by well over the threshold, robust pose estimation returns that pose and exactly the indices of the consistent correspondences, for both camera models and for planar and non-planar points. Observations keep exactly the consistent corners with their matching corner numbers, and an observation with too few consistent corners is marked unusable.",
 ["inputs", "fault_sequences"],
 "all poses, point sets of four or more points, outlier subsets, thresholds and camera models",
 NOTEST + "no test calls the pose estimator.",
 [SRC+"geometrytools.cpp", SRC+"BoardObs.cpp", SRC+"Object3DObs.cpp"],
 [("RANSAC PnP", SRC+"geometrytools.cpp:ransacP3PDistortion, ransacP3P"),
  ("observation filtering", SRC+"BoardObs.cpp:estimatePose, "+SRC+"Object3DObs.cpp:estimatePose")])

prop("C16", "Triangulation recovers the 3D point from its views",
 "From two or more views of a point with known poses and intrinsics, linear triangulation returns the true point for exact observations. The robust variant returns it also when a minority of views is grossly wrong.",
 ["inputs"],
 "all camera poses with sufficient baseline, any number of views, any minority of outlier views",
 NOTEST + "no test calls triangulation.",
 [SRC+"geometrytools.cpp"],
 [("linear", SRC+"geometrytools.cpp:triangulateNViewLinearEigen"), ("robust", SRC+"geometrytools.cpp:ransacTriangulation")])

prop("C17", "Hand-eye calibration solves for the true relative pose",
 "Given the poses of two rigidly linked but separately observed bodies over four or more sufficiently different positions, both the traditional and the bootstrapped hand-eye calibration return the rigid transform between the two observers, for any relative rotation including large ones. The bootstrapped variant tolerates a minority of wrong poses and falls back to using all poses when no consistent subset is found.",
 ["inputs", "configurations"],
 "all relative poses, motion sets of four or more poses with rotation about at least two axes, cluster counts",
 NOTEST + "no test calls hand-eye calibration.",
 [SRC+"geometrytools.cpp"],
 [("traditional", SRC+"geometrytools.cpp:handeyeCalibration"),
  ("bootstrapped", SRC+"geometrytools.cpp:handeyeBootstraptTranslationCalibration")])

prop("C18", "All views of the observation data agree after any insertion history",
 "After any sequence of board-view insertions, each view is reachable exactly once, with the same content, through its camera, its board, its frame, its camera-and-frame entry and the global list, and the lists of visible boards, cameras and frames name exactly what was inserted. Grouping into object observations and camera-group observations keeps every corner exactly once, with the 3D point that belongs to it.",
 ["histories"],
 "all insertion sequences of (camera, frame, board) views in any order with arbitrary corner subsets",
 NOTEST + "the data structures are never inspected after any insertion history.",
 [SRC+"McCalib.cpp", SRC+"Camera.cpp", SRC+"Board.cpp", SRC+"Frame.cpp", SRC+"CameraObs.cpp", SRC+"Object3D.cpp", SRC+"Object3DObs.cpp", SRC+"CameraGroup.cpp", SRC+"CameraGroupObs.cpp"],
 [("insertion", SRC+"McCalib.cpp:insertNewBoard"), ("object observations", SRC+"McCalib.cpp:init3DObjectObs, mergeAllObjectObs"),
  ("group observations", SRC+"McCalib.cpp:initCameraGroupObs, mergeAllCameraGroupObs")])

prop("C19", "Refinement never makes the solution worse and keeps the gauge",
 "Each non-linear refinement stage (single-camera, object, camera group, camera group with objects, and with intrinsics) started from any reasonable state ends with a robust reprojection cost no larger than before. It leaves the pose of the reference camera and reference board at identity and, except in the stages that refine intrinsics, leaves the intrinsics untouched; from a moderately perturbed state on exact data it returns to the true solution.",
 ["inputs", "configurations"],
 "all rigs and starting perturbations, both camera models, all refinement stages",
 NOTEST + "no test runs a refinement.",
 [SRC+"CameraGroup.cpp", SRC+"Object3D.cpp", SRC+"Camera.cpp", SRC+"CameraGroupObs.cpp"],
 [("single camera", SRC+"Camera.cpp:refineIntrinsicCalibration"), ("object", SRC+"Object3D.cpp:refineObject"),
  ("camera group", SRC+"CameraGroup.cpp:refineCameraGroup, refineCameraGroupAndObjects, refineCameraGroupAndObjectsAndIntrinsics"),
  ("structure update", SRC+"Object3D.cpp:updateObjectPts, "+SRC+"CameraGroupObs.cpp:updateObjObsPose")])

prop("C20", "Detected corners carry the right board, number and position",
 "In images showing boards under any reasonable perspective, every reported corner belongs to the board actually shown, has the right corner number and lies within a fraction of a pixel of its true position, and every fully and clearly visible board is reported. A board view is reported only if more than the configured fraction of its corners is found and the corners do not lie on one line; images of unreadable files or without boards contribute nothing.",
 ["inputs", "configurations"],
 "all rendered views (pose, scale, partial visibility, several boards, missing boards, unreadable files), thresholds and refinement on or off",
 "The only detection test needs datasets that are not in the reliable set.",
 [SRC+"McCalib.cpp", INC+"point_refinement.h", SRC+"geometrytools.cpp", SRC+"utilities.cpp"],
 [("detection", SRC+"McCalib.cpp:detectBoards, detectBoardsWithCamera, detectBoardsInImageWithCamera"),
  ("collinearity", SRC+"geometrytools.cpp:calcLinePara")],
 ["board observations after detection", "detected_keypoints_data.yml"])

prop("C21", "Corner refinement converges to the saddle or says it failed",
 "Subpixel refinement of approximate corner positions returns, for each input corner and in the same order, either a position within a small fraction of a pixel of the true saddle or an explicit failure. It never returns a position outside the image or further from the start than the refinement window, and never reads outside the image, wherever the starting points lie.",
 ["inputs"],
 "all rendered saddles (orientation, contrast, blur, sub-pixel offset), start offsets within the window, start points anywhere including borders, window sizes",
 NOTEST + "no test calls the refinement.",
 [INC+"point_refinement.h"],
 [("refinement", INC+"point_refinement.h:saddleSubpixelRefinement"), ("kernels", INC+"point_refinement.h:initSaddlePointRefinement")])

prop("C22", "Generated board images are the boards the calibration expects",
 "The board generator writes, for each configured board, an image of the configured resolution in which detection with the same configuration finds exactly that board with all its corners, correctly numbered and in the correct layout. Markers of different boards never coincide, and the markers and 3D corner layout of a board depend only on the square counts and square sizes configured, also with per-board sizes and index subsets.",
 ["configurations"],
 "all board counts, common and per-board square counts, resolutions and square sizes within the marker dictionary",
 NOTEST + "the generator application is never run by a test.",
 [SRC+"utilities.cpp", SRC+"Board.cpp", "apps/create_charuco_boards/src/create_charuco_boards.cpp"],
 [("layout", SRC+"utilities.cpp:createCharucoBoards"), ("images", SRC+"utilities.cpp:createCharucoBoardsImages"),
  ("3D points", SRC+"Board.cpp:Board"), ("generator", "apps/create_charuco_boards/src/create_charuco_boards.cpp:main")],
 ["charuco_board_NNN.bmp"])

prop("C23", "Diagnostic images show the right points on the right picture",
 "When enabled, for every camera and every frame in which an image is available one detection image and one reprojection image are written in that camera's folder under that frame's number. They equal the original picture with one mark at each detected corner and, for reprojection, one at each position predicted by the final calibration, and no other marks; when disabled none are written.",
 ["inputs", "configurations"],
 "all rigs, frame numbers, image sizes and the four combinations of the two options",
 NOTEST + "no test looks at the diagnostic images.",
 [SRC+"McCalib.cpp"],
 [("detection images", SRC+"McCalib.cpp:saveDetectionImages"), ("reprojection images", SRC+"McCalib.cpp:saveReprojectionImages"),
  ("options", "apps/calibrate/src/calibrate.cpp")],
 ["Detection/CCC/FFFFFF.jpg", "Reprojection/CCC/FFFFFF.jpg"])

prop("C24", "Sparse or degenerate observations never corrupt memory",
 "Whatever well-formed observations a run is given - views with very few corners, boards seen once, frames with nothing, views whose corners are mostly wrong, groups sharing only a few frames - the library performs no out-of-bounds access, no use of freed memory and no undefined arithmetic. It never reports a non-finite pose for a group calibrated from enough well-conditioned views because of the presence of a few degenerate ones.",
 ["inputs", "fault_sequences"],
 "all well-formed observation sets including degenerate ones mixed with good ones, both hand-eye approaches",
 NOTEST + "no test feeds degenerate observations, and none runs under a memory checker.",
 [SRC+"geometrytools.cpp", SRC+"McCalib.cpp", SRC+"BoardObs.cpp", SRC+"Object3DObs.cpp", SRC+"CameraGroup.cpp", INC+"point_refinement.h"],
 [("robust pose", SRC+"geometrytools.cpp:ransacP3PDistortion"), ("cluster selection", SRC+"geometrytools.cpp:handeyeBootstraptTranslationCalibration"),
  ("triangulation", SRC+"geometrytools.cpp:ransacTriangulation"), ("workflow", "apps/calibrate/src/calibrate.cpp")])

prop("C25", "Collinearity is measured as the distance from the best line",
 "The line fitted to a set of planar points is the total-least-squares line with a unit normal, and the residual equals the mean distance of the points from it, whatever the orientation, order, scale or position of the points. Corner sets on one line therefore give a residual of zero and corner sets that span a board do not.",
 ["inputs"],
 "all planar point sets, including horizontal, vertical and diagonal lines and far-from-origin sets",
 NOTEST + "no test calls the line fit.",
 [SRC+"geometrytools.cpp"], [("line fit", SRC+"geometrytools.cpp:calcLinePara")])

prop("C26", "Parallel detection gives the sequential result without data races",
 "Detecting the boards of a camera's images in parallel yields the same set of observations, attached to the same frames and cameras, as handling the images one at a time, whatever the interleaving of the workers. No two workers access shared state without synchronisation while inserting their results.",
 ["schedules", "inputs"],
 "all interleavings of the detection workers over generated image sets",
 NOTEST + "no reliable test runs detection, and a lost insertion needs a particular interleaving.",
 [SRC+"McCalib.cpp", INC+"McCalib.hpp"],
 [("worker pool", SRC+"McCalib.cpp:detectBoardsWithCamera"), ("locked insertion", SRC+"McCalib.cpp:detectBoardsInImageWithCamera")],
 ["board observations after detection"])

prop("C27", "Each camera model's single-camera calibration is right on its own",
 "For a camera of either model, calibration from its own board views recovers its matrix and distortion with the coefficients in the documented order and number for that model, independently of the image size, of boards touching the image border and of how many views there are. Reading the parameters back returns exactly what was set.",
 ["inputs"],
 "all camera matrices, distortion coefficients, image sizes, numbers of views below and above the subset size used for initialisation",
 NOTEST + "no test calibrates a single camera on generated views.",
 [SRC+"Camera.cpp"],
 [("initialisation", SRC+"Camera.cpp:initializeCalibration, checkBorderToleranceFisheye"), ("refinement", SRC+"Camera.cpp:refineIntrinsicCalibration"),
  ("accessors", SRC+"Camera.cpp:setIntrinsics, getIntrinsics")])

prop("C28", "Post-calibration analysis scripts summarise the logs faithfully",
 "The analysis scripts report per camera and per frame exactly the errors found in the saved error log and display the saved poses in the reference camera's frame.",
 ["inputs"], "all saved result folders",
 "No test runs the scripts.",
 ["python_utils/post_calibration_analysis.py", "python_utils/compute_error_statistic.py", "python_utils/display_cam_obj_pose.py"],
 [("scripts", "python_utils/")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
