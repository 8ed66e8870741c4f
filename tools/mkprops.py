import json, os
M = "McCalib/src/McCalib.cpp"; G = "McCalib/src/geometrytools.cpp"; CG = "McCalib/src/CameraGroup.cpp"
CGO = "McCalib/src/CameraGroupObs.cpp"; O = "McCalib/src/Object3D.cpp"; OO = "McCalib/src/Object3DObs.cpp"
B = "McCalib/src/Board.cpp"; BO = "McCalib/src/BoardObs.cpp"; C = "McCalib/src/Camera.cpp"; GR = "McCalib/src/Graph.cpp"
CE = "McCalib/include/OptimizationCeres.h"; PR = "McCalib/include/point_refinement.h"; U = "McCalib/src/utilities.cpp"
FR = "McCalib/src/Frame.cpp"; CO = "McCalib/src/CameraObs.cpp"; APP = "apps/calibrate/src/calibrate.cpp"
GEN = "apps/create_charuco_boards/src/create_charuco_boards.cpp"; HP = "McCalib/include/McCalib.hpp"
P = []
def p(id, title, st, over, q, why, files, mech, state=None, obs=None):
    d = {"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if obs: d["anchors"]["observe_at"] = obs
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

NOE2E = "The end-to-end tests need image sets that are not in the repository, so no test runs the pipeline; "

p("R01", "Rigs linked by shared board views are recovered in one common frame",
  "When the cameras of a rig are linked, directly or through a chain of other cameras, by boards they see in the same frames, calibration from accurate detections of sufficiently many and varied views puts them all in one group and recovers every camera's pose relative to the lowest-numbered camera of the group, and every camera's intrinsics, to measurement accuracy. This holds for perspective and fisheye cameras mixed in one rig, for boards of different sizes, with either rotation-averaging option, and whatever the numbering of cameras, boards and frames.",
  ["inputs", "configurations"],
  "Every well-conditioned rig of 1 or more cameras (chains, rings, random layouts; perspective, fisheye, mixed), every board set and trajectory that gives each camera enough views, pixel noise from none to a fraction of a pixel; median rotation averaging only for relative rotations away from a half turn.",
  NOE2E + "and any fixed scene exercises one topology, one numbering and one camera mix.",
  [M, CG, C, O, CE, APP],
  [("pairwise camera poses, averaged and chained over the co-visibility graph", M + " computeCamerasPairPose/initInterTransform/initCameraGroup"),
   ("joint refinement of cameras, objects and intrinsics", CG + " refineCameraGroupAndObjects*"),
   ("single camera calibration", C + " initializeCalibration/refineIntrinsicCalibration")],
  obs=["the saved camera parameter file"])

p("R02", "Cameras without shared views are tied together through rigid motion",
  "Camera groups that never see a common board but move rigidly together, each seeing its own boards in the same frames under sufficiently varied motion, are merged into one group with the correct relative poses, directly or through intermediate groups and with either hand-eye option. Groups that share too few frames for this (three or fewer) stay separate groups, each correct in its own frame.",
  ["inputs", "configurations"],
  "Every rig of two or more mutually non-overlapping camera groups at arbitrary relative orientation (including a quarter turn, half turn and general), 4 or more shared frames per linked pair with rotation about at least two axes, direct and chained links, bootstrapped or single-shot hand-eye.",
  NOE2E + "the unit tests never call the hand-eye code.",
  [M, G, CG],
  [("object pair selection and pose collection over common frames", M + " findPairObjectForNonOverlap/initNonOverlapPair"),
   ("bootstrapped hand-eye estimation", G + " handeyeBootstraptTranslationCalibration"),
   ("group merge along the inter-group graph", M + " mergeCameraGroup")],
  obs=["the saved camera parameter file"])

p("R03", "Reconstructed 3D objects reproduce the true board layout",
  "Boards that are linked by being seen together in one image, or by one camera group in the same frame, end up in one 3D object, expressed in the frame of its lowest-numbered board; the relative placement of its boards matches the true layout to measurement accuracy. Inside an object each board keeps its own exact metric shape, and every point of every member board is present exactly once under its board and point number.",
  ["inputs", "configurations"],
  "Every rigid arrangement of boards (same or different sizes) seen directly or through chains of co-visible boards, by one or several cameras or by non-overlapping groups.",
  NOE2E + "no test builds an object of more than one board.",
  [O, M],
  [("object construction over the board co-visibility graph", M + " init3DObjects"), ("object merge", M + " mergeObjects"),
   ("object refinement and point update", O + " refineObject/updateObjectPts")],
  state=[("object points", "3D points of the object in the reference board frame", "McCalib/include/Object3D.hpp pts_3d_"),
         ("point index maps", "board/point number to object point and back", "McCalib/include/Object3D.hpp pts_board_2_obj_, pts_obj_2_board_")],
  obs=["the saved object file", "objects after each stage"])

p("R04", "Initial pose estimates agree with the true geometry before refinement",
  "Before any non-linear refinement, the relative poses of boards in an object, of cameras in a group, and of groups or objects being merged are obtained by composing measured pairwise poses along the graph, and each already agrees with the true geometry up to the error of the measurements it was composed from. This holds for chains of any length and any direction of numbering.",
  ["inputs", "configurations"],
  "All chain lengths from 0 to many hops, all numberings, general relative rotations and translations, noise-free to noisy pairwise measurements.",
  NOE2E + "and the final refinement hides a wrong start whenever it happens to converge, so only a check of the intermediate stage sees it.",
  [M],
  [("board chain composition", M + " init3DObjects"), ("camera chain composition", M + " initCameraGroup"),
   ("group chain composition", M + " mergeCameraGroup"), ("object chain composition", M + " mergeObjects"),
   ("averaging of pairwise poses", M + " initInterTransform")],
  obs=["object, camera-group state right after initialisation"])

p("S01", "Objects and groups are exactly the co-visibility components",
  "At every stage the boards seen at least once are partitioned into 3D objects, and the cameras that saw a board into camera groups, exactly as the connected components of the co-visibility relation of the detections; two boards or cameras never share an object or group without a chain of shared views or shared frames linking them. The reference of each object is its lowest-numbered board, the reference of each group its lowest-numbered camera (of its lowest-numbered original group after a merge), and each reference has the identity pose.",
  ["inputs", "configurations", "histories"],
  "Every co-visibility pattern of cameras, boards and frames: connected, split in several components, isolated boards, unseen boards, cameras seeing different boards.",
  NOE2E + "the graph tests use a handful of fixed graphs and never the grouping built on them.",
  [M, GR, O, CG],
  [("co-visibility graphs", M + " initInterBoardsGraph/initInterCamerasGraph/initInterObjectsGraph/initInterCamGroupGraph"),
   ("component extraction", GR + " connectedComponents"), ("grouping and merging", M + " init3DObjects/initCameraGroup/mergeObjects/mergeCameraGroup")],
  obs=["objects and camera groups after each stage", "saved files"])

p("S02", "Every detection is registered exactly once, everywhere it belongs",
  "Each accepted board detection is kept with its corners paired with the right corner numbers and is reachable exactly once from the global list, its camera, its board, its frame and its camera-frame record, with nothing else in those lists. Frames record the image of every camera that saw a board, under the right camera number.",
  ["inputs", "histories", "schedules"],
  "Every sequence of detections over cameras, frames and boards in any insertion order, loaded from a keypoint file or arriving from concurrent detection workers.",
  "No test inserts detections; loss or duplication depends on the order and combination of cameras, frames and boards.",
  [M, C, B, FR, CO, BO],
  [("single registration routine", M + " insertNewBoard"), ("per-entity insertion", "Camera.cpp, Board.cpp, Frame.cpp, CameraObs.cpp insertNewBoard")],
  state=[("detections", "global list of board detections", "McCalib/include/McCalib.hpp board_observations_"),
         ("frames", "synchronised frames with image paths", "McCalib/include/Frame.hpp")],
  obs=["state after loading or detecting"])

p("S03", "Object and group observations cover each detection exactly once at every stage",
  "After objects are built and after every merge of objects or camera groups, each surviving detection belongs to exactly one object observation of its camera, frame and object, and each object observation is listed exactly once by its camera, frame, camera-frame record, object, and the camera group of its camera. Merging neither drops nor duplicates observations, no listed observation refers to something that no longer exists, and the point numbers of an observation always designate the detected corners in its current object.",
  ["inputs", "histories", "configurations"],
  "Every co-visibility pattern leading to one or several objects and groups, after each stage of the pipeline and after repeated merges.",
  NOE2E + "and the bookkeeping only differs between stages when several objects or groups exist.",
  [M, OO, CG, CGO, C, FR, CO],
  [("object observation construction", M + " init3DObjectObs"), ("group observation construction", M + " initCameraGroupObs"),
   ("rebuild after merge", M + " mergeAllObjectObs/mergeAllCameraGroupObs")],
  state=[("object observations", "all object observations", "McCalib/include/McCalib.hpp object_observations_"),
         ("group observations", "observations per camera group and frame", "McCalib/include/McCalib.hpp cams_group_obs_")],
  obs=["state after each stage"])

p("O01", "Refinement never makes the fit worse",
  "Each non-linear refinement (single camera, object, camera group with objects, and with intrinsics) leaves the robust reprojection cost of the observations it uses no larger than before, and started at the exact solution of noise-free data it stays there. Its cost counts every observed corner of the group or object exactly once, including those of later frames, boards and cameras.",
  ["inputs", "configurations"],
  "All scenes, perturbations of the starting point and iteration budgets, both projection models.",
  NOE2E + "no test calls a refinement.",
  [C, O, CG, CE],
  [("Ceres problems with a Huber loss", C + " refineIntrinsicCalibration; " + O + " refineObject; " + CG + " refine*")],
  obs=["cost recomputed independently before and after each refinement"])

p("O02", "What is declared fixed stays fixed",
  "Refinement never moves the reference camera of a group or the reference board of an object away from the identity. With fixed intrinsics the saved intrinsics equal the supplied ones exactly, and with supplied but not fixed intrinsics the supplied values are the starting point for exactly the cameras they name.",
  ["inputs", "configurations"],
  "All scenes and stages; every combination of supplied, fixed and free intrinsics, both camera models.",
  NOE2E + "no test covers supplied or fixed intrinsics.",
  [M, C, CG, O, CE],
  [("gauge handling in the residuals", CE + " refine_camera/refine_board flags"), ("intrinsic initialisation from file", M + " initializeCalibrationAllCam"),
   ("fix flag", M + " initIntrinsic; " + APP)],
  obs=["state after each stage", "saved files"])

p("O03", "The optimised residual is the projection model that is reported",
  "For every pose and intrinsic value the residuals minimised by the refinements equal projected minus observed position under the documented camera model (Brown with five coefficients, or Kannala fisheye with four) after composing board, object and camera poses in that order. The derivatives used are those of that model, finite everywhere the model is smooth, and the same model produces the reported reprojections.",
  ["inputs"],
  "All poses in front of the camera, all sane intrinsics and distortions, both models, all five residual types, each with its refine flags.",
  "No test evaluates a residual; a wrong or swapped coefficient still converges to something plausible on one dataset.",
  [CE, G],
  [("residual functors", CE), ("reported projection", G + " projectPointsWithDistortion")],
  obs=["residual and jacobian values", "projected points"])

p("K01", "Pose conversions are exact, consistent and invertible",
  "Converting a rigid pose between rotation matrix, rotation vector, 4x4 matrix and 6-vector forms loses nothing beyond rounding (OpenCV's matrix-to-vector step itself rounds rotations below 1e-5 rad, or within 1e-5 rad of a half turn), inverting a pose twice gives it back, and transforming points by a pose equals multiplying by its matrix. Setting a pose of a detection, object observation, board in an object, camera in a group or object in a group and reading it back in any form returns the same pose and changes no other stored pose.",
  ["inputs"],
  "All rotations including the identity, tiny angles, near and at half turns, all finite translations; all accessor pairs.",
  "The tests check a few hand-picked poses of one conversion.",
  [G, BO, OO, O, CG, CGO],
  [("conversion helpers", G), ("pose accessors", "BoardObs.cpp, Object3DObs.cpp, Object3D.cpp, CameraGroup.cpp, CameraGroupObs.cpp get/set pose")])

p("K02", "Rotation averaging returns the true mean rotation",
  "With quaternion averaging the result is the rotation that best fits all inputs in the chordal sense: it equals the common value of identical inputs, does not depend on the order of inputs or on which of two equivalent representations each is given in, moves with the inputs when they are all turned by the same rotation, and stays within the spread of the inputs. Without it the result is the componentwise median.",
  ["inputs"],
  "All non-empty sets of rotations with spread below a quarter turn, including means at or next to a half turn where the quaternion scalar part changes sign.",
  "The tests convert a few rotations and average almost none; sign and half-turn cases are not reached.",
  [G],
  [("quaternion averaging", G + " getAverageRotation"), ("rotation/quaternion conversion", G + " convertRotationMatrixToQuaternion/convertQuaternionToRotationMatrix"),
   ("median", G + " median")])

p("K03", "Graph answers are right on every graph, and always arrive",
  "The connected components returned are exactly the components of the graph as a partition of its vertices, and the path returned between two connected vertices is a real path from the first to the second with the least total weight, for any positive real weights including fractions, parallel edges and either insertion order. A query for unknown or mutually unreachable vertices returns no path, in bounded time, and clearing the graph forgets everything.",
  ["inputs", "histories"],
  "All undirected graphs with non-negative real weights and any sequence of additions, clears and queries.",
  "The tests use a handful of graphs with integer weights, all queries between connected vertices.",
  [GR, "McCalib/include/Graph.hpp"],
  [("Boost graph with name map", GR + " addVertex/addEdge"), ("components", GR + " connectedComponents"), ("Dijkstra and path read-out", GR + " shortestPathBetween/getPath")])

p("K04", "Robust board pose estimation separates outliers and finds the pose",
  "Given correspondences of which a clear majority follow one camera pose within the tolerance and the rest are far off, the estimator returns that pose and exactly the numbers of the agreeing correspondences, for either camera model. Discarding the rest keeps corner positions and corner numbers paired, an observation with too few agreeing points is marked unusable rather than trusted, and fewer points than a pose needs is handled without touching memory outside the inputs.",
  ["inputs", "schedules"],
  "All board poses in front of the camera, outlier fractions up to 40 percent, either model, any point count including below four, all random draws of the sampler.",
  "No test calls the estimator; its outcome depends on random sampling.",
  [G, BO, OO],
  [("RANSAC over minimal samples then refinement", G + " ransacP3P/ransacP3PDistortion"), ("outlier removal", BO + " estimatePose")])

p("K05", "Triangulation recovers the point, ignoring outlier views",
  "A 3D point whose undistorted image positions are known without error from two or more distinct viewpoints is recovered to rounding error, in the frame of the given camera poses, and the robust variant recovers it when a minority of views are wrong. Fewer views than the sampler normally draws are handled without touching memory outside the inputs.",
  ["inputs", "schedules"],
  "All points in front of all cameras with non-degenerate baselines, 2 to many views, up to a third wrong views.",
  "No test calls triangulation.",
  [G],
  [("linear triangulation", G + " triangulateNViewLinearEigen"), ("RANSAC triangulation", G + " ransacTriangulation")])

p("K06", "Hand-eye estimation recovers the transform between two rigidly tied frames",
  "From two sequences of simultaneous object poses seen from two rigidly linked frames, with rotation about at least two axes, both hand-eye methods return the rigid transform between the two frames, up to the noise of the poses. The bootstrapped method rejects inconsistent subsets instead of averaging them in, gives a usable answer from as few as four poses, and falls back on all poses when too few subsets agree.",
  ["inputs", "schedules"],
  "All relative transforms (general rotations, quarter and half turns), 4 to 200 poses, exact and slightly noisy, with and without a minority of grossly wrong poses for the bootstrapped method, all random draws.",
  "No test calls either method.",
  [G],
  [("single-shot hand-eye", G + " handeyeCalibration"), ("bootstrapped hand-eye with consistency test", G + " handeyeBootstraptTranslationCalibration/checkSetConsistency")])

p("D01", "Boards in images are found, identified and located correctly",
  "Detection on images reports each sufficiently visible board under its own number with each corner under its own corner number, at the true image position to subpixel accuracy, and reports no board that is not there. Images are taken from the folder of each camera by its three-digit one-based number in file-name order, ignoring files that are not images, so equal positions in different folders are the same frame.",
  ["inputs", "configurations"],
  "All rendered views of one or several boards (different sizes, selected subsets of board numbers), several cameras, all supported image extensions, stray files in the folders, unreadable images in the middle.",
  "The image sets the tests need are not in the repository; no test runs detection.",
  [M, U, B],
  [("folder scan", M + " detectBoards"), ("marker detection and corner interpolation", M + " detectBoardsInImageWithCamera"), ("board/dictionary layout", U + " createCharucoBoards")],
  obs=["state after detection", "saved keypoints"])

p("D02", "Concurrent detection equals sequential detection, with no data race",
  "Detecting a folder of images on many threads gives the same set of detections, per camera, frame and board, as processing the images one after another, under every thread schedule. No two threads access the shared calibration state or detector settings without synchronisation when one of them writes.",
  ["schedules", "inputs"],
  "All schedules of the worker pool over any number of images and boards.",
  "No test runs detection; a race needs an unlucky schedule and rarely changes a result.",
  [M, HP],
  [("thread pool with one task per image", M + " detectBoardsWithCamera"), ("mutex around registration", M + " detectBoardsInImageWithCamera; " + HP + " insert_new_board_lock_")],
  obs=["race reports", "state after detection for many schedules"])

p("D03", "Only sufficiently visible, non-degenerate detections are accepted",
  "A detection is accepted if and only if it shows more than the configured share of the board's corners (rounded to whole corners), more than four of them, and they are not collinear on the board; the line fit behind this returns a unit-norm line whose residual is the mean distance of the points. Changing the configured share changes nothing but this selection.",
  ["inputs", "configurations"],
  "All partially hidden boards, all thresholds from 0 to 1, boards of different sizes in one configuration, single visible rows and columns.",
  "No test runs detection or the collinearity test.",
  [M, G],
  [("share and collinearity test", M + " detectBoardsInImageWithCamera"), ("line fit", G + " calcLinePara")])

p("D04", "Corner refinement improves accuracy and never harms a corner",
  "Sub-pixel refinement moves each corner estimate that starts within about one pixel of a clean saddle onto the true saddle, independently of the other corners in the list, and a corner it cannot refine (too close to the border, no saddle there, diverging) is left exactly as detected while all the others are still refined. Results depend only on the image and the starting corner.",
  ["inputs"],
  "All checkerboard saddles at any orientation and sub-pixel position, any list of corners with good and bad ones mixed in any order, including corners at or over the image border.",
  "No test calls the refinement.",
  [PR, M],
  [("saddle fit", PR + " saddleSubpixelRefinement"), ("use of refined corners", M + " detectBoardsInImageWithCamera")])

p("F01", "Detections survive saving and reloading",
  "Saving the detections and loading them back reproduces, for every camera, frame and board, the same corner positions and corner numbers, image paths and image sizes, with nothing added or lost; saving again gives the same content. Calibrating from a saved file needs no images and leads to the same result as calibrating from the images it came from.",
  ["inputs", "configurations"],
  "All detection sets: any cameras, frames, boards, gaps in frame numbers, boards with different point counts, cameras that saw nothing.",
  "The test with keypoint files needs data that is not in the repository.",
  [M],
  [("writer", M + " saveDetectedKeypoints"), ("reader", M + " loadDetectedKeypoints"), ("choice of source", M + " boardExtraction")],
  obs=["detected_keypoints_data.yml"])

p("F02", "Saved results are complete and mutually consistent",
  "After a run the result files parse and contain every calibrated camera of every group exactly once with its intrinsics, model, image size, group and pose (camera to reference frame), every object with every point of its boards exactly once, and the pose of each object for each view of it. Taken together they reproduce the detections: projecting the saved object points with the saved poses and cameras lands on the saved corners, and the saved parameters can be fed back as initial intrinsics.",
  ["inputs", "configurations"],
  "All scenes with one or several groups and objects, all camera model mixes, custom file names.",
  NOE2E + "no test reads a result file.",
  [M],
  [("writers", M + " saveCamerasParams/save3DObj/save3DObjPose")],
  obs=["calibrated_cameras_data.yml, calibrated_objects_data.yml, calibrated_objects_pose_data.yml, detected_keypoints_data.yml"])

p("F03", "The reported reprojection error is the real one",
  "The reprojection log lists, under each camera group, every frame of the group, every camera that saw a board in it, the number of corners and one error per corner, each the distance between the detected corner and the projection of its 3D point with the final parameters. The reported average is the mean over observations of their mean error, and equals what the log gives.",
  ["inputs", "configurations"],
  "All scenes, with one or several groups and one or several objects, exact to noisy detections.",
  NOE2E + "no test reads the log.",
  [M],
  [("log writer", M + " saveReprojectionErrorToFile"), ("average", M + " computeAvgReprojectionError")],
  obs=["reprojection_error_data.yml"])

p("F04", "Diagnostic images show the right detections on the right pictures",
  "With the image options on, each camera gets one picture per frame in which it saw a board and whose image can be read, named by frame number in a folder named by camera number, equal to the input picture except for the marks; detection pictures mark exactly the detected corners of that camera and frame, reprojection pictures mark the detected and the reprojected positions. Without the options no picture is written.",
  ["inputs", "configurations"],
  "All scenes with images available for all, some or no frames, all camera and frame numbers.",
  "No test writes a picture.",
  [M],
  [("picture writers", M + " saveDetectionImages/saveReprojectionImages")],
  obs=["Detection/ and Reprojection/ folders"])

p("C01", "Every documented setting takes effect as documented",
  "Each setting of the configuration file, given its documented name, reaches the calibration with its value: camera count and models (common or per camera), board count, sizes and selection (common or per board), thresholds, averaging and hand-eye choices, intrinsics options, paths and output options; per-board and per-camera lists override the common values for exactly the boards and cameras they name. A missing or wrongly named configuration file is refused without crashing and without writing results.",
  ["configurations"],
  "All combinations of documented settings with the per-board lists absent or given together, any selection of board numbers, any number of cameras.",
  "The tests read three fixed files and look at no setting.",
  [M, B, U, APP],
  [("configuration reader", M + " Calibration constructor"), ("per-board reader", B + " Board constructor")])

p("B01", "Generated boards are unique and are the boards the calibration looks for",
  "The board generator writes one picture per configured board at the configured resolution, all boards of a configuration carry pairwise disjoint marker numbers, and the picture of board number n is decoded by a calibration with the same configuration as board n with all corners in the documented row order. Different sizes per board and a selection of board numbers do not change which picture belongs to which board.",
  ["configurations"],
  "All board counts, square counts per board and selections that fit the marker dictionary.",
  "The tests generate no picture and check no marker number.",
  [U, GEN, B, M],
  [("marker number offsets", U + " createCharucoBoards"), ("pictures", U + " createCharucoBoardsImages; " + GEN)])

p("E01", "A minority of wrong corners or views does not spoil the calibration",
  "Grossly misplaced corners in a minority of each board view, and a minority of views that are wholly wrong, are discarded or outweighed: with wrong corners the calibration is as close to the truth as without them, the discarded corners appear in no result, and corners that were right are kept; with a few wrong views (intrinsics supplied) it typically stays close to the truth, and a view for which no pose was found is used nowhere.",
  ["inputs"],
  "All scenes with well-conditioned geometry and up to 15 percent of corners displaced by tens to hundreds of pixels, intrinsics supplied or estimated from clean boards.",
  NOE2E + "and outliers hit different corners each time.",
  [BO, OO, G, M, CG],
  [("RANSAC per view", BO + " estimatePose"), ("Huber loss", CG), ("median/averaged pairwise poses", M + " initInterTransform")],
  obs=["saved files"])

p("M01", "No input makes the tools read or write memory they do not own",
  "Whatever the detections, images, settings, supplied intrinsics and saved keypoints, complete or damaged, with the boards and pictures printable at the requested size, calibration and board generation perform no out-of-bounds or use-after-free access, no null dereference and no undefined integer arithmetic; input that cannot be calibrated ends in a reported failure (an exception or a nonzero exit) or in an incomplete result, not in corruption. This includes cameras or frames that see nothing, detections of very few points, split rigs, lists too short for the cameras or boards, and truncated or missing files.",
  ["inputs", "configurations", "fault_sequences"],
  "All scenes, including degenerate ones, images, keypoint files with missing parts, unreadable images, absent paths, single-command runs without arguments.",
  "The tests run no pipeline and no sanitizer.",
  [M, G, C, BO, OO, O, CG, CGO, GR, U, PR, APP, GEN],
  [("bounds and null checks throughout", "McCalib/src")],
  obs=["sanitizer reports"])

p("M02", "Results do not depend on uninitialised memory or on leftovers",
  "With the random draws (and, for detection in pictures, the order of the threads) fixed, two runs on the same input give identical results whatever memory or stack happens to contain beforehand, in one process or in fresh ones, and whether or not other calibrations ran before in the same process.",
  ["inputs", "histories", "configurations"],
  "All scenes and detection workloads, under different fill patterns of fresh heap and stack memory, repeated runs in one process.",
  "A test run reads whatever happens to be in memory, usually zeros.",
  [M, C, PR, BO, OO, G],
  [("member and local initialisation", "McCalib/include, McCalib/src")],
  obs=["all output files of paired runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
