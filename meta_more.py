BR = 'McCalib/src/BoardObs.cpp'; OB_ = 'McCalib/src/Object3DObs.cpp'; O3 = 'McCalib/src/Object3D.cpp'; CGF = 'McCalib/src/CameraGroup.cpp'; CGO = 'McCalib/src/CameraGroupObs.cpp'; OC = 'McCalib/include/OptimizationCeres.h'; GR = 'McCalib/src/Graph.cpp'; PRH = 'McCalib/include/point_refinement.h'
p('P13', 'Robust pose estimation returns a model and exactly its inliers', 'The robust pose estimation reports as inliers exactly the correspondences whose reprojection error under the best sampled hypothesis is below the threshold, no hypothesis that was sampled explains more of them, and the pose returned was computed from those correspondences. With too few points or no solvable hypothesis it reports no inlier and touches nothing out of bounds.',
  'inputs schedules', 'every outcome of the random sampling and of the reprojection errors within the bound', T0 + 'no test runs the robust estimator, whose result depends on random draws.',
  [G], [('ransacP3P, ransacP3PDistortion', G)], '5 points, 2 hypotheses (quick); 6 points, 3 hypotheses (thorough)')
p('P14', 'Views keep the corners that agree with their pose', 'After pose estimation a board view keeps exactly the corners whose reprojection error is below the threshold, each with its own image point, and it is usable iff at least four remain. Its pose is estimated with the intrinsics of its own camera from its own corners; object views get a pose the same way and keep all their corners.',
  'inputs', 'every subset of agreeing corners, every threshold, solvable or not, both cameras and boards', T0 + 'no test estimates the pose of a view.',
  [MC, BR, OB_, G], [('BoardObs::estimatePose', BR), ('Object3DObs::estimatePose', OB_), ('estimatePoseAllBoards/AllObjects', MC)], 'up to 6 corners')
p('P16', 'Optimised residuals are the documented camera models', 'In each of the five refinements the error attributed to a corner is the pixel distance between its observation and its projection by the documented model of its camera: Brown distortion (k1 k2 p1 p2 k3) for perspective and Kannala (k1..k4) for fisheye cameras, also for a point on the optical axis.',
  'inputs', 'every intrinsic and distortion value and every translation in range, both lens models, five refinements', T0 + 'no test evaluates a residual; a wrong coefficient still converges to some calibration.',
  [OC, MC], [('ReprojectionError* cost functors', OC)], 'polynomial identity in all intrinsics and the translation')
p('P17', 'Refinements minimise the error of every accepted corner', 'Each refinement adds every accepted corner seen by its cameras exactly once, with the error depending on exactly the poses and intrinsics of that corner: its camera, board, object and instant. Reference board and camera stay fixed, and the refined values reach the object points and object views derived from them.',
  'inputs histories', 'every visibility pattern of a small rig, mixed lens models, all five refinements', T0 + 'no test builds a refinement problem.',
  [MC, CGF, O3, 'McCalib/src/Camera.cpp', OC], [('Camera::refineIntrinsicCalibration', 'McCalib/src/Camera.cpp'), ('Object3D::refineObject', O3), ('CameraGroup::refineCameraGroup, refineCameraGroupAndObjects(AndIntrinsics)', CGF), ('updateObjectPts', O3)], 'rigs of 2 cameras, 1 frame, 2 boards (quick); up to 3/2/3 (thorough)')
p('P18', 'Boards linked by co-visibility form one rigid object', 'Boards belong to the same 3D object iff a chain of images, each showing two of them with a valid pose, links them. The object contains every corner of its boards exactly once, at the place given by the relative board poses in the frame of its lowest-numbered board, and its index tables are inverse to each other.',
  'inputs histories', 'every visibility pattern of the boards, each view valid or not, arbitrary rigid motions', T0 + 'no test builds an object.',
  [MC, O3, GR], [('Calibration::init3DObjects', MC), ('Object3D::insertBoardInObject', O3)], '3 boards, 2 frames (quick); 3 frames or 4 boards (thorough)')
p('P19', 'Objects seen by a camera group at one instant become one object', 'After merging, two objects are one iff a chain of instants, each showing two of them to one camera group, links them. The merged object holds the corners of all its boards at the places given by the rig, and its views and poses in the camera groups are rebuilt to match.',
  'inputs histories', 'every visibility pattern of a small rig, arbitrary rigid motions', T0 + 'no test merges objects.',
  [MC, O3, CGO], [('Calibration::mergeObjects, mergeAllObjectObs', MC)], '2 cameras, 2 frames, 2 boards and 2/1/3 (quick); up to 3/1/3 and 2/2/3 (thorough)')
p('P20', 'Object views collect exactly the valid board views', 'For each camera and instant there is one object view per object seen there, holding exactly the valid board views of that object in that camera and instant, each of their corners once, matched to the same physical corner of the object. It is registered with its camera, frame, object and camera group, also after it is rebuilt.',
  'inputs histories', 'every visibility pattern, valid and invalid views, arbitrary corner subsets', T0 + 'no test builds object views.',
  [MC, OB_, O3, 'McCalib/src/Frame.cpp'], [('Calibration::init3DObjectObs', MC), ('Object3DObs::insertNewBoardObs', OB_), ('mergeAllObjectObs', MC)], '2/2/2 and 1/2/3 rigs (quick); 2/1/3 and 2/2/3 (thorough)')
p('P21', 'Relative poses are collected from common views and averaged', 'The relative poses of two boards, cameras or objects are exactly the ones given by the views that show both at the same instant, none twice and none missing, and the estimate of a pair is the average of its poses. In the pose graphs the preferred path favours links seen more often, and two nodes are connected iff such a chain exists.',
  'inputs histories', 'every visibility pattern of a small rig with arbitrary poses of every view', T0 + 'no test computes relative poses.',
  [MC, G, GR], [('computeBoardsPairPose, computeCamerasPairPose, computeObjectsPairPose, initInterTransform, initInterBoardsGraph etc.', MC)], 'rigs up to 2/2/2, 1/2/3, 3/1/3; up to 2 (quick) / 3 (thorough) poses per pair')
p('P22', 'Camera groups contain the cameras linked by common objects', 'Two cameras are in the same group iff a chain of instants, each showing one object to two cameras, links them. Each camera gets the relative pose of the rig with respect to the reference camera of its group, and every object view of its cameras is available in the group, with the object pose in the group at that instant.',
  'inputs histories', 'every visibility pattern of a small rig, arbitrary rigid motions', T0 + 'no test builds camera groups.',
  [MC, CGF, CGO, GR], [('initCameraGroup, initCameraGroupObs, computeAllObjPoseInCameraGroup', MC), ('CameraGroupObs::computeObjectsPose', CGO)], 'rigs up to 3 cameras, 2 frames, 2 boards (quick); 4/1/3, 3/2/3 (thorough)')
p('P23', 'Camera groups merge along estimated poses', 'Groups are merged iff a chain of estimated poses between groups links them. The merged group has all their cameras and object views, every camera at its pose relative to the new reference camera, and merging again without new poses changes nothing.',
  'inputs histories', 'every set of links between up to 4 (5) groups, arbitrary rigid motions', T0 + 'no test merges camera groups.',
  [MC, CGF], [('Calibration::mergeCameraGroup, initInterCamGroupGraph', MC)], 'up to 4 (quick) / 5 (thorough) groups')
p('P24', 'Hand-eye calibration is consistent and uses its best evidence', 'The pose between two groups without common view is estimated from the object poses of both at the same instants and is exact when these are consistent. Each bootstrap hypothesis uses distinct instants of distinct clusters, never more than exist, only hypotheses consistent with the recorded poses contribute, and if too few are, all instants are used.',
  'inputs schedules', 'every clustering and random selection within the bound, every mix of right and wrong hypotheses', T0 + 'no test runs hand-eye calibration, which depends on random draws.',
  [G], [('handeyeCalibration, handeyeBootstraptTranslationCalibration', G)], '4-7 instants, up to 7 clusters, 5 (quick) / 8 (thorough) hypotheses')
p('P25', 'Groups without common view are linked through simultaneous objects', 'Two camera groups get a relative pose by hand-eye calibration iff they see the same pair of objects simultaneously in more than three instants, and the estimate is the true rig pose, in both directions. Estimates from an earlier pass do not survive.',
  'inputs histories', 'every visibility pattern over 5 (6) frames, arbitrary rigid motions', T0 + 'no test calibrates non-overlapping cameras.',
  [MC], [('findPairObjectForNonOverlap, findPoseNoOverlapAllCamGroup', MC)], '5 (quick) / 6 (thorough) frames, 2 groups, 3 objects')
p('P26', 'Saved camera parameters are those of the calibrated rig', 'The camera file lists, under the configured name, every calibrated camera of every camera group once, with its own intrinsics, distortion, lens model, image size, group and its pose relative to the reference camera of that group; cameras that were never placed in a group are left out. Read back as initial parameters, every camera gets the values saved for it.',
  'inputs histories', 'every visibility pattern of a small rig, mixed lens models, any values', T0 + 'no test saves a calibrated rig.',
  [MC, 'McCalib/src/Camera.cpp'], [('Calibration::saveCamerasParams', MC), ('initializeCalibrationAllCam', MC), ('Camera::setIntrinsics, getIntrinsics', 'McCalib/src/Camera.cpp')], '2 cameras, 1 frame, 2 boards (quick); 3/1/2, 2/2/2 (thorough)')
p('P27', 'Saved objects contain every corner of their boards', 'The object file lists every object once, with the position of every corner of each of its boards in the frame of the reference board of the object, tagged with the number of the board and of the corner.',
  'inputs histories', 'every visibility pattern of a small rig, arbitrary rigid motions, equal and different board sizes', T0 + 'no test saves an object.',
  [MC], [('Calibration::save3DObj', MC)], '2 boards, 2 frames (quick); 3 boards (thorough)')
p('P28', 'Saved poses and errors describe every view of every object', 'The pose file has, for every object, one pose for each of its views in a calibrated camera: the pose of the object relative to the reference camera of its camera group. The error file lists, for every camera group, the frames in which its cameras see an object, the cameras that do, and for each corner the distance between its image and the projection of the object by that camera. The average error is the mean over all these views.',
  'inputs histories', 'every visibility pattern of a small rig, arbitrary rigid motions and image positions', T0 + 'no test saves poses or errors.',
  [MC], [('Calibration::save3DObjPose, saveReprojectionErrorToFile, computeAvgReprojectionError, computeDistanceBetweenPoints', MC)], '2 cameras, 2 frames, 2 boards (quick); 3/1/3, 3 corners (thorough)')
p('P15', 'Initial intrinsics come from the views of their own camera', 'Without given parameters each camera is calibrated once with its own lens model and image size from its own views: every view once in any order (a random choice of 50, or 500 for fisheye cameras, if there are more), each image point paired with the position of its corner on its board. Views of fisheye cameras with a corner within 5 percent of the image border are left out. All parameters of the lens model are estimated and no others, and they become the intrinsics of that camera.',
  'inputs schedules', 'every selection and order of views, corners anywhere in the image, any image size, both lens models', T0 + 'no test runs the initial calibration on chosen views; its order of views is random.',
  ['McCalib/src/Camera.cpp', MC], [('Camera::initializeCalibration, checkBorderToleranceFisheye, setIntrinsics', 'McCalib/src/Camera.cpp'), ('Calibration::initializeCalibrationAllCam', MC)], '3 views of 1 camera, 2 cameras; 50-52 and 500-502 views')
APP = 'apps/calibrate/src/calibrate.cpp'
p('P32', 'A whole calibration run recovers the rig', 'Run from the keypoint file of noise-free views to its output files, the calibration reports every camera and every board once, cameras in the same group and boards in the same object iff the views link them (by common boards, by merging of objects seen by one group at one instant, or by hand-eye calibration over more than three common instants), with the true pose of every camera in its group, the true corner positions in every object, the true pose of every object view, and no reprojection error; given intrinsics that are fixed come out unchanged.',
  'inputs histories', 'every visibility pattern of a small rig, any poses, mixed lens models, known or unknown intrinsics', T0 + 'no test runs the program from keypoints to output files, and each stage can be right alone while the sequence is not.',
  [APP, MC], [('runCalibrationWorkflow', APP), ('boardExtraction, calibrate*, merge*, save* as sequenced by the program', MC)], 'rigs 2/1/2 (mixed lenses), 2/2/2, 3/1/2; two cameras without common view, 4 instants (quick); 2/1/3, 3/1/3, 3/2/2, 6 instants (thorough)')
p('P30', 'Saved images show each camera its own corners', 'When asked for, one image with the detected corners and one with the projected corners is saved for every camera and frame that shows a board, under the folder of its camera and the name of its frame: the image this camera took in this frame, with every corner it detected there marked at its place and, projected with the calibrated poses of camera and object, every corner of its views once, and nothing else. Unreadable images are skipped and images that were not asked for are not written.',
  'inputs histories', 'every visibility pattern of a small rig, any corner positions, every choice of the switches, an image readable or not', T0 + 'no test saves images.',
  [MC, APP], [('saveDetectionAllCam, saveReprojectionAllCam, saveDetection, saveReprojection', MC)], '2 cameras, 1 frame, 2 boards; 2 cameras, 2 frames, 1 board (quick); 2/2/2 (thorough)')
GEN = 'apps/create_charuco_boards/src/create_charuco_boards.cpp'
p('P31', 'Generated boards are the ones the calibration looks for', 'From a configuration file the board generator writes one file per board, numbered from 0, in the resolution set for that board, and the board drawn in it has the layout, the marker ids and the proportions by which the calibration configured with the same file recognises the board of that number, whichever settings are given per board and whichever for all boards.',
  'inputs', 'every subset of per-board settings, up to three boards of different layouts', T0 + 'no test runs the generator; a mismatch shows only with printed boards.',
  [GEN, CO, MC, 'McCalib/src/Board.cpp'], [('main, saveBoards', GEN), ('createCharucoBoardsImages, createCharucoBoards', CO)], '1-3 boards, 3-5 x 3-5 squares')
p('P29', 'Refined corners lie on saddle points', 'With corner refinement on, a detected corner close to a saddle point of the image intensities is moved onto it; a corner where the image has no saddle, where it is too far away, where the image is flat or where the window leaves the image keeps the position it was detected at. Each corner is treated independently of the others and no corner is lost. With refinement off no corner moves.',
  'inputs', 'any position of the saddle relative to the corner, saddles and extrema of several shapes, any neighbour before or after it in the list', T0 + 'no test measures refined corners; a bias of a fraction of a pixel or a corner skipped after another passes unnoticed.',
  [PRH, MC], [('saddleSubpixelRefinement, interpolatePatch, initSaddleFitting, initConeSmoothingKernel', PRH), ('Calibration::detectBoardsInImageWithCamera', MC)], 'window 2 (quick), 3 and 5 (thorough); two iterations')
