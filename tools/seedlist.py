P = 'src/McCalib.cpp'
DRAW = r'''
static cv::Mat picture(Calibration *c, int b, int w = 600, int h = 600) { cv::Mat m, p; c->boards_3d_[b]->charuco_board_->draw(cv::Size(500, 500), m, 20, 1); cv::copyMakeBorder(m, p, (h - 500) / 2, (h - 500) / 2, (w - 500) / 2, (w - 500) / 2, cv::BORDER_CONSTANT, cv::Scalar(255)); return p; }
'''

S('s03-framepath', 'P03', [(P, '    frames_[frame_idx]->frame_path_[cam_idx] = frame_path;\n', '    if (frames_[frame_idx]->frame_path_.empty())\n      frames_[frame_idx]->frame_path_[cam_idx] = frame_path;\n')],
  'two cameras seeing the same frame', 'the image path of the second camera of a frame is not recorded',
  r'''
  Rig r(2, 1, 1); std::vector<cv::Point2f> p(5); std::vector<int> id = {0, 1, 2, 3, 4};
  for (int i = 0; i < 5; i++) p[i] = cv::Point2f(10 + i, 20 + i * i);
  r.c->insertNewBoard(0, 3, 0, p, id, "a/x.png"); r.c->insertNewBoard(1, 3, 0, p, id, "b/y.png");
  must(r.c->frames_[3]->frame_path_[0] == "a/x.png", "path of camera 0"); must(r.c->frames_[3]->frame_path_[1] == "b/y.png", "path of camera 1");
''')

S('s04-collinear-size', 'P04', [(P, 'residual > boards_3d_[i]->square_size_ * 0.1', 'residual > boards_3d_[0]->square_size_ * 0.1')],
  'boards with different square sizes, the first one much larger', 'well spread corners of a small board are dropped as collinear',
  DRAW + r'''
int main() {
  Conf k; k.ncam = 1; k.nboard = 2; k.sizes = "[ 100.0, 1.0 ]"; k.xs = "[ 4, 4 ]"; k.ys = "[ 4, 4 ]"; k.rs = "[ 500, 500 ]"; k.root = "in";
  Calibration *c = make(k);
  std::filesystem::create_directories("in/Cam_001"); cv::imwrite("in/Cam_001/000.png", picture(c, 1)); cv::imwrite("in/Cam_001/001.png", picture(c, 0));
  c->boardExtraction();
  bool small = false, large = false;
  for (auto &o : c->board_observations_) { if (o.second->board_id_ == 1 && o.second->frame_id_ == 0) small = o.second->pts_2d_.size() == 9; if (o.second->board_id_ == 0 && o.second->frame_id_ == 1) large = true; }
  must(large, "large board seen"); must(small, "small board seen");
  return 0;
}
''')

S('s05-saved-valid', 'P05', [(P, "              (board_idx == it_board_obs.second->board_id_)) {", "              (board_idx == it_board_obs.second->board_id_) &&\n              it_board_obs.second->charuco_id_.size() > 4) {")],
  'a view loaded or reduced to 4 corners', 'views with exactly 4 corners do not survive a save',
  r'''
  Rig r(1, 2, 1); r.see(0, 0, 0, {0, 1, 3, 4}); r.see(0, 1, 0); r.c->saveDetectedKeypoints();
  Conf k; k.kpts = "out/detected_keypoints_data.yml"; k.save = "out2"; Calibration *d = make(k); d->boardExtraction();
  must(d->board_observations_.size() == 2, "both views restored");
  must(d->board_observations_[0]->charuco_id_ == r.c->board_observations_[0]->charuco_id_, "ids");
''')

S('s09-offset', 'P09', [('src/utilities.cpp', 'int id_offset = charuco_boards[i - 1]->ids.size() + offset_count;', 'int id_offset = charuco->ids.size() + offset_count;')],
  'boards with different numbers of squares', 'marker ids of successive boards overlap',
  r'''
  Conf k; k.nboard = 3; k.xs = "[ 6, 4, 5 ]"; k.ys = "[ 6, 4, 5 ]"; k.rs = "[ 500, 500, 500 ]"; k.sizes = "[ 1.0, 1.0, 1.0 ]"; Calibration *c = make(k);
  std::set<int> all; size_t n = 0; for (auto &b : c->boards_3d_) for (int i : b.second->charuco_board_->ids) { all.insert(i); n++; }
  must(all.size() == n, "ids distinct");
''')

S('s12-quat', 'P12', [('src/geometrytools.cpp', ': (R.at<double>(0, 0) < R.at<double>(2, 2) ? 2 : 0);', ': (R.at<double>(1, 1) < R.at<double>(0, 0) ? 0 : 2);')],
  'a rotation of half a turn about x or a nearby axis with equal first diagonal entries', 'the quaternion of the rotation is wrong',
  r'''
  for (double e : {0.0, 0.02}) for (double a : {1.0, 0.7071067811865476}) { double c = std::sqrt(1 - a * a); double th = CV_PI - e; cv::Mat r = (cv::Mat_<double>(3, 1) << a * th, c * th, 0), R; cv::Rodrigues(r, R);
    cv::Mat q = convertRotationMatrixToQuaternion(R); std::array<double, 4> z = {q.at<double>(0), q.at<double>(1), q.at<double>(2), q.at<double>(3)}; must(nearMat(convertQuaternionToRotationMatrix(z), R), "round trip"); }
''')

S('s13-refine', 'P13', [('src/geometrytools.cpp', 'imagePointsInliers[j] = imagePoints[InliersR.at<int>(j)];', 'imagePointsInliers[j] = imagePoints[j];')],
  'an outlier before the inliers in the list', 'the refined pose comes from mismatched points',
  r'''
  std::vector<cv::Point3f> o; for (int i = 0; i < 12; i++) o.push_back(cv::Point3f(i % 4, i / 4, 0.2f * (i % 3)));
  cv::Mat K = (cv::Mat_<double>(3, 3) << 500, 0, 320, 0, 510, 240, 0, 0, 1), D = cv::Mat::zeros(1, 5, CV_64F), r = (cv::Mat_<double>(3, 1) << 0.1, -0.2, 0.05), t = (cv::Mat_<double>(3, 1) << -1, -1, 9);
  std::vector<cv::Point2f> p; cv::projectPoints(o, r, t, K, D, p); p[1] += cv::Point2f(80, 60); p[4] += cv::Point2f(-70, 90);
  cv::Mat br(1, 3, CV_64F, cv::Scalar(0)), bt(1, 3, CV_64F, cv::Scalar(0));
  cv::Mat in = ransacP3PDistortion(o, p, K, D, br, bt, 3.0, 2000, 0);
  must(in.rows == 10, "ten inliers"); for (int i = 0; i < 3; i++) { must(near(br.at<double>(i), r.at<double>(i), 1e-2), "rotation"); must(near(bt.at<double>(i), t.at<double>(i), 1e-2), "translation"); }
''')

S('s14-inlier', 'P14', [('src/BoardObs.cpp', 'new_charuco_id[i] = charuco_id_[inliers.at<int>(i)];', 'new_charuco_id[i] = charuco_id_[i];')],
  'a view with an outlier corner before an inlier', 'corner ids no longer match their image points after outlier removal',
  r'''
  Rig r(1, 1, 1); BoardObs &o = r.see(0, 0, 0, {0, 1, 2, 3, 4, 5, 6, 7, 8}); auto good = o.pts_2d_; o.pts_2d_[2] += cv::Point2f(90, -60); o.estimatePose(3, 2000);
  must(o.pts_2d_.size() == 8, "one corner dropped"); for (size_t i = 0; i < 8; i++) must(o.charuco_id_[i] != 2 && cv::norm(good[o.charuco_id_[i]] - o.pts_2d_[i]) < 1e-3, "ids match points");
''')

S('s17-valid', 'P17', [('src/Camera.cpp', 'if (board_obs_ptr && board_obs_ptr->valid_ == true) {', 'if (board_obs_ptr) {')],
  'a view invalidated by pose estimation', 'rejected views take part in the refinement',
  r'''
  Rig r(1, 4, 1); for (int f = 0; f < 4; f++) r.see(0, f, 0, {0, 1, 2, 3, 4, 5, 6, 7, 8});
  BoardObs &bad = *r.c->board_observations_[2]; bad.valid_ = false; for (auto &p : bad.pts_2d_) p = cv::Point2f(700 - p.y, p.x * 2); auto before = bad.pose_;
  r.c->cams_[0]->refineIntrinsicCalibration(5);
  must(bad.pose_ == before, "pose of the rejected view untouched"); must(near(r.c->cams_[0]->intrinsics_[0], 500, 1e-2), "focal length kept");
''')

S('s18-chain', 'P18', [(P, '          transform = transform * current_trans.inv();\n', '          transform = current_trans.inv() * transform;\n')],
  'a board linked to the reference board only through another one', 'poses of boards in the fused object are composed in the wrong order',
  r'''
  Rig r(1, 4, 3); for (int f = 0; f < 2; f++) { r.see(0, f, 0); r.see(0, f, 1); } for (int f = 2; f < 4; f++) { r.see(0, f, 1); r.see(0, f, 2); } r.objects();
  must(r.c->object_3d_.size() == 1, "one object"); auto o = r.c->object_3d_[0]; int ref = o->ref_board_id_;
  for (int b = 0; b < 3; b++) must(nearMat(o->getBoardPoseMat(b), r.brd[ref].inv() * r.brd[b]), "board pose");
''')

S('s19-merge', 'P19', [(P, '            cv::Mat transform = pose_in_merged * pose_board_in_current_obj;', '            cv::Mat transform = pose_board_in_current_obj * pose_in_merged;')],
  'an object of several boards is merged into another', 'the boards of the absorbed object other than its reference board get a wrong pose',
  r'''
  Rig r(2, 4, 4); r.see(0, 0, 0); r.see(0, 0, 1); r.see(1, 1, 2); r.see(1, 1, 3); r.see(0, 2, 0); r.see(1, 2, 0); r.see(0, 3, 0); r.see(1, 3, 2);
  r.objects(); r.exact(); r.groups(); must(r.c->object_3d_.size() == 2 && r.c->cam_group_.size() == 1, "two objects, one group");
  r.c->computeAllObjPoseInCameraGroup(); r.c->computeObjectsPairPose(); r.c->initInterTransform(r.c->object_pose_pairs_, r.c->inter_object_transform_); r.c->initInterObjectsGraph(); r.c->mergeObjects();
  must(r.c->object_3d_.size() == 1, "merged"); auto o = r.c->object_3d_[0];
  for (int b = 0; b < 4; b++) must(nearMat(o->getBoardPoseMat(b), r.brd[0].inv() * r.brd[b]), "board pose");
''')

S('s20-few', 'P20', [(P, 'if (object_obs->pts_id_.size() > 0) {', 'if (object_obs->pts_id_.size() > 4) {')],
  'a valid view of an object with exactly four corners', 'the view of the object is lost',
  r'''
  Rig r(2, 2, 1); r.see(0, 0, 0); r.see(1, 0, 0, {0, 1, 3, 4}); r.see(1, 1, 0); r.objects();
  must(r.c->object_observations_.size() == 3, "three object views");
''')

S('s21-weight', 'P21', [(P, '                                ((double)1 / camera_poses_temp.size()));', '                                ((double)1 + camera_poses_temp.size()));')],
  'cameras linked directly by few views and through a third one by many', 'the camera poses do not follow the best supported links',
  r'''
  Rig r(3, 14, 1); 
  auto see = [&](int k, int f) { r.see(k, f, 0); };
  see(0, 0); see(2, 0); for (int f = 1; f < 7; f++) { see(0, f); see(1, f); } for (int f = 7; f < 14; f++) { see(1, f); see(2, f); }
  r.objects(); r.exact();
  // the single direct link carries a wrong measurement
  for (auto &o : r.c->object_observations_) if (o.second->frame_id_ == 0 && o.second->camera_id_ == 2) o.second->setPoseMat(rigid(0.2, 0, 0, 1, 1, 1) * r.pose(2, 0, 0));
  r.groups();
  must(r.c->cam_group_.size() == 1, "one group"); must(nearMat(r.c->cam_group_[0]->getCameraPoseMat(2), r.cam[2] * r.cam[0].inv()), "pose of camera 2 through camera 1");
''')

S('s22-average', 'P22', [('src/CameraGroupObs.cpp', 'group_pose_t = average_translation / it_obj_obs.second.size();', 'group_pose_t = average_translation / obj_obs_group.size();')],
  'an object seen in a frame only by cameras other than the reference one, with a number of views differing from the number of objects', 'the object pose in the group is scaled',
  r'''
  Rig r(3, 3, 1); for (int k = 0; k < 3; k++) r.see(k, 0, 0); for (int f = 1; f < 3; f++) for (int k = 1; k < 3; k++) r.see(k, f, 0);
  r.objects(); r.exact(); r.groups(); r.c->computeAllObjPoseInCameraGroup();
  for (auto &g : r.c->cams_group_obs_) must(nearMat(g.second->getObjectPoseMat(0), r.pose(0, g.first.second, 0)), "object pose in the group");
''')

OVER = r'''
  auto he = [](Rig &r) { r.objects(); r.exact(); r.groups(); r.c->computeAllObjPoseInCameraGroup(); r.c->findPairObjectForNonOverlap(); r.c->findPoseNoOverlapAllCamGroup(); r.c->initInterCamGroupGraph(); r.c->mergeCameraGroup(); };
  Conf k; k.he = 1;
'''
S('s23-merge', 'P23', [(P, 'cv::Mat transform = pose_cam_in_current_group * pose_in_final;', 'cv::Mat transform = pose_in_final * pose_cam_in_current_group;')],
  'two groups merged, the second one with several cameras', 'cameras of the merged group get wrong poses',
  OVER + r'''
  Rig r(4, 12, 2, k); for (int f = 0; f < 12; f++) { r.see(0, f, 0); r.see(1, f, 0); r.see(2, f, 1); r.see(3, f, 1); }
  he(r); must(r.c->cam_group_.size() == 1, "one group"); for (int i = 0; i < 4; i++) must(nearMat(r.c->cam_group_[0]->getCameraPoseMat(i), r.cam[i] * r.cam[0].inv(), 1e-2), "camera pose");
''')

S('s24-index', 'P24', [('src/geometrytools.cpp', 'std::uniform_int_distribution<> dis(0, pose_idxs.size() - 1);', 'std::uniform_int_distribution<> dis(0, pose_idxs.size());')],
  'the draw hits the upper end of the range', 'a pose index from outside the cluster is used',
  r'''
#include "demo.h"
namespace McCalib { std::vector<unsigned int> selectPoses(const cv::Mat &, const std::vector<unsigned int> &); }
int main() {
  std::vector<int> l; for (int i = 0; i < 40; i++) l.push_back(i % 10); cv::Mat lab(l, true); std::vector<unsigned int> sel; for (int i = 0; i < 10; i++) sel.push_back(i);
  for (int n = 0; n < 500; n++) { auto p = selectPoses(lab, sel); for (int i = 0; i < 10; i++) must(p[i] < 40 && l[p[i]] == i, "pose from the selected cluster"); }
  return 0;
}
''')

S('s25-index', 'P25', [(P, 'int index_objobs_2 = it2 - cam_group_obs_obj2.begin();', 'int index_objobs_2 = it1 - cam_group_obs_obj1.begin();')],
  'the second group sees several objects and the chosen one is not listed first', 'hand-eye calibration is fed with poses of another object',
  OVER + r'''
  Rig r(3, 14, 3, k); for (int f = 0; f < 12; f++) { r.see(0, f, 0); if (f % 3) r.see(1, f, 1); r.see(2, f, 2); } r.see(1, 13, 1); r.see(2, 13, 1);
  he(r); must(r.c->cam_group_.size() == 1, "one group"); for (int i = 0; i < 3; i++) must(nearMat(r.c->cam_group_[0]->getCameraPoseMat(i), r.cam[i] * r.cam[0].inv(), 1e-2), "camera pose");
''')

S('s07-dots', 'P07', [(P, 'std::size_t ext_idx = cur_path.find_last_of(".");', 'std::size_t ext_idx = cur_path.find_first_of(".");')],
  'an image whose name contains further dots', 'the image is left out of the calibration',
  DRAW + r'''
int main() {
  Conf k; k.root = "in"; Calibration *c = make(k);
  std::filesystem::create_directories("in/Cam_001"); cv::imwrite("in/Cam_001/000.png", picture(c, 0)); cv::imwrite("in/Cam_001/001.left.png", picture(c, 0));
  c->boardExtraction();
  must(c->board_observations_.size() == 2, "both images used");
  return 0;
}
''')

S('s10-single', 'P10', [(P, 'if (distortion_per_camera.size() == 0)', 'if (distortion_per_camera.size() <= 1)')],
  'a single camera whose lens model is given in distortion_per_camera', 'the setting is ignored',
  r'''
  Conf k; k.per_cam = "[ 1 ]"; Calibration *c = make(k); must(c->cams_[0]->distortion_model_ == 1, "lens model of the camera");
''')

S('s26-radial3', 'P26', [('src/Camera.cpp', 'for (std::size_t intrinIdx = 4u; intrinIdx <= 8u; ++intrinIdx) {\n      std::size_t distIdx = intrinIdx - 4u;\n      distortion_vector', 'for (std::size_t intrinIdx = 4u; intrinIdx < 8u; ++intrinIdx) {\n      std::size_t distIdx = intrinIdx - 4u;\n      distortion_vector')],
  'a perspective lens with a third radial coefficient', 'the third radial coefficient is saved as zero',
  r'''
  Rig r(1, 2, 1); r.see(0, 0, 0); r.see(0, 1, 0); r.c->cams_[0]->setIntrinsics((cv::Mat_<double>(3, 3) << 500, 0, 320, 0, 510, 240, 0, 0, 1), (cv::Mat_<double>(1, 5) << 0.1, -0.2, 0.001, 0.002, 0.05));
  r.objects(); r.exact(); r.groups(); r.c->saveCamerasParams();
  cv::FileStorage f("out/calibrated_cameras_data.yml", cv::FileStorage::READ); cv::Mat d; f["camera_0"]["distortion_vector"] >> d;
  must(nearMat(d, (cv::Mat_<double>(1, 5) << 0.1, -0.2, 0.001, 0.002, 0.05)), "saved distortion");
''')

S('s29-weights', 'P29', [('include/point_refinement.h', 'double val = im00[col0] * w00 + im00[col1] * w01 + im10[col0] * w10 +', 'double val = im00[col0] * w00 + im00[col1] * w10 + im10[col0] * w01 +')],
  'a corner whose sub-pixel offsets differ in x and y', 'refined corners are biased',
  r'''
#include "demo.h"
#include "point_refinement.h"
int main() {
  for (double cx : {30.13, 30.8, 31.4}) for (double cy : {33.72, 33.25}) {
    cv::Mat im(64, 64, CV_8U); for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) { double a = x - cx, b = y - cy, v = 128 + 1.2 * (0.5 * a * a - 0.4 * b * b + 1.1 * a * b); im.at<uchar>(y, x) = cv::saturate_cast<uchar>(v); }
    std::vector<SaddlePoint> out; std::vector<cv::Point2f> in{cv::Point2f(std::round(cx), std::round(cy))};
    saddleSubpixelRefinement(im, in, out, 4, 20);
    must(out.size() == 1 && std::fabs(out[0].x - cx) < 0.05 && std::fabs(out[0].y - cy) < 0.05, "refined corner");
  }
  return 0;
}
''')

S('s30-order', 'P30', [(P, 'pts_3d.emplace_back(pts_3d_obj[pt_ind]);\n\n            // Reproject the pts', 'pts_3d.emplace_back(pts_3d_obj[pt_ind % pts_ind.size()]);\n\n            // Reproject the pts')],
  'a view that misses some corners of the board', 'the saved image shows corners of another place as reprojection',
  DRAW + r'''
static int red(const cv::Mat &m, cv::Point2f p) { int n = 0; for (int y = p.y - 3; y <= p.y + 3; y++) for (int x = p.x - 3; x <= p.x + 3; x++) if (y >= 0 && x >= 0 && y < m.rows && x < m.cols) { cv::Vec3b v = m.at<cv::Vec3b>(y, x); n += v[2] > 200 && v[0] < 80 && v[1] < 80; } return n; }
int main() {
  Rig r(1, 1, 1); r.see(0, 0, 0, {1, 3, 5, 6, 8}); r.c->cams_[0]->setIntrinsics((cv::Mat_<double>(3, 3) << 500, 0, 320, 0, 500, 240, 0, 0, 1), cv::Mat::zeros(1, 5, CV_64F)); r.objects(); r.exact(); r.groups(); r.c->computeAllObjPoseInCameraGroup();
  std::filesystem::create_directories("in"); cv::imwrite("in/a.png", cv::Mat(480, 640, CV_8UC3, cv::Scalar(10, 10, 10)));
  for (auto &f : r.c->frames_) f.second->frame_path_[0] = "in/a.png";
  // the drawn detections are moved away so that only the reprojected corners stay at their places
  for (auto &o : r.c->object_observations_) for (auto &p : o.second->pts_2d_) p = cv::Point2f(5, 5);
  r.c->saveReprojectionImagesAllCam();
  cv::Mat m; for (auto &e : std::filesystem::recursive_directory_iterator("out")) { auto x = e.path().extension(); if (x == ".jpg" || x == ".png" || x == ".bmp") m = cv::imread(e.path().string()); }
  must(!m.empty(), "image saved");
  std::vector<cv::Point3f> o; for (int i : {1, 3, 5, 6, 8}) o.push_back(r.c->boards_3d_[0]->pts_3d_[i]); cv::Mat a, b; Proj2RT(r.pose(0, 0, 0), a, b);
  std::vector<cv::Point2f> p; cv::projectPoints(o, a, b, r.c->cams_[0]->getCameraMat(), cv::Mat::zeros(1, 5, CV_64F), p);
  int in = 0; for (auto &q : p) if (q.x > 8 && q.y > 8 && q.x < 630 && q.y < 470) { in++; must(red(m, q) > 10, "reprojected corner drawn at its place"); }
  must(in > 2, "corners in the image");
  return 0;
}
''')

S('s31-res', 'P31', [('src/utilities.cpp', '    charuco_board->draw(\n        cv::Size(resolution_x_per_board[i], resolution_y_per_board[i]),', '    charuco_board->draw(\n        cv::Size(resolution_x_per_board[i],\n                 resolution_y_per_board[i > 0 ? i - 1 : i]),')],
  'boards with different resolutions', 'the picture of a board has the height asked for the board before it',
  r'''
#include "demo.h"
int main() {
  auto v = createCharucoBoardsImages(3, {4, 5, 4}, {4, 4, 6}, 1.f, 0.7f, {300, 400, 500}, {300, 350, 600});
  must(v.size() == 3, "three pictures"); int w[] = {300, 400, 500}, h[] = {300, 350, 600};
  for (int i = 0; i < 3; i++) must(v[i].cols == w[i] && v[i].rows == h[i], "size of the picture");
  return 0;
}
''')

S('s32-fixed', 'P32', [('apps/calibrate/src/calibrate.cpp', 'if (Calib.fix_intrinsic_ == 0) {', 'if (Calib.fix_intrinsic_ == 0 || Calib.cam_group_.size() == 1) {')],
  'a rig that forms a single camera group, calibrated with given intrinsics to be kept', 'the given intrinsics are changed by the final refinement',
  r'''
#include "demo.h"
#define main app_main
#include "apps/calibrate/src/calibrate.cpp"
#undef main
int main() {
  { Rig r(2, 6, 1); for (int f = 0; f < 6; f++) for (int k = 0; k < 2; k++) r.see(k, f, 0, {0, 1, 2, 3, 4, 5, 6, 7, 8}); for (auto &q : r.c->cams_) { q.second->im_cols_ = 1000; q.second->im_rows_ = 900; } r.c->saveDetectedKeypoints(); }
  // slightly wrong intrinsics, to be kept
  { cv::FileStorage f("params.yml", cv::FileStorage::WRITE); for (int k = 0; k < 2; k++) { f << "camera_" + std::to_string(k) << "{" << "camera_matrix" << (cv::Mat_<double>(3, 3) << 505 + 20 * k, 0, 320, 0, 505 + 20 * k, 330, 0, 0, 1) << "distortion_vector" << cv::Mat(cv::Mat::zeros(1, 5, CV_64F)) << "distortion_type" << 0 << "img_width" << 1000 << "img_height" << 900 << "}"; } }
  std::string kp; for (auto &e : std::filesystem::recursive_directory_iterator("out")) if (e.path().string().find("keypoints") != std::string::npos) kp = e.path().string();
  must(!kp.empty(), "keypoints saved"); std::filesystem::copy_file(kp, "kp.yml", std::filesystem::copy_options::overwrite_existing);
  Conf k; k.ncam = 2; k.fix = 1; k.params = "params.yml"; k.kpts = "kp.yml"; k.ransac = 50; delete make(k);
  runCalibrationWorkflow("cfg.yml");
  cv::FileStorage f("out/calibrated_cameras_data.yml", cv::FileStorage::READ); cv::Mat m; f["camera_1"]["camera_matrix"] >> m;
  must(nearMat(m, (cv::Mat_<double>(3, 3) << 525, 0, 320, 0, 525, 330, 0, 0, 1), 1e-9), "given intrinsics kept");
  return 0;
}
''')

S('s16-objref', 'P16', [('include/OptimizationCeres.h', '''      T theta2 = theta * theta, theta3 = theta2 * theta,
        theta4 = theta2 * theta2, theta5 = theta4 * theta;
      T theta6 = theta3 * theta3, theta7 = theta6 * theta,
        theta8 = theta4 * theta4, theta9 = theta8 * theta;
      T theta_d = theta + k1 * theta3 + k2 * theta5 + p1 * theta7 + p2 * theta9;
      T inv_r = r > T(1e-8) ? T(1.0) / r : T(1);
      T cdist = r > T(1e-8) ? theta_d * inv_r : T(1);
      //    T inv_r =  T(1)/r;
      //    T cdist = theta_d * inv_r
      T xd = p[0] * cdist;''', '''      T theta2 = theta * theta, theta3 = theta2 * theta,
        theta4 = theta2 * theta2, theta5 = theta4 * theta;
      T theta6 = theta3 * theta3, theta7 = theta6 * theta,
        theta8 = theta4 * theta4, theta9 = theta8 * theta;
      T theta_d = theta + k1 * theta3 + k2 * theta5 + p1 * theta7 + p1 * theta9;
      T inv_r = r > T(1e-8) ? T(1.0) / r : T(1);
      T cdist = r > T(1e-8) ? theta_d * inv_r : T(1);
      //    T inv_r =  T(1)/r;
      //    T cdist = theta_d * inv_r
      T xd = p[0] * cdist;''')],
  'a fisheye lens with a fourth coefficient differing from the third, in the refinement of objects', 'the refined objects follow another lens model',
  r'''
#include "demo.h"
#include "OptimizationCeres.h"
int main() {
  cv::Mat rb = (cv::Mat_<double>(3, 1) << 0.1, 0.2, -0.1), tb = (cv::Mat_<double>(3, 1) << 0.3, 0.1, 0.2), rc = (cv::Mat_<double>(3, 1) << -0.2, 0.1, 0.3), tc = (cv::Mat_<double>(3, 1) << 0.1, -0.3, 2);
  cv::Mat P = RVecT2Proj(rc, tc) * RVecT2Proj(rb, tb), r, t; Proj2RT(P, r, t); t = t.clone();
  std::vector<cv::Point3f> o{{1.5f, 1.2f, 0.4f}}; std::vector<cv::Point2f> p;
  cv::Mat K = (cv::Mat_<double>(3, 3) << 500, 0, 320, 0, 510, 240, 0, 0, 1), D = (cv::Mat_<double>(1, 4) << 0.1, -0.05, 0.02, 0.07); cv::fisheye::projectPoints(o, p, r, t, K, D);
  double b[6] = {0.1, 0.2, -0.1, 0.3, 0.1, 0.2}, c[6] = {-0.2, 0.1, 0.3, 0.1, -0.3, 2}, res[2] = {9, 9};
  ReprojectionError_3DObjRef f(p[0].x, p[0].y, o[0].x, o[0].y, o[0].z, 500, 510, 320, 240, 0.1, -0.05, 0, 0.02, 0.07, true, 1);
  f(c, b, res); must(std::fabs(res[0]) < 1e-2 && std::fabs(res[1]) < 1e-2, "residual of an exact observation");
  return 0;
}
''')

S('s13b-undist', 'P13', [('src/geometrytools.cpp', '''          imagePointUndis.y * float(intrinsic.at<double>(1, 1)) +
          float(intrinsic.at<double>(1, 2));
    }
    // Run p3p''', '''          imagePointUndis.y * float(intrinsic.at<double>(0, 0)) +
          float(intrinsic.at<double>(1, 2));
    }
    // Run p3p''')],
  'a fisheye camera with different focal lengths in x and y', 'the estimated pose is wrong and good corners are rejected',
  r'''
  cv::Mat K = (cv::Mat_<double>(3, 3) << 400, 0, 320, 0, 520, 240, 0, 0, 1), d = (cv::Mat_<double>(1, 4) << 0.05, -0.02, 0.01, 0.005);
  std::vector<cv::Point3f> o; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o.push_back(cv::Point3f(0.2 * i, 0.25 * j, 0));
  cv::Mat r = (cv::Mat_<double>(3, 1) << 0.3, -0.4, 0.2), t = (cv::Mat_<double>(3, 1) << -0.2, 0.1, 1.3); std::vector<cv::Point2f> p; cv::fisheye::projectPoints(o, p, r, t, K, d);
  cv::Mat R(1, 3, CV_64F), T(1, 3, CV_64F); cv::Mat in = ransacP3PDistortion(o, p, K, d, R, T, 1.0f, 1000, 1);
  must(in.rows == 16, "all corners agree"); must(nearMat(R.reshape(1, 3), r, 1e-2) && nearMat(T.reshape(1, 3), t, 1e-2), "pose");
''')

S('s15-border', 'P15', [('src/Camera.cpp', 'pt_y <= thresh_border_y || pt_y >= (im_rows_ - thresh_border_y)', 'pt_y <= thresh_border_y || pt_y >= (im_cols_ - thresh_border_y)')],
  'a fisheye camera with a wide picture and a view close to its lower border', 'the view close to the border takes part in the initial calibration',
  r'''
  Rig r(1, 2, 1); r.see(0, 0, 0); r.c->cams_[0]->distortion_model_ = 1; auto &c = *r.c->cams_[0]; c.im_cols_ = 1000; c.im_rows_ = 500;
  auto o = r.c->board_observations_[0]; for (auto &p : o->pts_2d_) p = cv::Point2f(500, 250);
  must(c.checkBorderToleranceFisheye(o), "view in the middle"); o->pts_2d_[2] = cv::Point2f(500, 498); must(!c.checkBorderToleranceFisheye(o), "view close to the border");
''')
