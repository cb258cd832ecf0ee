// Boards -> objects: pose estimation of views, pose pairs, object construction,
// object observations, graphs.
#include "rig.h"
extern "C" void h_objects() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(1, SX_F, SX_B, g); fillViews(w, true, 1, false);
  w.c->computeBoardsPairPose(); w.c->initInterTransform(w.c->board_pose_pairs_, w.c->inter_board_transform_); w.c->initInterBoardsGraph(); w.c->init3DObjects();
  auto gs = boardGroups(w); checkAllObjects(w, gs); sx_reach(gs.size() > 1 ? "several objects" : gs.size() ? "one object" : "no board");
}
extern "C" void h_objobs() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, true, SX_P, true);
  w.c->computeBoardsPairPose(); w.c->initInterTransform(w.c->board_pose_pairs_, w.c->inter_board_transform_); w.c->initInterBoardsGraph(); w.c->init3DObjects(); w.c->initAll3DObjectObs();
  auto gs = boardGroups(w); checkObjObs(w, gs);
  if (sx_choose("again", 0, 1)) { w.c->mergeAllObjectObs(); checkObjObs(w, gs); sx_reach("rebuilt"); } else sx_reach("built");
}
// ---- relative poses between boards, cameras, objects
extern "C" void h_boardpairs() {
  World w; W = &w; w.independent = true; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, true, 1, false); w.c->computeBoardsPairPose();
  std::map<std::pair<int, int>, std::vector<cv::Mat>> want; for (auto &a : w.seen) for (auto &b : w.seen) if (a.cam == b.cam && a.frame == b.frame && a.board != b.board && a.valid && b.valid) want[std::make_pair(a.board, b.board)].push_back(b.pose.inv() * a.pose);
  const char *l = "relative poses of boards come from the images that show both with a valid pose";
  sx_prove(w.c->board_pose_pairs_.size() == want.size(), l); for (auto &it : want) { auto f = w.c->board_pose_pairs_.find(it.first); sx_prove(f != w.c->board_pose_pairs_.end(), l); if (f != w.c->board_pose_pairs_.end()) provePoses(f->second, it.second, l); }
  w.c->computeBoardsPairPose(); for (auto &it : want) sx_prove(w.c->board_pose_pairs_[it.first].size() == it.second.size(), "computing the relative poses again does not add any");
  // graph: a vertex per observed board, an edge per pair
  w.c->initInterBoardsGraph(); auto cc = w.c->covis_boards_graph_.connectedComponents(); auto gs = boardGroups(w); sx_prove(cc.size() == gs.size(), "boards are linked iff an image shows both");
  for (auto &x : cc) { std::sort(x.begin(), x.end()); sx_prove(std::count(gs.begin(), gs.end(), x) == 1, "boards are linked iff an image shows both"); }
  sx_reach(want.empty() ? "no pair" : "pairs");
}
extern "C" void h_campairs() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, false, 1, false); buildObjects(w);
  struct O { Object3DObs *o; cv::Mat p; }; std::vector<O> os; for (auto &it : w.c->object_observations_) { O x{it.second.get(), genPose("view")}; x.o->setPoseMat(x.p); os.push_back(x); }
  w.c->computeCamerasPairPose(); std::map<std::pair<int, int>, std::vector<cv::Mat>> want; const char *l = "relative poses of cameras come from the frames where both see the same object";
  for (auto &a : os) for (auto &b : os) if (a.o->frame_id_ == b.o->frame_id_ && a.o->camera_id_ != b.o->camera_id_ && a.o->object_3d_id_ == b.o->object_3d_id_) want[std::make_pair(a.o->camera_id_, b.o->camera_id_)].push_back(b.p * a.p.inv());
  sx_prove(w.c->camera_pose_pairs_.size() == want.size(), l); for (auto &it : want) { auto f = w.c->camera_pose_pairs_.find(it.first); sx_prove(f != w.c->camera_pose_pairs_.end(), l); if (f != w.c->camera_pose_pairs_.end()) provePoses(f->second, it.second, l); }
  w.c->computeCamerasPairPose(); for (auto &it : want) sx_prove(w.c->camera_pose_pairs_[it.first].size() == it.second.size(), "computing the relative poses again does not add any");
  w.c->initInterCamerasGraph(); auto cc = w.c->covis_camera_graph_.connectedComponents(); Sets s(w.nc); std::vector<char> pres(w.nc, 0); for (auto &x : w.seen) pres[x.cam] = 1; for (auto &it : want) s.join(it.first.first, it.first.second); auto gs = groupsOf(s, w.nc, pres);
  sx_prove(cc.size() == gs.size(), "cameras are linked iff a frame shows an object in both"); for (auto &x : cc) { std::sort(x.begin(), x.end()); sx_prove(std::count(gs.begin(), gs.end(), x) == 1, "cameras are linked iff a frame shows an object in both"); }
  sx_reach(want.empty() ? "no pair" : "pairs");
}
// averaging of relative poses; weights of the pose graphs
extern "C" void h_inter() {
  Calibration *c; Cfg g; int q = sx_choose("quaternion", 0, 1); g.custom_quat = 1; g.quat = q; g.ncam = 1; g.nboard = 3; c = makeCalib(g);
  std::map<std::pair<int, int>, std::vector<cv::Mat>> pp; std::map<std::pair<int, int>, cv::Mat> out; out[std::make_pair(7, 9)] = genPose("stale");
  int n[2]; for (int i = 0; i < 2; i++) { n[i] = sx_choose("poses", 1, q ? 1 : SX_P); for (int k = 0; k < n[i]; k++) pp[std::make_pair(i, 1 - i)].push_back(genPose("pose")); }
  c->initInterTransform(pp, out); sx_prove(out.size() == 2, "exactly the pairs with poses get a transformation");
  for (int i = 0; i < 2; i++) {
    auto f = out.find(std::make_pair(i, 1 - i)); sx_prove(f != out.end(), "exactly the pairs with poses get a transformation"); if (f == out.end()) return;
    std::vector<double> v[6]; for (auto &P : pp[std::make_pair(i, 1 - i)]) { cv::Mat r, t; cv::Mat R(P, cv::Range(0, 3), cv::Range(0, 3)); cv::Rodrigues(R, r); for (int k = 0; k < 3; k++) { v[k].push_back(r.at<double>(k)); v[3 + k].push_back(P.at<double>(k, 3)); } }
    cv::Mat rv(3, 1, CV_64F), tv(3, 1, CV_64F);
    auto med = [](std::vector<double> a) { int n = (int)a.size(); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (sx_branch(a[j] < a[i])) std::swap(a[i], a[j]); return n % 2 ? a[n / 2] : (a[n / 2 - 1] + a[n / 2]) / 2; };
    for (int k = 0; k < 3; k++) { rv.at<double>(k) = med(v[k]); tv.at<double>(k) = med(v[3 + k]); }
    if (q) rv = getAverageRotation(v[0], v[1], v[2], true);
    cv::Mat M; cv::Rodrigues(rv, M); for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) sx_prove_eq(f->second.at<double>(a, b), M.at<double>(a, b), "the rotation of a pair is the average of its rotations"); sx_prove_eq(f->second.at<double>(a, 3), tv.at<double>(a), "the translation of a pair is the median of its translations"); }
  }
  sx_reach(q ? "quaternion" : "median");
}
extern "C" void h_weights() {
  Calibration *c = makeCalib(3, 3); int kind = sx_choose("graph", 0, 3); int n[3][3];
  for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { int c = sx_choose("poses", 0, SX_P); n[i][j] = n[j][i] = c * c / 2 + (c == 1); } // 0, 1, 2, 4, 8
  std::vector<cv::Point2f> p(1); std::vector<int> id(1); for (int i = 0; i < 3; i++) c->insertNewBoard(i, 0, i, p, id, "x");
  auto fill = [&](std::map<std::pair<int, int>, std::vector<cv::Mat>> &m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && n[i][j]) m[std::make_pair(i, j)].resize(n[i][j]); };
  Graph *gr = nullptr; std::vector<std::shared_ptr<Object3DObs>> keep;
  if (kind == 0) { fill(c->board_pose_pairs_); c->initInterBoardsGraph(); gr = &c->covis_boards_graph_; }
  if (kind == 1) { fill(c->camera_pose_pairs_); c->initInterCamerasGraph(); gr = &c->covis_camera_graph_; }
  if (kind == 2) { for (int i = 0; i < 3; i++) { c->object_3d_[i] = std::make_shared<Object3D>(1, i, i, std::array<int, 3>{0, 0, 0}); keep.push_back(std::make_shared<Object3DObs>(c->object_3d_[i], i)); c->object_3d_[i]->insertNewObject(keep.back()); } fill(c->object_pose_pairs_); c->initInterObjectsGraph(); gr = &c->covis_objects_graph_; }
  if (kind == 3) { auto o = std::make_shared<Object3D>(1, 0, 0, std::array<int, 3>{0, 0, 0}); for (int i = 0; i < 3; i++) { c->cam_group_[i] = std::make_shared<CameraGroup>(i, i); keep.push_back(std::make_shared<Object3DObs>(o, 0)); c->cam_group_[i]->insertNewObjectObservation(keep.back()); for (int j = 0; j < 3; j++) if (i != j && n[i][j]) { c->no_overlap_camgroup_pair_pose_[std::make_pair(i, j)] = cv::Mat::eye(4, 4, CV_64F); c->no_overlap__camgroup_pair_common_cnt_[std::make_pair(i, j)] = n[i][j]; } } c->initInterCamGroupGraph(); gr = &c->no_overlap_camgroup_graph_; }
  const char *l = "the path between two nodes prefers links seen more often";
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) {
    int k = 3 - i - j; double d = n[i][j] ? 1.0 / n[i][j] : 1e9, e = n[i][k] && n[k][j] ? 1.0 / n[i][k] + 1.0 / n[k][j] : 1e9; if (d > 1e8 && e > 1e8) continue;
    auto path = gr->shortestPathBetween(i, j); if (d < e - 1e-9) sx_prove(path.size() == 2, l); else if (e < d - 1e-9) sx_prove(path.size() == 3 && path[1] == k, l); else sx_prove(path.size() == 2 || path.size() == 3, l);
  }
  Sets s(3); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (n[i][j]) s.join(i, j); auto gs = groupsOf(s, 3, std::vector<char>(3, 1)); auto cc = gr->connectedComponents(); sx_prove(cc.size() == gs.size(), "nodes are grouped iff a chain of relative poses links them");
  for (auto &x : cc) { std::sort(x.begin(), x.end()); sx_prove(std::count(gs.begin(), gs.end(), x) == 1, "nodes are grouped iff a chain of relative poses links them"); }
  sx_reach(kind == 0 ? "boards" : kind == 1 ? "cameras" : kind == 2 ? "objects" : "camera groups");
}
// ---- pose estimation of one board view / one object view
namespace pe {
int calls, mode; std::vector<cv::Point3f> obj; std::vector<cv::Point2f> img; const Camera *cam;
bool pnp(cv::InputArray o, cv::InputArray im, cv::InputArray k, cv::InputArray d, double *r, double *t, int) {
  calls++; cv::Mat a = o.getMat(), b = im.getMat(); const char *l = "pose estimation pairs corners with their own image points"; sx_prove(a.total() == b.total(), l);
  for (size_t i = 0; i < a.total(); i++) { bool hit = false; for (size_t j = 0; j < obj.size() && !hit; j++) if (sx_same(a.at<cv::Point3f>((int)i).x, obj[j].x) && sx_same(a.at<cv::Point3f>((int)i).y, obj[j].y) && sx_same(a.at<cv::Point3f>((int)i).z, obj[j].z)) { hit = true; sx_prove_close(b.at<cv::Point2f>((int)i).x, img[j].x, 1e-3, l); sx_prove_close(b.at<cv::Point2f>((int)i).y, img[j].y, 1e-3, l); } sx_prove(hit, l); }
  cv::Mat K = k.getMat(); const char *lk = "pose estimation uses the intrinsics of the observing camera"; for (int i = 0; i < 4; i++) sx_prove_eq(K.at<double>(i < 2 ? i : i - 2, i < 2 ? i : 2), cam->intrinsics_[i], lk);
  cv::Mat D = d.getMat(); if (!D.empty()) for (int i = 0; i < 5; i++) sx_prove_eq(D.at<double>(i), cam->intrinsics_[4 + i], lk);
  if (mode == 1) return false;
  for (int i = 0; i < 3; i++) r[i] = t[i] = 0; t[2] = 10; return true;
}
}
static void pinhole(Camera &c, double f) { double v[4] = {f, 2 * f, 50, 60}; for (int i = 0; i < 9; i++) c.intrinsics_[i] = i < 4 ? v[i] : 0; c.distortion_model_ = 0; }
// errors along x; inlier iff |error| < threshold at the pose the stub returns
extern "C" void h_viewpose() {
  using namespace pe; Cfg g; g.ncam = 2; g.nboard = 2; g.nx = 4; g.ny = 3; g.iters = 2; double th = sx_real("threshold"); sx_assume(th >= 0.125 && th <= 16); g.ransac = 3; Calibration *c = makeCalib(g); float thf = (float)th; c->ransac_thresh_ = thf; if (!sx_symbolic_run()) th = thf;
  int k = sx_choose("camera", 0, 1), b = sx_choose("board", 0, 1), n = sx_choose("points", 1, SX_P), order = sx_choose("order", 0, 1); mode = sx_choose("solvable", 0, 1); env::pnp_hook = pnp;
  for (int i = 0; i < 2; i++) pinhole(*c->cams_[i], 100 + 100 * i); cam = c->cams_[k].get();
  for (auto &p : c->boards_3d_[1]->pts_3d_) p.x += 8; // the boards differ
  std::vector<int> ids; std::vector<float> err; Board &B = *c->boards_3d_[b];
  for (int i = 0; i < n; i++) { int id = order ? 5 - i : (2 * i + 1) % 6 + (i == 3 ? 1 : 0) * 0; if (!order) { static const int perm[6] = {3, 0, 5, 1, 4, 2}; id = perm[i]; } ids.push_back(id); float e = sx_realf("error"); sx_assume(e > -32 && e < 32); err.push_back(e); obj.push_back(B.pts_3d_[id]); double fx = cam->intrinsics_[0]; img.push_back(cv::Point2f((float)(fx * B.pts_3d_[id].x / 10 + 50) + e, (float)(2 * fx * B.pts_3d_[id].y / 10 + 60))); }
  std::vector<cv::Point2f> img0 = img; c->insertNewBoard(k, 3, b, img, ids, "x"); BoardObs &o = *c->board_observations_[0];
  c->estimatePoseAllBoards();
  std::vector<int> keep; if (n >= 4 && mode == 0) for (int i = 0; i < n; i++) { float a = err[i] < 0 ? -err[i] : err[i]; if (sx_branch(a < th)) keep.push_back(i); }
  const char *l = "exactly the corners that agree with the pose are kept, each with its own image point";
  sx_prove(o.charuco_id_.size() == keep.size() && o.pts_2d_.size() == keep.size(), l); if (o.charuco_id_.size() != keep.size() || o.pts_2d_.size() != keep.size()) return;
  for (size_t i = 0; i < keep.size(); i++) { int h = 0; for (size_t j = 0; j < keep.size(); j++) if (o.charuco_id_[j] == ids[keep[i]]) { h++; sx_prove_close(o.pts_2d_[j].x, img0[keep[i]].x, 1e-3, l); sx_prove_close(o.pts_2d_[j].y, img0[keep[i]].y, 1e-3, l); } sx_prove(h == 1, l); }
  sx_prove(o.valid_ == (keep.size() >= 4), "a view is valid iff at least four corners agree with its pose");
  cv::Mat t = o.getTransVec(), r = o.getRotVec(); for (int i = 0; i < 3; i++) if (keep.size()) { sx_prove_eq(r.at<double>(i), 0, "the pose of a view is the one estimated"); sx_prove_eq(t.at<double>(i), i == 2 ? 10 : 0, "the pose of a view is the one estimated"); } else { sx_prove_close(r.at<double>(i), 0, 1e3, "a view without pose has defined values"); sx_prove_close(t.at<double>(i), 0, 1e3, "a view without pose has defined values"); }
  sx_prove(o.frame_id_ == 3 && o.camera_id_ == k && o.board_id_ == b, "pose estimation leaves the identity of a view");
  sx_reach(n < 4 ? "too few" : mode ? "no solution" : keep.size() >= 4 ? "valid" : "rejected");
}
// object views keep all their points
extern "C" void h_objpose() {
  using namespace pe; Cfg g; g.ncam = 1; g.nboard = 2; g.nx = 3; g.ny = 3; g.iters = 2; g.ransac = 4; Calibration *c = makeCalib(g); mode = sx_choose("solvable", 0, 1); env::pnp_hook = pnp; pinhole(*c->cams_[0], 100); cam = c->cams_[0].get();
  auto o = std::make_shared<Object3D>(2, 0, 0, std::array<int, 3>{0, 0, 0}); c->object_3d_[0] = o;
  // two boards, their corners in mixed order
  for (int b = 0; b < 2; b++) o->insertBoardInObject(c->boards_3d_[b]);
  for (int i = 0; i < 8; i++) { int b = i % 2, k = i / 2; o->pts_board_2_obj_[std::make_pair(b, k)] = i; o->pts_obj_2_board_.push_back(std::make_pair(b, k)); cv::Point3f p = c->boards_3d_[b]->pts_3d_[k]; p.x += 4 * b; o->pts_3d_.push_back(p); }
  auto x = std::make_shared<Object3DObs>(o, 0); int n = 0; std::vector<float> err;
  for (int b = 0; b < 2; b++) { int m = sx_choose("points", 0, 3); std::vector<int> ids; std::vector<cv::Point2f> im; for (int i = 0; i < m; i++) { int id = 3 - i; ids.push_back(id); cv::Point3f P = o->pts_3d_[2 * id + b]; float e = sx_realf("error"); sx_assume(e > -32 && e < 32); err.push_back(e); cv::Point2f q((float)(100 * P.x / 10 + 50) + e, (float)(200 * P.y / 10 + 60)); im.push_back(q); obj.push_back(P); img.push_back(q); n++; }
    if (m) { c->insertNewBoard(0, 0, b, im, ids, "x"); x->insertNewBoardObs(c->board_observations_[(int)c->board_observations_.size() - 1]); } }
  if (!n) return;
  c->insertNewObjectObservation(x); auto p0 = x->pts_2d_; auto i0 = x->pts_id_; c->estimatePoseAllObjects();
  const char *l = "pose estimation of an object leaves its observations"; sx_prove(x->pts_2d_.size() == p0.size() && x->pts_id_ == i0 && (int)p0.size() == n, l); for (size_t i = 0; i < p0.size(); i++) { sx_prove_eq(x->pts_2d_[i].x, p0[i].x, l); sx_prove_eq(x->pts_2d_[i].y, p0[i].y, l); }
  int in = 0; if (n >= 4 && !mode) for (float e : err) { float a = e < 0 ? -e : e; if (sx_branch(a < 4)) in++; }
  cv::Mat t = x->getTransVec(), r = x->getRotVec(); for (int i = 0; i < 3; i++) if (in) { sx_prove_eq(r.at<double>(i), 0, "the pose of an object view is the one estimated"); sx_prove_eq(t.at<double>(i), i == 2 ? 10 : 0, "the pose of an object view is the one estimated"); } else { sx_prove_close(r.at<double>(i), 0, 1e3, "a view without pose has defined values"); sx_prove_close(t.at<double>(i), 0, 1e3, "a view without pose has defined values"); }
  sx_reach(n < 4 ? "too few" : mode ? "no solution" : in ? "pose" : "no inlier");
}
