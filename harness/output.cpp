// What the calibration writes: camera parameters, objects, object poses, reprojection errors.
#include "rig.h"
static cv::Mat mat(const cv::FileNode &n) { cv::Mat m; n >> m; return m; }
static void lenses(World &w, bool sym = true) {
  for (auto &q : w.c->cams_) { auto &k = *q.second; for (int i = 0; i < 9; i++) k.intrinsics_[i] = sym ? sx_real(S("intr", i).c_str()) : i < 2 ? 500 + 10 * q.first : 20 * i + q.first; k.im_cols_ = sx_range("width", 1, 9000); k.im_rows_ = sx_range("height", 1, 9000); }
}
static Cfg models(int nc) { Cfg g; g.quat = 0; g.model = sx_choose("lens", 0, 2); if (g.model == 2) { g.model = 0; for (int k = 0; k < nc; k++) g.model_per_cam.push_back(k % 2); } return g; }
// calibrated_cameras_data.yml
extern "C" void h_savecams() {
  World w; W = &w; Cfg g = models(SX_C); if (sx_choose("named", 0, 1)) g.pfile = "my_cams.yml"; w.start(SX_C, SX_F, SX_B, g);
  fillViews(w, false, 1, false); buildObjects(w); exactViews(w); buildGroups(w); lenses(w);
  auto objs = boardGroups(w); auto gs = camGroups(w, objs); w.c->saveCamerasParams();
  cv::FileStorage f("out/" + (g.pfile.empty() ? std::string("calibrated_cameras_data.yml") : g.pfile), cv::FileStorage::READ); sx_prove(f.isOpened(), "the camera parameters are saved under the configured name"); if (!f.isOpened()) return;
  sx_prove((int)f["nb_camera"] == w.nc, "the number of cameras is saved");
  std::vector<char> in(w.nc, 0);
  for (auto &q : gs) for (int k : q) { in[k] = 1; cv::FileNode n = f["camera_" + std::to_string(k)]; const char *l = "every calibrated camera is saved"; sx_prove(!n.empty(), l); if (n.empty()) continue;
    auto &c = *w.c->cams_[k]; int model = g.model_per_cam.empty() ? g.model : g.model_per_cam[k]; cv::Mat K = mat(n["camera_matrix"]), D = mat(n["distortion_vector"]), P = mat(n["camera_pose_matrix"]); l = "the saved intrinsics are those of the camera";
    sx_prove(K.rows == 3 && K.cols == 3 && (int)D.total() == (model ? 4 : 5) && P.rows == 4 && P.cols == 4, l); if (K.rows != 3 || K.cols != 3 || P.rows != 4 || P.cols != 4 || (int)D.total() != (model ? 4 : 5)) return;
    double want[9] = {c.intrinsics_[0], 0, c.intrinsics_[2], 0, c.intrinsics_[1], c.intrinsics_[3], 0, 0, 1}; for (int i = 0; i < 9; i++) sx_prove_eq(K.at<double>(i / 3, i % 3), want[i], l); for (int i = 0; i < (int)D.total(); i++) sx_prove_eq(D.at<double>(i), c.intrinsics_[4 + i], l);
    sx_prove((int)n["distortion_type"] == model, "the saved lens model is that of the camera"); sx_prove_eqi((int)n["img_width"], c.im_cols_, "the saved image size is that of the camera"); sx_prove_eqi((int)n["img_height"], c.im_rows_, "the saved image size is that of the camera");
    int id = -1; for (auto &it : w.c->cam_group_) if (it.second->cameras_.count(q[0])) id = it.first; sx_prove((int)n["camera_group"] == id, "cameras are saved with their group"); proveMatEq(P, w.cam[q[0]] * w.cam[k].inv(), "the saved pose maps the camera to the reference camera of its group"); }
  for (int k = 0; k < w.nc; k++) if (!in[k]) sx_prove(f["camera_" + std::to_string(k)].empty(), "cameras without any view are not saved");
  sx_reach(gs.size() > 1 ? "several groups" : gs.size() ? "one group" : "no camera");
}
// saved parameters read back as initial values
extern "C" void h_loadcams() {
  World w; W = &w; Cfg g = models(SX_C); w.start(SX_C, 1, 1, g); for (int k = 0; k < SX_C; k++) w.see(k, 0, 0, true, 1, false); buildObjects(w); exactViews(w); buildGroups(w); lenses(w); w.c->saveCamerasParams();
  Cfg h = g; h.ncam = SX_C; h.params = "out/calibrated_cameras_data.yml"; h.save = "out2"; h.fix = sx_choose("fixed", 0, 1); Calibration *d = makeCalib(h, "cfg2.yml"); int calls = 0; static int *pc; pc = &calls; env::calib_hook = [](int, cv::InputArrayOfArrays, cv::InputArrayOfArrays, cv::Size, cv::Mat &K, cv::Mat &, int) { ++*pc; K = cv::Mat::eye(3, 3, CV_64F); };
  d->initializeCalibrationAllCam();
  sx_prove(calls == 0, "with a parameter file no camera is calibrated from scratch");
  for (int k = 0; k < SX_C; k++) { int model = g.model_per_cam.empty() ? g.model : g.model_per_cam[k]; for (int i = 0; i < 4 + (model ? 4 : 5); i++) sx_prove_eq(d->cams_[k]->intrinsics_[i], w.c->cams_[k]->intrinsics_[i], "saved intrinsics are restored for every camera"); }
  sx_reach("loaded");
}
// calibrated_objects_data.yml
static void sizes(Cfg &g) { if (!sx_choose("sizes", 0, 1)) return; g.nx = g.ny = 7; for (int b = 0; b < SX_B; b++) { g.nxs.push_back(3 + b % 2); g.nys.push_back(4 - b % 2); g.resx.push_back(100); g.resy.push_back(100); g.sqs.push_back(0.5 + b); } }
static void checkSavedObjects(World &w, const std::vector<std::vector<int>> &gs) {
  w.c->save3DObj(); cv::FileStorage f("out/calibrated_objects_data.yml", cv::FileStorage::READ); sx_prove(f.isOpened(), "the objects are saved"); if (!f.isOpened()) return; int count = 0; const char *l = "every corner of every board of an object is saved once";
  for (auto &q : gs) { Object3D *o = objectOf(w, q); if (!o) return; cv::FileNode n = f["object_" + std::to_string(o->obj_id_)]; sx_prove(!n.empty(), "every object is saved"); if (n.empty()) continue; count++;
    cv::Mat m = mat(n["points"]); int tot = 0; for (int b : q) tot += w.c->boards_3d_[b]->nb_pts_; sx_prove(m.rows == 5 && m.cols == tot && m.type() == CV_32F, l); if (m.rows != 5 || m.cols != tot) return; std::set<std::pair<int, int>> once;
    for (int j = 0; j < tot; j++) { int b = (int)m.at<float>(3, j), p = (int)m.at<float>(4, j); bool ok = std::count(q.begin(), q.end(), b) && p >= 0 && p < (int)w.c->boards_3d_[b]->nb_pts_ && once.insert(std::make_pair(b, p)).second; sx_prove(ok, l); if (!ok) return;
      provePoint(cv::Point3f(m.at<float>(0, j), m.at<float>(1, j), m.at<float>(2, j)), w.brd[q[0]].inv() * w.brd[b], w.c->boards_3d_[b]->pts_3d_[p], "saved corners are in the reference of the object's first board"); } }
  sx_prove(f["object_" + std::to_string(count)].empty(), "every object is saved");
}
extern "C" void h_saveobjs() {
  World w; W = &w; Cfg g; g.quat = 0; sizes(g); w.start(SX_C, SX_F, SX_B, g); fillViews(w, true, 1, false); buildObjects(w); auto gs = boardGroups(w); checkSavedObjects(w, gs);
  sx_reach(gs.size() > 1 ? "several objects" : gs.size() ? "one object" : "no object");
}
// objects that were merged because the camera group sees them at the same instant
extern "C" void h_savemerged() {
  World w; W = &w; Cfg g; g.quat = 0; sizes(g); w.start(2, 3, SX_B, g); std::vector<char> in; std::vector<int> A, B; for (int b = 0; b < SX_B; b++) (sx_choose("first object", 0, 1) ? A : B).push_back(b); if (A.empty() || B.empty()) return;
  // both cameras see the first object, later the first camera one object and the second camera the other one
  for (int b : A) { w.see(0, 0, b, true, 1, false); w.see(1, 0, b, true, 1, false); } for (int b : B) w.see(1, 1, b, true, 1, false);
  bool link = sx_choose("same instant", 0, 1); if (link) { w.see(0, 2, A[sx_choose("board", 0, (int)A.size() - 1)], true, 1, false); w.see(1, 2, B[sx_choose("other board", 0, (int)B.size() - 1)], true, 1, false); }
  buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); w.c->computeObjectsPairPose(); w.c->initInterTransform(w.c->object_pose_pairs_, w.c->inter_object_transform_); w.c->initInterObjectsGraph(); w.c->mergeObjects(); w.c->mergeAllObjectObs(); w.c->mergeAllCameraGroupObs();
  std::vector<std::vector<int>> ms = {A, B}; if (link) { ms = {{}}; for (int b = 0; b < SX_B; b++) ms[0].push_back(b); } checkSavedObjects(w, ms); sx_reach(link ? "merged" : "separate");
}
// calibrated_objects_pose_data.yml
extern "C" void h_saveposes() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, false, 1, false); buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup();
  auto objs = boardGroups(w); auto gs = camGroups(w, objs); w.c->save3DObjPose(); cv::FileStorage f("out/calibrated_objects_pose_data.yml", cv::FileStorage::READ); sx_prove(f.isOpened(), "the object poses are saved"); if (!f.isOpened()) return; bool any = false;
  for (auto &q : objs) { Object3D *o = objectOf(w, q); if (!o) return; cv::FileNode n = f["object_" + std::to_string(o->obj_id_)]; sx_prove(!n.empty(), "the poses of every object are saved"); if (n.empty()) continue; std::vector<cv::Mat> want, got;
    for (auto &x : w.c->object_observations_) if (x.second->object_3d_id_ == o->obj_id_) for (auto &c : gs) if (std::count(c.begin(), c.end(), x.second->camera_id_)) want.push_back(w.cam[c[0]] * w.mov[(x.second->frame_id_ - 1) / 2] * w.brd[q[0]]);
    cv::Mat m = mat(n["poses"]); sx_prove(m.rows == 6 && m.cols == (int)want.size(), "one pose is saved for each view of an object"); if (m.rows != 6 || m.cols != (int)want.size()) continue;
    for (int j = 0; j < m.cols; j++) { double r[3], t[3]; for (int i = 0; i < 3; i++) { r[i] = m.at<double>(i, j); t[i] = m.at<double>(3 + i, j); } got.push_back(poseMat(r, t)); any = true; }
    provePoses(got, want, "saved poses map the object to the reference camera of the group that sees it"); }
  sx_reach(any ? "poses" : "nothing");
}
static std::set<int> ints(const cv::Mat &m) { std::set<int> r; for (int i = 0; i < (int)m.total(); i++) r.insert(m.at<int>(i)); return r; }
// distance of the corners of a view to the image of the true corners: through the reference camera of the group, or directly
static std::vector<double> errors(World &w, Object3DObs &x, cv::Mat cam, cv::Mat P, bool steps) {
  std::vector<double> e; auto o = x.object_3d_.lock(); auto c = x.cam_.lock(); std::vector<cv::Point3f> p; for (int i : x.pts_id_) p.push_back(o->pts_3d_[i]);
  cv::Mat r, t, Q = steps ? cam : cam * P; Proj2RT(Q, r, t); r = r.clone(); t = t.clone(); if (steps) { cv::Mat r2, t2; Proj2RT(P, r2, t2); cv::Mat R; cv::Rodrigues(r2, R);
    for (auto &v : p) { double y[3]; for (int i = 0; i < 3; i++) y[i] = R.at<double>(i, 0) * v.x + R.at<double>(i, 1) * v.y + R.at<double>(i, 2) * v.z + t2.at<double>(i); v = cv::Point3f((float)y[0], (float)y[1], (float)y[2]); } }
  cv::Mat K = cv::Mat::eye(3, 3, CV_64F); K.at<double>(0, 0) = c->intrinsics_[0]; K.at<double>(1, 1) = c->intrinsics_[1]; K.at<double>(0, 2) = c->intrinsics_[2]; K.at<double>(1, 2) = c->intrinsics_[3]; int nd = c->distortion_model_ ? 4 : 5; cv::Mat D(1, nd, CV_64F); for (int i = 0; i < nd; i++) D.at<double>(i) = c->intrinsics_[4 + i];
  std::vector<cv::Point2f> q; if (c->distortion_model_) cv::fisheye::projectPoints(p, q, r, t, K, D, 0.0); else cv::projectPoints(p, r, t, K, D, q);
  for (size_t i = 0; i < q.size(); i++) { double a = (double)q[i].x - x.pts_2d_[i].x, b = (double)q[i].y - x.pts_2d_[i].y; e.push_back(std::sqrt(a * a + b * b)); } return e;
}
static bool sameLists(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!sx_same(a[i], b[i])) return false; return true; }
// reprojection_error_data.yml and the average error
extern "C" void h_reproj() {
  env::opaque_projection = 1;
  World w; W = &w; Cfg g; g.quat = 0; g.model = sx_choose("lens", 0, 1); w.start(SX_C, SX_F, SX_B, g); fillViews(w, false, SX_P, true); if (w.seen.empty()) return; buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); lenses(w, false);
  auto objs = boardGroups(w); auto gs = camGroups(w, objs); w.c->saveReprojectionErrorToFile(); cv::FileStorage f("out/reprojection_error_data.yml", cv::FileStorage::READ); sx_prove(f.isOpened(), "the reprojection errors are saved"); if (!f.isOpened()) return;
  sx_prove((int)f["nb_camera_group"] == (int)gs.size(), "the number of camera groups is saved"); double sum[2] = {0, 0}; int n = 0; const char *l = "the reprojection errors of every camera and frame are saved", *lf = "the frame list of a camera group lists the frames it sees", *lc = "the camera list of a frame lists the cameras of the group that see an object", *le = "a saved error is the distance of a corner to its projection";
  for (auto &q : gs) { int id = -1; for (auto &it : w.c->cam_group_) if (it.second->cameras_.count(q[0])) id = it.first; cv::FileNode G = f["camera_group_" + std::to_string(id)]; sx_prove(!G.empty(), l); if (G.empty()) return; std::set<int> fr;
    for (int i = 0; i < w.nf; i++) { cv::FileNode F = G["frame_" + std::to_string(World::fid(i))]; std::map<int, std::vector<Object3DObs *>> per; for (auto &x : w.c->object_observations_) if (x.second->frame_id_ == World::fid(i) && std::count(q.begin(), q.end(), x.second->camera_id_)) per[x.second->camera_id_].push_back(x.second.get());
      if (per.empty()) { sx_prove(F.empty(), l); continue; } sx_prove(!F.empty(), l); if (F.empty()) continue; fr.insert(World::fid(i)); std::set<int> cs; for (auto &c : per) cs.insert(c.first); sx_prove(ints(mat(F["camera_list"])) == cs, lc);
      for (auto &c : per) { std::vector<double> e[2]; for (auto *x : c.second) { for (int k = 0; k < 2; k++) { e[k] = errors(w, *x, w.cam[c.first] * w.cam[q[0]].inv(), w.cam[q[0]] * w.mov[i] * w.brd[x->object_3d_.lock()->ref_board_id_], k); double s = 0; for (double y : e[k]) s += y; sum[k] += s / e[k].size(); } n++; }
        if (c.second.size() > 1) continue; // objects seen together have been merged by then
        cv::FileNode C = F["camera_" + std::to_string(c.first)]; sx_prove(!C.empty(), l); if (C.empty()) continue; cv::Mat m = mat(C["error_list"]); sx_prove((int)C["nb_pts"] == (int)e[0].size() && m.total() == e[0].size() && m.type() == CV_32F, l); if (m.total() != e[0].size() || m.type() != CV_32F) continue; std::vector<double> got; for (int j = 0; j < (int)m.total(); j++) got.push_back(m.at<float>(j)); sx_prove(sameLists(got, e[0]) || sameLists(got, e[1]), le); } }
    sx_prove(ints(mat(G["frame_list"])) == fr && mat(G["frame_list"]).total() == fr.size(), lf); }
  if (n) { double a = w.c->computeAvgReprojectionError(); sx_prove(sx_same(a, sum[0] / n) || sx_same(a, sum[1] / n), "the average error is the mean over all views of an object"); }
  sx_reach(gs.size() > 1 ? "several groups" : "one group");
}
