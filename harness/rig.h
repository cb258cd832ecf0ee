// Checks of the structures built from board views: objects, object views, camera groups.
#pragma once
#include "world.h"
static World *W;
// the object with its boards in the reference of its first board
static void checkObject(Object3D &o, int id, const std::vector<int> &boards, World &w, const char *) {
  int ref = *std::min_element(boards.begin(), boards.end()); int n = 0;
  sx_prove(o.obj_id_ == id, "objects are stored under their identifier");
  sx_prove(o.ref_board_id_ == ref, "the reference board of an object is its first board");
  sx_prove(o.nb_boards_ == (int)boards.size() && o.boards_.size() == boards.size(), "an object holds exactly the boards linked to each other");
  for (int b : boards) {
    auto it = o.boards_.find(b); sx_prove(it != o.boards_.end() && it->second.lock() == w.c->boards_3d_[b], "an object holds exactly the boards linked to each other");
    proveMatEq(o.getBoardPoseMat(b), w.brd[ref].inv() * w.brd[b], "the pose of a board in its object maps board points to the reference board");
    n += w.c->boards_3d_[b]->nb_pts_;
  }
  sx_prove(o.nb_pts_ == n && (int)o.pts_3d_.size() == n && (int)o.pts_obj_2_board_.size() == n && (int)o.pts_board_2_obj_.size() == n, "an object holds every corner of its boards once");
  std::vector<char> used(n, 0);
  for (int b : boards) for (int k = 0; k < w.c->boards_3d_[b]->nb_pts_; k++) {
    auto it = o.pts_board_2_obj_.find(std::make_pair(b, k)); bool ok = it != o.pts_board_2_obj_.end() && it->second >= 0 && it->second < n && !used[it->second]; sx_prove(ok, "an object holds every corner of its boards once"); if (!ok) return;
    used[it->second] = 1; sx_prove(o.pts_obj_2_board_[it->second] == std::make_pair(b, k), "corner numbers of object and board correspond");
    provePoint(o.pts_3d_[it->second], w.brd[ref].inv() * w.brd[b], w.c->boards_3d_[b]->pts_3d_[k], "object corners are the board corners moved to the reference board");
  }
}
static std::vector<std::vector<int>> groupsOf(Sets &s, int n, const std::vector<char> &present) { std::vector<std::vector<int>> r; for (int i = 0; i < n; i++) if (present[i] && s.find(i) == i) { std::vector<int> g; for (int j = 0; j < n; j++) if (present[j] && s.find(j) == i) g.push_back(j); r.push_back(g); } return r; }
static std::vector<std::vector<int>> boardGroups(World &w) {
  Sets s(w.nb); std::vector<char> pres(w.nb, 0); for (auto &a : w.seen) { pres[a.board] = 1; for (auto &b : w.seen) if (a.cam == b.cam && a.frame == b.frame && a.valid && b.valid) s.join(a.board, b.board); }
  return groupsOf(s, w.nb, pres);
}
#ifndef SX_FIX0
#define SX_FIX0 0 // the views of the first frame, when they are given
#endif
static void fillViews(World &w, bool validity, int npt, bool sym) { for (int f = 0; f < w.nf; f++) for (int k = 0; k < w.nc; k++) for (int b = 0; b < w.nb; b++) { int v = SX_FIX0 && f == 0 ? SX_FIX0 >> (k * w.nb + b) & 1 : sx_choose("view", 0, validity ? 2 : 1); if (v) w.see(k, f, b, v == 1, npt, sym); } }
// object by the boards it holds; each component has exactly one
static Object3D *objectOf(World &w, const std::vector<int> &g) { Object3D *o = nullptr; for (auto &it : w.c->object_3d_) if (it.second->boards_.count(g[0])) { sx_prove(!o, "every board belongs to one object"); o = it.second.get(); } sx_prove(o != nullptr, "every observed board belongs to an object"); return o; }
static void checkAllObjects(World &w, const std::vector<std::vector<int>> &gs) {
  sx_prove(w.c->object_3d_.size() == gs.size(), "there is one object per set of linked boards");
  for (auto &g : gs) { Object3D *o = objectOf(w, g); if (!o) return; int id = -1; for (auto &it : w.c->object_3d_) if (it.second.get() == o) id = it.first; checkObject(*o, id, g, w, ""); }
}
// the pose of a view with its points, registered in every place exactly once
static void checkObjObs(World &w, const std::vector<std::vector<int>> &gs) {
  const char *lp = "object observations hold the corners of their valid board views", *lo = "an object observation is registered once with camera, frame, object and image";
  Calibration &c = *w.c; size_t count = 0, perCam[8] = {0}, perObj[8] = {0}; std::map<int, size_t> perFrame; std::map<std::pair<int, int>, size_t> perImg; 
  for (auto &g : gs) for (int k = 0; k < w.nc; k++) for (int f = 0; f < w.nf; f++) {
    int fr = World::fid(f); std::vector<Seen *> mine; for (auto &s : w.seen) if (s.cam == k && s.frame == fr && s.valid && s.ids.size() && std::count(g.begin(), g.end(), s.board)) mine.push_back(&s);
    Object3D *o = objectOf(w, g); if (!o) return; std::shared_ptr<Object3DObs> x; int n = 0;
    for (auto &it : c.object_observations_) if (it.second->camera_id_ == k && it.second->frame_id_ == fr && it.second->object_3d_id_ == o->obj_id_) { n++; x = it.second; }
    sx_prove(n == (mine.empty() ? 0 : 1), "each image has one observation of an object it shows and none of others"); if (!x) continue;
    count++; perCam[k]++; perObj[o->obj_id_]++; perFrame[fr]++; perImg[std::make_pair(k, fr)]++;
    sx_prove(x->object_3d_.lock().get() == o && x->cam_.lock() == c.cams_[k], "an object observation refers to its object and camera");
    sx_prove(x->board_id_.size() == mine.size() && x->board_observations_.size() == mine.size(), "an object observation consists of the valid views of its boards");
    for (auto *s : mine) { int h = 0; for (auto &b : x->board_observations_) if (b.second.lock() == s->obs) h++; sx_prove(h == 1 && std::count(x->board_id_.begin(), x->board_id_.end(), s->board) == 1, "an object observation consists of the valid views of its boards"); }
    size_t np = 0; for (auto *s : mine) np += s->ids.size(); sx_prove(x->pts_2d_.size() == np && x->pts_id_.size() == np, lp); if (x->pts_2d_.size() != np || x->pts_id_.size() != np) return;
    std::set<int> once; for (size_t i = 0; i < np; i++) { int id = x->pts_id_[i]; bool ok = id >= 0 && id < (int)o->pts_obj_2_board_.size() && once.insert(id).second; sx_prove(ok, lp); if (!ok) return;
      auto bk = o->pts_obj_2_board_[id]; bool hit = false; for (auto *s : mine) if (s->board == bk.first) for (size_t j = 0; j < s->ids.size(); j++) if (s->ids[j] == bk.second) { hit = true; sx_prove_eq(x->pts_2d_[i].x, s->pts[j].x, lp); sx_prove_eq(x->pts_2d_[i].y, s->pts[j].y, lp); } sx_prove(hit, lp); }
    int h = 0; auto &co = c.cams_obs_[std::make_pair(k, fr)]; for (auto &it : co->object_observations_) if (it.second.lock() == x) h++; sx_prove(h == 1, lo); h = 0;
    for (auto &it : c.frames_[fr]->object_observations_) if (it.second.lock() == x) h++; sx_prove(h == 1, lo); h = 0;
    for (auto &it : c.cams_[k]->object_observations_) if (it.second.lock() == x) h++; sx_prove(h == 1, lo); h = 0;
    for (auto &it : o->object_observations_) if (it.second.lock() == x) h++; sx_prove(h == 1, lo);
    auto fo = o->frames_.find(fr); sx_prove(fo != o->frames_.end() && fo->second.lock() == c.frames_[fr], "an object knows the frames that show it");
  }
  sx_prove(c.object_observations_.size() == count, "there are no other object observations");
  for (int k = 0; k < w.nc; k++) { sx_prove(c.cams_[k]->object_observations_.size() == perCam[k] && c.cams_[k]->vis_object_idx_.size() == perCam[k], lo); }
  for (auto &it : c.object_3d_) sx_prove(it.second->object_observations_.size() == perObj[it.first], lo);
  for (auto &it : c.frames_) { sx_prove(it.second->object_observations_.size() == perFrame[it.first] && it.second->objects_idx_.size() == perFrame[it.first], lo); int i = 0; for (auto &x : it.second->object_observations_) { auto p = x.second.lock(); sx_prove(x.first == i && p && it.second->objects_idx_[i] == p->object_3d_id_, "object lists of a frame correspond"); i++; } }
  for (auto &it : c.cams_obs_) { sx_prove(it.second->object_observations_.size() == perImg[it.first] && it.second->object_idx_.size() == perImg[it.first], lo); int i = 0; for (auto &x : it.second->object_observations_) { auto p = x.second.lock(); sx_prove(x.first == i && p && it.second->object_idx_[i] == p->object_3d_id_, "object lists of an image correspond"); i++; } }
}
static void buildObjects(World &w) {
  w.c->computeBoardsPairPose(); w.c->initInterTransform(w.c->board_pose_pairs_, w.c->inter_board_transform_); w.c->initInterBoardsGraph(); w.c->init3DObjects(); w.c->initAll3DObjectObs();
}
// every object view gets its true pose
static void exactViews(World &w) { for (auto &it : w.c->object_observations_) { int k = it.second->camera_id_, f = (it.second->frame_id_ - 1) / 2; it.second->setPoseMat(w.cam[k] * w.mov[f] * w.brd[it.second->object_3d_.lock()->ref_board_id_]); } }
static std::vector<std::vector<int>> camGroups(World &w, const std::vector<std::vector<int>> &objs) { // cameras linked by an object in a frame
  Sets s(w.nc), ob(w.nb); for (auto &g : objs) for (int b : g) ob.join(g[0], b); std::vector<char> pres(w.nc, 0);
  for (auto &a : w.seen) { pres[a.cam] = 1; for (auto &b : w.seen) if (a.frame == b.frame && a.valid && b.valid && ob.find(a.board) == ob.find(b.board)) s.join(a.cam, b.cam); }
  return groupsOf(s, w.nc, pres);
}
// groups of cameras, their poses and what they observe
static void checkGroups(World &w, const std::vector<std::vector<int>> &gs, bool obs, bool poses, bool anyRef = false) {
  Calibration &c = *w.c; const char *lg = "a camera group holds exactly the cameras linked to each other", *lo = "a camera group observation of a frame holds the object views of its cameras"; sx_prove(c.cam_group_.size() == gs.size(), lg); size_t nobs = 0;
  for (auto &g : gs) {
    CameraGroup *q = nullptr; int id = -1; for (auto &it : c.cam_group_) if (it.second->cameras_.count(g[0])) { sx_prove(!q, "every camera belongs to one group"); q = it.second.get(); id = it.first; }
    sx_prove(q != nullptr, "every camera belongs to one group"); if (!q) return;
    sx_prove(q->cam_group_idx_ == id, "camera groups are stored under their identifier"); int ref = g[0]; if (anyRef && std::count(g.begin(), g.end(), q->id_ref_cam_)) ref = q->id_ref_cam_; sx_prove(q->id_ref_cam_ == ref, "the reference camera of a group is its first camera");
    sx_prove(q->cameras_.size() == g.size() && q->cam_idx.size() == g.size(), lg); for (int k : g) { auto it = q->cameras_.find(k); sx_prove(it != q->cameras_.end() && it->second.lock() == c.cams_[k] && std::count(q->cam_idx.begin(), q->cam_idx.end(), k) == 1, lg); proveMatEq(q->getCameraPoseMat(k), w.cam[k] * w.cam[ref].inv(), "the pose of a camera maps the reference camera to it"); }
    if (!obs) continue;
    size_t tot = 0, nfr = 0; for (int f = 0; f < w.nf; f++) { int fr = World::fid(f); std::vector<Object3DObs *> want; for (auto &it : c.object_observations_) if (it.second->frame_id_ == fr && std::count(g.begin(), g.end(), it.second->camera_id_)) want.push_back(it.second.get());
      auto it = c.cams_group_obs_.find(std::make_pair(id, fr)); sx_prove((it != c.cams_group_obs_.end()) == !want.empty(), "a camera group is observed in the frames where its cameras see objects"); sx_prove((bool)q->frames_.count(fr) == !want.empty(), "a camera group knows the frames where it sees objects"); if (want.empty() || it == c.cams_group_obs_.end()) continue; nobs++; nfr++; tot += want.size();
      auto &o = *it->second; sx_prove(o.cam_group_idx_ == id && o.cam_group_.lock().get() == q, lo); sx_prove(o.object_observations_.size() == want.size() && o.object_idx_.size() == want.size(), lo); int i = 0;
      for (auto &x : o.object_observations_) { auto p = x.second.lock(); sx_prove(x.first == i && p && std::count(want.begin(), want.end(), p.get()) == 1 && o.object_idx_[i] == p->object_3d_id_, lo); i++; if (!p) return;
        int nx = 0; for (auto &y : o.object_observations_) if (y.second.lock() == p) nx++; sx_prove(nx == 1, lo);
        if (poses) { cv::Mat P = w.cam[ref] * w.mov[f] * w.brd[p->object_3d_.lock()->ref_board_id_]; proveMatEq(o.getObjectPoseMat(p->object_3d_id_), P, "the pose of an object in a group maps it to the reference camera"); proveMatEq(p->getPoseInGroupMat(), P, "the views of an object in a group share its pose in the group"); } }
      auto &F = *c.frames_[fr]; int h = 0; sx_prove(F.cam_group_idx_.size() == F.cam_group_observations_.size(), "group lists of a frame correspond"); for (size_t j = 0; j < F.cam_group_idx_.size(); j++) { auto y = F.cam_group_observations_[(int)j].lock(); if (F.cam_group_idx_[j] == id) { h++; sx_prove(y.get() == &o, "group lists of a frame correspond"); } } sx_prove(h == 1, "a frame lists each camera group that sees objects once");
      sx_prove(q->frames_[fr].lock() == c.frames_[fr], "a camera group knows the frames where it sees objects"); }
    sx_prove(q->object_observations_.size() == tot && q->frames_.size() == nfr, "a camera group lists the object views of its cameras once");
  }
  if (obs) sx_prove(c.cams_group_obs_.size() == nobs, "there are no observations of other groups");
}
static void buildGroups(World &w) { w.c->computeCamerasPairPose(); w.c->initInterTransform(w.c->camera_pose_pairs_, w.c->inter_camera_transform_); w.c->initInterCamerasGraph(); w.c->initCameraGroup(); w.c->initAllCameraGroupObs(); }
