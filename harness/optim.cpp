// What the refinements optimise: every corner's reprojection error, as a
// function of exactly the unknowns it depends on; and what they leave behind.
#include "rig.h"
#ifndef SX_KIND
#define SX_KIND -1
#endif
namespace op {
enum { INTR, OBJ, GRP, GRPOBJ, ALL };
static int kind;
static bool plain; // no rotation
static void pt(const double *p, const double *in, double *out) { if (plain || (!sx_is_sym(p[0]) && p[0] == 0 && p[1] == 0 && p[2] == 0)) { for (int i = 0; i < 3; i++) out[i] = in[i] + p[3 + i]; return; } double th = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]), k[3] = {p[0] / th, p[1] / th, p[2] / th}, c = std::cos(th), s = std::sin(th), d = k[0] * in[0] + k[1] * in[1] + k[2] * in[2]; double x[3] = {k[1] * in[2] - k[2] * in[1], k[2] * in[0] - k[0] * in[2], k[0] * in[1] - k[1] * in[0]}; for (int i = 0; i < 3; i++) out[i] = in[i] * c + x[i] * s + k[i] * d * (1 - c) + p[3 + i]; }
// documented camera models of OpenCV: Brown (k1 k2 p1 p2 k3) and Kannala (k1..k4)
static void lens(const double *I, int model, const double *p, double *o) {
  double x = p[0] / p[2], y = p[1] / p[2], r2 = x * x + y * y, a, b;
  if (model == 0) { double R = 1 + I[4] * r2 + I[5] * r2 * r2 + I[8] * r2 * r2 * r2; a = x * R + 2 * I[6] * x * y + I[7] * (r2 + 2 * x * x); b = y * R + I[6] * (r2 + 2 * y * y) + 2 * I[7] * x * y; }
  else { double r = std::sqrt(r2); if (sx_is_sym(r)) { if (!sx_branch(p[0] >= 0.01 || p[0] <= -0.01 || p[1] >= 0.01 || p[1] <= -0.01) || !sx_branch(p[2] >= 0.5 && p[2] <= 150)) sx_end_path(); sx_fact_ge(r, 5e-5); } double t = std::atan(r), t2 = t * t, td = t * (1 + I[4] * t2 + I[5] * t2 * t2 + I[6] * t2 * t2 * t2 + I[7] * t2 * t2 * t2 * t2); double s = r > 1e-8 ? td / r : 1; a = x * s; b = y * s; }
  o[0] = I[0] * a + I[2]; o[1] = I[1] * b + I[3];
}
static double val(int a, int b, int c, int i, int v) { double s = ((a * 7 + b * 13 + c * 5 + i * 3 + v * 11) % 17) / 17.0; return i < 3 ? 0.02 + 0.1 * s : i < 5 ? 0.3 * s - 0.1 : s + (a == 0 ? 3 : 0.2); }
// sets every unknown the refinement may change
static std::vector<double> tr; static double inten[4][9];
static void lensValues(World &w);
static void assign(World &w, int v) {
  Calibration &c = *w.c; if (plain) { lensValues(w); return; }
  for (auto &k : c.cams_) if (kind == INTR || kind == ALL) for (int i = 0; i < 9; i++) k.second->intrinsics_[i] = i < 2 ? 100 + 10 * k.first + 20 * i + 7 * v : i < 4 ? 50 + i + 3 * k.first + v : 0.01 * (1 + i + v) + 0.003 * k.first;
  if (kind == INTR) for (auto &b : c.board_observations_) for (int i = 0; i < 6; i++) b.second->pose_[i] = val(0, b.first, 0, i, v);
  if (kind == OBJ) for (auto &b : c.object_observations_) for (int i = 0; i < 6; i++) b.second->pose_[i] = val(0, b.first, 1, i, v);
  if (kind == OBJ || kind >= GRPOBJ) for (auto &o : c.object_3d_) for (auto &b : o.second->boards_) for (int i = 0; i < 6; i++) o.second->relative_board_pose_[b.first][i] = v == 2 && b.first == o.second->ref_board_id_ ? 0 : val(1, b.first, o.first, i, v);
  if (kind >= GRP) { for (auto &g : c.cam_group_) for (int k : g.second->cam_idx) for (int i = 0; i < 6; i++) g.second->relative_camera_pose_[k][i] = v == 2 && k == g.second->id_ref_cam_ ? 0 : val(2, k, g.first, i, v);
    for (auto &g : c.cams_group_obs_) for (auto &o : g.second->object_pose_) for (int i = 0; i < 6; i++) o.second[i] = val(0, g.first.first * 3 + g.first.second, o.first, i, v); }
}
// no rotations, the last transformation with an unconstrained translation
static void lensValues(World &w) {
  Calibration &c = *w.c; auto far = [&](std::array<double, 6> &p) { for (int i = 0; i < 6; i++) p[i] = i < 3 ? 0 : tr[i - 3]; }; auto fix = [&](std::array<double, 6> &p, double a) { for (int i = 0; i < 6; i++) p[i] = i < 3 ? 0 : a * (i - 2); };
  for (auto &k : c.cams_) for (int i = 0; i < 9; i++) k.second->intrinsics_[i] = inten[k.first][i];
  for (auto &b : c.board_observations_) far(b.second->pose_); for (auto &b : c.object_observations_) far(b.second->pose_);
  for (auto &o : c.object_3d_) for (auto &b : o.second->boards_) fix(o.second->relative_board_pose_[b.first], 0.25 * (1 + b.first));
  for (auto &g : c.cam_group_) for (int k : g.second->cam_idx) fix(g.second->relative_camera_pose_[k], 0.5 + 0.125 * k); for (auto &g : c.cams_group_obs_) for (auto &o : g.second->object_pose_) far(o.second);
}
struct Res { double r[2][2]; }; struct Corner { float x, y; Res p; std::string what; };
static std::vector<Res> got; static int solves;
static void hook() {
  solves++; World &w = *W; std::vector<env::Block> bl = env::recorded(); size_t at = got.size(); got.resize(at + bl.size());
  for (int v = 0; v < 2; v++) { assign(w, v); for (size_t i = 0; i < bl.size(); i++) { double r[2]; sx_prove(bl[i].cost->Evaluate(bl[i].x, r, nullptr), "the residuals can be evaluated"); got[at + i].r[v][0] = r[0]; got[at + i].r[v][1] = r[1]; } }
  assign(w, 2); env::clear();
}
static std::vector<Corner> expected(World &w) {
  Calibration &c = *w.c; std::vector<Corner> e; bool two = true; (void)two;
  auto add = [&](std::vector<Corner> &e, float x, float y, int v, size_t idx, Camera &k, const double *p) { if (v == 0) { Corner n; n.x = x; n.y = y; e.push_back(n); } double o[2]; lens(k.intrinsics_.data(), k.distortion_model_, p, o); e[idx].p.r[v][0] = o[0]; e[idx].p.r[v][1] = o[1]; };
  for (int v = 0; v < 2; v++) { assign(w, v); size_t n = 0;
    for (auto &s : w.seen) if (s.valid) for (size_t i = 0; i < s.ids.size(); i++) {
      double p[3], q[3]; auto P = c.boards_3d_[s.board]->pts_3d_[s.ids[i]]; p[0] = P.x; p[1] = P.y; p[2] = P.z; Camera &k = *c.cams_[s.cam];
      if (kind == INTR) { pt(s.obs->pose_.data(), p, q); add(e, s.pts[i].x, s.pts[i].y, v, n++, k, q); continue; }
      Object3D *o = nullptr; for (auto &x : c.object_3d_) if (x.second->boards_.count(s.board)) o = x.second.get(); if (!o) continue;
      if (kind == GRP) { auto X = o->pts_3d_[o->pts_board_2_obj_[std::make_pair(s.board, s.ids[i])]]; p[0] = X.x; p[1] = X.y; p[2] = X.z; }
      else if (s.board != o->ref_board_id_) { pt(o->relative_board_pose_[s.board].data(), p, q); for (int j = 0; j < 3; j++) p[j] = q[j]; }
      if (kind == OBJ) { for (auto &x : c.object_observations_) if (x.second->camera_id_ == s.cam && x.second->frame_id_ == s.frame && x.second->object_3d_id_ == o->obj_id_) pt(x.second->pose_.data(), p, q); add(e, s.pts[i].x, s.pts[i].y, v, n++, k, q); continue; }
      CameraGroup *g = nullptr; for (auto &x : c.cam_group_) if (x.second->cameras_.count(s.cam)) g = x.second.get(); if (!g) continue;
      pt(c.cams_group_obs_[std::make_pair(g->cam_group_idx_, s.frame)]->object_pose_[o->obj_id_].data(), p, q); if (s.cam != g->id_ref_cam_) { for (int j = 0; j < 3; j++) p[j] = q[j]; pt(g->relative_camera_pose_[s.cam].data(), p, q); }
      add(e, s.pts[i].x, s.pts[i].y, v, n++, k, q);
    } }
  return e;
}
}
extern "C" void h_refine() {
  using namespace op; World w; W = &w; Cfg g; g.quat = 0; g.iters = 7; kind = SX_KIND >= 0 ? SX_KIND : sx_choose("stage", 0, 4); int m0 = sx_choose("lens", 0, 1); for (int i = 0; i < SX_C; i++) g.model_per_cam.push_back((i + m0) % 2); w.start(SX_C, SX_F, SX_B, g); fillViews(w, kind < GRP, SX_P, true);
  for (auto &k : w.c->cams_) for (int i = 0; i < 9; i++) k.second->intrinsics_[i] = i < 4 ? 90 + 10 * k.first + i : 0.02 * (i - 2) + 0.005 * k.first;
  if (kind != INTR) { buildObjects(w); exactViews(w); } if (kind >= GRP) { buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); }
  // known coordinates for the corners of objects
  if (kind == GRP) for (auto &o : w.c->object_3d_) for (size_t i = 0; i < o.second->pts_3d_.size(); i++) o.second->pts_3d_[i] = cv::Point3f(0.25f * i, 0.5f + 0.125f * (i % 3), 0.0625f * i + o.first);
  std::vector<Corner> want = expected(w); env::clear(); env::solve_hook = hook; Calibration &c = *w.c; 
  if (kind == INTR) c.refineIntrinsicAndPoseAllCam(); else if (kind == OBJ) c.refineAllObject3D(); else if (kind == GRP) c.refineAllCameraGroup(); else if (kind == GRPOBJ) c.refineAllCameraGroupAndObjects(); else c.refineAllCameraGroupAndObjectsAndIntrinsic();
  const char *l = "every accepted corner contributes its reprojection error once, in the unknowns it depends on"; sx_prove(got.size() == want.size(), l); std::vector<char> used(got.size(), 0);
  for (auto &e : want) { bool hit = false; for (size_t i = 0; i < got.size() && !hit; i++) if (!used[i]) { bool ok = true; for (int v = 0; v < 2 && ok; v++) ok = sx_same(got[i].r[v][0], e.p.r[v][0] - e.x) && sx_same(got[i].r[v][1], e.p.r[v][1] - e.y); if (ok) { used[i] = 1; hit = true; } } sx_prove(hit, l); }
  // results reach every place that depends on them
  assign(w, 2);
  if (kind == OBJ || kind >= GRPOBJ) for (auto &o : c.object_3d_) for (auto &b : o.second->boards_) { auto B = b.second.lock(); for (int i = 0; i < B->nb_pts_; i++) { double p[3] = {B->pts_3d_[i].x, B->pts_3d_[i].y, B->pts_3d_[i].z}, q[3]; pt(o.second->relative_board_pose_[b.first].data(), p, q); auto X = o.second->pts_3d_[o.second->pts_board_2_obj_[std::make_pair(b.first, i)]]; sx_prove_close(X.x, q[0], 1e-4, "object corners follow the refined board poses"); sx_prove_close(X.y, q[1], 1e-4, "object corners follow the refined board poses"); sx_prove_close(X.z, q[2], 1e-4, "object corners follow the refined board poses"); } }
  if (kind >= GRP) for (auto &q : c.cams_group_obs_) for (auto &x : q.second->object_observations_) { auto p = x.second.lock(); for (int i = 0; i < 6; i++) sx_prove_eq(p->group_pose_[i], q.second->object_pose_[p->object_3d_id_][i], "object views follow the refined pose of their object in the group"); }
  static const char *nm[] = {"intrinsics", "objects", "group", "group and objects", "everything"}; if (want.size()) sx_reach(nm[kind]); else sx_reach("nothing");
}

extern "C" void h_lens() {
  using namespace op; World w; W = &w; Cfg g; g.quat = 0; kind = SX_KIND >= 0 ? SX_KIND : sx_choose("stage", 0, 4); int m0 = sx_choose("lens", 0, 1); g.model_per_cam = {m0, m0}; w.start(2, 1, 2, g); for (int k = 0; k < 2; k++) for (int b = 0; b < 2; b++) w.see(k, 0, b, true, 1, true);
  int axis = sx_choose("on axis", 0, 1); tr.resize(3); for (int i = 0; i < 3; i++) tr[i] = sx_real("translation"); sx_assume(tr[2] >= 1 && tr[2] <= 100); if (!axis) { sx_assume(tr[1] >= 0.25); if (sx_choose("side", 0, 1)) sx_assume(tr[0] <= -8); else sx_assume(tr[0] >= 0.125); }
  for (int k = 0; k < 2; k++) for (int i = 0; i < 9; i++) { inten[k][i] = sx_real("intrinsic"); sx_assume(inten[k][i] >= (i < 4 ? 100 + 10 * i + k : 0.1 + 0.05 * i + 0.01 * k)); }
  plain = true; if (kind != INTR) { plain = false; buildObjects(w); exactViews(w); if (kind >= GRP) { buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); } plain = true; }
  if (kind == GRP) for (auto &o : w.c->object_3d_) for (size_t i = 0; i < o.second->pts_3d_.size(); i++) o.second->pts_3d_[i] = cv::Point3f(0.25f * i, 0.5f, 0);
  if (axis) { auto P = w.c->boards_3d_[0]->pts_3d_[w.seen[0].ids[0]]; if (kind == GRP) { auto &o = *w.c->object_3d_.begin()->second; P = o.pts_3d_[o.pts_board_2_obj_[std::make_pair(0, w.seen[0].ids[0])]]; } tr[0] = -(double)P.x; tr[1] = -(double)P.y; }
  sx_fork_selects(1); std::vector<Corner> want = expected(w); env::clear(); env::solve_hook = hook; Calibration &c = *w.c; lensValues(w);
  if (kind == INTR) c.refineIntrinsicAndPoseAllCam(); else if (kind == OBJ) c.refineAllObject3D(); else if (kind == GRP) c.refineAllCameraGroup(); else if (kind == GRPOBJ) c.refineAllCameraGroupAndObjects(); else c.refineAllCameraGroupAndObjectsAndIntrinsic();
  const char *l = "residuals are the pixel error of the documented lens model"; sx_prove(got.size() == want.size(), l); if (got.size() != want.size()) return; std::vector<char> used(got.size(), 0);
  for (auto &e : want) { int best = -1; for (size_t i = 0; i < got.size() && best < 0; i++) if (!used[i] && sx_same(got[i].r[0][0], e.p.r[0][0] - e.x) && sx_same(got[i].r[0][1], e.p.r[0][1] - e.y)) best = (int)i; if (best >= 0) used[best] = 1; sx_prove(best >= 0, l); }
  sx_reach(m0 ? axis ? "fisheye on axis" : "fisheye" : "perspective");
}
