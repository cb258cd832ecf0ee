// Initial intrinsics: which correspondences calibrate a camera, and where the result goes.
#include "world.h"
#include <array>
#ifndef SX_M
#define SX_M 0
#define SX_N 52
#endif
static World *W;
struct Call { int model, flags; cv::Size size; std::vector<std::vector<cv::Point3f>> obj; std::vector<std::vector<cv::Point2f>> img; double v[9]; };
static std::vector<Call> calls;
static cv::Mat matOf(cv::InputArrayOfArrays a, int i) { return a.getMat(i); }
static void calib(int model, cv::InputArrayOfArrays o, cv::InputArrayOfArrays m, cv::Size s, cv::Mat &K, cv::Mat &D, int flags) {
  Call c; c.model = model; c.flags = flags; c.size = s; int n = (int)o.total(), q = (int)m.total(); sx_prove(n == q, "every list of corners comes with its image points");
  for (int i = 0; i < n && i < q; i++) { cv::Mat a = matOf(o, i), b = matOf(m, i); sx_prove(a.total() == b.total() && a.depth() == CV_32F && b.depth() == CV_32F, "every list of corners comes with its image points"); std::vector<cv::Point3f> p; std::vector<cv::Point2f> r;
    for (int j = 0; j < (int)a.total(); j++) p.push_back(a.at<cv::Point3f>(j)); for (int j = 0; j < (int)b.total(); j++) r.push_back(b.at<cv::Point2f>(j)); c.obj.push_back(p); c.img.push_back(r); }
  K = cv::Mat::eye(3, 3, CV_64F); D = cv::Mat(calls.size() % 2 ? cv::Size(1, model ? 4 : 5) : cv::Size(model ? 4 : 5, 1), CV_64F);
  for (int i = 0; i < 9; i++) c.v[i] = sx_real("intr"); K.at<double>(0, 0) = c.v[0]; K.at<double>(1, 1) = c.v[1]; K.at<double>(0, 2) = c.v[2]; K.at<double>(1, 2) = c.v[3]; for (int i = 0; i < (model ? 4 : 5); i++) D.at<double>(i) = c.v[4 + i];
  calls.push_back(c);
}
static bool same(float a, float b) { return sx_same(a, b); }
// all corners further from every border than the tolerance; a corner within a thousandth of a pixel of the limit is left open
static bool inside(const Seen &s, int w, int h) { bool in = true; for (auto &p : s.pts) for (int i = 0; i < 2; i++) { double x = i ? p.y : p.x, n = i ? h : w, m = 0.05 * n; double d = x - m < n - m - x ? x - m : n - m - x; if (sx_branch(d <= 0)) { sx_assume(d < -1e-2); in = false; } else sx_assume(d > 1e-2); } return in; }
static void check(World &w, const Cfg &g, const std::vector<std::pair<int, int>> &size, bool border) {
  auto before = std::vector<std::array<double, 9>>(); calls.clear(); env::calib_hook = calib; w.c->initializeCalibrationAllCam(); const char *l = "each camera is calibrated once, from its own views"; sx_prove((int)calls.size() == w.nc, l); std::set<int> done;
  for (auto &c : calls) { int k = -1; std::vector<char> used(w.seen.size(), 0); const char *lp = "corners are paired with their image points in the same view"; bool empty = c.img.empty(); if (empty) { sx_reach("no usable view"); sx_end_path(); }
    for (size_t i = 0; i < c.img.size() && i < c.obj.size(); i++) { int hit = -1; auto pair = [&](const Seen &s) { bool ok = c.obj[i].size() == s.ids.size(); for (size_t j = 0; j < s.ids.size() && ok; j++) { auto &p = w.c->boards_3d_[s.board]->pts_3d_[s.ids[j]], &q = c.obj[i][j]; ok = p.x == q.x && p.y == q.y && p.z == q.z; } return ok; };
      // two views may happen to have equal image points: then the one with these corners is meant
      for (int strict = 1; strict >= 0 && hit < 0; strict--) for (size_t v = 0; v < w.seen.size() && hit < 0; v++) if (!used[v] && w.seen[v].pts.size() == c.img[i].size()) { bool ok = !strict || pair(w.seen[v]); for (size_t j = 0; j < c.img[i].size() && ok; j++) ok = same(w.seen[v].pts[j].x, c.img[i][j].x) && same(w.seen[v].pts[j].y, c.img[i][j].y); if (ok) hit = (int)v; }
      sx_prove(hit >= 0, "views are used once, with all their corners"); if (hit < 0) return; used[hit] = 1; auto &s = w.seen[hit]; if (k < 0) k = s.cam; sx_prove(s.cam == k, l); sx_prove(pair(s), lp); }
    sx_prove(k >= 0 && done.insert(k).second, l); if (k < 0) return; int model = g.model_per_cam[k]; sx_prove(c.model == model, "a camera is calibrated with its own lens model");
    sx_prove_eqi(c.size.width, size[k].first, "a camera is calibrated with its own image size"); sx_prove_eqi(c.size.height, size[k].second, "a camera is calibrated with its own image size");
    const int fixing = cv::CALIB_FIX_ASPECT_RATIO | cv::CALIB_FIX_PRINCIPAL_POINT | cv::CALIB_ZERO_TANGENT_DIST | cv::CALIB_FIX_FOCAL_LENGTH | cv::CALIB_FIX_K1 | cv::CALIB_FIX_K2 | cv::CALIB_FIX_K3 | cv::CALIB_RATIONAL_MODEL | cv::CALIB_THIN_PRISM_MODEL | cv::CALIB_TILTED_MODEL, fish = cv::fisheye::CALIB_FIX_K1 | cv::fisheye::CALIB_FIX_K2 | cv::fisheye::CALIB_FIX_K3 | cv::fisheye::CALIB_FIX_K4 | cv::fisheye::CALIB_FIX_PRINCIPAL_POINT;
    sx_prove(model ? (c.flags & fish) == 0 && (c.flags & cv::fisheye::CALIB_FIX_SKEW) : (c.flags & fixing) == 0, "all parameters of the lens model are estimated, and no others");
    int total = 0, limit = model ? 500 : 50, in = 0; for (size_t v = 0; v < w.seen.size(); v++) if (w.seen[v].cam == k) { total++; bool ok = !model || !border || inside(w.seen[v], size[k].first, size[k].second); in += ok; if (!ok) sx_prove(!used[v], "fisheye views with corners near the border are left out"); }
    int n = (int)c.img.size(); if (total <= limit) sx_prove(n == in, "every usable view is used unless there are more than the limit"); else sx_prove(border ? n <= limit : n == limit, "at most 50 views (500 for fisheye cameras) are used");
    auto &x = *w.c->cams_[k]; for (int i = 0; i < (model ? 8 : 9); i++) sx_prove_eq(x.intrinsics_[i], c.v[i], "the camera gets the intrinsics and the distortion that were estimated for it"); }
}
// all orders of the views, corners anywhere
extern "C" void h_initcal() {
  World w; W = &w; Cfg g; int m = sx_choose("lens", 0, 2); for (int k = 0; k < SX_C; k++) g.model_per_cam.push_back(m == 2 ? k % 2 : m); w.start(SX_C, SX_F, SX_B, g); std::vector<std::pair<int, int>> size;
  for (int k = 0; k < SX_C; k++) { int n = 0; for (int f = 0; f < SX_F; f++) for (int b = 0; b < SX_B; b++) if (sx_choose("view", 0, 1)) { w.see(k, f, b, true, 1 + (b + f) % 2); n++; } if (!n) return; size.push_back(std::make_pair(sx_range("width", 100, 8000), sx_range("height", 100, 8000))); w.c->cams_[k]->im_cols_ = size[k].first; w.c->cams_[k]->im_rows_ = size[k].second; }
  env::random_mode = 1; check(w, g, size, true); sx_reach(m ? "fisheye" : "perspective");
}
// more views than the limit
extern "C" void h_initmany() {
  World w; W = &w; Cfg g; int m = SX_M; g.model_per_cam.push_back(m); int n = SX_N; w.start(1, n, 1, g); std::vector<std::pair<int, int>> size{{640, 480}}; int q = sx_choose("views", n - 2, n);
  for (int f = 0; f < q; f++) { Seen s; w.see(0, f, 0, true, 1, false); auto &v = w.seen.back(); v.pts[0] = cv::Point2f(100 + f, 100 + f % 7); v.obs->pts_2d_[0] = v.pts[0]; } w.c->cams_[0]->im_cols_ = 640; w.c->cams_[0]->im_rows_ = 480;
  check(w, g, size, false); sx_reach(q > (m ? 500 : 50) ? "limited" : "all");
}
