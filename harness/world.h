// A rig of cameras, a moving set of boards, and noise-free board poses.
#pragma once
#include "cal.h"
#include <algorithm>
#include <set>
#ifndef SX_C
#define SX_C 2
#endif
#ifndef SX_F
#define SX_F 2
#endif
#ifndef SX_B
#define SX_B 2
#endif
#ifndef SX_P
#define SX_P 1
#endif
struct Seen { int cam, frame, board; std::vector<int> ids; std::vector<cv::Point2f> pts; bool valid; cv::Mat pose; std::shared_ptr<BoardObs> obs; };
struct World {
  Calibration *c = nullptr; int nc, nf, nb; std::vector<cv::Mat> cam, mov, brd; std::vector<Seen> seen; bool independent = false, sizes = true;
  void gens() { for (int i = 0; i < nc; i++) cam.push_back(genPose(S("cam", i).c_str())); for (int i = 0; i < nf; i++) mov.push_back(genPose(S("mov", i).c_str())); for (int i = 0; i < nb; i++) brd.push_back(genPose(S("brd", i).c_str())); }
  void start(int a, int b, int d, Cfg g = Cfg()) { nc = a; nf = b; nb = d; g.ncam = nc; g.nboard = nb; g.nx = 3; g.ny = 3; if (sizes && g.nxs.empty()) for (int i = 0; i < nb; i++) { g.nxs.push_back(3 + i % 2); g.nys.push_back(3); } g.custom_quat = 1; c = makeCalib(g); gens(); }
  // frame f is stored under frame index 2*f+1
  static int fid(int f) { return 2 * f + 1; }
  void see(int k, int f, int b, bool valid, int npt, bool sym = true) {
    Seen s; s.cam = k; s.frame = fid(f); s.board = b; s.valid = valid;
    // identifiers differ between views and are not in increasing order
    for (int i = 0; i < npt; i++) { s.ids.push_back((b + k + 3 * i + f) % 4); cv::Point2f p; if (sym) { p.x = sx_realf("x"); p.y = sx_realf("y"); } else { p.x = 100 * k + 10 * f + b; p.y = i; } s.pts.push_back(p); }
    if (independent) s.pose = genPose("view"); else s.pose = cam[k] * mov[f] * brd[b];
    c->insertNewBoard(k, s.frame, b, s.pts, s.ids, "im");
    s.obs = c->board_observations_[(int)c->board_observations_.size() - 1]; s.obs->setPoseMat(s.pose); s.obs->valid_ = valid;
    seen.push_back(s);
  }
};
// connected components of boards / cameras / objects by plain union-find
struct Sets { std::vector<int> p; Sets(int n) { for (int i = 0; i < n; i++) p.push_back(i); } int find(int i) { return p[i] == i ? i : find(p[i]); } void join(int a, int b) { a = find(a); b = find(b); if (a < b) p[b] = a; else p[a] = b; } };
// every expected pose is in the list once and the list has no other
inline void provePoses(const std::vector<cv::Mat> &got, const std::vector<cv::Mat> &want, const char *l) {
  sx_prove(got.size() == want.size(), l); std::vector<char> used(want.size(), 0);
  for (auto &g : got) { bool hit = false; for (size_t i = 0; i < want.size() && !hit; i++) if (!used[i] && sameMat(g, want[i])) { used[i] = 1; hit = true; } sx_prove(hit, l); }
}
inline void provePoint(const cv::Point3f &got, const cv::Mat &P, const cv::Point3f &p, const char *l) {
  double q[3] = {p.x, p.y, p.z}, w[3] = {got.x, got.y, got.z};
  for (int k = 0; k < 3; k++) { double s = P.at<double>(k, 3); for (int j = 0; j < 3; j++) s += P.at<double>(k, j) * q[j]; sx_prove_close(w[k], s, 1e-3, l); }
}
