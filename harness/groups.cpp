// Camera groups, hand-eye calibration between groups, merging of groups and objects.
#include "rig.h"
#include "he.h"
#ifndef SX_N
#define SX_N 4
#endif
#ifndef SX_KMIN
#define SX_KMIN 2
#endif
#ifndef SX_R
#define SX_R 0
#endif
#ifndef SX_K
#define SX_K 2
#endif
#ifndef SX_IT
#define SX_IT 1
#endif
#ifndef SX_V
#define SX_V 1
#endif
#ifndef SX_HE
#define SX_HE 1
#endif
#ifndef SX_L
#define SX_L 1
#endif
extern "C" void h_camgroups() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, false, 1, false); buildObjects(w); exactViews(w); buildGroups(w);
  auto objs = boardGroups(w); auto gs = camGroups(w, objs); checkGroups(w, gs, true, false);
  w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, gs, true, true);
  if (sx_choose("again", 0, 1)) { for (auto &it : w.c->cam_group_) it.second->object_observations_.clear(); w.c->mergeAllCameraGroupObs(); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, gs, true, true); sx_reach("rebuilt"); }
  sx_reach(gs.size() > 1 ? "several groups" : gs.size() ? "one group" : "no camera");
}
// objects seen by different cameras of a group are merged
extern "C" void h_objmerge() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, true, 1, false); buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup();
  auto objs = boardGroups(w); auto gs = camGroups(w, objs);
  w.c->computeObjectsPairPose(); w.c->initInterTransform(w.c->object_pose_pairs_, w.c->inter_object_transform_); w.c->initInterObjectsGraph(); w.c->mergeObjects(); w.c->mergeAllObjectObs(); w.c->mergeAllCameraGroupObs();
  Sets s(w.nb), cs(w.nc); std::vector<char> pres(w.nb, 0); for (auto &q : gs) for (int k : q) cs.join(q[0], k); for (auto &q : objs) for (int b : q) { s.join(q[0], b); }
  for (auto &a : w.seen) { for (auto &b : w.seen) if (a.frame == b.frame && a.valid && b.valid && cs.find(a.cam) == cs.find(b.cam)) s.join(a.board, b.board); }
  // an object takes part once it has a valid view
  std::vector<char> has(w.nb, 0); for (auto &a : w.seen) if (a.valid) has[s.find(a.board)] = 1; for (int b = 0; b < w.nb; b++) pres[b] = has[s.find(b)]; for (int b = 0; b < w.nb; b++) { bool seen = false; for (auto &a : w.seen) if (a.board == b) seen = true; if (!seen) pres[b] = 0; }
  auto ms = groupsOf(s, w.nb, pres); checkAllObjects(w, ms); checkObjObs(w, ms); exactViews(w); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, gs, true, true);
  sx_reach(ms.size() < objs.size() ? "merged" : "unchanged");
}
// objects linked pairwise, at different instants
extern "C" void h_objchain() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(2, SX_F + 1, SX_B, g); int last = 0, np = w.nb * (w.nb - 1); Sets s(w.nb); std::vector<char> pres(w.nb, 0); pres[0] = 1;
  w.see(0, 0, 0, true, 1, false); w.see(1, 0, 0, true, 1, false);
  for (int f = 1; f <= SX_F; f++) { int v = sx_choose("pair", 0, np - 1); if (v < last) return; last = v; int a = v / (w.nb - 1), b = v % (w.nb - 1); if (b >= a) b++; w.see(0, f, a, true, 1, false); w.see(1, f, b, true, 1, false); s.join(a, b); pres[a] = pres[b] = 1; }
  buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); size_t before = w.c->object_3d_.size();
  w.c->computeObjectsPairPose(); w.c->initInterTransform(w.c->object_pose_pairs_, w.c->inter_object_transform_); w.c->initInterObjectsGraph(); w.c->mergeObjects(); w.c->mergeAllObjectObs(); w.c->mergeAllCameraGroupObs();
  auto ms = groupsOf(s, w.nb, pres); std::vector<std::vector<int>> gs = {{0, 1}}; checkAllObjects(w, ms); checkObjObs(w, ms); exactViews(w); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, gs, true, true);
  sx_reach(ms.size() < before ? "merged" : "unchanged");
}
extern "C" void h_handeye() {
  using namespace he; int n = sx_choose("poses", 2, SX_N); cv::Mat G = genPose("g2g1"), H = genPose("o1o2"); for (int i = 0; i < n; i++) { cv::Mat A = genPose(S("view", i).c_str()); p1.push_back(A); p2.push_back(G * A * H); }
  cand = {G.inv(), G, H, H.inv()}; env::handeye_hook = solve; cv::Mat X = handeyeCalibration(p1, p2); proveMatEq(X, G.inv(), "hand-eye calibration gives the pose of the second group in the first"); sx_prove(calls == 1 && lastN == n, "hand-eye calibration uses every common view"); sx_reach("calibrated");
}
// bootstrapped: clusters of views, random selections
extern "C" void h_heboot() {
  using namespace he; int n = SX_N; cv::Mat G = genPose("g2g1"), H = genPose("o1o2"); for (int i = 0; i < n; i++) { cv::Mat A = genPose(S("view", i).c_str()); p1.push_back(A); p2.push_back(G * A * H); }
  int nb = sx_choose("clusters", SX_KMIN, SX_K); k = std::min(nb, n); std::vector<int> cnt(k, 0); for (int i = 0; i < n; i++) { label.push_back(k == n ? n - 1 - i : sx_choose("label", 0, k - 1)); cnt[label[i]]++; } for (int x : cnt) if (!x) return;
  cand = {G.inv(), G, H, H.inv()}; env::handeye_hook = boot; env::kmeans_hook = labels; env::random_mode = SX_R > 0; env::random_levels = SX_R; unsigned it = SX_IT;
  cv::Mat X = handeyeBootstraptTranslationCalibration(nb, it, p1, p2);
  cv::Mat r, t; Proj2RT(G.inv(), r, t); if (it > 3) { std::vector<double> a(it, r.at<double>(0)), b(it, r.at<double>(1)), c(it, r.at<double>(2)); cv::Mat R = getAverageRotation(a, b, c); proveMatEq(X, RVecT2Proj(R, t), "the bootstrapped pose is the average of the accepted hypotheses"); } else proveMatEq(X, G.inv(), "the bootstrapped pose falls back to all views"); sx_reach(k < n ? "clusters" : "single views");
}
// wrong hypotheses do not contribute
extern "C" void h_hereject() {
  using namespace he; auto rx = [](double x, double tx) { double R[3] = {x * M_PI / 180, 0, 0}, T[3] = {tx, 2 * tx, 1 - tx}; return poseMat(R, T); };
  int n = 4; k = 3; for (int i = 0; i < n; i++) { double R[3] = {0, 0, i * M_PI / 2}, T[3] = {1.0 * i, 2, 5.0 * i}; cv::Mat A = poseMat(R, T); p1.push_back(A); p2.push_back(A.clone()); label.push_back(i == 3 ? 1 : i); }
  // a hypothesis turned by d about x disagrees by 2d for views half a turn apart
  cand = {rx(0, 2), rx(8.5, 30), rx(40, 50), rx(3, 7)}; int ok = 0, it = SX_IT; for (int i = 0; i < it; i++) { int s = sx_choose("hypothesis", 0, 2);
#ifdef SX_SORT // up to their order
    if (i && s < script.back()) return;
#endif
    script.push_back(s); ok += s == 0; } script.push_back(3);
  env::handeye_hook = boot; env::kmeans_hook = labels; env::random_mode = 0; cv::Mat X = handeyeBootstraptTranslationCalibration(k, it, p1, p2);
  cv::Mat r, t; Proj2RT(cand[0], r, t); std::vector<double> q0(ok, r.at<double>(0)), q1(ok, r.at<double>(1)), q2(ok, r.at<double>(2)); cv::Mat E = RVecT2Proj(getAverageRotation(q0, q1, q2), t); const char *l = "only hypotheses consistent with the views contribute to the bootstrapped pose";
  if (ok > 3) { sx_prove(sameMat(X, E), l); sx_reach("accepted"); } else if (ok < 3) { sx_prove(sameMat(X, cand[3]), l); sx_reach("fallback"); } else sx_prove(sameMat(X, E) || sameMat(X, cand[3]), l);
}
// ---- poses between groups without common view, then merging
static void concrete(World &w) { int n = 0; for (auto *v : {&w.cam, &w.mov, &w.brd}) for (auto &m : *v) { n++; double R[3] = {0.3 * n - 1, 0.7 - 0.2 * ((n * 5) % 7), 0.1 * ((n * 3) % 8)}, T[3] = {1.0 * n, 2.0 - (n % 3), 5.0 + (n % 4)}; m = poseMat(R, T); } }
static int ownCluster(int i, int, int k) { return i % k; }
extern "C" void h_nonoverlap() {
  World w; W = &w; Cfg g; g.quat = 0; g.he = SX_HE; if (!SX_HE) { env::kmeans_hook = ownCluster; env::random_mode = 0; } w.start(2, SX_F, 3, g); if (!SX_HE) concrete(w); // camera 0 sees board 0 or 1, camera 1 board 2
  for (int f = 0; f < w.nf; f++) { int a = sx_choose("camera 0", 0, 2), b = sx_choose("camera 1", 0, f < SX_V ? 1 : 0) ; if (f >= SX_V) b = 1; if (a) w.see(0, f, a - 1, true, 1, false); if (b) w.see(1, f, 2, true, 1, false); }
  auto objs = boardGroups(w); buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); auto gs = camGroups(w, objs); cv::Mat D = w.cam[1] * w.cam[0].inv();
  // a pose left over from before must not survive
  w.c->no_overlap_camgroup_pair_pose_[std::make_pair(5, 6)] = D; w.c->no_overlap__camgroup_pair_common_cnt_[std::make_pair(5, 6)] = 3;
  std::vector<cv::Mat> cd = {D, D.inv()}; for (auto &x : w.brd) for (auto &y : w.brd) if (&x != &y) cd.push_back(x.inv() * y); he::cand = cd; env::handeye_hook = he::solve;
  w.c->findPairObjectForNonOverlap(); w.c->findPoseNoOverlapAllCamGroup();
  int n[2] = {0, 0}; for (auto &x : w.seen) for (auto &y : w.seen) if (x.frame == y.frame && x.cam == 0 && y.cam == 1) n[x.board]++; int best = std::max(n[0], n[1]); bool link = best > 3;
  auto &T = w.c->no_overlap_camgroup_pair_pose_; auto &N = w.c->no_overlap__camgroup_pair_common_cnt_; const char *l = "two groups are linked iff they share more than three views of one pair of objects";
  sx_prove(T.size() == (link ? 2u : 0u) && N.size() == T.size(), l); if (T.size() != (link ? 2u : 0u)) return; sx_prove(SX_HE ? he::calls == (link ? 2 : 0) : (he::calls > 0) == link, l);
  if (link) for (int i = 0; i < 2; i++) { auto key = std::make_pair(i, 1 - i); sx_prove(T.count(key) && N.count(key), l); if (!T.count(key) || !N.count(key)) return; proveMatEq(T[key], i ? D.inv() : D, "the pose between two groups maps the reference camera of the first to that of the second"); sx_prove(N[key] == best, "the weight of a link between groups is the number of common views"); sx_prove(he::lastN == best, "hand-eye calibration uses every common view of the most frequent pair of objects"); }
  if (!SX_HE) { sx_reach(link ? "linked" : "too few views"); return; }
  w.c->initInterCamGroupGraph(); w.c->mergeCameraGroup(); w.c->mergeAllCameraGroupObs(); std::vector<std::vector<int>> ms = gs; if (link) ms = {{0, 1}}; checkGroups(w, ms, true, false); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, ms, true, true); sx_reach(link ? "linked" : gs.size() < 2 ? "one group" : "too few views");
}
// the second group has two cameras, each with an object of its own
extern "C" void h_nonoverlap3() {
  World w; W = &w; Cfg g; g.quat = 0; g.he = 1; w.start(3, SX_F + 1, 4, g);
  int last = 0; std::map<std::pair<int, int>, int> n;
  for (int f = 0; f < SX_F; f++) { // instants in any order: sorted by what they show
    int v = sx_choose("instant", 0, 8); if (v < last) return; last = v; int a = v / 3, b = v % 3; // camera 0: nothing, board 0, board 1
    if (SX_V && a == 0) a = 2;
    if (a) w.see(0, f, a - 1, true, 1, false); if (b != 1) w.see(1, f, 2, true, 1, false); if (b != 0) w.see(2, f, 3, true, 1, false);
    if (a) { if (b != 1) n[std::make_pair(a - 1, 2)]++; if (b != 0) n[std::make_pair(a - 1, 3)]++; }
  }
  w.see(1, SX_F, 2, true, 1, false); w.see(2, SX_F, 2, true, 1, false);
  auto objs = boardGroups(w); buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); auto gs = camGroups(w, objs); if (gs.size() < 2) return; cv::Mat D = w.cam[1] * w.cam[0].inv();
  std::vector<cv::Mat> cd = {D, D.inv()}; for (auto &x : w.brd) for (auto &y : w.brd) if (&x != &y) cd.push_back(x.inv() * y); he::cand = cd; env::handeye_hook = he::solve;
  w.c->findPairObjectForNonOverlap(); w.c->findPoseNoOverlapAllCamGroup();
  int best = 0; for (auto &q : n) best = std::max(best, q.second); bool link = best > 3;
  auto &T = w.c->no_overlap_camgroup_pair_pose_; auto &N = w.c->no_overlap__camgroup_pair_common_cnt_; const char *l = "two groups are linked iff they share more than three views of one pair of objects";
  sx_prove(T.size() == (link ? 2u : 0u) && N.size() == T.size(), l); if (T.size() != (link ? 2u : 0u)) return;
  if (link) for (int i = 0; i < 2; i++) { auto key = std::make_pair(i, 1 - i); sx_prove(T.count(key) && N.count(key), l); if (!T.count(key) || !N.count(key)) return; proveMatEq(T[key], i ? D.inv() : D, "the pose between two groups maps the reference camera of the first to that of the second"); sx_prove(N[key] == best, "the weight of a link between groups is the number of common views"); sx_prove(he::lastN == best, "hand-eye calibration uses every common view of the most frequent pair of objects"); }
  w.c->initInterCamGroupGraph(); w.c->mergeCameraGroup(); w.c->mergeAllCameraGroupObs(); std::vector<std::vector<int>> ms = gs; if (link) ms = {{0, 1, 2}}; checkGroups(w, ms, true, false); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, ms, true, true); sx_reach(link ? "linked" : "too few views");
}
// three cameras, each with an object of its own: the links of two of them at the instants the third sees nothing
extern "C" void h_nonoverlapthree() {
  World w; W = &w; Cfg g; g.quat = 0; g.he = 1; w.start(3, SX_F + 3, 3, g); int last = 0, n[3][3] = {}; static const int who[] = {7, 3, 5, 6}; int turn = sx_choose("first", 0, 1);
  if (turn) for (int k = 0; k < 3; k++) w.see(k, SX_F + k, k, true, 1, false);
  for (int f = 0; f < SX_F; f++) { int v = sx_choose("instant", 0, 3); if (v < last) return; last = v; for (int k = 0; k < 3; k++) if (who[v] >> k & 1) { w.see(k, f, k, true, 1, false); for (int j = 0; j < k; j++) if (who[v] >> j & 1) n[k][j] = ++n[j][k]; } }
  if (!turn) for (int k = 0; k < 3; k++) w.see(k, SX_F + k, k, true, 1, false);
  buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup();
  std::vector<cv::Mat> cd; for (auto &a : w.cam) for (auto &b : w.cam) if (&a != &b) cd.push_back(a * b.inv()); for (auto &x : w.brd) for (auto &y : w.brd) if (&x != &y) cd.push_back(x.inv() * y); he::cand = cd; env::handeye_hook = he::solve;
  w.c->findPairObjectForNonOverlap(); w.c->findPoseNoOverlapAllCamGroup(); const char *l = "two groups are linked iff they share more than three views of one pair of objects"; auto &T = w.c->no_overlap_camgroup_pair_pose_; auto &N = w.c->no_overlap__camgroup_pair_common_cnt_; size_t want = 0; Sets s(3); int id[3] = {-1, -1, -1};
  for (auto &q : w.c->cam_group_) for (int k = 0; k < 3; k++) if (q.second->cameras_.count(k)) id[k] = q.first; for (int k = 0; k < 3; k++) { sx_prove(id[k] >= 0, "every camera belongs to one group"); if (id[k] < 0) return; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && n[i][j] > 3) { want++; s.join(i, j); auto key = std::make_pair(id[i], id[j]); sx_prove(T.count(key) && N.count(key), l); if (!T.count(key) || !N.count(key)) return; proveMatEq(T[key], w.cam[j] * w.cam[i].inv(), "the pose between two groups maps the reference camera of the first to that of the second"); sx_prove(N[key] == n[i][j], "the weight of a link between groups is the number of common views"); }
  sx_prove(T.size() == want && N.size() == want, l); if (T.size() != want) return;
  auto ms = groupsOf(s, 3, std::vector<char>(3, 1)); w.c->initInterCamGroupGraph(); w.c->mergeCameraGroup(); w.c->mergeAllCameraGroupObs(); checkGroups(w, ms, true, false); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, ms, true, true); sx_reach(ms.size() == 1 ? "linked" : ms.size() == 2 ? "two of three" : "too few views");
}
// a group whose cameras see the same object at the same instant
extern "C" void h_nonoverlapmax() {
  World w; W = &w; Cfg g; g.quat = 0; g.he = 1; w.start(3, SX_F + 1, 3, g); int last = 0, n[2] = {0, 0};
  for (int f = 0; f < SX_F; f++) { // instants in any order: sorted by what they show
    int v = sx_choose("instant", 0, 2); if (v < last) return; last = v; // board 0 by both cameras of the group, by one of them, board 1
    w.see(0, f, v == 2, true, 1, false); if (v == 0) w.see(1, f, 0, true, 1, false); w.see(2, f, 2, true, 1, false); n[v == 2]++;
  }
  w.see(0, SX_F, 0, true, 1, false); w.see(1, SX_F, 0, true, 1, false);
  auto objs = boardGroups(w); buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); auto gs = camGroups(w, objs); cv::Mat D = w.cam[2] * w.cam[0].inv();
  std::vector<cv::Mat> cd = {D, D.inv()}; for (auto &x : w.brd) for (auto &y : w.brd) if (&x != &y) cd.push_back(x.inv() * y); he::cand = cd; env::handeye_hook = he::solve;
  w.c->findPairObjectForNonOverlap(); w.c->findPoseNoOverlapAllCamGroup();
  int best = std::max(n[0], n[1]); bool link = best > 3; auto &T = w.c->no_overlap_camgroup_pair_pose_; auto &N = w.c->no_overlap__camgroup_pair_common_cnt_; const char *l = "two groups are linked iff they share more than three views of one pair of objects";
  sx_prove(T.size() == (link ? 2u : 0u) && N.size() == T.size(), l); if (T.size() != (link ? 2u : 0u)) return;
  if (link) for (int i = 0; i < 2; i++) { auto key = std::make_pair(i, 1 - i); sx_prove(T.count(key) && N.count(key), l); if (!T.count(key) || !N.count(key)) return; proveMatEq(T[key], i ? D.inv() : D, "the pose between two groups maps the reference camera of the first to that of the second"); sx_prove(N[key] == best, "the weight of a link between groups is the number of common views"); }
  sx_reach(link ? "linked" : "too few views");
}
// merging any set of groups by any set of links
extern "C" void h_mergegroups() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, 1, SX_C, g); std::vector<int> of; // every camera sees its own board; some share a board and so a group
  int share = sx_choose("shared", 0, 1); for (int k = 0; k < w.nc; k++) { int b = share && k == w.nc - 1 ? sx_choose("with", 0, w.nc - 2) : k; of.push_back(b); w.see(k, 0, b, true, 1, false); }
  auto objs = boardGroups(w); buildObjects(w); exactViews(w); buildGroups(w); auto gs = camGroups(w, objs); checkGroups(w, gs, true, false); Sets s(w.nc); for (auto &q : gs) for (int k : q) s.join(q[0], k);
  bool any = false; for (size_t i = 0; i < gs.size(); i++) for (size_t j = 0; j < i; j++) { int c = sx_choose("link", 0, SX_L); if (!c) continue; any = true; s.join(gs[i][0], gs[j][0]); cv::Mat D = w.cam[gs[i][0]] * w.cam[gs[j][0]].inv(); auto a = std::make_pair((int)j, (int)i), b = std::make_pair((int)i, (int)j); w.c->no_overlap_camgroup_pair_pose_[a] = D; w.c->no_overlap_camgroup_pair_pose_[b] = D.inv(); w.c->no_overlap__camgroup_pair_common_cnt_[a] = w.c->no_overlap__camgroup_pair_common_cnt_[b] = c == 1 ? 4 : 9; }
  w.c->initInterCamGroupGraph(); w.c->mergeCameraGroup(); w.c->mergeAllCameraGroupObs(); auto ms = groupsOf(s, w.nc, std::vector<char>(w.nc, 1)); checkGroups(w, ms, true, false); w.c->computeAllObjPoseInCameraGroup(); checkGroups(w, ms, true, true);
  // merging again without new links changes nothing
  w.c->initInterCamGroupGraph(); w.c->mergeCameraGroup(); w.c->mergeAllCameraGroupObs(); checkGroups(w, ms, true, false, true); sx_reach(any ? share ? "merged with shared" : "merged" : "not linked");
}

// relative poses of the objects a camera group sees at one instant
extern "C" void h_objpairs() {
  World w; W = &w; Cfg g; g.quat = 0; w.start(SX_C, SX_F, SX_B, g); fillViews(w, false, 1, false); buildObjects(w); exactViews(w); buildGroups(w);
  std::map<std::pair<int, int>, std::vector<cv::Mat>> want; const char *l = "relative object poses come from objects a camera group sees at the same instant";
  for (auto &it : w.c->cams_group_obs_) { std::map<int, cv::Mat> P; for (auto &x : it.second->object_observations_) { auto p = x.second.lock(); if (p && !P.count(p->object_3d_id_)) { P[p->object_3d_id_] = genPose("object"); it.second->setObjectPoseMat(P[p->object_3d_id_], p->object_3d_id_); } }
    for (auto &a : P) for (auto &b : P) if (a.first != b.first) want[std::make_pair(a.first, b.first)].push_back(b.second.inv() * a.second); }
  w.c->object_pose_pairs_[std::make_pair(7, 8)].push_back(genPose("old")); w.c->computeObjectsPairPose(); auto &got = w.c->object_pose_pairs_; sx_prove(got.size() == want.size(), l);
  for (auto &q : want) { if (!got.count(q.first)) { sx_prove(false, l); continue; } auto &v = got[q.first]; for (auto &m : q.second) { bool h = false; for (auto &x : v) h = h || sameMat(x, m); sx_prove(h, l); } for (auto &x : v) { bool h = false; for (auto &m : q.second) h = h || sameMat(x, m); sx_prove(h, l); } }
  sx_reach(want.empty() ? "no pair" : "pairs");
}

// ---- chains of relative poses follow the links seen most often
namespace ch {
static int n; static int m[5][5]; static cv::Mat E[5][5];
struct Path { std::vector<int> v; double cost; };
static void paths(Path p, int to, std::vector<Path> &out) { int at = p.v.back(); if (at == to) { out.push_back(p); return; } for (int j = 0; j < n; j++) if (m[at][j] && !std::count(p.v.begin(), p.v.end(), j)) { Path q = p; q.v.push_back(j); q.cost += 1.0 / m[at][j]; paths(q, to, out); } }
static std::vector<cv::Mat> best(int a, int b) { std::vector<Path> all; Path s; s.v.push_back(a); s.cost = 0; paths(s, b, all); double c = 1e9; for (auto &p : all) c = std::min(c, p.cost); std::vector<cv::Mat> r; for (auto &p : all) if (p.cost < c + 1e-9) { cv::Mat T = cv::Mat::eye(4, 4, CV_64F); for (size_t i = 0; i + 1 < p.v.size(); i++) T = E[p.v[i]][p.v[i + 1]] * T; r.push_back(T); } return r; }
}
extern "C" void h_chain() {
  using namespace ch; World w; W = &w; Cfg g; g.quat = 0; n = SX_C; w.start(n, n, n, g); for (int k = 0; k < n; k++) w.see(k, k, k, true, 1, false); // separate views
#ifdef SX_ST
  int kind = SX_ST;
#else
  int kind = sx_choose("stage", 0, 3);
#endif
  Sets s(n); bool longer = false; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int c = sx_choose("link", 0, SX_L); m[i][j] = m[j][i] = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? n : 2 * n + 1; if (c) { s.join(i, j); E[i][j] = genPose("link"); E[j][i] = E[i][j].inv(); } }
  Calibration &c = *w.c; auto fill = [&](std::map<std::pair<int, int>, std::vector<cv::Mat>> &q) { q.clear(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; i != j && k < m[i][j]; k++) q[std::make_pair(i, j)].push_back(E[i][j].clone()); };
  if (kind != 1 && kind != 0) { buildObjects(w); exactViews(w); } if (kind == 3) buildGroups(w);
  if (kind == 0) { fill(c.board_pose_pairs_); c.initInterTransform(c.board_pose_pairs_, c.inter_board_transform_); c.initInterBoardsGraph(); c.init3DObjects(); }
  if (kind == 1) { fill(c.camera_pose_pairs_); c.initInterTransform(c.camera_pose_pairs_, c.inter_camera_transform_); c.initInterCamerasGraph(); c.initCameraGroup(); }
  if (kind == 2) { fill(c.object_pose_pairs_); c.initInterTransform(c.object_pose_pairs_, c.inter_object_transform_); c.initInterObjectsGraph(); c.mergeObjects(); }
  if (kind == 3) { c.no_overlap_camgroup_pair_pose_.clear(); c.no_overlap__camgroup_pair_common_cnt_.clear(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && m[i][j]) { c.no_overlap_camgroup_pair_pose_[std::make_pair(i, j)] = E[i][j].clone(); c.no_overlap__camgroup_pair_common_cnt_[std::make_pair(i, j)] = m[i][j]; } c.initInterCamGroupGraph(); c.mergeCameraGroup(); }
  const char *l = "relative poses are chained along the links seen most often"; size_t comps = 0; for (int i = 0; i < n; i++) comps += s.find(i) == i;
  sx_prove((kind == 0 || kind == 2 ? c.object_3d_.size() : c.cam_group_.size()) == comps, "linked nodes come together");
  for (int i = 0; i < n; i++) { int r = s.find(i); bool hit = false; size_t found = 0; std::vector<cv::Mat> want = best(r, i); cv::Mat P;
    if (kind == 0 || kind == 2) { for (auto &o : c.object_3d_) if (o.second->boards_.count(i) && o.second->boards_.count(r)) { found++; P = o.second->getBoardPoseMat(i).inv(); } }
    else for (auto &q : c.cam_group_) if (q.second->cameras_.count(i) && q.second->cameras_.count(r)) { found++; P = q.second->getCameraPoseMat(i); }
    sx_prove(found == 1, "linked nodes come together"); if (found != 1) return; for (auto &x : want) hit = hit || sameMat(P, x); sx_prove(hit, l); if (m[r][i] && want.size() && !sameMat(want[0], E[r][i])) longer = true; }
  sx_reach(longer ? "detour" : "direct");
}
