// The whole calibration: from a keypoint file through the calibration program to the files it writes.
#include "rig.h"
#include "he.h"
#ifndef SX_PF
#define SX_PF 0
#endif
#ifndef SX_M
#define SX_M 0
#endif
#define main calibrate_main
#include "apps/calibrate/src/calibrate.cpp"
#undef main
static cv::Mat mat(const cv::FileNode &n) { cv::Mat m; n >> m; return m; }
namespace pl {
static std::string file(int k, int f) { return "im" + std::to_string(k) + "_" + std::to_string(f) + ".png"; }
static std::vector<cv::Mat> K, D; static int model[8];
static cv::Point3f corner(int id) { return cv::Point3f((float)(id % 2), (float)(id / 2), 0); } // boards of 2x2 corners
static cv::Point3f move(const cv::Mat &P, const cv::Point3f &p) { double q[3] = {p.x, p.y, p.z}, w[3]; for (int i = 0; i < 3; i++) { w[i] = P.at<double>(i, 3); for (int j = 0; j < 3; j++) w[i] += P.at<double>(i, j) * q[j]; } return cv::Point3f((float)w[0], (float)w[1], (float)w[2]); }
static bool same(const cv::Point3f &a, const cv::Point3f &b) { return sx_same(a.x, b.x) && sx_same(a.y, b.y) && sx_same(a.z, b.z); }
static bool same(const cv::Point2f &a, const cv::Point2f &b) { return sx_same(a.x, b.x) && sx_same(a.y, b.y); }
// where a point is, as far as its coordinates tell: corner id of board b in the reference of board q, or of camera c at instant f
struct Where { cv::Point3f p; int b, id, q, c, f; }; static std::vector<Where> where;
static void places() {
  World &w = *W; for (int b = 0; b < w.nb; b++) for (int id = 0; id < 4; id++) for (int q = 0; q < w.nb; q++) { cv::Point3f p = q == b ? corner(id) : move(w.brd[q].inv() * w.brd[b], corner(id)); where.push_back({p, b, id, q, -1, -1}); }
  size_t n = where.size(); for (size_t i = 0; i < n; i++) for (int c = 0; c < w.nc; c++) for (int f = 0; f < w.nf; f++) { Where x = where[i]; x.p = move(w.cam[c] * w.mov[f] * w.brd[x.q], x.p); x.c = c; x.f = f; where.push_back(x); }
}
static std::vector<std::vector<cv::Point2f>> ideal; // what a fisheye lens without distortion would show of each view
static bool near(const cv::Point2f &a, const cv::Point2f &b) { if (sx_is_sym(a.x) || sx_is_sym(a.y)) return false; double x = (double)a.x - b.x, y = (double)a.y - b.y; return x * x + y * y < 1e-4; }
static cv::Point2f seenAt(int k, int f, int b, int id) { static std::map<int, cv::Point2f> m; int key = ((k * 8 + f) * 8 + b) * 8 + id; if (!m.count(key)) { m[key] = cv::Point2f(200.f + (float)((key * 37) % 128), 160.f + (float)((key * 53) % 127)); } return m[key]; }
// the image of a true corner at a true pose is where the camera sees it; of anything else nothing is known
static bool project(const cv::Point3d &p, const cv::Mat &r, const cv::Mat &t, const cv::Mat &A, const cv::Mat &d, double uv[2]) {
  World &w = *W; double rr[3], tt[3]; for (int i = 0; i < 3; i++) { rr[i] = r.at<double>(i); tt[i] = t.at<double>(i); } cv::Mat P = poseMat(rr, tt);
  for (auto &x : where) { if (!sx_same(p.x, x.p.x) || !sx_same(p.y, x.p.y) || !sx_same(p.z, x.p.z)) continue;
    for (int k = 0; k < w.nc; k++) { if (!sameMat(A, K[k])) continue; bool ok = d.total() == D[k].total(), no = model[k] && d.total() == 5; for (int i = 0; i < (int)d.total(); i++) { ok = ok && sx_same(d.at<double>(i), D[k].at<double>(i)); no = no && sx_same(d.at<double>(i), 0); } if (!ok && !no) continue;
      for (int f = 0; f < w.nf; f++) { if (x.c >= 0 && f != x.f) continue; if (!sameMat(P, x.c < 0 ? w.cam[k] * w.mov[f] * w.brd[x.q] : w.cam[k] * w.cam[x.c].inv())) continue; cv::Point2f s = seenAt(k, f, x.b, x.id); uv[0] = s.x + 3 * no; uv[1] = s.y + 5 * no; return true; } } }
  return false;
}
static std::vector<cv::Point2f> image(int k, int f, int b, const std::vector<int> &ids, bool no = false) { // where camera k sees corners of board b at instant f
  std::vector<cv::Point2f> q; if (sx_symbolic_run()) { for (int i : ids) q.push_back(seenAt(k, f, b, i) + cv::Point2f(3 * no, 5 * no)); return q; }
  std::vector<cv::Point3f> p; for (int i : ids) p.push_back(corner(i)); cv::Mat r, t; Proj2RT(W->cam[k] * W->mov[f] * W->brd[b], r, t); r = r.clone(); t = t.clone(); if (no) cv::projectPoints(p, r, t, K[k], cv::Mat(), q); else if (model[k]) cv::fisheye::projectPoints(p, q, r, t, K[k], D[k], 0.0); else cv::projectPoints(p, r, t, K[k], D[k], q); return q;
}
static Seen *find(const cv::Point2f &p, int &j, bool und = false) { for (size_t v = 0; v < W->seen.size(); v++) { auto &s = W->seen[v]; for (j = 0; j < (int)s.pts.size(); j++) if (near(p, und && model[s.cam] ? ideal[v][j] : s.pts[j])) return &s; } return nullptr; }
// ideal removal of the distortion
static void undist(cv::InputArray s, cv::OutputArray d, cv::InputArray k, cv::InputArray dd, cv::InputArray) {
  cv::Mat a = s.getMat(), q(a.rows, a.cols, CV_32FC2), A = k.getMat(), B = dd.getMat(); const char *l = "fisheye points are undistorted with the lens of their camera"; for (int i = 0; i < (int)a.total(); i++) { int j; Seen *v = find(a.at<cv::Point2f>(i), j); sx_prove(v && model[v->cam] && sameMat(A, K[v->cam]), l); if (!v || !model[v->cam]) continue; proveMatEq(B, D[v->cam], l); cv::Point2f u = ideal[v - &W->seen[0]][j]; q.at<cv::Point2f>(i) = cv::Point2f((float)((u.x - A.at<double>(0, 2)) / A.at<double>(0, 0)), (float)((u.y - A.at<double>(1, 2)) / A.at<double>(1, 1))); }
  q.copyTo(d);
}
// every solver is exact: it returns the only answer that fits what it is given
static bool pnp(cv::InputArray o, cv::InputArray im, cv::InputArray k, cv::InputArray d, double *r, double *t, int) {
  const char *l = "pose estimation gets corners of one image with their positions in one object"; cv::Mat a = o.getMat(), b = im.getMat(); sx_prove(a.total() == b.total() && a.total() >= 4, l); if (a.total() != b.total() || a.total() < 4) return false;
  std::vector<Seen *> v; std::vector<int> id; for (int i = 0; i < (int)b.total(); i++) { int j; Seen *s = find(b.at<cv::Point2f>(i), j, true); sx_prove(s && s->cam == (v.empty() ? s->cam : v[0]->cam) && s->frame == (v.empty() ? s->frame : v[0]->frame), l); if (!s) return false; v.push_back(s); id.push_back(s->ids[j]); }
  proveMatEq(k.getMat(), K[v[0]->cam], "pose estimation uses the intrinsics of the observing camera");
  for (int q = 0; q < W->nb; q++) { bool ok = true; for (size_t i = 0; i < v.size() && ok; i++) ok = same(a.at<cv::Point3f>((int)i), v[i]->board == q ? corner(id[i]) : move(W->brd[q].inv() * W->brd[v[i]->board], corner(id[i]))); if (!ok) continue;
    cv::Mat P = W->cam[v[0]->cam] * W->mov[(v[0]->frame - 1) / 2] * W->brd[q], rr, tt; Proj2RT(P, rr, tt); for (int i = 0; i < 3; i++) { r[i] = rr.at<double>(i); t[i] = tt.at<double>(i); } return true; }
  sx_prove(false, l); return false;
}
static void calib(int m, cv::InputArrayOfArrays, cv::InputArrayOfArrays img, cv::Size, cv::Mat &k, cv::Mat &d, int) {
  const char *l = "initial calibration uses the views of one camera"; cv::Mat b = img.getMat(0); int j; Seen *s = find(b.at<cv::Point2f>(0), j); sx_prove(s && m == model[s->cam], l); if (!s) return; for (int i = 0; i < (int)img.total(); i++) { cv::Mat x = img.getMat(i); int q; Seen *y = find(x.at<cv::Point2f>(0), q); sx_prove(y && y->cam == s->cam, l); }
  k = K[s->cam].clone(); d = D[s->cam].clone();
}
}
namespace pl {
static size_t recorded; static bool refined; // which unknowns the non-linear refinements may change
static void solved() { auto &v = env::recorded(); for (; recorded < v.size(); recorded++) for (int z : v[recorded].cost->parameter_block_sizes()) if (z == 9) refined = true; }
static void never(int, cv::InputArrayOfArrays, cv::InputArrayOfArrays, cv::Size, cv::Mat &, cv::Mat &, int) { sx_prove(false, "known intrinsics are not estimated"); }
}
static void checkFiles(World &w, const std::vector<std::vector<int>> &objs, const std::vector<std::vector<int>> &gs, const std::string &out, bool fix) {
  sx_prove(pl::refined == !fix, "intrinsics are refined unless they are fixed");
  auto open = [&](const char *n) { return cv::FileStorage(out + "/" + n, cv::FileStorage::READ); };
  { cv::FileStorage f = open("calibrated_cameras_data.yml"); const char *l = "the calibration writes the cameras"; sx_prove(f.isOpened(), l); if (!f.isOpened()) return; std::map<int, int> of; std::vector<char> in(w.nc, 0); sx_prove((int)f["nb_camera"] == w.nc, l);
    for (size_t i = 0; i < gs.size(); i++) for (int k : gs[i]) { in[k] = 1; cv::FileNode n = f["camera_" + std::to_string(k)]; sx_prove(!n.empty(), "every camera that sees a board is calibrated"); if (n.empty()) continue;
      proveMatEq(mat(n["camera_matrix"]), pl::K[k], "the intrinsics found are the true ones"); cv::Mat d = mat(n["distortion_vector"]); sx_prove(d.total() == pl::D[k].total(), "the intrinsics found are the true ones"); for (int j = 0; j < (int)d.total() && d.total() == pl::D[k].total(); j++) sx_prove_eq(d.at<double>(j), pl::D[k].at<double>(j), "the intrinsics found are the true ones");
      sx_prove((int)n["distortion_type"] == pl::model[k] && (int)n["img_width"] == 640 + k && (int)n["img_height"] == 480 + k, "lens model and image size are those of the camera");
      int g = (int)n["camera_group"]; if (k == gs[i][0]) { for (auto &x : of) sx_prove(x.second != g, "cameras are in one group iff their views are linked"); of[(int)i] = g; } sx_prove(of.count((int)i) && of[(int)i] == g, "cameras are in one group iff their views are linked");
      proveMatEq(mat(n["camera_pose_matrix"]), w.cam[gs[i][0]] * w.cam[k].inv(), "the camera poses found are the true ones"); }
    for (int k = 0; k < w.nc; k++) if (!in[k]) sx_prove(f["camera_" + std::to_string(k)].empty(), "cameras without view are not calibrated"); }
  cv::FileStorage f = open("calibrated_objects_data.yml"), fp = open("calibrated_objects_pose_data.yml"); const char *lo = "the objects found are the true ones"; sx_prove(f.isOpened() && fp.isOpened(), "the calibration writes the objects"); if (!f.isOpened() || !fp.isOpened()) return; std::vector<char> hit(objs.size(), 0);
  for (size_t i = 0; i < objs.size(); i++) { cv::FileNode n = f["object_" + std::to_string(i)]; sx_prove(!n.empty(), lo); if (n.empty()) return; cv::Mat m = mat(n["points"]); sx_prove(m.rows == 5 && m.cols > 0, lo); if (m.rows != 5 || !m.cols) return; int b0 = (int)m.at<float>(3, 0), q = -1; for (size_t j = 0; j < objs.size(); j++) if (std::count(objs[j].begin(), objs[j].end(), b0)) q = (int)j; sx_prove(q >= 0 && !hit[q], lo); if (q < 0) return; hit[q] = 1;
    sx_prove(m.cols == 4 * (int)objs[q].size(), lo); std::set<std::pair<int, int>> once; for (int j = 0; j < m.cols; j++) { int b = (int)m.at<float>(3, j), p = (int)m.at<float>(4, j); bool ok = std::count(objs[q].begin(), objs[q].end(), b) && p >= 0 && p < 4 && once.insert(std::make_pair(b, p)).second; sx_prove(ok, lo); if (!ok) return;
      provePoint(cv::Point3f(m.at<float>(0, j), m.at<float>(1, j), m.at<float>(2, j)), w.brd[objs[q][0]].inv() * w.brd[b], pl::corner(p), lo); }
    // poses: one per camera and frame that shows the object
    std::vector<cv::Mat> want, got; for (auto &c : gs) for (int k : c) for (int fr = 0; fr < w.nf; fr++) { bool s = false; for (auto &x : w.seen) if (x.cam == k && x.frame == World::fid(fr) && std::count(objs[q].begin(), objs[q].end(), x.board)) s = true; if (s) want.push_back(w.cam[c[0]] * w.mov[fr] * w.brd[objs[q][0]]); }
    cv::Mat m2 = mat(fp["object_" + std::to_string(i)]["poses"]); sx_prove(m2.rows == 6 && m2.cols == (int)want.size(), "the object poses found are the true ones"); if (m2.rows != 6) return; for (int j = 0; j < m2.cols; j++) { double r[3], t[3]; for (int z = 0; z < 3; z++) { r[z] = m2.at<double>(z, j); t[z] = m2.at<double>(3 + z, j); } got.push_back(poseMat(r, t)); } provePoses(got, want, "the object poses found are the true ones"); }
  sx_prove(f["object_" + std::to_string(objs.size())].empty(), lo);
  { cv::FileStorage g = open("reprojection_error_data.yml"); const char *l = "noise-free corners have no reprojection error"; sx_prove(g.isOpened() && (int)g["nb_camera_group"] == (int)gs.size(), "the calibration writes the reprojection errors"); if (!g.isOpened()) return;
    for (size_t i = 0; i < gs.size(); i++) for (int fr = 0; fr < w.nf; fr++) for (int k : gs[i]) { size_t np = 0; for (auto &x : w.seen) if (x.cam == k && x.frame == World::fid(fr)) np += x.ids.size(); if (!np) continue; int found = 0; for (size_t j = 0; j < gs.size(); j++) { cv::FileNode n = g["camera_group_" + std::to_string(j)]["frame_" + std::to_string(World::fid(fr))]["camera_" + std::to_string(k)]; if (n.empty()) continue; found++; cv::Mat e = mat(n["error_list"]); sx_prove((int)n["nb_pts"] == (int)e.total() && e.total() > 0, l); for (int z = 0; z < (int)e.total(); z++) sx_prove_close(e.at<float>(z), 0, 1e-3, l); } sx_prove(found == 1, "every view has its reprojection errors written"); } }
}
static void setup(World &w, Cfg &g) {
  W = &w; env::opaque_projection = 1; w.nc = SX_C; w.nf = SX_F; w.nb = SX_B; g.ncam = w.nc; g.nboard = w.nb; g.nx = g.ny = 3; g.quat = 0; g.custom_quat = 1; g.kpts = "kp/detected_keypoints_data.yml"; w.gens();
  if (!sx_symbolic_run()) { int n = 0; auto put = [&](cv::Mat &m, double z, double a) { n++; double r[3] = {a * (n % 3 - 1), a * ((n * 2) % 5 - 2), a * ((n * 3) % 7 - 3)}, t[3] = {0.3 * (n % 4) - 0.4, 0.2 * (n % 5) - 0.3, z + 0.1 * n}; m = poseMat(r, t); }; for (auto &m : w.cam) put(m, 0, 0.05); for (auto &m : w.mov) put(m, 12, 0.1); for (auto &m : w.brd) put(m, 0, 0.07); }
  int lens = sx_choose("lenses", 0, SX_M);
  for (int k = 0; k < w.nc; k++) { pl::model[k] = lens == 2 || (lens == 1 && k % 2); g.model_per_cam.push_back(pl::model[k]); cv::Mat A = cv::Mat::eye(3, 3, CV_64F); A.at<double>(0, 0) = 500 + k; A.at<double>(1, 1) = 510 + k; A.at<double>(0, 2) = 320 - k; A.at<double>(1, 2) = 240 - k; pl::K.push_back(A); int nd = pl::model[k] ? 4 : 5; cv::Mat d = cv::Mat::zeros(1, nd, CV_64F); for (int i = 0; i < nd; i++) d.at<double>(i) = 0.01 * (i + 1) * (k + 1); pl::D.push_back(d); }
  if (sx_choose("known intrinsics", 0, SX_PF)) { cv::FileStorage f("par.yml", cv::FileStorage::WRITE); f << "nb_camera" << w.nc; for (int k = 0; k < w.nc; k++) { f << "camera_" + std::to_string(k) << "{" << "camera_matrix" << pl::K[k] << "distortion_vector" << pl::D[k] << "distortion_type" << pl::model[k] << "}"; } f.release(); g.params = "par.yml"; g.fix = 1; }
  Cfg h = g; h.params = "None"; h.kpts = "None"; h.save = "kp"; w.c = makeCalib(h, "kp.yml"); for (int k = 0; k < w.nc; k++) { w.c->cams_[k]->im_cols_ = 640 + k; w.c->cams_[k]->im_rows_ = 480 + k; }
  pl::places(); env::project_hook = pl::project; env::pnp_hook = pl::pnp; env::undist_hook = pl::undist; env::solve_hook = pl::solved; env::calib_hook = g.fix ? pl::never : pl::calib;
}
static void look(World &w, int k, int f, int b) {
  Seen s; s.cam = k; s.frame = World::fid(f); s.board = b; s.valid = true; for (int i = 0; i < 4; i++) s.ids.push_back((b + k + 3 * i + f) % 4);
  s.pts = pl::image(k, f, b, s.ids); pl::ideal.push_back(pl::image(k, f, b, s.ids, true)); w.c->insertNewBoard(k, s.frame, b, s.pts, s.ids, pl::file(k, f)); w.seen.push_back(s);
}
// views linked by boards, at most three instants
extern "C" void h_pipeline() {
  World w; Cfg g; setup(w, g); for (int f = 0; f < w.nf; f++) for (int k = 0; k < w.nc; k++) for (int b = 0; b < w.nb; b++) if (sx_choose("view", 0, 1)) look(w, k, f, b);
  for (int k = 0; k < w.nc; k++) { bool s = false; for (auto &x : w.seen) if (x.cam == k) s = true; if (!s) return; } // every camera sees something
  w.c->saveDetectedKeypoints(); ensureDir(g.save); writeCfg(g, "cfg.yml"); runCalibrationWorkflow("cfg.yml");
  auto o = boardGroups(w); auto gs = camGroups(w, o); Sets s(w.nb), cs(w.nc); std::vector<char> pres(w.nb, 0); for (auto &q : o) for (int b : q) { s.join(q[0], b); pres[b] = 1; } for (auto &q : gs) for (int k : q) cs.join(q[0], k);
  for (auto &a : w.seen) for (auto &b : w.seen) if (a.frame == b.frame && cs.find(a.cam) == cs.find(b.cam)) s.join(a.board, b.board);
  auto ms = groupsOf(s, w.nb, pres); checkFiles(w, ms, gs, "out", g.fix); sx_reach(gs.size() > 1 ? "several groups" : ms.size() < o.size() ? "objects merged" : "one group");
}
// two cameras that never see the same board: linked by hand-eye calibration when they share enough instants
extern "C" void h_pipeline_link() {
  World w; Cfg g; g.he = 1; setup(w, g); int last = 0, common = 0; bool any[2] = {false, false};
  for (int f = 0; f < w.nf; f++) { int v = sx_choose("instant", 0, 3); if (v < last) return; last = v; if (v == 0) continue; // instants in any order: sorted by what they show
    for (int k = 0; k < 2; k++) if (v >> k & 1) { look(w, k, f, k); any[k] = true; } common += v == 3; }
  if (!any[0] || !any[1]) return;
  cv::Mat L = w.cam[1] * w.cam[0].inv(), B = w.brd[0].inv() * w.brd[1]; he::cand = {L, L.inv(), B, B.inv()}; env::handeye_hook = he::solve;
  w.c->saveDetectedKeypoints(); ensureDir(g.save); writeCfg(g, "cfg.yml"); runCalibrationWorkflow("cfg.yml"); bool link = common > 3;
  std::vector<std::vector<int>> one = {{0, 1}}, two = {{0}, {1}}; checkFiles(w, link ? one : two, link ? one : two, "out", g.fix); sx_reach(link ? "linked" : "not linked");
}
// images with the detected and the projected corners
namespace pl {
struct Dot { int img, x, y; cv::Scalar s; }; static std::vector<Dot> dots; static std::vector<std::pair<std::string, int>> saved; static std::vector<std::vector<Dot>> shown; static int unreadable;
static int code(const cv::Mat &m) { return m.empty() ? -1 : m.at<int>(0, 0); }
static cv::Mat load(const cv::String &n) { cv::Mat m; for (int k = 0; k < W->nc; k++) for (int f = 0; f < W->nf; f++) if (n == file(k, f) && unreadable != k * 8 + f) { m.create(1, 1, CV_32S); m.at<int>(0, 0) = k * 8 + f; } return m; }
static void dot(cv::InputOutputArray m, cv::Point c, int, const cv::Scalar &s) { cv::Mat a = m.getMat(); dots.push_back({code(a), c.x, c.y, s}); }
static void save(const cv::String &n, cv::InputArray m) { cv::Mat a = m.getMat(); int c = code(a); std::vector<Dot> v; for (auto &d : dots) if (d.img == c) v.push_back(d); saved.push_back(std::make_pair(std::string(n), c)); shown.push_back(v); dots.clear(); }
static bool at(const Dot &d, const cv::Point2f &p) { return std::fabs(d.x - p.x) <= 1.01 && std::fabs(d.y - p.y) <= 1.01; }
}
extern "C" void h_images() {
  using namespace pl; World w; Cfg g; int which = sx_choose("images", 1, 3); g.sdet = which & 1; g.srep = which >> 1; setup(w, g); for (int f = 0; f < w.nf; f++) for (int k = 0; k < w.nc; k++) for (int b = 0; b < w.nb; b++) if (sx_choose("view", 0, 1)) look(w, k, f, b);
  for (int k = 0; k < w.nc; k++) { bool s = false; for (auto &x : w.seen) if (x.cam == k) s = true; if (!s) return; }
  unreadable = sx_choose("unreadable", 0, 1) ? w.seen[0].cam * 8 + (w.seen[0].frame - 1) / 2 : -1; env::imread_hook = load; env::circle_hook = dot; env::imwrite_hook = pl::save;
  w.c->saveDetectedKeypoints(); ensureDir(g.save); writeCfg(g, "cfg.yml"); runCalibrationWorkflow("cfg.yml"); size_t n = 0;
  for (int kind = 0; kind < 2; kind++) for (int k = 0; k < w.nc; k++) for (int f = 0; f < w.nf; f++) { if (kind ? !g.srep : !g.sdet) continue; std::vector<cv::Point2f> pts; for (auto &x : w.seen) if (x.cam == k && x.frame == World::fid(f)) pts.insert(pts.end(), x.pts.begin(), x.pts.end()); if (pts.empty() || unreadable == k * 8 + f) continue; n++;
    std::string name = std::string("out/") + (kind ? "Reprojection" : "Detection") + "/00" + std::to_string(k) + "/00000" + std::to_string(World::fid(f)) + ".jpg"; int hit = 0; for (size_t i = 0; i < saved.size(); i++) { if (saved[i].first != name) continue; hit++; sx_prove(saved[i].second == k * 8 + f, "the image saved for a camera and frame is the one it took");
      const char *ld = "every corner a camera detected is drawn in its image and no other"; size_t red = 0, green = 0; for (auto &d : shown[i]) { bool r = d.s[0] == 0 && d.s[1] == 0 && d.s[2] == 255; if (kind && r) red++; else green++; bool h = false; for (auto &p : pts) h = h || at(d, p); sx_prove(h, kind && r ? "projected corners of an exact calibration are drawn where they were detected" : ld); } sx_prove(green == pts.size(), ld); sx_prove(red == (kind ? pts.size() : 0), "every corner is drawn once where it projects");
      for (auto &p : pts) { int c = 0; for (auto &d : shown[i]) c += at(d, p); sx_prove(c >= (kind ? 2 : 1), ld); } }
    sx_prove(hit == 1, "one image is saved for each camera and frame that shows a board"); }
  sx_prove(saved.size() == n, "no other image is saved"); sx_reach(which == 3 ? "both" : which == 1 ? "detections" : "projections");
}
// the projected corners are those of the optimised poses, whatever the views themselves say
namespace pl {
static std::vector<cv::Mat> camG, objG; static int viewCode(int k, int f, int id) { return ((k * 4 + f) * 8 + id) * 16; }
static bool projectG(const cv::Point3d &p, const cv::Mat &r, const cv::Mat &t, const cv::Mat &A, const cv::Mat &d, double uv[2]) {
  World &w = *W; double rr[3], tt[3]; for (int i = 0; i < 3; i++) { rr[i] = r.at<double>(i); tt[i] = t.at<double>(i); } cv::Mat P = poseMat(rr, tt); int id = -1; for (int i = 0; i < 4; i++) { cv::Point3f q = w.c->boards_3d_[0]->pts_3d_[i]; if (sx_same(p.x, q.x) && sx_same(p.y, q.y) && sx_same(p.z, q.z)) id = i; }
  cv::Mat out; for (int k = 0; k < w.nc; k++) { cv::Mat M = w.c->cams_[k]->getCameraMat(), D = w.c->cams_[k]->getDistortionVectorVector(); bool ok = id >= 0 && sameMat(A, M) && d.total() == D.total(); for (int i = 0; ok && i < (int)d.total(); i++) ok = sx_same(d.at<double>(i), D.at<double>(i));
    for (int f = 0; ok && f < w.nf; f++) if (sameMat(P, camG[k] * objG[f])) { uv[0] = 40 + viewCode(k, f, id); uv[1] = 50 + 16 * id; return true; } }
  uv[0] = uv[1] = 8; return true;
}
}
extern "C" void h_reproimages() {
  using namespace pl; World w; W = &w; Cfg g; g.quat = 0; env::opaque_projection = 1; env::project_hook = pl::projectG; int lens = sx_choose("lenses", 0, 2); for (int k = 0; k < SX_C; k++) { model[k] = lens == 2 || (lens == 1 && k % 2); g.model_per_cam.push_back(model[k]); } w.start(SX_C, SX_F, 1, g);
  for (int k = 0; k < w.nc; k++) for (int i = 0; i < 9; i++) w.c->cams_[k]->intrinsics_[i] = i < 2 ? 400 + 10 * k + i : i < 4 ? 300 + i : model[k] && i == 8 ? 0 : 0.001 * (i + k);
  for (int f = 0; f < w.nf; f++) for (int k = 0; k < w.nc; k++) if (sx_choose("view", 0, 1)) w.see(k, f, 0, true, sx_choose("corners", 1, 3), false); if (w.seen.empty()) return;
  for (auto &x : w.seen) { int k = x.cam, f = (x.frame - 1) / 2, n = (int)x.ids.size(); for (int i = 0; i < n; i++) { x.ids[i] = 4 - n + i; x.obs->charuco_id_[i] = 4 - n + i; x.obs->pts_2d_[i] = cv::Point2f(7, 7); } w.c->frames_[x.frame]->frame_path_[k] = file(k, f); }
  buildObjects(w); exactViews(w); buildGroups(w); w.c->computeAllObjPoseInCameraGroup(); auto o = boardGroups(w); auto gs = camGroups(w, o);
  for (int f = 0; f < w.nf; f++) objG.push_back(genPose(S("object", f).c_str())); camG.assign(w.nc, cv::Mat::eye(4, 4, CV_64F));
  for (size_t i = 0; i < gs.size(); i++) for (int k : gs[i]) if (k != gs[i][0]) { camG[k] = genPose(S("calibrated", k).c_str()); for (auto &q : w.c->cam_group_) if (q.second->id_ref_cam_ == gs[i][0]) q.second->setCameraPoseMat(camG[k], k); }
  for (auto &x : w.c->object_observations_) x.second->setPoseInGroupMat(objG[(x.second->frame_id_ - 1) / 2]); for (auto &q : w.c->cams_group_obs_) for (auto &x : q.second->object_observations_) if (auto y = x.second.lock()) q.second->setObjectPoseMat(objG[(y->frame_id_ - 1) / 2], y->object_3d_id_);
  unreadable = -1; env::imread_hook = load; env::circle_hook = dot; env::imwrite_hook = pl::save; w.c->saveReprojectionImagesAllCam(); const char *l = "corners are projected with the calibrated poses";
  for (auto &x : w.seen) { int k = x.cam, f = (x.frame - 1) / 2, hit = 0; std::vector<cv::Point2f> q; std::vector<cv::Point3f> p; for (int i : x.ids) p.push_back(w.c->boards_3d_[0]->pts_3d_[i]); cv::Mat r, t; Proj2RT(camG[k] * objG[f], r, t); r = r.clone(); t = t.clone(); cv::Mat A = w.c->cams_[k]->getCameraMat(), D = w.c->cams_[k]->getDistortionVectorVector(); if (model[k]) cv::fisheye::projectPoints(p, q, r, t, A, D, 0.0); else cv::projectPoints(p, r, t, A, D, q);
    for (size_t i = 0; i < saved.size(); i++) { if (saved[i].second != k * 8 + f) continue; hit++; size_t red = 0; for (auto &d : shown[i]) red += d.s[2] == 255; sx_prove(red == p.size(), "every corner of a view is projected once"); for (auto &y : q) { int c = 0; for (auto &d : shown[i]) c += d.s[2] == 255 && at(d, y); sx_prove(c == 1, l); } } sx_prove(hit == 1, "one image is saved for each camera and frame that shows a board"); }
  sx_reach(gs.size() > 1 ? "several groups" : "one group");
}
