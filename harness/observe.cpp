// Bookkeeping of board observations; keypoint files; detection.
#include <cstring>
#include "cal.h"
#ifndef SX_K
#define SX_K 3
#endif
#ifndef SX_NF
#define SX_NF 2
#endif
struct Ins { int cam, frame, board, npt; cv::Point2f p[2]; int id[2]; };
static const int NC = 2, NB = 2;
static std::vector<Ins> *g_ins;
static int frameNo(int frame);
static std::string pathOf(int cam, int frame) { frame = frameNo(frame); return "in/Cam_00" + std::to_string(cam + 1) + "/img" + std::to_string(frame) + ".png"; }
static int frameNo(int frame) { int n = 0; for (size_t i = 0; i < g_ins->size(); i++) { if ((*g_ins)[i].frame == frame) return (int)i; } return n; }
static bool same(const Ins &a, const BoardObs &b, const char *l) {
  if (a.cam != b.camera_id_ || a.frame != b.frame_id_ || a.board != b.board_id_) return false;
  sx_prove(b.pts_2d_.size() == (size_t)a.npt && b.charuco_id_.size() == (size_t)a.npt, l);
  for (int i = 0; i < a.npt; i++) { sx_prove_eq(b.pts_2d_[i].x, a.p[i].x, l); sx_prove_eq(b.pts_2d_[i].y, a.p[i].y, l); sx_prove_eqi(b.charuco_id_[i], a.id[i], l); }
  return true;
}
template <class M, class F> static void proveSet(const M &obs, F want, const char *l, const char *lc) {
  int n = 0; for (auto &a : *g_ins) if (want(a)) n++;
  sx_prove((int)obs.size() == n, l);
  for (auto &a : *g_ins) if (want(a)) { int c = 0; for (auto &o : obs) { auto p = o.second.lock(); sx_prove(p != nullptr, l); if (same(a, *p, lc)) c++; } sx_prove(c == 1, l); }
}
static bool anyOf(int cam, int frame, int board) { for (auto &a : *g_ins) if ((cam < 0 || a.cam == cam) && (frame == -1 || a.frame == frame) && (board < 0 || a.board == board)) return true; return false; }
static void verify(Calibration &c, const std::vector<int> &frames) {
  sx_prove(c.board_observations_.size() == g_ins->size(), "every observation is registered exactly once");
  for (auto &a : *g_ins) { int n = 0; for (auto &o : c.board_observations_) if (same(a, *o.second, "an observation keeps the points and corner ids it was detected with")) n++; sx_prove(n == 1, "every observation is registered exactly once"); }
  for (auto &o : c.board_observations_) {
    sx_prove(o.second->cam_.lock() == c.cams_[o.second->camera_id_] && o.second->board_3d_.lock() == c.boards_3d_[o.second->board_id_], "an observation refers to its own camera and board");
    sx_prove(o.second->valid_, "a fresh observation is valid");
  }
  for (int k = 0; k < NC; k++) {
    Camera &cam = *c.cams_[k];
    proveSet(cam.board_observations_, [&](const Ins &a) { return a.cam == k; }, "a camera lists exactly its own observations", "a camera lists exactly its own observations");
    for (int f : frames) { sx_prove((cam.frames_.count(f) > 0) == anyOf(k, f, -1), "a camera lists exactly the frames in which it sees a board"); if (cam.frames_.count(f)) sx_prove(cam.frames_[f].lock() == c.frames_[f], "a camera refers to the registered frame"); }
    int n = 0; for (auto &a : *g_ins) if (a.cam == k) n++;
    sx_prove((int)cam.vis_board_idx_.size() == n, "a camera lists the boards it sees");
  }
  for (int b = 0; b < NB; b++) {
    Board &bd = *c.boards_3d_[b];
    proveSet(bd.board_observations_, [&](const Ins &a) { return a.board == b; }, "a board lists exactly its own observations", "a board lists exactly its own observations");
    for (int f : frames) sx_prove((bd.frames_.count(f) > 0) == anyOf(-1, f, b), "a board lists exactly the frames in which it is seen");
  }
  int nf = 0; for (int f : frames) if (anyOf(-1, f, -1)) nf++;
  sx_prove((int)c.frames_.size() == nf, "one frame per frame index with an observation");
  int nco = 0;
  for (int f : frames) {
    if (!anyOf(-1, f, -1)) { sx_prove(c.frames_.count(f) == 0, "one frame per frame index with an observation"); continue; }
    sx_prove(c.frames_.count(f) == 1, "one frame per frame index with an observation");
    Frame &fr = *c.frames_[f]; sx_prove(fr.frame_idx_ == f, "a frame knows its index");
    proveSet(fr.board_observations_, [&](const Ins &a) { return a.frame == f; }, "a frame lists exactly its own observations", "a frame lists exactly its own observations");
    sx_prove(fr.boards_idx_.size() == fr.board_observations_.size(), "a frame lists one board id per observation");
    for (size_t i = 0; i < fr.boards_idx_.size(); i++) sx_prove(fr.board_observations_[i].lock()->board_id_ == fr.boards_idx_[i], "a frame lists one board id per observation");
    int nc = 0;
    for (int k = 0; k < NC; k++) {
      bool any = anyOf(k, f, -1);
      auto key = std::make_pair(k, f);
      sx_prove((c.cams_obs_.count(key) == 1) == any, "one camera observation per camera and frame");
      if (!any) continue;
      nc++; nco++;
      sx_prove(fr.frame_path_.count(k) == 1 && fr.frame_path_[k] == pathOf(k, f), "a frame keeps the image path of each camera");
      CameraObs &co = *c.cams_obs_[key];
      sx_prove(co.cam_idx_ == k, "a camera observation knows its camera");
      proveSet(co.board_observations_, [&](const Ins &a) { return a.cam == k && a.frame == f; }, "a camera observation lists exactly its boards", "a camera observation lists exactly its boards");
      sx_prove(co.board_idx_.size() == co.board_observations_.size(), "a camera observation lists one board id per observation");
      for (size_t i = 0; i < co.board_idx_.size(); i++) sx_prove(co.board_observations_[i].lock()->board_id_ == co.board_idx_[i], "a camera observation lists one board id per observation");
      int found = 0; for (auto &p : fr.cam_obs_) if (p.second.lock() == c.cams_obs_[key]) found++;
      sx_prove(found == 1, "a frame lists each of its camera observations once");
    }
    sx_prove((int)fr.cam_obs_.size() == nc && (int)fr.cam_idx_.size() == nc, "a frame lists each of its camera observations once");
  }
  sx_prove((int)c.cams_obs_.size() == nco, "one camera observation per camera and frame");
}
static Ins draw(int npt) {
  Ins a; a.cam = sx_choose("cam", 0, NC - 1); a.frame = sx_range("frame", 0, 100000); a.board = sx_choose("board", 0, NB - 1); a.npt = npt;
  for (int i = 0; i < npt; i++) { a.p[i].x = sx_realf("x"); a.p[i].y = sx_realf("y"); a.id[i] = sx_range("id", 0, 5); sx_assume(a.p[i].x >= -10000 && a.p[i].x <= 10000 && a.p[i].y >= -10000 && a.p[i].y <= 10000); }
  return a;
}
static void insert(Calibration &c, const Ins &a) {
  std::vector<cv::Point2f> p(a.p, a.p + a.npt); std::vector<int> id(a.id, a.id + a.npt);
  c.insertNewBoard(a.cam, a.frame, a.board, p, id, pathOf(a.cam, a.frame));
}
static void fill(Calibration &c, int k, int npt) {
  for (int i = 0; i < k; i++) {
    Ins a = draw(npt); for (auto &b : *g_ins) { bool sf = b.frame == a.frame; sx_assume(!(b.cam == a.cam && sf && b.board == a.board)); }
    g_ins->push_back(a); insert(c, a);
  }
}
static std::vector<int> allFrames() { std::vector<int> f; f.push_back(-1000000); for (auto &a : *g_ins) { bool n = true; for (int x : f) if (x == a.frame) n = false; if (n) f.push_back(a.frame); } return f; }
extern "C" void h_insert() {
  g_ins = new std::vector<Ins>();
  Calibration *c = makeCalib(NC, NB);
  int k = sx_choose("observations", 0, SX_K);
  fill(*c, k, 1);
  verify(*c, allFrames());
  sx_reach(k == SX_K ? "full history" : "short history");
}
// saving and re-loading the detected keypoints restores every observation
extern "C" void h_keypoints() {
  g_ins = new std::vector<Ins>();
  Calibration *c = makeCalib(NC, NB);
  int w[NC], h[NC]; for (int i = 0; i < NC; i++) { c->cams_[i]->im_cols_ = w[i] = sx_range("width", 1, 5000); c->cams_[i]->im_rows_ = h[i] = sx_range("height", 1, 5000); }
  fill(*c, SX_K, 2);
  c->saveDetectedKeypoints();
  Cfg g; g.ncam = NC; g.nboard = NB; g.kpts = "out/detected_keypoints_data.yml";
  Calibration *d = makeCalib(g, "cfg2.yml");
  d->boardExtraction();
  verify(*d, allFrames());
  for (int i = 0; i < NC; i++) { sx_prove_eqi(d->cams_[i]->im_cols_, w[i], "image sizes survive the round trip"); sx_prove_eqi(d->cams_[i]->im_rows_, h[i], "image sizes survive the round trip"); }
  sx_reach("round trip");
}

// ---- detection -----------------------------------------------------------
// The detector stubs return, per image and board, a chosen subset of the
// board's corners at arbitrary image positions.
static Calibration *g_c; static int g_mask[3][2]; static int g_marker[3][2]; static std::vector<cv::Point2f> *g_pts[3][2]; static int g_board_now[3];
static int imgOf(cv::InputArray im) { return im.getMat().at<uchar>(0, 0) - 10; }
static cv::Mat readImg(const cv::String &f) {
  int k = -1; for (size_t i = 0; i + 1 < f.size(); i++) if (f[i] == '#') k = f[i + 1] - '0';
  if (k < 0) return cv::Mat();
  return cv::Mat(4, 6, CV_8UC3, cv::Scalar(10 + k, 0, 0));
}
static void detect(int stage, cv::InputArray im, const cv::aruco::CharucoBoard *b, std::vector<std::vector<cv::Point2f>> &mc, std::vector<int> &ids, std::vector<cv::Point2f> *cc) {
  int f = imgOf(im);
  if (stage == 0) {
    int bd = g_board_now[f]++;
    if (bd < (int)g_c->nb_board_ && g_marker[f][bd]) { mc.push_back(std::vector<cv::Point2f>(4, cv::Point2f(1, 1))); ids.push_back(0); }
    return;
  }
  int bd = -1; for (int k = 0; k < (int)g_c->nb_board_; k++) if (g_c->boards_3d_[k]->charuco_board_.get() == b) bd = k;
  sx_prove(bd >= 0, "corners are interpolated with a configured board");
  int np = (int)g_c->boards_3d_[bd]->nb_pts_;
  for (int i = 0; i < np; i++) if (g_mask[f][bd] >> i & 1) { cc->push_back((*g_pts[f][bd])[i]); ids.push_back(i); }
}
static void pts(int f, int b, int n) { g_pts[f][b] = new std::vector<cv::Point2f>(); for (int i = 0; i < n; i++) { float x = sx_realf("px"), y = sx_realf("py"); g_pts[f][b]->push_back(cv::Point2f(x, y)); } }
static double spread(int mask, int nx, int ny, double sq) { // mean distance to the least-squares line
  double x = 0, y = 0, n = 0, a = 0, b = 0, c = 0;
  for (int i = 0; i < nx * ny; i++) if (mask >> i & 1) { x += i % nx; y += i / nx; n++; }
  x /= n; y /= n;
  for (int i = 0; i < nx * ny; i++) if (mask >> i & 1) { double u = i % nx - x, v = i / nx - y; a += u * u; b += u * v; c += v * v; }
  double t = 0.5 * atan2(2 * b, a - c), r = 0; for (int i = 0; i < nx * ny; i++) if (mask >> i & 1) r += fabs((i % nx - x) * sin(t) - (i / nx - y) * cos(t));
  return r / n * sq;
}
#ifndef SX_NX
#define SX_NX 5
#endif
extern "C" void h_detect() {
  Cfg g; g.ncam = 1; g.nboard = 2; g.nx = SX_NX + 1; g.ny = 3;
  // uniform or per-board sizes; the board of interest is the first or the second one
  int T = 0, U = 1, np2 = SX_NX * 2; int kind = sx_choose("sizes", 0, 2);
  if (kind == 0) g.sq = 0.04; else {
    double a = 60, b = 0.5; T = kind - 1; U = 1 - T; np2 = (SX_NX + 1) * 3;
    g.sq = 7; g.nxs = {SX_NX + 1, SX_NX + 1}; g.nys = {3, 3}; g.nxs[U] = SX_NX + 2; g.nys[U] = 4; g.sqs = {0, 0}; g.sqs[T] = b; g.sqs[U] = a; g.resx = {500, 500}; g.resy = {400, 400};
  }
  double perc = sx_real("min_perc"); sx_assume(perc >= 0 && perc <= 1);
  Calibration *c = g_c = makeCalib(g); c->min_perc_pts_ = (float)perc;
  int np = SX_NX * 2;
  sx_prove((int)c->boards_3d_[T]->nb_pts_ == np, "number of corners of a board");
  env::detect_hook = detect; env::imread_hook = readImg;
  int m = 0, n = 0;
  for (int i = 0; i < np; i++) if (sx_choose("corner", 0, 1)) { m |= 1 << i; n++; }
  int second = sx_choose("second_board", 0, 1);
  g_mask[0][T] = m; g_mask[0][U] = second ? (1 << np2) - 1 : 0; g_marker[0][T] = sx_choose("markers", 0, 1); g_marker[0][U] = 1;
  pts(0, T, np); pts(0, U, np2);
  c->detectBoardsInImageWithCamera("in/#0.png", 0, 7);
  double fr = perc * np; int seen = 0;
  bool cand = g_marker[0][T] && n > 0;
  double sp = cand ? spread(m, SX_NX, 2, 1) : 0;
  for (auto &o : c->board_observations_) if (o.second->board_id_ == T) {
    seen++;
    sx_prove(cand, "only detected boards are recorded");
    sx_prove(n > fr - 1e-4, "a view with no more than the configured fraction of corners is rejected");
    sx_prove(n >= 5, "a view with fewer than five corners is rejected");
    sx_prove(sp > 0.09, "a view whose corners are collinear is rejected");
    sx_prove((int)o.second->pts_2d_.size() == n && (int)o.second->charuco_id_.size() == n, "an accepted view keeps all its corners");
    int j = 0; for (int i = 0; i < np; i++) if (m >> i & 1) { sx_prove_eqi(o.second->charuco_id_[j], i, "an accepted view keeps all its corners"); sx_prove_eq(o.second->pts_2d_[j].x, (*g_pts[0][T])[i].x, "an accepted view keeps all its corners"); sx_prove_eq(o.second->pts_2d_[j].y, (*g_pts[0][T])[i].y, "an accepted view keeps all its corners"); j++; }
    sx_prove(o.second->frame_id_ == 7 && o.second->camera_id_ == 0, "an accepted view belongs to its frame and camera");
  }
  sx_prove(seen <= 1, "a board view is recorded once");
  if (seen == 0 && cand && n >= 5 && sp > 0.11) sx_prove(n < fr + 1 + 1e-4, "a view with enough non-collinear corners is accepted");
  int s2 = 0; for (auto &o : c->board_observations_) if (o.second->board_id_ == U) s2++;
  if (!second) sx_prove(s2 == 0, "only detected boards are recorded"); else if (s2 == 0) sx_prove(np2 < perc * np2 + 1 + 1e-4, "a view with enough non-collinear corners is accepted");
  sx_reach(seen ? "accepted" : "rejected");
}
#ifndef SX_FR
#define SX_FR 2
#endif
// all interleavings of the per-image tasks
extern "C" void h_schedule() {
  Cfg g; g.ncam = 2; g.nboard = 2; g.nx = 4; g.ny = 3; g.min_perc = 0.2;
  Calibration *c = g_c = makeCalib(g); g_ins = new std::vector<Ins>();
  env::detect_hook = detect; env::imread_hook = readImg;
  std::vector<cv::String> fn; int cam = sx_choose("cam", 0, 1);
  for (int f = 0; f < SX_FR; f++) {
    bool unreadable = f > 0 && sx_choose("unreadable", 0, 1);
    fn.push_back((unreadable ? "in/broken" : "in/#") + std::to_string(f) + ".png");
    for (int b = 0; b < 2; b++) { g_mask[f][b] = sx_choose("visible", 0, 1) ? 63 : 0; g_marker[f][b] = 1; pts(f, b, 6); if (unreadable) g_mask[f][b] = 0; }
  }
  c->detectBoardsWithCamera(fn, cam);
  int n = 0;
  for (int f = 0; f < SX_FR; f++) for (int b = 0; b < 2; b++) {
    int k = 0;
    for (auto &o : c->board_observations_) if (o.second->frame_id_ == f && o.second->board_id_ == b) { k++; sx_prove(o.second->camera_id_ == cam && o.second->pts_2d_.size() == 6, "observations of a frame hold that frame's corners"); for (int i = 0; i < 6; i++) { sx_prove_eq(o.second->pts_2d_[i].x, (*g_pts[f][b])[i].x, "observations of a frame hold that frame's corners"); sx_prove_eqi(o.second->charuco_id_[i], i, "observations of a frame hold that frame's corners"); } }
    sx_prove(k == (g_mask[f][b] ? 1 : 0), "every detected board is recorded once, whatever the schedule");
    n += k;
    if (k) { sx_prove(c->frames_.count(f) && c->frames_[f]->frame_path_[cam] == fn[f], "a frame keeps its image path"); sx_prove(c->cams_obs_.count(std::make_pair(cam, f)) == 1, "one camera observation per camera and frame"); }
  }
  sx_prove((int)c->board_observations_.size() == n && (int)c->cams_[cam]->board_observations_.size() == n, "every detected board is recorded once, whatever the schedule");
  sx_prove(c->cams_[cam]->im_cols_ == 6 && c->cams_[cam]->im_rows_ == 4, "the camera takes the size of its images");
  sx_reach(n > 1 ? "several boards" : "few boards");
}
// image lists: folder per camera, extension filter, frame numbering
static int g_files; static int g_ok[3]; static std::vector<std::string> *g_globbed;
static void doGlob(const cv::String &p, std::vector<cv::String> &r) {
  g_globbed->push_back(p);
  static const char *ext[] = {".png", ".txt", ".jpg", ".yml", ".bmp", ".ini", ".jpeg", ".json", ".tiff", ".png.txt", ".jp2", ".jpg.bak"};
  if (g_globbed->size() != 1) return;
  for (int i = 0; i < g_files; i++) r.push_back(std::string(i == 1 ? "in.v2/Cam_001/more/shot.b#" : "in.v2/Cam_001/#") + std::to_string(i) + ext[g_ok[i]]);
}
extern "C" void h_filelist() {
  Cfg g; g.ncam = sx_choose("many", 0, 1) ? 11 : 2; g.root = "in.v2"; g.nboard = 1; g.nx = 4; g.ny = 3; g.min_perc = 0.2;
  Calibration *c = g_c = makeCalib(g); g_globbed = new std::vector<std::string>();
  env::detect_hook = detect; env::imread_hook = readImg; env::glob_hook = doGlob;
  g_files = sx_choose("files", 0, 3); int idx = 0, want[3];
  for (int i = 0; i < g_files; i++) { g_ok[i] = i == 0 && g.ncam == 2 ? sx_choose("ext", 0, 11) : sx_choose("ext", 0, 3); g_marker[i][0] = 1; g_mask[i][0] = 63; pts(i, 0, 6); want[i] = g_ok[i] % 2 == 0 ? idx++ : -1; }
  c->detectBoards();
  bool dirs = (int)g_globbed->size() == g.ncam; for (int i = 0; i < g.ncam && dirs; i++) { std::string q = std::string("in.v2/Cam_") + (i < 9 ? "00" : "0") + std::to_string(i + 1), t = (*g_globbed)[i]; dirs = t.compare(0, q.size(), q) == 0 && (t.size() == q.size() || t[q.size()] == '/'); }
  sx_prove(dirs, "camera i reads the folder <root>/<prefix><i+1 on three digits>");
  sx_prove((int)c->board_observations_.size() == idx, "exactly the image files are processed");
  for (auto &o : c->board_observations_) {
    int hit = 0; for (int i = 0; i < g_files; i++) if (want[i] == o.second->frame_id_) { hit++; sx_prove_eq(o.second->pts_2d_[3].x, (*g_pts[i][0])[3].x, "frames are numbered by position in the image list"); }
    sx_prove(hit == 1 && o.second->camera_id_ == 0, "frames are numbered by position in the image list");
  }
  sx_reach(idx ? "images" : "no images");
}
