// Sub-pixel refinement of corners: the saddle points of the image.
#include "cal.h"
#define McCalib McCalibCorners // the header defines functions that McCalib.cpp contains already
#include "point_refinement.h"
#undef McCalib
using namespace McCalibCorners;
#ifndef SX_OTHER
#define SX_OTHER 6
#endif
#ifndef SX_W
#define SX_W 2
#endif
namespace {
const int SIDE = 4 * SX_W + 6, MID = 2 * SX_W + 2; // one tile of the image holds one corner
struct Shape { double a, b, c; };
const Shape shapes[] = {{1, -1, 0}, {0.5, -2, 1}, {-1, 1.5, -0.5}, {0, 0, 1}, {1, 1, 0}, {-1, -0.5, 0.25}};
bool saddle(const Shape &s) { return 4 * s.a * s.b - s.c * s.c < 0; }
// intensities with the stationary point at (px + ex, py + ey), up to a constant
void paint(cv::Mat &m, int tile, const Shape &s, double px, double py, double ex, double ey) {
  double kx = -2 * s.a * ex - s.c * ey, ky = -2 * s.b * ey - s.c * ex;
  for (int y = 0; y < SIDE; y++) for (int x = 0; x < SIDE; x++) { double X = x - px, Y = y - py; m.at<double>(y, tile * SIDE + x) = 100 + s.a * X * X + s.b * Y * Y + s.c * X * Y + kx * X + ky * Y; }
}
}
extern "C" void h_saddle() {
  int iters = sx_choose("iterations", 1, 2), kind = sx_choose("shape", 0, 5), other = sx_choose("other corner", 0, SX_OTHER), first = other ? sx_choose("other first", 0, 1) : 0;
  const double frac[] = {0, 0.25, 0.625}; double px = MID + frac[sx_choose("column", 0, 2)], py = MID + frac[sx_choose("row", 0, 2)], ex = sx_real("ex"), ey = sx_real("ey"); double lim = iters == 1 ? 4 : 0.0009;
  sx_assume(ex >= -lim); sx_assume(ex <= lim); sx_assume(ey >= -lim); sx_assume(ey <= lim);
  cv::Mat m(SIDE, 2 * SIDE, CV_64F); const Shape &s = shapes[kind]; paint(m, 0, s, px, py, ex, ey);
  // the other corner: on a saddle, half a pixel off, far off, on an extremum, in a flat region, at the border
  const double off[] = {0, 0, 0.5, 3, 0, 0, 0}; const Shape flat = {0, 0, 0}; paint(m, 1, other == 4 ? shapes[5] : other == 5 ? flat : shapes[1], MID, MID, off[other], off[other] / 2);
  cv::Point2f p0((float)px, (float)py), p1((float)(SIDE + MID), (float)(other == 6 ? SX_W : MID)); std::vector<cv::Point2f> in; if (other && first) in.push_back(p1); in.push_back(p0); if (other && !first) in.push_back(p1);
  std::vector<SaddlePoint> out; saddleSubpixelRefinement(m, in, out, SX_W, iters); sx_prove(out.size() == in.size(), "one result per corner"); if (out.size() != in.size()) return;
  SaddlePoint &q = out[other && first ? 1 : 0]; double inf = std::numeric_limits<double>::infinity(); bool kept = !sx_is_sym(q.x) && !sx_is_sym(q.y) && q.x == inf && q.y == inf;
  if (!saddle(s)) sx_prove(kept, "a corner that is no saddle is not moved");
  else if (kept) { sx_prove(std::fabs(ex) > 0.00099 || std::fabs(ey) > 0.00099, "a corner on a saddle is refined"); }
  else { sx_prove_close(q.x, px + ex, 1e-5, "a refined corner lies on the saddle"); sx_prove_close(q.y, py + ey, 1e-5, "a refined corner lies on the saddle"); sx_prove(std::fabs(ex) < 0.00101 && std::fabs(ey) < 0.00101, "refinement has converged"); }
  if (other) { SaddlePoint &r = out[first ? 0 : 1]; bool conv = other == 1 || (other == 2 && iters > 1);
    if (conv) { sx_prove_close(r.x, p1.x + off[other], 1e-5, "a corner is refined whatever happens to the others"); sx_prove_close(r.y, p1.y + off[other] / 2, 1e-5, "a corner is refined whatever happens to the others"); }
    else sx_prove(r.x == inf && r.y == inf, "a corner without a near saddle is not moved"); }
  sx_reach(saddle(s) ? kept ? "off the saddle" : "refined" : "no saddle");
}

// Refinement as part of the detection: every corner ends up on its saddle or stays where it was detected.
static Calibration *g_c; static int g_n, g_kind[6]; static cv::Mat g_img; static cv::Point2f g_at[6];
static cv::Mat readImg(const cv::String &) { return g_img; }
static void detect(int stage, cv::InputArray, const cv::aruco::CharucoBoard *, std::vector<std::vector<cv::Point2f>> &mc, std::vector<int> &ids, std::vector<cv::Point2f> *cc) {
  if (stage == 0) { mc.push_back(std::vector<cv::Point2f>(4, cv::Point2f(1, 1))); ids.push_back(0); return; }
  for (int i = 0; i < 6; i++) if (g_kind[i] >= 0) { cc->push_back(g_at[i]); ids.push_back(i); }
}
extern "C" void h_refined() {
  Cfg g; g.nx = 4; g.ny = 3; g.refine = sx_choose("refine", 0, 1); Calibration *c = g_c = makeCalib(g); c->corner_ref_window_ = SX_W; env::detect_hook = detect; env::imread_hook = readImg; g_img = cv::Mat(SIDE, 6 * SIDE, CV_8UC3, cv::Scalar(128, 128, 128));
  int none = sx_choose("missing corner", 0, 6), moved = 0;
  for (int i = 0; i < 6; i++) { g_kind[i] = i == none ? -1 : sx_choose("kind", 0, i < 3 ? 3 : 1); double off = 0.375; g_at[i] = cv::Point2f((float)(i * SIDE + MID + off), (float)(MID - 2 * off)); if (g_kind[i] < 1) continue; // flat
    int q = g_kind[i] == 2 ? 1 : -1, far = g_kind[i] == 3 ? 2 : 0; // a saddle, an extremum, a saddle that is too far
    for (int y = 0; y < SIDE; y++) for (int x = 0; x < SIDE; x++) { int X = x - MID - far, Y = y - MID, v = 128 + 2 * X * X + q * 2 * Y * Y + X * Y; v = std::min(255, std::max(0, v)); g_img.at<cv::Vec3b>(y, i * SIDE + x) = cv::Vec3b((uchar)v, (uchar)v, (uchar)v); } }
  c->detectBoardsInImageWithCamera("in/#0.png", 0, 7); sx_prove(c->board_observations_.size() == 1, "the board is detected"); if (c->board_observations_.size() != 1) return;
  auto &o = *c->board_observations_.begin()->second; size_t n = 0; sx_prove(o.pts_2d_.size() == (none < 6 ? 5u : 6u) && o.charuco_id_.size() == o.pts_2d_.size(), "refinement keeps the corners"); if (o.pts_2d_.size() != (none < 6 ? 5u : 6u)) return;
  for (int i = 0; i < 6; i++) { if (g_kind[i] < 0) continue; auto p = o.pts_2d_[n]; sx_prove(o.charuco_id_[n] == i, "refinement keeps the corners"); n++; bool s = g.refine && g_kind[i] == 1; moved += s;
    if (s) { sx_prove_close(p.x, i * SIDE + MID, 1e-3, "a corner near a saddle is moved onto it"); sx_prove_close(p.y, MID, 1e-3, "a corner near a saddle is moved onto it"); }
    else { const char *l = "a corner that cannot be refined stays where it was detected"; sx_prove_eq(p.x, g_at[i].x, l); sx_prove_eq(p.y, g_at[i].y, l); } }
  sx_reach(!g.refine ? "not refined" : moved ? "refined" : "nothing to refine");
}
