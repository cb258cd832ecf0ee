// Environment stubs shared by symbolic runs and native replays: optimisers,
// closed-form solvers, detectors and image I/O return what the harness scripts
// (default: the identity of their documented contract or an arbitrary value).
#include "env.h"
#include <algorithm>
#include <cmath>
#include <cstring>
namespace env {
std::vector<Block> *blocks;
void (*solve_hook)(void);
PnpHook pnp_hook; int pnp_calls;
ProjectHook project_hook; CircleHook circle_hook; ImwriteHook imwrite_hook; CalibHook calib_hook; HandEyeHook handeye_hook; KmeansHook kmeans_hook; DetectHook detect_hook; ImreadHook imread_hook;
UndistHook undist_hook; GlobHook glob_hook;
static std::vector<Block> &bl() { if (!blocks) blocks = new std::vector<Block>(); return *blocks; }
std::vector<Block> &recorded() { return bl(); }
void clear() { bl().clear(); }
void vec3(double *o, cv::InputArray a) { cv::Mat m; a.getMat().convertTo(m, CV_64F); m = m.reshape(1, 3); for (int i = 0; i < 3; i++) o[i] = m.at<double>(i); }
}
namespace env { int random_mode, random_levels = 12, opaque_projection; }
extern "C" int sx_random_index(int n) { return env::random_mode && n > 1 ? sx_choose("perm", 0, n - 1) : n - 1; }
extern "C" unsigned sx_random_bits(void) { return env::random_mode ? (unsigned)((2 * sx_choose("rng", 0, env::random_levels - 1) + 1) * (4294967296.0 / (2 * env::random_levels))) : 0x15555555u; }
using namespace env;
// ---------------- Ceres: problems record their residual blocks, Solve runs the hook
namespace ceres {
void *sxProbAdd(Problem *, CostFunction *, LossFunction *, double *const *, int) asm("_ZN5ceres7Problem16AddResidualBlockEPNS_12CostFunctionEPNS_12LossFunctionEPKPdi");
void *sxProbAdd(Problem *p, CostFunction *c, LossFunction *l, double *const *x, int n) {
  Block b; b.problem = p; b.cost = c; b.loss = l; b.n = n; for (int i = 0; i < n && i < 8; i++) b.x[i] = x[i];
  recorded().push_back(b); return nullptr;
}
void sxProbCtor(void **p) asm("_ZN5ceres7ProblemC1Ev");
void sxProbCtor(void **p) { *p = nullptr; }
void sxProbDtor(void **p) asm("_ZN5ceres7ProblemD1Ev");
void sxProbDtor(void **p) { }
void sxSolve(const void *, Problem *, void *) asm("_ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE");
void sxSolve(const void *, Problem *, void *) { if (solve_hook) solve_hook(); }
}
// ---------------- OpenCV solvers
namespace cv {
bool solvePnP(InputArray o, InputArray i, InputArray K, InputArray d, OutputArray r, OutputArray t, bool guess, int flags) {
  double rv[3], tv[3];
  pnp_calls++;
  if (pnp_hook) { if (!pnp_hook(o, i, K, d, rv, tv, flags)) return false; } else sx_pose_gen("pnp", rv, tv);
  Mat R(3, 1, CV_64F), T(3, 1, CV_64F); for (int k = 0; k < 3; k++) { R.at<double>(k) = rv[k]; T.at<double>(k) = tv[k]; }
  R.copyTo(r); T.copyTo(t); return true;
}
double calibrateCamera(InputArrayOfArrays o, InputArrayOfArrays i, Size s, InputOutputArray K, InputOutputArray d, OutputArrayOfArrays r, OutputArrayOfArrays t, int flags, TermCriteria) {
  Mat k = Mat::eye(3, 3, CV_64F), D = Mat::zeros(1, 5, CV_64F);
  if (calib_hook) calib_hook(0, o, i, s, k, D, flags);
  if (!(flags & CALIB_USE_INTRINSIC_GUESS) || calib_hook) { k.copyTo(K); D.copyTo(d); }
  return 0;
}
namespace fisheye {
double calibrate(InputArrayOfArrays o, InputArrayOfArrays i, const Size &s, InputOutputArray K, InputOutputArray d, OutputArrayOfArrays r, OutputArrayOfArrays t, int flags, TermCriteria) {
  Mat k = Mat::eye(3, 3, CV_64F), D = Mat::zeros(1, 4, CV_64F);
  if (calib_hook) calib_hook(1, o, i, s, k, D, flags);
  k.copyTo(K); D.copyTo(d); return 0;
}
void undistortPoints(InputArray s, OutputArray d, InputArray K, InputArray D, InputArray R, InputArray P, TermCriteria) {
  if (undist_hook) { undist_hook(s, d, K, D, P); return; }
  s.getMat().copyTo(d);
}
}
void calibrateHandEye(InputArrayOfArrays a, InputArrayOfArrays b, InputArrayOfArrays c, InputArrayOfArrays d, OutputArray R, OutputArray t, HandEyeCalibrationMethod m) {
  double rv[3], tv[3];
  if (handeye_hook) handeye_hook(a, b, c, d, rv, tv); else sx_pose_gen("handeye", rv, tv);
  Mat r(3, 1, CV_64F), T(3, 1, CV_64F), M; for (int k = 0; k < 3; k++) { r.at<double>(k) = rv[k]; T.at<double>(k) = tv[k]; }
  Rodrigues(r, M); M.copyTo(R); T.copyTo(t);
}
double kmeans(InputArray data, int K, InputOutputArray best, TermCriteria, int, int, OutputArray centers) {
  int n = data.getMat().rows; Mat l(n, 1, CV_32S);
  for (int i = 0; i < n; i++) l.at<int>(i) = kmeans_hook ? kmeans_hook(i, n, K) : i % K;
  l.copyTo(best);
  Mat c(K, data.getMat().cols, CV_32F, Scalar(0)); c.copyTo(centers); return 0;
}
// ---------------- images and detection
Mat imread(const String &f, int) { if (imread_hook) return imread_hook(f); return Mat(4, 6, CV_8UC3, Scalar(0, 0, 0)); }
bool imwrite(const String &f, InputArray m, const std::vector<int> &) { if (imwrite_hook) imwrite_hook(f, m); return true; }
void cvtColor(InputArray a, OutputArray b, int code, int) { Mat s = a.getMat(); Mat r(s.rows, s.cols, CV_8UC1, Scalar(0)); if (s.type() == CV_8UC3) for (int y = 0; y < s.rows; y++) for (int x = 0; x < s.cols; x++) r.at<uchar>(y, x) = s.at<Vec3b>(y, x)[2]; r.copyTo(b); } // harness images are grey where it matters
void circle(InputOutputArray m, Point c, int r, const Scalar &s, int, int, int) { if (circle_hook) circle_hook(m, c, r, s); }
void glob(String p, std::vector<String> &r, bool) { r.clear(); if (glob_hook) glob_hook(p, r); }
namespace aruco {
void detectMarkers(InputArray image, const Ptr<Dictionary> &dict, OutputArrayOfArrays corners, OutputArray ids, const Ptr<DetectorParameters> &p, OutputArrayOfArrays) {
  auto &c = *(std::vector<std::vector<Point2f>> *)corners.getObj(); auto &id = *(std::vector<int> *)ids.getObj();
  c.clear(); id.clear(); if (detect_hook) detect_hook(0, image, nullptr, c, id, nullptr);
}
int interpolateCornersCharuco(InputArrayOfArrays mc, InputArray mi, InputArray image, const Ptr<CharucoBoard> &b, OutputArray cc, OutputArray ci, InputArray, InputArray, int) {
  auto &c = *(std::vector<Point2f> *)cc.getObj(); auto &id = *(std::vector<int> *)ci.getObj();
  std::vector<std::vector<Point2f>> dummy; c.clear(); id.clear();
  if (detect_hook) detect_hook(1, image, b.get(), dummy, id, &c); return (int)c.size();
}
}
}
