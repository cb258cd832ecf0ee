// Pose algebra, rotation conversions, medians, projection dispatch, robust pose estimation.
#include "cal.h"
#include <algorithm>
#ifndef SX_N
#define SX_N 5
#endif
static cv::Mat vec3(const double *v, bool row = false) { cv::Mat m = row ? cv::Mat(1, 3, CV_64F) : cv::Mat(3, 1, CV_64F); for (int i = 0; i < 3; i++) m.at<double>(i) = v[i]; return m; }
static void rotEq(const cv::Mat &a, const cv::Mat &b, const char *l) { proveMatEq(a, b, l); }
// conversions between matrix and vector forms of rigid transformations
extern "C" void h_pose() {
  double r[3], t[3]; sx_pose_gen("pose", r, t); cv::Mat P = poseMat(r, t);
  bool row = sx_choose("row", 0, 1);
  cv::Mat rv = vec3(r, row), tv = vec3(t);
  proveMatEq(RVecT2Proj(rv, tv), P, "a rotation vector and a translation give the rigid transformation");
  cv::Mat R; cv::Rodrigues(rv, R); proveMatEq(RT2Proj(R, tv), P, "a rotation matrix and a translation give the rigid transformation");
  cv::Mat r2, t2; Proj2RT(P, r2, t2); sx_prove(r2.total() == 3 && t2.total() == 3, "a rigid transformation splits into its rotation vector and translation");
  for (int i = 0; i < 3; i++) { sx_prove_eq(r2.at<double>(i), r[i], "a rigid transformation splits into its rotation vector and translation"); sx_prove_eq(t2.at<double>(i), t[i], "a rigid transformation splits into its rotation vector and translation"); }
  cv::Mat ir, it; invertRvecT(rv, tv, ir, it); proveMatEq(RVecT2Proj(ir, it) * P, cv::Mat::eye(4, 4, CV_64F), "inversion gives the inverse transformation");
  for (int i = 0; i < 3; i++) { sx_prove_eq(rv.at<double>(i), r[i], "inversion leaves its input alone"); sx_prove_eq(tv.at<double>(i), t[i], "inversion leaves its input alone"); }
  cv::Mat a = rv.clone(), b = tv.clone(); invertRvecT(a, b); proveMatEq(P * RVecT2Proj(a, b), cv::Mat::eye(4, 4, CV_64F), "in-place inversion gives the inverse transformation");
  std::array<float, 6> v = ProjToVec(P); for (int i = 0; i < 3; i++) { sx_prove_close(v[i], r[i], 1e-4, "the six-vector of a transformation is its rotation vector then its translation"); sx_prove_close(v[3 + i], t[i], 1e-4, "the six-vector of a transformation is its rotation vector then its translation"); }
  sx_reach(row ? "row" : "column");
}
// every entity that stores a pose returns the pose it was given
template <class F, class G> static void trip(F set, G get, const cv::Mat &P, const char *l) { set(P); proveMatEq(get(), P, l); }
extern "C" void h_poseset() {
  Calibration *c = makeCalib(2, 2); std::vector<cv::Point2f> p(1); std::vector<int> id(1); c->insertNewBoard(1, 3, 0, p, id, "x");
  BoardObs &o = *c->board_observations_[0];
  cv::Mat P = genPose("p"), Q = genPose("q"), rq, tq; Proj2RT(Q, rq, tq); const char *l = "a stored pose is returned unchanged";
  auto vec = [&](const cv::Mat &r, const cv::Mat &t, const cv::Mat &W) { proveMatEq(RVecT2Proj(r, t), W, l); };
  cv::Mat r, t; int two = sx_choose("vector", 0, 1);
  if (two) o.setPoseVec(rq, tq); else o.setPoseMat(Q);
  proveMatEq(o.getPoseMat(), Q, l); vec(o.getRotVec(), o.getTransVec(), Q); o.getPoseVec(r, t); vec(r, t, Q);
  auto obj = std::make_shared<Object3D>(2, 0, 0, std::array<int, 3>{1, 2, 3}); Object3DObs x(obj, 0);
  x.setPoseMat(P); x.setPoseInGroupMat(P);
  if (two) x.setPoseVec(rq, tq); else x.setPoseMat(Q);
  proveMatEq(x.getPoseMat(), Q, l); vec(x.getRotVec(), x.getTransVec(), Q); x.getPoseVec(r, t); vec(r, t, Q); proveMatEq(x.getPoseInGroupMat(), P, "the pose in the camera and the pose in the group are separate");
  x.setPoseMat(P); if (two) x.setPoseInGroupVec(rq, tq); else x.setPoseInGroupMat(Q);
  proveMatEq(x.getPoseInGroupMat(), Q, l); vec(x.getRotInGroupVec(), x.getTransInGroupVec(), Q); x.getPoseInGroupVec(r, t); vec(r, t, Q); proveMatEq(x.getPoseMat(), P, "the pose in the camera and the pose in the group are separate");
  obj->setBoardPoseMat(0, P); if (two) obj->setBoardPoseVec(1, rq, tq); else obj->setBoardPoseMat(1, Q);
  proveMatEq(obj->getBoardPoseMat(0), P, l); proveMatEq(obj->getBoardPoseMat(1), Q, l); vec(obj->getBoardRotVec(1), obj->getBoardTransVec(1), Q); obj->getBoardPoseVec(1, r, t); vec(r, t, Q);
  CameraGroup g(0, 0); g.setCameraPoseMat(P, 0); if (two) g.setCameraPoseVec(rq, tq, 1); else g.setCameraPoseMat(Q, 1);
  proveMatEq(g.getCameraPoseMat(0), P, l); proveMatEq(g.getCameraPoseMat(1), Q, l); vec(g.getCameraRotVec(1), g.getCameraTransVec(1), Q); g.getCameraPoseVec(1, r, t); vec(r, t, Q);
  CameraGroupObs go(std::make_shared<CameraGroup>(0, 0), true); go.setObjectPoseMat(P, 0); if (two) go.setObjectPoseVec(rq, tq, 1); else go.setObjectPoseMat(Q, 1);
  proveMatEq(go.getObjectPoseMat(0), P, l); proveMatEq(go.getObjectPoseMat(1), Q, l); vec(go.getObjectRotVec(1), go.getObjectTransVec(1), Q); go.getObjectPoseVec(1, r, t); vec(r, t, Q);
  sx_reach("set");
}
extern "C" void h_transform() {
  double r[3], t[3]; sx_pose_gen("pose", r, t); cv::Mat P = poseMat(r, t); std::vector<cv::Point3f> p;
  int n = sx_choose("points", 0, 3);
  for (int i = 0; i < n; i++) { cv::Point3f q; q.x = sx_realf("x"); q.y = sx_realf("y"); q.z = sx_realf("z"); sx_assume(q.x > -100 && q.x < 100 && q.y > -100 && q.y < 100 && q.z > -100 && q.z < 100); p.push_back(q); }
  auto o = transform3DPts(p, vec3(r), vec3(t)); sx_prove((int)o.size() == n, "every point is transformed");
  for (int i = 0; i < n; i++) { double q[3] = {p[i].x, p[i].y, p[i].z}, w[3] = {o[i].x, o[i].y, o[i].z}; for (int k = 0; k < 3; k++) { double s = P.at<double>(k, 3); for (int j = 0; j < 3; j++) s += P.at<double>(k, j) * q[j]; sx_prove_close(w[k], s, 1e-3, "points are moved by the rigid transformation"); } }
  sx_reach(n ? "points" : "none");
}
static cv::Mat camK(double f0, double f1, double u, double v) { cv::Mat K = cv::Mat::eye(3, 3, CV_64F); K.at<double>(0, 0) = f0; K.at<double>(1, 1) = f1; K.at<double>(0, 2) = u; K.at<double>(1, 2) = v; return K; }
extern "C" void h_project() {
  int m = sx_choose("model", 0, 1); double r[3], t[3]; sx_pose_gen("pose", r, t); t[2] += 10;
  std::vector<cv::Point3f> p; for (int i = 0; i < 2; i++) { cv::Point3f q; q.x = sx_realf("x"); q.y = sx_realf("y"); q.z = sx_realf("z"); sx_assume(q.x > -1 && q.x < 1 && q.y > -1 && q.y < 1 && q.z > -1 && q.z < 1); p.push_back(q); }
  double f0 = sx_real("fx"), f1 = sx_real("fy"), u = sx_real("u0"), v = sx_real("v0"); sx_assume(f0 > 1 && f0 < 5000 && f1 > 1 && f1 < 5000 && u > 0 && u < 5000 && v > 0 && v < 5000);
  cv::Mat K = camK(f0, f1, u, v), D(1, m ? 4 : 5, CV_64F); for (int i = 0; i < D.cols; i++) { D.at<double>(i) = sx_real("d"); sx_assume(D.at<double>(i) > -0.1 && D.at<double>(i) < 0.1); }
  std::vector<cv::Point2f> a, b; projectPointsWithDistortion(p, vec3(r), vec3(t), K, D, m, a);
  if (m) cv::fisheye::projectPoints(p, b, vec3(r), vec3(t), K, D); else cv::projectPoints(p, vec3(r), vec3(t), K, D, b);
  sx_prove(a.size() == b.size(), "a lens model projects with its own projection"); for (size_t i = 0; i < b.size(); i++) { sx_prove_eq(a[i].x, b[i].x, "a lens model projects with its own projection"); sx_prove_eq(a[i].y, b[i].y, "a lens model projects with its own projection"); }
  sx_reach(m ? "fisheye" : "perspective");
}
extern "C" void h_median() {
  int n = sx_choose("n", 0, SX_N); std::vector<double> v, w; for (int i = 0; i < n; i++) { double x = sx_real("v"); sx_assume(x > -1e6 && x < 1e6); v.push_back(x); } w = v;
  double m = median(v);
  sx_prove((int)v.size() == n, "the median leaves the number of values");
  if (n == 0) { sx_prove_eq(m, 0, "the median of nothing is zero"); sx_reach("empty"); return; }
  // k-th order statistics by counting
  int lo = (n - 1) / 2, hi = n / 2; double a = 0, b = 0; bool fa = false, fb = false;
  for (int i = 0; i < n; i++) { int lt = 0, le = 0; for (int j = 0; j < n; j++) { if (w[j] < w[i]) lt++; if (w[j] <= w[i]) le++; } if (lt <= lo && lo < le) { a = w[i]; fa = true; } if (lt <= hi && hi < le) { b = w[i]; fb = true; } }
  sx_prove(fa && fb, "oracle"); sx_prove_eq(m, (a + b) / 2, "the median is the middle value");
  sx_reach(n % 2 ? "odd" : "even");
}
// unit quaternions <-> rotation matrices
static void unit(double n) { if (sx_symbolic_run()) sx_assume(n == 1); else sx_assume(n > 1 - 1e-6 && n < 1 + 1e-6); }
extern "C" void h_quat() {
  double q[4], n = 0; for (int i = 0; i < 4; i++) { q[i] = sx_real("q"); n += q[i] * q[i]; sx_assume(q[i] >= -1 && q[i] <= 1); } unit(n);
  double x = q[0], y = q[1], z = q[2], w = q[3];
  double want[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)};
  cv::Mat R = convertQuaternionToRotationMatrix(std::array<double, 4>{x, y, z, w});
  for (int i = 0; i < 9; i++) sx_prove_eq(R.at<double>(i / 3, i % 3), want[i], "a unit quaternion (x, y, z, w) gives its rotation matrix");
  sx_reach("matrix");
}
extern "C" void h_quat_back() {
  double q[4], n = 0; for (int i = 0; i < 4; i++) { q[i] = sx_real("q"); n += q[i] * q[i]; sx_assume(q[i] >= -1 && q[i] <= 1); } unit(n);
  // q and -q are the same rotation: fix the sign of the component whose
  // magnitude is the safe one to divide by
  int c = sx_choose("chart", 0, 3); sx_assume(q[c] > 0);
  if (c == 3) sx_assume(4 * q[3] * q[3] > 1); else { sx_assume(4 * q[3] * q[3] <= 1); for (int i = 0; i < 3; i++) sx_assume(q[c] >= q[i] && q[c] >= -q[i]); }
  double x = q[0], y = q[1], z = q[2], w = q[3];
  cv::Mat R(3, 3, CV_64F); double want[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)};
  for (int i = 0; i < 9; i++) R.at<double>(i / 3, i % 3) = want[i];
  cv::Mat Q = convertRotationMatrixToQuaternion(R); sx_prove(Q.total() == 4, "a rotation matrix gives one quaternion");
  double b[4]; for (int i = 0; i < 4; i++) b[i] = Q.at<double>(i);
  bool flip = sx_branch(b[c] < 0); for (int i = 0; i < 4; i++) sx_prove_eq(flip ? -b[i] : b[i], q[i], "a rotation matrix gives its unit quaternion, up to sign");
  sx_reach("quaternion");
}

// ---- robust pose estimation from 2D-3D matches
#ifndef SX_IT
#define SX_IT 2
#endif
namespace rs {
std::vector<cv::Point3f> obj; std::vector<cv::Point2f> img; cv::Mat K, D; bool fish; int samples, refines; double rv[3], tv[8][3], last[3]; bool okSample; std::vector<int> refSet; int degree;
// index of a scene point
int find(const cv::Point3f &p) { for (size_t i = 0; i < obj.size(); i++) if (obj[i] == p) return (int)i; return -1; }
cv::Point2f target(int i) { cv::Point2f p = img[i]; return p; }
bool pnp(cv::InputArray o, cv::InputArray im, cv::InputArray k, cv::InputArray d, double *r, double *t, int flags) {
  cv::Mat a = o.getMat(), b = im.getMat(); int n = (int)a.total(); const char *l = "every sample pairs scene points with their own image points";
  sx_prove((int)b.total() == n, l); std::vector<int> ids; bool dup = false, al = true;
  for (int i = 0; i < n; i++) { cv::Point3f p = a.at<cv::Point3f>(i); int id = find(p); if (id < 0) al = false; else { cv::Point2f w = target(id); sx_prove_close(b.at<cv::Point2f>(i).x, w.x, 1e-3, l); sx_prove_close(b.at<cv::Point2f>(i).y, w.y, 1e-3, l); for (int x : ids) if (x == id) dup = true; ids.push_back(id); } }
  sx_prove(al && !dup, "a sample consists of distinct matches");
  cv::Mat Km = k.getMat(), Dm = d.getMat(); for (int i = 0; i < 9; i++) sx_prove_eq(Km.at<double>(i / 3, i % 3), K.at<double>(i / 3, i % 3), "poses are estimated with the camera's intrinsics");
  if (!fish) for (int i = 0; i < 5; i++) sx_prove_eq(Dm.at<double>(i), D.at<double>(i), "poses are estimated with the camera's intrinsics"); else for (size_t i = 0; i < Dm.total(); i++) sx_prove_eq(Dm.at<double>(i), 0, "undistorted points are used without distortion");
  for (int i = 0; i < 3; i++) { r[i] = 0; t[i] = 0; } t[2] = 10;
  if (n == 4 && flags == cv::SOLVEPNP_P3P) { if (samples < 8) { t[0] = sx_choose("hyp", 0, 1); for (int i = 0; i < 3; i++) tv[samples][i] = t[i]; } samples++; }
  else { refines++; refSet = ids; t[1] = 0.25; }
  return true;
}
void undist(cv::InputArray s, cv::OutputArray d, cv::InputArray k, cv::InputArray dd, cv::InputArray P) { // the ideal lens: normalised coordinates
  cv::Mat a = s.getMat(), b(a.rows, a.cols, CV_32FC2); for (size_t i = 0; i < a.total(); i++) { cv::Point2f p = a.at<cv::Point2f>((int)i); b.at<cv::Point2f>((int)i) = cv::Point2f((p.x - 50) / 100, (p.y - 60) / 200); } b.copyTo(d);
}
}
extern "C" void h_ransac() {
  using namespace rs; fish = sx_choose("fisheye", 0, 1); bool refine = sx_choose("refine", 0, 1); int n = sx_choose("matches", 4, SX_N);
  K = camK(100, 200, 50, 60); D = cv::Mat::zeros(1, fish ? 4 : 5, CV_64F); env::pnp_hook = pnp; env::undist_hook = undist;
  double th = sx_real("threshold"); sx_assume(th >= 0.125 && th <= 16); float thf = (float)th; if (!sx_symbolic_run()) th = thf;
  // the true points project to K[X|t]; deviations are arbitrary along x
  for (int i = 0; i < n; i++) { obj.push_back(cv::Point3f((float)(i % 2), (float)(i / 2), 0)); float e = sx_realf("error"); sx_assume(e > -32 && e < 32); img.push_back(cv::Point2f(100 * (i % 2) / 10.f + 50 + e, 200 * (i / 2) / 10.f + 60)); }
  cv::Mat R, T, in = ransacP3PDistortion(obj, img, K, D, R, T, thf, SX_IT, fish, 0.99, refine);
  sx_prove(samples >= 1 && samples <= SX_IT, "the number of hypotheses stays within the limit");
  // inliers of a hypothesis t: distance to the observed point below the threshold
  auto inl = [&](const double *t, int i) { double u = 100 * (obj[i].x + t[0]) / t[2] + 50, v = 200 * (obj[i].y + t[1]) / t[2] + 60, dx = img[i].x - u, dy = img[i].y - v; return std::sqrt(dx * dx + dy * dy) < th; };
  int best = 0, bi = -1; for (int s = 0; s < samples; s++) { int c = 0; for (int i = 0; i < n; i++) if (inl(tv[s], i)) c++; if (c > best) { best = c; bi = s; } }
  sx_prove((int)in.total() == best, "the result keeps the hypothesis with most inliers");
  if (best > 0) {
    bool same = true; std::vector<int> set; for (int i = 0; i < n; i++) if (inl(tv[bi], i)) set.push_back(i);
    for (int i = 0; i < best; i++) if (in.at<int>(i) != set[i]) same = false;
    sx_prove(same, "inliers are exactly the matches within the threshold");
    bool ref = refine && best >= 4; sx_prove(refines == (ref ? 1 : 0), "refinement runs once when there are enough inliers");
    if (ref) { sx_prove(refSet == set, "refinement uses exactly the inliers"); }
    sx_prove_close(T.at<double>(0), ref ? 0 : tv[bi][0], 1e-9, "the pose returned is the one of the best hypothesis"); sx_prove_close(T.at<double>(1), ref ? 0.25 : 0, 1e-9, "the pose returned is the one of the best hypothesis"); sx_prove_close(T.at<double>(2), 10, 1e-9, "the pose returned is the one of the best hypothesis");
    // stopping early needs the stated confidence
    if (samples < SX_IT) { double f = (double)in.total() / n, q = 1 - f * f * f; if (q < 1e-5) q = 1e-5; if (q > 1 - 1e-5) q = 1 - 1e-5; sx_prove(samples - 1 - bi >= std::floor(std::log(0.01) / std::log(q)), "sampling stops early only with the stated confidence"); }
  } else sx_prove(samples == SX_IT, "sampling goes on until a hypothesis has inliers");
  sx_reach(best == n ? "all inliers" : best ? "some inliers" : "no inliers");
}
// rotation averaging: dominant eigenvector of the mean outer product, or the per-component median
extern "C" void h_average() {
  int n = sx_choose("rotations", 1, 2), quat = sx_choose("quaternion", 0, 1); std::vector<double> a, b, c; std::vector<cv::Mat> q;
  for (int i = 0; i < n; i++) { double r[3], t[3]; sx_pose_gen("pose", r, t); a.push_back(r[0]); b.push_back(r[1]); c.push_back(r[2]); }
  std::vector<double> a2 = a, b2 = b, c2 = c; cv::Mat m;
  if (!quat) { m = getAverageRotation(a, b, c, false); double w[3] = {median(a2), median(b2), median(c2)}; sx_prove(m.total() == 3, "one rotation vector"); for (int i = 0; i < 3; i++) sx_prove_eq(m.at<double>(i), w[i], "without quaternion averaging each component is the median of its own component"); sx_reach("median"); return; }
  cv::Mat A = cv::Mat::zeros(4, 4, CV_64F);
  for (int i = 0; i < n; i++) { cv::Mat r(3, 1, CV_64F), R; r.at<double>(0) = a[i]; r.at<double>(1) = b[i]; r.at<double>(2) = c[i]; cv::Rodrigues(r, R); cv::Mat q = convertRotationMatrixToQuaternion(R); for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) A.at<double>(x, y) += q.at<double>(x) * q.at<double>(y); }
  for (int x = 0; x < 16; x++) A.at<double>(x / 4, x % 4) /= n;
  cv::SVD s(A, cv::SVD::FULL_UV); cv::Mat w; cv::Rodrigues(convertQuaternionToRotationMatrix(std::array<double, 4>{s.u.at<double>(0, 0), s.u.at<double>(1, 0), s.u.at<double>(2, 0), s.u.at<double>(3, 0)}), w);
  m = getAverageRotation(a, b, c, true); sx_prove(m.total() == 3, "one rotation vector"); for (int i = 0; i < 3; i++) sx_prove_eq(m.at<double>(i), w.at<double>(i), "quaternion averaging returns the dominant direction of all rotations");
  sx_reach("quaternion");
}
