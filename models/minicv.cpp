// Executable model of the part of OpenCV core that MC-Calib uses, written in
// plain C++ so that it can be executed symbolically next to the real code.
// (Symbolic runs only: native replays link the real OpenCV.)
#include "sx_api.h"
#include <opencv2/core.hpp>
#include <opencv2/calib3d.hpp>
#include <opencv2/imgproc.hpp>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace env { extern int opaque_projection; typedef bool (*ProjectHook)(const cv::Point3d &p, const cv::Mat &r, const cv::Mat &t, const cv::Mat &K, const cv::Mat &d, double uv[2]); extern ProjectHook project_hook; }
namespace cv {
// ---------------------------------------------------------------- errors
void error(int, const String &err, const char *func, const char *, int) {
  sx_fault("cv-exception", err.c_str());
  abort();
}
void error(const Exception &e) { sx_fault("cv-exception", "cv::Exception"); abort(); }
String format(const char *fmt, ...) { return String(fmt); }
static void need(bool b, const char *what) { if (!b) { sx_fault("cv-exception", what); abort(); } }
static void unsup(const char *what) { sx_unsupported(what); }

// ---------------------------------------------------------------- Mat
static const size_t HDR = 16;
static size_t esz(int type) { return CV_ELEM_SIZE(type); }
static void initHdr(Mat &m) {
  m.flags = Mat::MAGIC_VAL; m.dims = 0; m.rows = m.cols = 0; m.data = nullptr;
  m.datastart = m.dataend = m.datalimit = nullptr; m.allocator = nullptr; m.u = nullptr;
  m.size.p = &m.rows; m.step.p = m.step.buf; m.step.buf[0] = m.step.buf[1] = 0;
}
static void setGeom(Mat &m, int r, int c, int type, size_t step) {
  type &= CV_MAT_TYPE_MASK;
  m.dims = 2; m.rows = r; m.cols = c;
  m.step.buf[0] = step; m.step.buf[1] = esz(type);
  bool cont = r <= 1 || step == c * esz(type);
  m.flags = Mat::MAGIC_VAL | type | (cont ? Mat::CONTINUOUS_FLAG : 0);
}
static void addref(Mat &m) { if (m.u) __atomic_fetch_add((int *)m.u, 1, __ATOMIC_ACQ_REL); }
Mat::Mat() CV_NOEXCEPT : size(&rows) { initHdr(*this); }
Mat::Mat(int r, int c, int t) : size(&rows) { initHdr(*this); create(r, c, t); }
Mat::Mat(Size s, int t) : size(&rows) { initHdr(*this); create(s.height, s.width, t); }
Mat::Mat(int r, int c, int t, const Scalar &s) : size(&rows) { initHdr(*this); create(r, c, t); *this = s; }
Mat::Mat(Size sz, int t, const Scalar &s) : size(&rows) { initHdr(*this); create(sz.height, sz.width, t); *this = s; }
Mat::Mat(int r, int c, int t, void *d, size_t st) : size(&rows) {
  initHdr(*this); setGeom(*this, r, c, t, st == AUTO_STEP ? c * esz(t) : st); data = (uchar *)d; datastart = data;
}
Mat::Mat(Size s, int t, void *d, size_t st) : size(&rows) {
  initHdr(*this); setGeom(*this, s.height, s.width, t, st == AUTO_STEP ? s.width * esz(t) : st); data = (uchar *)d; datastart = data;
}
static void share(Mat &d, const Mat &s) {
  initHdr(d); d.flags = s.flags; d.dims = s.dims; d.rows = s.rows; d.cols = s.cols; d.data = s.data; d.datastart = s.datastart; d.dataend = s.dataend; d.datalimit = s.datalimit; d.u = s.u;
  d.step.buf[0] = s.step.buf[0]; d.step.buf[1] = s.step.buf[1]; addref(d);
}
Mat::Mat(const Mat &m) : size(&rows) { share(*this, m); }
Mat::Mat(Mat &&m) : size(&rows) { share(*this, m); m.release(); }
static void roi(Mat &d, const Mat &m, int r0, int r1, int c0, int c1) {
  need(m.dims <= 2, "roi dims"); need(0 <= r0 && r0 <= r1 && r1 <= m.rows && 0 <= c0 && c0 <= c1 && c1 <= m.cols, "matrix range outside the matrix");
  share(d, m); setGeom(d, r1 - r0, c1 - c0, m.type(), m.step.buf[0]); d.data = m.data + r0 * m.step.buf[0] + c0 * m.elemSize();
}
Mat::Mat(const Mat &m, const Range &r, const Range &c) : size(&rows) {
  roi(*this, m, r == Range::all() ? 0 : r.start, r == Range::all() ? m.rows : r.end, c == Range::all() ? 0 : c.start, c == Range::all() ? m.cols : c.end);
}
Mat::Mat(const Mat &m, const Rect &r) : size(&rows) { roi(*this, m, r.y, r.y + r.height, r.x, r.x + r.width); }
Mat::~Mat() { release(); }
void Mat::release() { if (u) { int *rc = (int *)u; u = nullptr; if (__atomic_fetch_sub(rc, 1, __ATOMIC_ACQ_REL) == 1) ::free(rc); } data = nullptr; datastart = nullptr; rows = cols = 0; u = nullptr; dims = dims ? dims : 0; }
Mat &Mat::operator=(const Mat &m) { if (this != &m) { Mat t(m); release(); share(*this, t); } return *this; }
Mat &Mat::operator=(Mat &&m) { if (this != &m) { release(); share(*this, m); m.release(); } return *this; }
void Mat::create(int r, int c, int t) {
  t &= CV_MAT_TYPE_MASK;
  if (dims <= 2 && rows == r && cols == c && type() == t && data) return;
  release(); need(r >= 0 && c >= 0, "negative matrix size");
  initHdr(*this); setGeom(*this, r, c, t, c * esz(t));
  size_t n = r * c * esz(t);
  if (n) { int *b = (int *)malloc(HDR + n); b[0] = 1; u = (UMatData *)b; data = (uchar *)b + HDR; datastart = data; }
}
void Mat::create(Size s, int t) { create(s.height, s.width, t); }
bool Mat::empty() const { return data == 0 || total() == 0 || dims == 0; }
size_t Mat::total() const { return dims <= 2 ? (size_t)rows * cols : 0; }
static double getv(const Mat &m, int r, int c, int ch = 0) {
  const uchar *p = m.data + r * m.step.buf[0] + c * m.step.buf[1];
  switch (m.depth()) {
  case CV_64F: return ((const double *)p)[ch]; case CV_32F: return ((const float *)p)[ch]; case CV_32S: return ((const int *)p)[ch];
  case CV_8U: return p[ch]; case CV_8S: return ((const schar *)p)[ch]; case CV_16U: return ((const ushort *)p)[ch]; case CV_16S: return ((const short *)p)[ch];
  }
  unsup("matrix depth"); return 0;
}
static void setv(Mat &m, int r, int c, int ch, double v) {
  uchar *p = m.data + r * m.step.buf[0] + c * m.step.buf[1];
  switch (m.depth()) {
  case CV_64F: ((double *)p)[ch] = v; return; case CV_32F: ((float *)p)[ch] = (float)v; return; case CV_32S: ((int *)p)[ch] = saturate_cast<int>(v); return;
  case CV_8U: p[ch] = (uchar)(v < 0 ? 0 : v > 255 ? 255 : (int)__builtin_rint(v)); return;
  }
  unsup("matrix depth");
}
Mat &Mat::operator=(const Scalar &s) { for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) for (int k = 0; k < channels(); k++) setv(*this, i, j, k, s[k & 3]); return *this; }
static void copyMat(const Mat &s, Mat &d) { for (int i = 0; i < s.rows; i++) memcpy(d.data + i * d.step.buf[0], s.data + i * s.step.buf[0], s.cols * s.elemSize()); }
// results of in-place operators go to the storage of the matrix when they fit it
static void into(Mat &m, const Mat &r) { if (m.rows == r.rows && m.cols == r.cols && m.type() == r.type()) copyMat(r, m); else m = r; }
static Mat cloneM(const Mat &m) { Mat r; if (m.dims == 0) return r; r.create(m.rows, m.cols, m.type()); if (m.rows && m.cols) copyMat(m, r); return r; }
Mat Mat::clone() const { return cloneM(*this); }
Mat Mat::reshape(int cn, int nr, const int *) const { unsup("reshape nd"); return *this; }
Mat Mat::reshape(int cn, int nr) const {
  Mat h(*this); int c0 = channels(); if (cn == 0) cn = c0; size_t tot = total() * c0;
  if (nr == 0) { nr = rows; if ((cols * c0) % cn != 0) nr = (int)(tot / cn); }
  else need(isContinuous(), "reshape of a non-continuous matrix");
  need(nr && tot % ((size_t)nr * cn) == 0, "reshape: total size mismatch");
  int nc = (int)(tot / nr / cn);
  setGeom(h, nr, nc, CV_MAKETYPE(depth(), cn), nr == rows ? step.buf[0] : nc * cn * elemSize1());
  return h;
}
static double *dbl(Mat &m) { return (double *)m.data; }
static Mat toD(const Mat &m) { if (m.depth() == CV_64F && m.isContinuous()) return m; Mat r; int cn = m.channels(); r.create(m.rows, m.cols, CV_MAKETYPE(CV_64F, cn)); for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) for (int k = 0; k < cn; k++) setv(r, i, j, k, getv(m, i, j, k)); return r; }
static Mat convertM(const Mat &m, int type) { int d = CV_MAT_DEPTH(type), cn = m.channels(); if (d == m.depth()) return cloneM(m); Mat r; r.create(m.rows, m.cols, CV_MAKETYPE(d, cn)); for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) for (int k = 0; k < cn; k++) setv(r, i, j, k, getv(m, i, j, k)); return r; }
static Mat mul(const Mat &a, const Mat &b) {
  need(a.type() == b.type() && (a.type() == CV_64F || a.type() == CV_32F), "matrix product: types differ or are not floating point");
  need(a.cols == b.rows, "matrix product: inner dimensions differ");
  Mat r(a.rows, b.cols, a.type());
  if (a.type() == CV_64F && a.rows == a.cols && b.rows == b.cols && (a.rows == 3 || a.rows == 4)) {
    Mat x = toD(a), y = toD(b);
    if (!x.isContinuous()) x = x.clone(); if (!y.isContinuous()) y = y.clone();
    if (sx_m_mul(dbl(x), dbl(y), dbl(r), a.rows)) return r;
  }
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < b.cols; j++) { double s = 0; for (int k = 0; k < a.cols; k++) s += getv(a, i, k) * getv(b, k, j); setv(r, i, j, 0, s); }
  return r;
}
static Mat transp(const Mat &a) {
  Mat r(a.cols, a.rows, a.type()); size_t e = a.elemSize();
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cols; j++) memcpy(r.data + j * r.step.buf[0] + i * e, a.data + i * a.step.buf[0] + j * e, e);
  return r;
}
static Mat inverse(const Mat &a0) {
  Mat a = toD(a0); if (!a.isContinuous()) a = a.clone();
  need(a.rows == a.cols, "inverse of a non-square matrix");
  int n = a.rows; Mat r(n, n, CV_64F);
  if ((n == 3 || n == 4) && sx_m_inv(dbl(a), dbl(r), n)) return a0.type() == CV_32F ? convertM(r, CV_32F) : r;
  bool conc = true; for (int i = 0; i < n && conc; i++) for (int j = 0; j < n; j++) if (sx_is_sym(getv(a, i, j))) { conc = false; break; }
  if (n > 4 && conc) { // Gauss-Jordan with row pivots
    std::vector<std::vector<double>> g(n, std::vector<double>(2 * n, 0.0)); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) g[i][j] = getv(a, i, j); g[i][n + i] = 1; }
    for (int k = 0; k < n; k++) { int q = k; for (int i = k + 1; i < n; i++) if (std::fabs(g[i][k]) > std::fabs(g[q][k])) q = i; need(g[q][k] != 0, "inverse of a singular matrix"); g[q].swap(g[k]); double v = g[k][k]; for (int j = 0; j < 2 * n; j++) g[k][j] /= v;
      for (int i = 0; i < n; i++) { double w = g[i][k]; if (i != k && w != 0) for (int j = 0; j < 2 * n; j++) g[i][j] -= w * g[k][j]; } }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) setv(r, i, j, 0, g[i][n + j]);
    return a0.type() == CV_32F ? convertM(r, CV_32F) : r;
  }
  double m[4][4]; need(n <= 4, "inverse: size");
  bool affine = n == 4;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = getv(a, i, j);
  if (affine) for (int j = 0; j < 4; j++) if (sx_is_sym(m[3][j]) || m[3][j] != (j == 3)) affine = false;
  int k = affine ? 3 : n;
  if (k == 1) { setv(r, 0, 0, 0, 1 / m[0][0]); return r; }
  if (k == 2) { double d = m[0][0] * m[1][1] - m[0][1] * m[1][0]; setv(r, 0, 0, 0, m[1][1] / d); setv(r, 0, 1, 0, -m[0][1] / d); setv(r, 1, 0, 0, -m[1][0] / d); setv(r, 1, 1, 0, m[0][0] / d); return r; }
  if (k == 3) {
    double c00 = m[1][1] * m[2][2] - m[1][2] * m[2][1], c01 = m[1][2] * m[2][0] - m[1][0] * m[2][2], c02 = m[1][0] * m[2][1] - m[1][1] * m[2][0];
    double d = m[0][0] * c00 + m[0][1] * c01 + m[0][2] * c02;
    double v[3][3] = {{c00, m[0][2] * m[2][1] - m[0][1] * m[2][2], m[0][1] * m[1][2] - m[0][2] * m[1][1]}, {c01, m[0][0] * m[2][2] - m[0][2] * m[2][0], m[0][2] * m[1][0] - m[0][0] * m[1][2]}, {c02, m[0][1] * m[2][0] - m[0][0] * m[2][1], m[0][0] * m[1][1] - m[0][1] * m[1][0]}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v[i][j] /= d;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) setv(r, i, j, 0, v[i][j]);
    if (n == 4) { for (int i = 0; i < 3; i++) { setv(r, i, 3, 0, -(v[i][0] * m[0][3] + v[i][1] * m[1][3] + v[i][2] * m[2][3])); setv(r, 3, i, 0, 0); } setv(r, 3, 3, 0, 1); }
    return r;
  }
  unsup("general 4x4 inverse"); return r;
}
template <class F> static Mat ew(const Mat &a, const Mat &b, F f) {
  need(a.type() == b.type() && a.rows == b.rows && a.cols == b.cols, "element-wise operation: sizes or types differ");
  Mat r(a.rows, a.cols, a.type());
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cols; j++) for (int k = 0; k < a.channels(); k++) setv(r, i, j, k, f(getv(a, i, j, k), getv(b, i, j, k)));
  return r;
}
template <class F> static Mat ew1(const Mat &a, F f) { Mat r(a.rows, a.cols, a.type()); for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cols; j++) for (int k = 0; k < a.channels(); k++) setv(r, i, j, k, f(getv(a, i, j, k))); return r; }

// ---------------------------------------------------------------- MatExpr, evaluated eagerly
MatOp::MatOp() {} MatOp::~MatOp() {}
bool MatOp::elementWise(const MatExpr &) const { return false; }
static void nox() { unsup("lazy matrix expression"); }
void MatOp::roi(const MatExpr &, const Range &, const Range &, MatExpr &) const { nox(); }
void MatOp::diag(const MatExpr &, int, MatExpr &) const { nox(); }
void MatOp::augAssignAdd(const MatExpr &e, Mat &m) const { into(m, ew(m, e.a, [](double x, double y) { return x + y; })); }
void MatOp::augAssignSubtract(const MatExpr &e, Mat &m) const { into(m, ew(m, e.a, [](double x, double y) { return x - y; })); }
void MatOp::augAssignMultiply(const MatExpr &e, Mat &m) const { into(m, mul(m, e.a)); }
void MatOp::augAssignDivide(const MatExpr &, Mat &) const { nox(); }
void MatOp::augAssignAnd(const MatExpr &, Mat &) const { nox(); }
void MatOp::augAssignOr(const MatExpr &, Mat &) const { nox(); }
void MatOp::augAssignXor(const MatExpr &, Mat &) const { nox(); }
void MatOp::add(const MatExpr &, const MatExpr &, MatExpr &) const { nox(); }
void MatOp::add(const MatExpr &, const Scalar &, MatExpr &) const { nox(); }
void MatOp::subtract(const MatExpr &, const MatExpr &, MatExpr &) const { nox(); }
void MatOp::subtract(const Scalar &, const MatExpr &, MatExpr &) const { nox(); }
void MatOp::multiply(const MatExpr &, const MatExpr &, MatExpr &, double) const { nox(); }
void MatOp::multiply(const MatExpr &, double, MatExpr &) const { nox(); }
void MatOp::divide(const MatExpr &, const MatExpr &, MatExpr &, double) const { nox(); }
void MatOp::divide(double, const MatExpr &, MatExpr &) const { nox(); }
void MatOp::abs(const MatExpr &, MatExpr &) const { nox(); }
void MatOp::transpose(const MatExpr &, MatExpr &) const { nox(); }
void MatOp::matmul(const MatExpr &, const MatExpr &, MatExpr &) const { nox(); }
void MatOp::invert(const MatExpr &, int, MatExpr &) const { nox(); }
Size MatOp::size(const MatExpr &e) const { return Size(e.a.cols, e.a.rows); }
int MatOp::type(const MatExpr &e) const { return e.a.type(); }
struct EagerOp : public MatOp { void assign(const MatExpr &e, Mat &m, int t) const CV_OVERRIDE { if (t == -1 || t == e.a.type()) m = e.a; else m = convertM(e.a, t); } };
static const EagerOp *eager() { static EagerOp op; return &op; }
static MatExpr ME(const Mat &m) { return MatExpr(eager(), 0, m, Mat(), Mat(), 1, 1, Scalar()); }
static Mat EM(const MatExpr &e) { return e.a; }
MatExpr::MatExpr(const Mat &m) : op(eager()), flags(0), a(m), alpha(1), beta(0) {}
Size MatExpr::size() const { return Size(a.cols, a.rows); }
int MatExpr::type() const { return a.type(); }
MatExpr MatExpr::t() const { return ME(transp(a)); }
MatExpr MatExpr::inv(int) const { return ME(inverse(a)); }
MatExpr MatExpr::row(int y) const { return ME(a.row(y)); }
MatExpr MatExpr::col(int x) const { return ME(a.col(x)); }
MatExpr MatExpr::operator()(const Range &r, const Range &c) const { return ME(Mat(a, r, c)); }
double MatExpr::dot(const Mat &m) const { return a.dot(m); }
static Mat inMat(const _InputArray &a);
MatExpr Mat::mul(InputArray b, double k) const { Mat r = ew(*this, inMat(b), [](double x, double y) { return x * y; }); if (k != 1) r = ew1(r, [k](double x) { return x * k; }); return ME(r); }
MatExpr Mat::t() const { return ME(transp(*this)); }
MatExpr Mat::inv(int) const { return ME(inverse(*this)); }
static Mat filled(int r, int c, int t, double v, bool diag) { Mat m(r, c, t); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int k = 0; k < m.channels(); k++) setv(m, i, j, k, (k == 0 || !diag) && (!diag || i == j) ? v : 0); return m; }
MatExpr Mat::zeros(int r, int c, int t) { return ME(filled(r, c, t, 0, false)); }
MatExpr Mat::zeros(Size s, int t) { return ME(filled(s.height, s.width, t, 0, false)); }
MatExpr Mat::ones(int r, int c, int t) { return ME(filled(r, c, t, 1, false)); }
MatExpr Mat::ones(Size s, int t) { return ME(filled(s.height, s.width, t, 1, false)); }
MatExpr Mat::eye(int r, int c, int t) { return ME(filled(r, c, t, 1, true)); }
MatExpr Mat::eye(Size s, int t) { return ME(filled(s.height, s.width, t, 1, true)); }
#define ADD_ [](double x, double y) { return x + y; }
#define SUB_ [](double x, double y) { return x - y; }
MatExpr operator*(const Mat &a, const Mat &b) { return ME(mul(a, b)); }
MatExpr operator*(const Mat &a, const MatExpr &b) { return ME(mul(a, EM(b))); }
MatExpr operator*(const MatExpr &a, const Mat &b) { return ME(mul(EM(a), b)); }
MatExpr operator*(const MatExpr &a, const MatExpr &b) { return ME(mul(EM(a), EM(b))); }
MatExpr operator*(double s, const Mat &a) { return ME(ew1(a, [s](double x) { return x * s; })); }
MatExpr operator*(const Mat &a, double s) { return ME(ew1(a, [s](double x) { return x * s; })); }
MatExpr operator*(double s, const MatExpr &a) { return ME(ew1(EM(a), [s](double x) { return x * s; })); }
MatExpr operator*(const MatExpr &a, double s) { return ME(ew1(EM(a), [s](double x) { return x * s; })); }
MatExpr operator/(const Mat &a, double s) { return ME(ew1(a, [s](double x) { return x / s; })); }
MatExpr operator/(const MatExpr &a, double s) { return ME(ew1(EM(a), [s](double x) { return x / s; })); }
MatExpr operator+(const Mat &a, const Mat &b) { return ME(ew(a, b, ADD_)); }
MatExpr operator+(const Mat &a, const MatExpr &b) { return ME(ew(a, EM(b), ADD_)); }
MatExpr operator+(const MatExpr &a, const Mat &b) { return ME(ew(EM(a), b, ADD_)); }
MatExpr operator+(const MatExpr &a, const MatExpr &b) { return ME(ew(EM(a), EM(b), ADD_)); }
MatExpr operator-(const Mat &a, const Mat &b) { return ME(ew(a, b, SUB_)); }
MatExpr operator-(const Mat &a, const MatExpr &b) { return ME(ew(a, EM(b), SUB_)); }
MatExpr operator-(const MatExpr &a, const Mat &b) { return ME(ew(EM(a), b, SUB_)); }
MatExpr operator-(const MatExpr &a, const MatExpr &b) { return ME(ew(EM(a), EM(b), SUB_)); }
MatExpr operator-(const Mat &a) { return ME(ew1(a, [](double x) { return -x; })); }
MatExpr operator-(const MatExpr &a) { return ME(ew1(EM(a), [](double x) { return -x; })); }

// ---------------------------------------------------------------- Input/Output arrays
typedef std::vector<uchar> VU;
static Mat inMat(const _InputArray &a) {
  int k = a.flags & _InputArray::KIND_MASK;
  switch (k) {
  case _InputArray::NONE: return Mat();
  case _InputArray::MAT: return *(const Mat *)a.obj;
  case _InputArray::EXPR: return EM(*(const MatExpr *)a.obj);
  case _InputArray::MATX: return Mat(a.sz, CV_MAT_TYPE(a.flags), a.obj);
  case _InputArray::STD_VECTOR: {
    const VU &v = *(const VU *)a.obj; int t = CV_MAT_TYPE(a.flags); size_t n = v.size() / esz(t);
    return n ? Mat(1, (int)n, t, (void *)v.data()) : Mat();
  }
  case _InputArray::STD_ARRAY: return Mat(a.sz, CV_MAT_TYPE(a.flags), a.obj);
  default: unsup("input array kind"); return Mat();
  }
}
template <class T> static void rs(void *v, size_t n) { ((std::vector<T> *)v)->resize(n); }
static Mat outMat(const _OutputArray &a, int rows, int cols, int type) {
  int k = a.flags & _InputArray::KIND_MASK;
  switch (k) {
  case _InputArray::NONE: return Mat(rows, cols, type);
  case _InputArray::MAT: { Mat &m = *(Mat *)a.obj; if (a.flags & _OutputArray::FIXED_TYPE) type = m.type(); m.create(rows, cols, type); return m; }
  case _InputArray::STD_VECTOR: {
    need(rows == 1 || cols == 1 || rows * cols == 0, "vector output: not a vector");
    int t = CV_MAT_TYPE(a.flags); size_t n = rows * cols, e = esz(t);
    // an Nx1 result with c channels may be stored in a vector of c-channel elements
    switch (e) { case 1: rs<uchar>(a.obj, n); break; case 4: rs<int>(a.obj, n); break; case 8: rs<Vec2i>(a.obj, n); break; case 12: rs<Vec3i>(a.obj, n); break; case 16: rs<Vec4i>(a.obj, n); break; case 24: rs<Vec6i>(a.obj, n); break; default: unsup("vector output element size"); }
    VU &v = *(VU *)a.obj; return n ? Mat(rows, cols, t, v.data()) : Mat();
  }
  case _InputArray::MATX: case _InputArray::STD_ARRAY: return Mat(a.sz, CV_MAT_TYPE(a.flags), a.obj);
  default: unsup("output array kind"); return Mat();
  }
}
static void assignOut(const _OutputArray &a, const Mat &s) {
  if (a.flags == 0 || (a.flags & _InputArray::KIND_MASK) == _InputArray::NONE) return;
  if (s.empty()) { if ((a.flags & _InputArray::KIND_MASK) == _InputArray::MAT) ((Mat *)a.obj)->release(); return; }
  Mat d = outMat(a, s.rows, s.cols, s.type());
  need(d.total() * d.channels() == s.total() * s.channels(), "output size");
  int cn = d.channels(), sc = s.channels(); int q = 0;
  if (cn == sc && d.rows == s.rows && d.cols == s.cols) { for (int i = 0; i < s.rows; i++) for (int j = 0; j < s.cols; j++) for (int k2 = 0; k2 < cn; k2++) setv(d, i, j, k2, getv(s, i, j, k2)); return; }
  for (int i = 0; i < s.rows; i++) for (int j = 0; j < s.cols; j++) for (int k2 = 0; k2 < sc; k2++, q++) setv(d, (q / cn) / d.cols, (q / cn) % d.cols, q % cn, getv(s, i, j, k2));
}
_InputArray::_InputArray(const MatExpr &e) { init(FIXED_TYPE + FIXED_SIZE + EXPR + ACCESS_READ, &e); }
static _InputOutputArray g_none;
InputOutputArray noArray() { return g_none; }
Mat _InputArray::getMat_(int i) const {
  if ((flags & KIND_MASK) == STD_VECTOR_VECTOR && i >= 0) { auto &v = *(const std::vector<VU> *)obj; if (i >= (int)v.size()) sx_fault("assert", "InputArray index out of range"); int t = CV_MAT_TYPE(flags); size_t n = v[i].size() / esz(t); return n ? Mat(1, (int)n, t, (void *)v[i].data()) : Mat(); }
  if ((flags & KIND_MASK) == STD_VECTOR_MAT && i >= 0) { auto &v = *(const std::vector<Mat> *)obj; if (i >= (int)v.size()) sx_fault("assert", "InputArray index out of range"); return v[i]; } return inMat(*this); }
size_t _InputArray::total(int i) const { if ((flags & KIND_MASK) == STD_VECTOR_VECTOR && i < 0) return ((const std::vector<VU> *)obj)->size(); if ((flags & KIND_MASK) == STD_VECTOR_MAT && i < 0) return ((const std::vector<Mat> *)obj)->size(); return getMat_(i).total(); }
void _OutputArray::create(int r, int c, int t, int, bool, DepthMask) const { outMat(*this, r, c, t); }
void _OutputArray::create(Size s, int t, int, bool, DepthMask) const { outMat(*this, s.height, s.width, t); }
void _OutputArray::release() const { if ((flags & KIND_MASK) == MAT) ((Mat *)obj)->release(); else unsup("release"); }
bool _InputArray::empty() const { return inMat(*this).empty(); }
void Mat::copyTo(OutputArray o) const { if (dims == 0) { assignOut(o, *this); return; } Mat s(*this); if (o.kind() == _InputArray::MAT) { Mat &m = *(Mat *)o.getObj(); if (m.data == data && m.rows == rows && m.cols == cols) return; m.create(rows, cols, type()); if (rows && cols) copyMat(s, m); } else assignOut(o, s); }
void Mat::convertTo(OutputArray o, int rt, double al, double be) const {
  int d = rt < 0 ? depth() : CV_MAT_DEPTH(rt); Mat r = convertM(*this, CV_MAKETYPE(d, channels()));
  if (al != 1 || be != 0) r = ew1(r, [al, be](double x) { return x * al + be; });
  assignOut(o, r);
}
_InputArray::KindFlag _InputArray::kind() const { return (KindFlag)(flags & KIND_MASK); }
double Mat::dot(InputArray m_) const { Mat b = inMat(m_); need(total() == b.total(), "dot"); double s = 0; for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { int q = i * cols + j; s += getv(*this, i, j) * getv(b, q / b.cols, q % b.cols); } return s; }
Mat Mat::cross(InputArray m_) const { Mat b = inMat(m_), a = reshape(1, 3), c = b.reshape(1, 3); Mat r(rows, cols, type()), q = r.reshape(1, 3); for (int i = 0; i < 3; i++) setv(q, i, 0, 0, getv(a, (i + 1) % 3, 0) * getv(c, (i + 2) % 3, 0) - getv(a, (i + 2) % 3, 0) * getv(c, (i + 1) % 3, 0)); return r; }
void Mat::push_back(const Mat &e) {
  if (e.empty()) return;
  if (empty()) { *this = e.clone(); return; }
  need(e.type() == type() && e.cols == cols, "push_back: type or width differs");
  Mat r(rows + e.rows, cols, type()); Mat a(r, Range(0, rows), Range::all()), b(r, Range(rows, r.rows), Range::all()); copyMat(*this, a); copyMat(e, b); *this = r;
}
void Mat::push_back_(const void *elem) {
  need(dims <= 2, "push_back");
  Mat r(rows + 1, cols, type()); if (rows) { Mat a(r, Range(0, rows), Range::all()); copyMat(*this, a); } memcpy(r.data + rows * r.step.buf[0], elem, elemSize()); *this = r;
}
void Mat::pop_back(size_t n) { *this = Mat(*this, Range(0, rows - (int)n), Range::all()); }
void Mat::resize(size_t n) { Mat r((int)n, cols, type()); int k = std::min((int)n, rows); if (k) { Mat a(r, Range(0, k), Range::all()), b(*this, Range(0, k), Range::all()); copyMat(b, a); } *this = r; }
void MatConstIterator::seek(ptrdiff_t ofs, bool rel) {
  if (m->isContinuous()) { ptr = (rel ? ptr : sliceStart) + ofs * elemSize; if (ptr < sliceStart) ptr = sliceStart; else if (ptr > sliceEnd) ptr = sliceEnd; return; }
  ptrdiff_t ofs0 = 0, y; size_t st = m->step.buf[0];
  if (rel) { ptrdiff_t q = ptr - m->data; y = q / st; ofs0 = y * m->cols + (q - y * st) / elemSize; }
  ofs += ofs0; y = ofs / m->cols; int y1 = std::min(std::max((int)y, 0), m->rows - 1);
  sliceStart = m->data + y1 * st; sliceEnd = sliceStart + m->cols * elemSize;
  ptr = y < 0 ? sliceStart : y >= m->rows ? sliceEnd : sliceStart + (ofs - y * m->cols) * elemSize;
}
void MatConstIterator::seek(const int *idx, bool rel) { seek(idx ? (ptrdiff_t)idx[0] * m->cols + idx[1] : (ptrdiff_t)0, rel); }

// ---------------------------------------------------------------- functions
void add(InputArray a, InputArray b, OutputArray o, InputArray, int) { assignOut(o, ew(inMat(a), inMat(b), ADD_)); }
void subtract(InputArray a, InputArray b, OutputArray o, InputArray, int) { assignOut(o, ew(inMat(a), inMat(b), SUB_)); }
Mat &Mat::setTo(InputArray v_, InputArray mask) { need(mask.empty(), "setTo with a mask"); Mat v = inMat(v_); int n = (int)v.total() * v.channels(), vc = v.channels(); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) for (int k = 0; k < channels(); k++) { int q = n == 1 ? 0 : k; setv(*this, i, j, k, getv(v, (q / vc) / v.cols, (q / vc) % v.cols, q % vc)); } return *this; }
void gemm(InputArray a_, InputArray b_, double al, InputArray c_, double be, OutputArray o, int f) { Mat a = inMat(a_), b = inMat(b_); if (f & GEMM_1_T) a = transp(a); if (f & GEMM_2_T) b = transp(b); Mat r = mul(a, b); if (al != 1) r = ew1(r, [al](double x) { return x * al; });
  if (!c_.empty() && be != 0) { Mat c = inMat(c_); if (f & GEMM_3_T) c = transp(c); r = ew(r, be == 1 ? c : ew1(c, [be](double x) { return x * be; }), ADD_); } assignOut(o, r); }
void setIdentity(InputOutputArray o, const Scalar &v) { Mat m = inMat(o); for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) setv(m, i, j, 0, i == j ? v[0] : 0); }
Mat Mat::diag(const Mat &d) { int n = (int)d.total(); Mat r = filled(n, n, d.type(), 0, false); for (int i = 0; i < n; i++) setv(r, i, i, 0, getv(d, i / d.cols, i % d.cols)); return r; }
Mat Mat::diag(int d) const { need(d == 0, "diag"); int n = std::min(rows, cols); Mat r(n, 1, type()); for (int i = 0; i < n; i++) setv(r, i, 0, 0, getv(*this, i, i)); return r; }
void multiply(InputArray a, InputArray b, OutputArray o, double k, int) { Mat r = ew(inMat(a), inMat(b), [](double x, double y) { return x * y; }); if (k != 1) r = ew1(r, [k](double x) { return x * k; }); assignOut(o, r); }
void divide(InputArray a, InputArray b, OutputArray o, double k, int) { Mat r = ew(inMat(a), inMat(b), [](double x, double y) { return x / y; }); if (k != 1) r = ew1(r, [k](double x) { return x * k; }); assignOut(o, r); }
void scaleAdd(InputArray a, double k, InputArray b, OutputArray o) { assignOut(o, ew(ew1(inMat(a), [k](double x) { return x * k; }), inMat(b), ADD_)); }
void absdiff(InputArray a, InputArray b, OutputArray o) { assignOut(o, ew1(ew(inMat(a), inMat(b), SUB_), [](double x) { return std::fabs(x); })); }
MatExpr abs(const Mat &m) { return ME(ew1(m, [](double x) { return std::fabs(x); })); }
MatExpr abs(const MatExpr &e) { return cv::abs(EM(e)); }
int countNonZero(InputArray a) { Mat m = inMat(a); int n = 0; for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) n += getv(m, i, j) != 0; return n; }
Mat repeat(const Mat &m, int ny, int nx) { Mat r(m.rows * ny, m.cols * nx, m.type()); for (int i = 0; i < r.rows; i++) for (int j = 0; j < r.cols; j++) for (int k = 0; k < r.channels(); k++) setv(r, i, j, k, getv(m, i % m.rows, j % m.cols, k)); return r; }
void minMaxLoc(InputArray a, double *lo, double *hi, Point *pl, Point *ph, InputArray mask) { need(mask.empty(), "minMaxLoc with a mask"); Mat m = inMat(a); double x = getv(m, 0, 0), y = x; Point px(0, 0), py(0, 0); for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) { double v = getv(m, i, j); if (v < x) { x = v; px = Point(j, i); } if (v > y) { y = v; py = Point(j, i); } } if (lo) *lo = x; if (hi) *hi = y; if (pl) *pl = px; if (ph) *ph = py; }
void transform(InputArray a, OutputArray o, InputArray t) { Mat m = inMat(a), T = inMat(t); int cn = m.channels(); need(T.cols == cn || T.cols == cn + 1, "transform"); Mat r(m.rows, m.cols, CV_MAKETYPE(m.depth(), T.rows)); for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) for (int k = 0; k < T.rows; k++) { double v = T.cols > cn ? getv(T, k, cn) : 0; for (int q = 0; q < cn; q++) v += getv(T, k, q) * getv(m, i, j, q); setv(r, i, j, k, v); } assignOut(o, r); }
ParallelLoopBody::~ParallelLoopBody() {}
void parallel_for_(const Range &r, const ParallelLoopBody &b, double) { b(r); }
double invert(InputArray a, OutputArray o, int) { Mat r = inverse(inMat(a)); assignOut(o, r); return 1; }
// correlation with a concrete kernel, mirrored at the border without repeating its pixels
void filter2D(InputArray a, OutputArray o, int depth, InputArray k_, Point anchor, double delta, int border) {
  Mat m = inMat(a), k = inMat(k_); need(m.channels() == 1 && k.channels() == 1 && border == BORDER_DEFAULT, "filter2D"); Mat r; r.create(m.rows, m.cols, depth < 0 ? m.type() : CV_MAKETYPE(depth, 1));
  int ax = anchor.x < 0 ? k.cols / 2 : anchor.x, ay = anchor.y < 0 ? k.rows / 2 : anchor.y; auto at = [](int p, int n) { if (n == 1) return 0; while (p < 0 || p >= n) p = p < 0 ? -p : 2 * n - 2 - p; return p; };
  for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) { double t = delta; for (int i = 0; i < k.rows; i++) for (int j = 0; j < k.cols; j++) { double w = getv(k, i, j); if (w != 0) t += w * getv(m, at(y + i - ay, m.rows), at(x + j - ax, m.cols)); } setv(r, y, x, 0, t); }
  assignOut(o, r);
}
void transpose(InputArray a, OutputArray o) { assignOut(o, transp(inMat(a))); }
Scalar trace(InputArray a) { Mat m = inMat(a); Scalar s; double t = 0; for (int i = 0; i < std::min(m.rows, m.cols); i++) t += getv(m, i, i); s[0] = t; return s; }
double determinant(InputArray a_) { Mat a = inMat(a_); if (a.rows == 2) return getv(a, 0, 0) * getv(a, 1, 1) - getv(a, 0, 1) * getv(a, 1, 0); if (a.rows != 3) unsup("determinant"); return getv(a, 0, 0) * (getv(a, 1, 1) * getv(a, 2, 2) - getv(a, 1, 2) * getv(a, 2, 1)) - getv(a, 0, 1) * (getv(a, 1, 0) * getv(a, 2, 2) - getv(a, 1, 2) * getv(a, 2, 0)) + getv(a, 0, 2) * (getv(a, 1, 0) * getv(a, 2, 1) - getv(a, 1, 1) * getv(a, 2, 0)); }
Scalar mean(InputArray a, InputArray) { Mat m = inMat(a); Scalar s; for (int k = 0; k < m.channels(); k++) { double t = 0; for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) t += getv(m, i, j, k); s[k] = m.total() ? t / (double)m.total() : 0; } return s; }
Scalar sum(InputArray a) { Mat m = inMat(a); Scalar s; for (int k = 0; k < m.channels(); k++) { double t = 0; for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) t += getv(m, i, j, k); s[k] = t; } return s; }
double norm(InputArray a, int nt, InputArray) { Mat m = inMat(a); double t = 0; for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) for (int k = 0; k < m.channels(); k++) { double v = getv(m, i, j, k); if (nt == NORM_L1) t += std::fabs(v); else if (nt == NORM_INF) t = std::max(t, std::fabs(v)); else t += v * v; } return nt == NORM_L2 ? std::sqrt(t) : t; }
double norm(InputArray a, InputArray b, int nt, InputArray) { return norm(Mat(ew(inMat(a), inMat(b), SUB_)), nt); }
void hconcat(InputArray a_, InputArray b_, OutputArray o) {
  Mat a = inMat(a_), b = inMat(b_); need(a.rows == b.rows && a.type() == b.type(), "hconcat: rows or types differ");
  Mat r(a.rows, a.cols + b.cols, a.type()); Mat l(r, Range::all(), Range(0, a.cols)), q(r, Range::all(), Range(a.cols, r.cols)); copyMat(a, l); copyMat(b, q); assignOut(o, r);
}
void vconcat(InputArray a_, InputArray b_, OutputArray o) { Mat a = inMat(a_).clone(); a.push_back(inMat(b_)); assignOut(o, a); }
static void rodV2M(const double *r, double *R) {
  if (sx_rod_v2m(r, R)) return;
  if (!sx_is_sym(r[0]) && !sx_is_sym(r[1]) && !sx_is_sym(r[2])) {
    double th = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    if (th < 2.220446049250313e-16) { for (int i = 0; i < 9; i++) R[i] = i % 4 == 0; return; }
    double c = std::cos(th), s = std::sin(th), x = r[0] / th, y = r[1] / th, z = r[2] / th, k = 1 - c;
    R[0] = c + k * x * x; R[1] = k * x * y - s * z; R[2] = k * x * z + s * y; R[3] = k * x * y + s * z; R[4] = c + k * y * y; R[5] = k * y * z - s * x; R[6] = k * x * z - s * y; R[7] = k * y * z + s * x; R[8] = c + k * z * z; return;
  }
  double a[3] = {r[0], r[1], r[2]};
  const char *nm[9] = {"rod00", "rod01", "rod02", "rod10", "rod11", "rod12", "rod20", "rod21", "rod22"};
  for (int i = 0; i < 9; i++) R[i] = sx_uf(nm[i], a, 3);
}
static void rodM2V(const double *R, double *r) {
  if (sx_rod_m2v(R, r)) return;
  bool sym = false; for (int i = 0; i < 9; i++) if (sx_is_sym(R[i])) sym = true;
  if (!sym) {
    double rx = R[7] - R[5], ry = R[2] - R[6], rz = R[3] - R[1], s = std::sqrt((rx * rx + ry * ry + rz * rz) * 0.25), c = (R[0] + R[4] + R[8] - 1) * 0.5;
    c = c > 1 ? 1 : c < -1 ? -1 : c; double th = std::acos(c);
    if (s < 1e-5) { if (c > 0) { r[0] = r[1] = r[2] = 0; return; } double t = (R[0] + 1) * 0.5; rx = std::sqrt(t > 0 ? t : 0); t = (R[4] + 1) * 0.5; ry = std::sqrt(t > 0 ? t : 0) * (R[1] < 0 ? -1 : 1); t = (R[8] + 1) * 0.5; rz = std::sqrt(t > 0 ? t : 0) * (R[2] < 0 ? -1 : 1); if (std::fabs(rx) < std::fabs(ry) && std::fabs(rx) < std::fabs(rz) && (R[5] > 0) != (ry * rz > 0)) rz = -rz; th /= std::sqrt(rx * rx + ry * ry + rz * rz); r[0] = rx * th; r[1] = ry * th; r[2] = rz * th; return; }
    double v = 1 / (2 * s) * th; r[0] = rx * v; r[1] = ry * v; r[2] = rz * v; return;
  }
  r[0] = sx_uf("rodv0", R, 9); r[1] = sx_uf("rodv1", R, 9); r[2] = sx_uf("rodv2", R, 9);
}
void Rodrigues(InputArray src, OutputArray dst, OutputArray) {
  Mat s = inMat(src); int dep = s.depth(); need(dep == CV_32F || dep == CV_64F, "Rodrigues: depth");
  double a[9], b[9];
  if (s.total() * s.channels() == 3) {
    Mat q = s.channels() == 3 ? s.reshape(1, 3) : s; for (int i = 0; i < 3; i++) a[i] = q.cols == 1 ? getv(q, i, 0) : getv(q, 0, i);
    rodV2M(a, b); Mat r(3, 3, dep); for (int i = 0; i < 9; i++) setv(r, i / 3, i % 3, 0, b[i]); assignOut(dst, r);
  } else {
    need(s.rows == 3 && s.cols == 3, "Rodrigues: input must be a 3-vector or a 3x3 matrix");
    for (int i = 0; i < 9; i++) a[i] = getv(s, i / 3, i % 3);
    rodM2V(a, b); Mat r(3, 1, dep); for (int i = 0; i < 3; i++) setv(r, i, 0, 0, b[i]); assignOut(dst, r);
  }
}
// Projections: functionally consistent uninterpreted functions of (pose, camera, distortion, point)
static void flat(std::vector<double> &v, const Mat &m) { for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) for (int k = 0; k < m.channels(); k++) v.push_back(getv(m, i, j, k)); }
static void projAll(const char *nx, const char *ny, InputArray o, const Mat &r, const Mat &t, const Mat &K, const Mat &d, OutputArray out) {
  Mat p = inMat(o); int n = (int)(p.total() * p.channels() / 3);
  need(n > 0, "projectPoints: no points");
  need(r.total() * r.channels() == 3 && t.total() * t.channels() == 3, "projectPoints: pose vectors must have 3 elements");
  std::vector<double> pv; flat(pv, p);
  Mat q(n, 1, p.depth() == CV_32F ? CV_32FC2 : CV_64FC2);
  std::vector<double> base; flat(base, r); flat(base, t); base.push_back(getv(K, 0, 0)); base.push_back(getv(K, 1, 1)); base.push_back(getv(K, 0, 2)); base.push_back(getv(K, 1, 2)); flat(base, d);
  if (env::project_hook) {
    bool ok = true; for (int i = 0; i < n && ok; i++) { double uv[2]; ok = env::project_hook(Point3d(pv[3 * i], pv[3 * i + 1], pv[3 * i + 2]), r, t, K, d, uv); if (ok) { setv(q, i, 0, 0, uv[0]); setv(q, i, 0, 1, uv[1]); } }
    if (ok) { assignOut(out, q); return; }
  }
  // known pose: the projection formula itself; otherwise an uninterpreted function
  bool fish = nx[4] == 'F', poseC = true, allC = true; for (int k = 0; k < 6; k++) if (sx_is_sym(base[k])) poseC = false; for (double v : base) if (sx_is_sym(v)) allC = false; for (double v : pv) if (sx_is_sym(v)) allC = false;
  size_t nd = base.size() - 10;
  if (!env::opaque_projection && (allC || (poseC && !fish && nd <= 5))) {
    double R[9]; rodV2M(base.data(), R); double k[8] = {0, 0, 0, 0, 0, 0, 0, 0}; if (nd > 8) unsup("distortion model"); for (size_t j = 0; j < nd; j++) k[j] = base[10 + j]; if (!fish && nd > 5) unsup("distortion model");
    for (int i = 0; i < n; i++) { double X[3]; for (int j = 0; j < 3; j++) X[j] = R[3 * j] * pv[3 * i] + R[3 * j + 1] * pv[3 * i + 1] + R[3 * j + 2] * pv[3 * i + 2] + base[3 + j];
      double x = X[0] / X[2], y = X[1] / X[2], r2 = x * x + y * y, xd, yd;
      if (fish) { double r = std::sqrt(r2), th = std::atan(r), t2 = th * th, td = th * (1 + t2 * (k[0] + t2 * (k[1] + t2 * (k[2] + t2 * k[3])))), s = r > 1e-8 ? td / r : 1; xd = x * s; yd = y * s; }
      else { double cd = 1 + k[0] * r2 + k[1] * r2 * r2 + k[4] * r2 * r2 * r2, a1 = 2 * x * y; xd = x * cd + k[2] * a1 + k[3] * (r2 + 2 * x * x); yd = y * cd + k[2] * (r2 + 2 * y * y) + k[3] * a1; }
      setv(q, i, 0, 0, xd * base[6] + base[8]); setv(q, i, 0, 1, yd * base[7] + base[9]); }
    assignOut(out, q); return;
  }
  // the image of a point depends on the pose only through its position in the camera frame
  double R[9]; rodV2M(base.data(), R);
  for (int i = 0; i < n; i++) { std::vector<double> a; for (int j = 0; j < 3; j++) a.push_back(R[3 * j] * pv[3 * i] + R[3 * j + 1] * pv[3 * i + 1] + R[3 * j + 2] * pv[3 * i + 2] + base[3 + j]); a.insert(a.end(), base.begin() + 6, base.end()); setv(q, i, 0, 0, sx_uf(nx, a.data(), (int)a.size())); setv(q, i, 0, 1, sx_uf(ny, a.data(), (int)a.size())); }
  assignOut(out, q);
}
static void checkK(const Mat &K, const Mat &d) { need(K.rows == 3 && K.cols == 3, "camera matrix must be 3x3"); (void)d; }
void projectPoints(InputArray o, InputArray r, InputArray t, InputArray K, InputArray d, OutputArray out, OutputArray, double) { Mat Km = inMat(K), D = inMat(d); checkK(Km, D); need(D.empty() || D.total() == 4 || D.total() == 5 || D.total() == 8 || D.total() == 12 || D.total() == 14, "distortion must have 4, 5, 8, 12 or 14 elements"); projAll("projBx", "projBy", o, inMat(r), inMat(t), Km, D, out); }
namespace fisheye {
void projectPoints(InputArray o, OutputArray out, InputArray r, InputArray t, InputArray K, InputArray d, double, OutputArray) { Mat Km = inMat(K), D = inMat(d); checkK(Km, D); need(D.total() == 4, "fisheye distortion must have 4 elements"); need(inMat(r).isContinuous() && inMat(t).isContinuous(), "fisheye pose vectors must be continuous"); projAll("projFx", "projFy", o, inMat(r), inMat(t), Km, D, out); }
}
// eigen / least-squares routines: unconstrained results (functional consistency only)
static void ufMat(const char *nm, int base, std::vector<double> &a, Mat &o) { for (int i = 0; i < o.rows; i++) for (int j = 0; j < o.cols; j++) { a.push_back(base + i * o.cols + j); setv(o, i, j, 0, sx_uf(nm, a.data(), (int)a.size())); a.pop_back(); } }
// concrete matrices with at least as many rows as columns: one-sided Jacobi
static bool svdConcrete(const std::vector<double> &a, int m, int n, Mat &w, Mat &u, Mat &vt) {
  if (m < n) return false; for (double x : a) if (sx_is_sym(x)) return false;
  std::vector<double> A = a, V(n * n, 0.0), s(n); for (int i = 0; i < n; i++) V[i * n + i] = 1; double scale = 0; for (double x : a) scale += x * x;
  for (int sweep = 0; sweep < 40; sweep++) { bool done = true;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { double al = 0, be = 0, ga = 0; for (int i = 0; i < m; i++) { al += A[i * n + p] * A[i * n + p]; be += A[i * n + q] * A[i * n + q]; ga += A[i * n + p] * A[i * n + q]; }
      if (std::fabs(ga) <= 1e-15 * std::sqrt(al * be) || std::fabs(ga) <= 1e-30 * scale) continue; done = false;
      double z = (be - al) / (2 * ga), t = (z < 0 ? -1 : 1) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), d = c * t;
      for (int i = 0; i < m; i++) { double x = A[i * n + p], y = A[i * n + q]; A[i * n + p] = c * x - d * y; A[i * n + q] = d * x + c * y; }
      for (int i = 0; i < n; i++) { double x = V[i * n + p], y = V[i * n + q]; V[i * n + p] = c * x - d * y; V[i * n + q] = d * x + c * y; } }
    if (done) break; }
  std::vector<int> o; for (int j = 0; j < n; j++) { double x = 0; for (int i = 0; i < m; i++) x += A[i * n + j] * A[i * n + j]; s[j] = std::sqrt(x); int q = 0; while (q < (int)o.size() && s[o[q]] >= s[j]) q++; o.insert(o.begin() + q, j); }
  for (int j = 0; j < n; j++) { int c = o[j]; setv(w, j, 0, 0, s[c]); for (int i = 0; i < m; i++) setv(u, i, j, 0, s[c] > 0 ? A[i * n + c] / s[c] : 0); for (int i = 0; i < n; i++) setv(vt, j, i, 0, V[i * n + c]); }
  return true;
}
static void svd(const Mat &m, Mat &w, Mat &u, Mat &vt) {
  std::vector<double> a; flat(a, m); int k = std::min(m.rows, m.cols); w.create(k, 1, m.type()); u.create(m.rows, k, m.type()); vt.create(k, m.cols, m.type());
  if (svdConcrete(a, m.rows, m.cols, w, u, vt)) return;
  ufMat("svd", 0, a, w); ufMat("svd", 100, a, u); ufMat("svd", 300, a, vt);
}
SVD &SVD::operator()(InputArray m, int) { svd(inMat(m), w, u, vt); return *this; }
void SVDecomp(InputArray m, OutputArray w, OutputArray u, OutputArray vt, int) { Mat a, b, c; svd(inMat(m), a, b, c); assignOut(w, a); assignOut(u, b); assignOut(vt, c); }
void fitLine(InputArray p, OutputArray l, int, double, double, double) { Mat m = inMat(p); need(m.total() > 0, "fitLine: no points"); std::vector<double> a; flat(a, m); Mat r(4, 1, CV_32F);
  bool sym = false; for (double x : a) if (sx_is_sym(x)) sym = true;
  if (sym) ufMat("fitline", 0, a, r);
  else { // least squares line through concrete points, as OpenCV computes it for DIST_L2
    double x = 0, y = 0, x2 = 0, y2 = 0, xy = 0, n = (double)(a.size() / 2);
    for (size_t i = 0; i + 1 < a.size(); i += 2) { x += a[i]; y += a[i + 1]; x2 += a[i] * a[i]; y2 += a[i + 1] * a[i + 1]; xy += a[i] * a[i + 1]; }
    x /= n; y /= n; x2 /= n; y2 /= n; xy /= n; double t = atan2(2 * (xy - x * y), (x2 - x * x) - (y2 - y * y)) / 2;
    r.at<float>(0) = (float)cos(t); r.at<float>(1) = (float)sin(t); r.at<float>(2) = (float)x; r.at<float>(3) = (float)y;
  }
  assignOut(l, r); }
int64 getTickCount() { return 12345; }
double getTickFrequency() { return 1e9; }
// Ptr<Formatter> only feeds log output
Ptr<Formatter> Formatter::get(FormatType) { return Ptr<Formatter>(); }

// ---------------------------------------------------------------- FileStorage (in memory)
}
namespace memfs {
enum K { NONE, INT, REAL, STR, SEQ, MAP, MAT };
struct MNode { K k = NONE; int i = 0; double d = 0; std::string s; cv::Mat m; std::vector<std::string> names; std::vector<MNode *> kids; MNode *get(const char *n) { if (k != MAP) return nullptr; for (size_t q = 0; q < names.size(); q++) if (names[q] == n) return kids[q]; return nullptr; } };
struct File { std::string name; MNode *root; };
std::vector<File> *files;
static std::vector<File> &fs() { if (!files) files = new std::vector<File>(); return *files; }
MNode *find(const std::string &n) { for (auto &f : fs()) if (f.name == n) return f.root; return nullptr; }
void put(const std::string &n, MNode *r) { for (auto &f : fs()) if (f.name == n) { f.root = r; return; } fs().push_back({n, r}); }
struct Impl { std::string name; bool write; std::vector<MNode *> stack; MNode *root; bool open; };
std::vector<Impl *> *impls; // FileStorage object -> implementation
}
extern "C" int memfs_exists(const char *n) { return memfs::find(n) != nullptr; }
namespace cv {
using memfs::MNode;
struct FSEnt { FileStorage *f; memfs::Impl *i; };
static std::vector<FSEnt> *g_fs;
static memfs::Impl *&impl(const FileStorage *f) { if (!g_fs) g_fs = new std::vector<FSEnt>(); for (auto &e : *g_fs) if (e.f == f) return e.i; g_fs->push_back({(FileStorage *)f, nullptr}); return g_fs->back().i; }
FileStorage::FileStorage() : state(0) { impl(this) = nullptr; }
FileStorage::FileStorage(const String &n, int fl, const String &e) : state(0) { impl(this) = nullptr; open(n, fl, e); }
FileStorage::~FileStorage() { impl(this) = nullptr; }
bool FileStorage::open(const String &n, int fl, const String &) {
  memfs::Impl *i = new memfs::Impl(); i->name = n; i->write = (fl & 3) == WRITE; i->open = true;
  if (i->write) { i->root = new MNode(); i->root->k = memfs::MAP; i->stack.push_back(i->root); memfs::put(n, i->root); state = NAME_EXPECTED + INSIDE_MAP; }
  else { i->root = memfs::find(n); if (!i->root) { i->open = false; } }
  impl(this) = i; return i->open;
}
bool FileStorage::isOpened() const { memfs::Impl *i = impl(this); return i && i->open; }
void FileStorage::release() { memfs::Impl *i = impl(this); if (i) i->open = false; }
String FileStorage::releaseAndGetString() { release(); return String(); }
static FileNode mkNode(MNode *n) { FileNode f; f.fs = (FileStorage::Impl *)n; f.blockIdx = 0; f.ofs = 0; return f; }
static MNode *nd(const FileNode &f) { return (MNode *)f.fs; }
FileNode::FileNode() : fs(0), blockIdx(0), ofs(0) {}
FileNode::FileNode(const FileNode &o) : fs(o.fs), blockIdx(o.blockIdx), ofs(o.ofs) {}
FileNode &FileNode::operator=(const FileNode &o) { fs = o.fs; blockIdx = o.blockIdx; ofs = o.ofs; return *this; }
FileNode FileStorage::operator[](const char *n) const { memfs::Impl *i = impl(this); if (!i || !i->open) return FileNode(); return mkNode(i->root->get(n)); }
FileNode FileStorage::operator[](const String &n) const { return (*this)[n.c_str()]; }
FileNode FileNode::operator[](const char *n) const { MNode *q = nd(*this); return mkNode(q ? q->get(n) : nullptr); }
FileNode FileNode::operator[](const String &n) const { return (*this)[n.c_str()]; }
FileNode FileNode::operator[](int i) const { MNode *q = nd(*this); if (q && i >= 0 && (size_t)i < q->kids.size()) return mkNode(q->kids[i]); return FileNode(); }
bool FileNode::empty() const { return nd(*this) == nullptr || nd(*this)->k == memfs::NONE; }
bool FileNode::isNone() const { return empty(); }
int FileNode::type() const { MNode *q = nd(*this); if (!q) return NONE; switch (q->k) { case memfs::INT: return INT; case memfs::REAL: return REAL; case memfs::STR: return STRING; case memfs::SEQ: return SEQ; case memfs::MAP: case memfs::MAT: return MAP; default: return NONE; } }
bool FileNode::isSeq() const { return type() == SEQ; } bool FileNode::isMap() const { return type() == MAP; } bool FileNode::isInt() const { return type() == INT; } bool FileNode::isReal() const { return type() == REAL; } bool FileNode::isString() const { return type() == STRING; }
size_t FileNode::size() const { MNode *q = nd(*this); if (!q) return 0; return q->k == memfs::SEQ || q->k == memfs::MAP ? q->kids.size() : 1; }
std::string FileNode::string() const { MNode *q = nd(*this); return q && q->k == memfs::STR ? q->s : std::string(); }
FileNode::operator int() const { int v; read(*this, v, 0); return v; }
FileNode::operator float() const { float v; read(*this, v, 0.f); return v; }
FileNode::operator double() const { double v; read(*this, v, 0.); return v; }
void read(const FileNode &f, int &v, int d) { MNode *q = nd(f); v = !q ? d : q->k == memfs::INT ? q->i : q->k == memfs::REAL ? saturate_cast<int>(q->d) : 0x7fffffff; }
void read(const FileNode &f, float &v, float d) { MNode *q = nd(f); v = !q ? d : q->k == memfs::INT ? (float)q->i : q->k == memfs::REAL ? (float)q->d : 1e30f; }
void read(const FileNode &f, double &v, double d) { MNode *q = nd(f); v = !q ? d : q->k == memfs::INT ? q->i : q->k == memfs::REAL ? q->d : 1e300; }
void read(const FileNode &f, std::string &v, const std::string &d) { MNode *q = nd(f); v = !q ? d : q->k == memfs::STR ? q->s : std::string(); }
void read(const FileNode &f, Mat &m, const Mat &d) { MNode *q = nd(f); if (!q) { d.copyTo(m); return; } need(q->k == memfs::MAT, "node is not a matrix"); m = q->m.clone(); }
FileNodeIterator FileNode::begin() const { return FileNodeIterator(*this, false); }
FileNodeIterator FileNode::end() const { return FileNodeIterator(*this, true); }
FileNodeIterator::FileNodeIterator() : fs(0), blockIdx(0), ofs(0), blockSize(0), nodeNElems(0), idx(0) {}
FileNodeIterator::FileNodeIterator(const FileNodeIterator &o) : fs(o.fs), blockIdx(o.blockIdx), ofs(o.ofs), blockSize(o.blockSize), nodeNElems(o.nodeNElems), idx(o.idx) {}
FileNodeIterator &FileNodeIterator::operator=(const FileNodeIterator &o) { fs = o.fs; blockIdx = o.blockIdx; ofs = o.ofs; blockSize = o.blockSize; nodeNElems = o.nodeNElems; idx = o.idx; return *this; }
FileNodeIterator::FileNodeIterator(const FileNode &n, bool e) : fs(n.fs), blockIdx(0), ofs(0), blockSize(0) { nodeNElems = n.empty() ? 0 : n.size(); idx = e ? nodeNElems : 0; }
FileNode FileNodeIterator::operator*() const { MNode *q = (MNode *)fs; if (!q || idx >= nodeNElems) return FileNode(); if (q->k == memfs::SEQ || q->k == memfs::MAP) return mkNode(q->kids[idx]); return mkNode(q); }
FileNodeIterator &FileNodeIterator::operator++() { if (idx < nodeNElems) idx++; return *this; }
FileNodeIterator FileNodeIterator::operator++(int) { FileNodeIterator t(*this); ++*this; return t; }
FileNodeIterator &FileNodeIterator::operator+=(int n) { for (int i = 0; i < n; i++) ++*this; return *this; }
size_t FileNodeIterator::remaining() const { return nodeNElems - idx; }
bool FileNodeIterator::equalTo(const FileNodeIterator &o) const { return fs == o.fs && idx == o.idx; }
bool operator==(const FileNodeIterator &a, const FileNodeIterator &b) { return a.equalTo(b); }
bool operator!=(const FileNodeIterator &a, const FileNodeIterator &b) { return !a.equalTo(b); }
static void fmtOf(const String &f, int &cnt, char &ty) { cnt = 1; size_t k = 0; if (f[0] >= '0' && f[0] <= '9') { cnt = f[0] - '0'; k = 1; } ty = f[k]; need(f.size() == k + 1, "record format"); }
FileNodeIterator &FileNodeIterator::readRaw(const String &fmt, void *vec, size_t len) {
  int cnt; char ty; fmtOf(fmt, cnt, ty); size_t e = ty == 'd' ? 8 : ty == 'i' || ty == 'f' ? 4 : 1; uchar *p = (uchar *)vec; size_t n = len / e;
  for (size_t i = 0; i < n && idx < nodeNElems; i++, ++*this, p += e) {
    FileNode f = **this; switch (ty) { case 'i': { int v; read(f, v, 0); *(int *)p = v; break; } case 'f': { float v; read(f, v, 0.f); *(float *)p = v; break; } case 'd': { double v; read(f, v, 0.); *(double *)p = v; break; } default: unsup("raw format"); }
  }
  return *this;
}
// writing
static void addKid(memfs::Impl *i, const std::string &n, MNode *c) {
  MNode *t = i->stack.back();
  if (t->k == memfs::MAP) { need(!n.empty(), "element name expected in a mapping"); need(!t->get(n.c_str()), "duplicate key in a mapping"); t->names.push_back(n); } else need(n.empty(), "no element name expected in a sequence");
  t->kids.push_back(c);
}
static memfs::Impl *wi(FileStorage &fs) { memfs::Impl *i = impl(&fs); need(i && i->open && i->write, "storage is not open for writing"); return i; }
void write(FileStorage &fs, const String &n, int v) { MNode *c = new MNode(); c->k = memfs::INT; c->i = v; addKid(wi(fs), n, c); }
void write(FileStorage &fs, const String &n, double v) { MNode *c = new MNode(); c->k = memfs::REAL; c->d = v; addKid(wi(fs), n, c); }
void write(FileStorage &fs, const String &n, float v) { write(fs, n, (double)v); }
void write(FileStorage &fs, const String &n, const String &v) { MNode *c = new MNode(); c->k = memfs::STR; c->s = v; addKid(wi(fs), n, c); }
void write(FileStorage &fs, const String &n, const Mat &v) { MNode *c = new MNode(); c->k = memfs::MAT; c->m = v.clone(); addKid(wi(fs), n, c); }
void writeScalar(FileStorage &fs, int v) { write(fs, String(), v); }
void writeScalar(FileStorage &fs, float v) { write(fs, String(), v); }
void writeScalar(FileStorage &fs, double v) { write(fs, String(), v); }
void writeScalar(FileStorage &fs, const String &v) { write(fs, String(), v); }
void FileStorage::startWriteStruct(const String &n, int flags, const String &) { memfs::Impl *i = wi(*this); MNode *c = new MNode(); c->k = (flags & FileNode::TYPE_MASK) == FileNode::MAP ? memfs::MAP : memfs::SEQ; addKid(i, n, c); i->stack.push_back(c); state = c->k == memfs::MAP ? NAME_EXPECTED + INSIDE_MAP : VALUE_EXPECTED; elname.clear(); }
void FileStorage::endWriteStruct() { memfs::Impl *i = wi(*this); need(i->stack.size() > 1, "unbalanced structure"); i->stack.pop_back(); state = i->stack.back()->k == memfs::MAP ? NAME_EXPECTED + INSIDE_MAP : VALUE_EXPECTED; elname.clear(); }
void FileStorage::writeRaw(const String &fmt, const void *vec, size_t len) {
  int cnt; char ty; fmtOf(fmt, cnt, ty); size_t e = ty == 'd' ? 8 : ty == 'i' || ty == 'f' ? 4 : 1; const uchar *p = (const uchar *)vec;
  for (size_t i = 0; i < len / e; i++, p += e) switch (ty) { case 'i': writeScalar(*this, *(const int *)p); break; case 'f': writeScalar(*this, *(const float *)p); break; case 'd': writeScalar(*this, *(const double *)p); break; case 'u': writeScalar(*this, (int)*p); break; default: unsup("raw format"); }
}
namespace internal {
WriteStructContext::WriteStructContext(FileStorage &_fs, const String &name, int flags, const String &ty) : fs(&_fs) { fs->startWriteStruct(name, flags, ty); }
WriteStructContext::~WriteStructContext() { fs->endWriteStruct(); }
}
FileStorage &operator<<(FileStorage &fs, const String &str) {
  memfs::Impl *i = impl(&fs); if (!i || !i->open) return fs;
  char c = str.empty() ? 0 : str[0];
  if (c == '}' || c == ']') { need((i->stack.back()->k == memfs::MAP) == (c == '}'), "closing bracket does not match"); fs.endWriteStruct(); }
  else if (fs.state == FileStorage::NAME_EXPECTED + FileStorage::INSIDE_MAP) { need((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_', "incorrect element name"); fs.elname = str; fs.state = FileStorage::VALUE_EXPECTED + FileStorage::INSIDE_MAP; }
  else if ((fs.state & 3) == FileStorage::VALUE_EXPECTED) {
    if (c == '{' || c == '[') { std::string n = fs.elname; fs.startWriteStruct(n, c == '{' ? FileNode::MAP : FileNode::SEQ, String()); }
    else { write(fs, fs.elname, (c == '\\' && str.size() > 1 && (str[1] == '{' || str[1] == '}' || str[1] == '[' || str[1] == ']')) ? str.substr(1) : str); if (fs.state == FileStorage::INSIDE_MAP + FileStorage::VALUE_EXPECTED) fs.state = FileStorage::INSIDE_MAP + FileStorage::NAME_EXPECTED; }
  } else need(false, "invalid storage state");
  return fs;
}
}
