// Hand-eye calibration by the only candidate consistent with all the views it is given.
#pragma once
#include "cal.h"
#include <algorithm>
#include <set>
namespace he {
std::vector<cv::Mat> p1, p2, cand; int truth, calls, lastN; std::vector<int> label; int k; std::vector<int> script; std::vector<cv::Mat> gave;
static void out(const cv::Mat &P, double *r, double *t) { double R[9]; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) R[3 * i + j] = P.at<double>(i, j); t[i] = P.at<double>(i, 3); } cv::Mat M(3, 3, CV_64F), v; for (int i = 0; i < 9; i++) M.at<double>(i / 3, i % 3) = R[i]; cv::Rodrigues(M, v); for (int i = 0; i < 3; i++) r[i] = v.at<double>(i); }
static std::vector<cv::Mat> poses(cv::InputArrayOfArrays r, cv::InputArrayOfArrays t) { std::vector<cv::Mat> o; int n = (int)r.total(); for (int i = 0; i < n; i++) { cv::Mat R = r.getMat(i), T = t.getMat(i), P = cv::Mat::eye(4, 4, CV_64F), M = R; if (R.total() == 3) cv::Rodrigues(R, M); for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) P.at<double>(a, b) = M.at<double>(a, b); P.at<double>(a, 3) = T.at<double>(a); } o.push_back(P); } return o; }
// cam2gripper: the only candidate X with gripper2base * X * target2cam the same for all views
static void solve(cv::InputArrayOfArrays a, cv::InputArrayOfArrays b, cv::InputArrayOfArrays c, cv::InputArrayOfArrays d, double *r, double *t) {
  const char *l = "hand-eye calibration gets the poses of both groups for the same instants"; calls++; auto A = poses(a, b), B = poses(c, d); lastN = (int)A.size(); sx_prove(A.size() == B.size() && A.size() > 0, l); if (A.size() != B.size() || A.empty()) return;
  int hit = -1; for (size_t x = 0; x < cand.size() && hit < 0; x++) { cv::Mat w = A[0] * cand[x] * B[0]; bool ok = true; for (size_t j = 1; j < A.size() && ok; j++) ok = sameMat(A[j] * cand[x] * B[j], w); if (ok) hit = (int)x; }
  sx_prove(hit >= 0, l); if (hit < 0) hit = 0; out(cand[hit], r, t);
}
// which recorded instant a pair of poses is
static int instant(const cv::Mat &a, const cv::Mat &b) { for (size_t i = 0; i < p1.size(); i++) if ((sameMat(a, p1[i].inv()) && sameMat(b, p2[i])) || (sameMat(a, p2[i].inv()) && sameMat(b, p1[i]))) return (int)i; return -1; }
static void boot(cv::InputArrayOfArrays a, cv::InputArrayOfArrays b, cv::InputArrayOfArrays c, cv::InputArrayOfArrays d, double *r, double *t) {
  const char *l = "each hand-eye hypothesis uses one pose pair of each of the selected clusters"; auto A = poses(a, b), B = poses(c, d); std::set<int> cl, in; for (size_t j = 0; j < A.size() && j < B.size(); j++) { int i = instant(A[j], B[j]); sx_prove(i >= 0, "hand-eye calibration gets the poses of both groups for the same instants"); if (i < 0) return; cl.insert(label[i]); in.insert(i); }
  int n = (int)p1.size(); sx_prove(((int)A.size() == std::min(6, k) && cl.size() == A.size()) || ((int)A.size() == n && (int)in.size() == n), l);
  if (script.empty()) { solve(a, b, c, d, r, t); return; }
  bool all = (int)A.size() == n; cv::Mat X; if (all && calls >= (int)script.size() - 1) X = cand[script.back()]; else X = cand[script[std::min(calls, (int)script.size() - 2)]]; calls++; gave.push_back(X); out(X, r, t);
}
static int labels(int i, int, int) { return label[i]; }
}
