// Helpers shared by the harnesses: build the real Calibration from a
// configuration file, add observations through the real entry points.
#pragma once
#include "sx_api.h"
#include "env.h"
#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "utilities.hpp"
#include <cmath>
#include <fstream>
using namespace McCalib;
struct Cfg {
  int ncam = 1, nboard = 1, nx = 4, ny = 3, model = 0, refine = 0, he = 0, fix = 0, iters = 5;
  double sq = 1.0, min_perc = 0.1, ransac = 3.0, len_sq = 0.04, len_mk = 0.03;
  std::string root = "in", save = "out", params = "None", kpts = "None", pfile = "";
  std::vector<int> model_per_cam, bindex, nxs, nys, resx, resy; std::vector<double> sqs;
  int quat = 1, rx = 500, ry = 400; int custom_quat = 0, sdet = 0, srep = 0;
};
inline void ensureDir(const std::string &d) { std::filesystem::create_directories(d); }
inline void writeCfg(const Cfg &c, const std::string &path) {
  cv::FileStorage f(path, cv::FileStorage::WRITE);
  f << "number_x_square" << c.nx << "number_y_square" << c.ny << "resolution_x" << c.rx << "resolution_y" << c.ry;
  f << "length_square" << c.len_sq << "length_marker" << c.len_mk << "number_board" << c.nboard;
  f << "boards_index" << c.bindex << "square_size" << c.sq;
  f << "number_x_square_per_board" << c.nxs << "number_y_square_per_board" << c.nys << "resolution_x_per_board" << c.resx << "resolution_y_per_board" << c.resy << "square_size_per_board" << c.sqs;
  f << "distortion_model" << c.model << "distortion_per_camera" << c.model_per_cam << "number_camera" << c.ncam;
  f << "refine_corner" << c.refine << "min_perc_pts" << c.min_perc << "cam_params_path" << c.params;
  f << "root_path" << c.root << "cam_prefix" << "Cam_" << "keypoints_path" << c.kpts;
  f << "ransac_threshold" << c.ransac << "number_iterations" << c.iters << "he_approach" << c.he << "fix_intrinsic" << c.fix;
  f << "save_path" << c.save << "save_detection" << c.sdet << "save_reprojection" << c.srep << "camera_params_file_name" << c.pfile;
  if (c.custom_quat) f << "quaternion_averaging" << c.quat;
  f.release();
}
inline Calibration *makeCalib(const Cfg &c, const std::string &path = "cfg.yml") { ensureDir(c.save); writeCfg(c, path); return new Calibration(path); }
inline Calibration *makeCalib(int ncam, int nboard, int nx = 4, int ny = 3) { Cfg c; c.ncam = ncam; c.nboard = nboard; c.nx = nx; c.ny = ny; return makeCalib(c); }
inline bool eqMat(const cv::Mat &a, const cv::Mat &b) { return a.rows == b.rows && a.cols == b.cols; }
inline void proveMatEq(const cv::Mat &a, const cv::Mat &b, const char *l) {
  sx_prove(a.rows == b.rows && a.cols == b.cols, l);
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cols; j++) sx_prove_eq(a.at<double>(i, j), b.at<double>(i, j), l);
}
// A rigid transformation with unconstrained rotation and translation.
struct Pose { cv::Mat r, t; cv::Mat m() const { return RVecT2Proj(r, t); } };
inline cv::Mat poseMat(const double r[3], const double t[3]) {
  cv::Mat R(3, 1, CV_64F), T(3, 1, CV_64F), M; for (int i = 0; i < 3; i++) { R.at<double>(i) = r[i]; T.at<double>(i) = t[i]; }
  cv::Rodrigues(R, M); cv::Mat P = cv::Mat::eye(4, 4, CV_64F);
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) P.at<double>(i, j) = M.at<double>(i, j); P.at<double>(i, 3) = t[i]; }
  return P;
}
inline cv::Mat genPose(const char *name) { double r[3], t[3]; sx_pose_gen(name, r, t); return poseMat(r, t); }
inline std::string S(const char *b, int i) { return std::string(b) + std::to_string(i); }
inline bool sameMat(const cv::Mat &a, const cv::Mat &b) { // identical terms: decides which of several known transformations a result is
  if (a.rows != b.rows || a.cols != b.cols) return false;
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cols; j++) if (!sx_same(a.at<double>(i, j), b.at<double>(i, j))) return false;
  return true;
}
