// Builds a real Calibration from a configuration file in the current
// (scratch) directory, and views of a rig with known poses.
#pragma once
#include "McCalib.hpp"
#include "geometrytools.hpp"
#include "utilities.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
using namespace McCalib;
static void must(bool ok, const char *what) { if (!ok) { printf("FAILED: %s\n", what); fflush(stdout); _Exit(1); } }
static bool near(double a, double b, double tol = 1e-4) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static bool nearMat(const cv::Mat &a, const cv::Mat &b, double tol = 1e-4) { if (a.rows != b.rows || a.cols != b.cols) return false; for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cols; j++) if (!near(a.at<double>(i, j), b.at<double>(i, j), tol)) return false; return true; }
static cv::Mat rigid(double a, double b, double c, double x, double y, double z) { cv::Mat r = (cv::Mat_<double>(3, 1) << a, b, c), t = (cv::Mat_<double>(3, 1) << x, y, z); return RVecT2Proj(r, t); }
struct Conf { int ncam = 1, nboard = 1, nx = 4, ny = 4, model = 0, iters = 5, he = 0, fix = 0; double min_perc = 0.1, ransac = 3; std::string xs = "[]", ys = "[]", rs = "[]", sizes = "[]", root = "in", save = "out", params = "None", kpts = "None", extra = "", per_cam = "[]"; };
static Calibration *make(const Conf &c) {
  std::filesystem::create_directories("out");
  std::ofstream f("cfg.yml"); f << "%YAML:1.0\n---\nnumber_x_square: " << c.nx << "\nnumber_y_square: " << c.ny << "\nresolution_x: 500\nresolution_y: 500\nlength_square: 0.04\nlength_marker: 0.03\nnumber_board: " << c.nboard << "\nboards_index: []\nsquare_size: 1.0\nnumber_x_square_per_board: " << c.xs << "\nnumber_y_square_per_board: " << c.ys << "\nresolution_x_per_board: " << c.rs << "\nresolution_y_per_board: " << c.rs << "\nsquare_size_per_board: " << c.sizes << "\ndistortion_model: " << c.model << "\ndistortion_per_camera: " << c.per_cam << "\nnumber_camera: " << c.ncam << "\nrefine_corner: 0\nmin_perc_pts: " << c.min_perc << "\ncam_params_path: \"" << c.params << "\"\nfix_intrinsic: " << c.fix << "\nroot_path: \"" << c.root << "\"\ncam_prefix: \"Cam_\"\nkeypoints_path: \"" << c.kpts << "\"\nquaternion_averaging: 1\nransac_threshold: " << c.ransac << "\nnumber_iterations: " << c.iters << "\nhe_approach: " << c.he << "\nsave_path: \"" << c.save << "\"\nsave_detection: 0\nsave_reprojection: 0\ncamera_params_file_name: \"\"\n" << c.extra;
  f.close(); return new Calibration("cfg.yml");
}
struct Rig {
  Calibration *c; std::vector<cv::Mat> cam, mov, brd;
  Rig(int nc, int nf, int nb, Conf k = Conf()) { k.ncam = nc; k.nboard = nb; c = make(k); for (int i = 0; i < nc; i++) cam.push_back(rigid(0.1 * i, 0.2 - 0.1 * i, 0.05 * i * i, 0.5 * i, -0.3 * i, 0.2 * i)); for (int i = 0; i < nf; i++) mov.push_back(rigid(0.1 + 0.05 * i, 0.07 * i * i, -0.06 * i, 0.4 * i, 0.2 - 0.1 * i, 12 + i)); for (int i = 0; i < nb; i++) brd.push_back(rigid(0.3 * i, -0.2 * i * i, 0.1 * i, 2.0 * i, 1.0 - i, 0.5 * i)); for (auto &q : c->cams_) for (int i = 0; i < 9; i++) q.second->intrinsics_[i] = i < 2 ? 500 + 20 * q.first : i < 4 ? 300 + 10 * i : 0; }
  cv::Mat pose(int k, int f, int b) { return cam[k] * mov[f] * brd[b]; }
  // a view of some corners with its true pose
  BoardObs &see(int k, int f, int b, std::vector<int> ids = {0, 1, 2, 4, 5}, bool valid = true) {
    cv::Mat r, t; Proj2RT(pose(k, f, b), r, t); std::vector<cv::Point3f> o; for (int i : ids) o.push_back(c->boards_3d_[b]->pts_3d_[i]); std::vector<cv::Point2f> p; projectPointsWithDistortion(o, r, t, c->cams_[k]->getCameraMat(), c->cams_[k]->getDistortionVectorVector(), c->cams_[k]->distortion_model_, p);
    c->insertNewBoard(k, f, b, p, ids, "im"); BoardObs &x = *c->board_observations_[(int)c->board_observations_.size() - 1]; x.setPoseMat(pose(k, f, b)); x.valid_ = valid; return x;
  }
  void objects() { c->computeBoardsPairPose(); c->initInterTransform(c->board_pose_pairs_, c->inter_board_transform_); c->initInterBoardsGraph(); c->init3DObjects(); c->initAll3DObjectObs(); }
  void exact() { for (auto &o : c->object_observations_) { auto &x = *o.second; x.setPoseMat(pose(x.camera_id_, x.frame_id_, x.object_3d_.lock()->ref_board_id_)); } }
  void groups() { c->computeCamerasPairPose(); c->initInterTransform(c->camera_pose_pairs_, c->inter_camera_transform_); c->initInterCamerasGraph(); c->initCameraGroup(); c->initAllCameraGroupObs(); }
};
