// Scripting interface of the environment stubs (see env.cpp)
#pragma once
#include "sx_api.h"
#include <ceres/ceres.h>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/calib3d.hpp>
#include <opencv2/core.hpp>
#include <opencv2/opencv.hpp>
#include <functional>
#include <vector>
namespace env {
struct Block { ceres::Problem *problem; ceres::CostFunction *cost; ceres::LossFunction *loss; int n; double *x[8]; };
std::vector<Block> &recorded();
void clear();
extern void (*solve_hook)(void);
typedef bool (*PnpHook)(cv::InputArray obj, cv::InputArray img, cv::InputArray K, cv::InputArray d, double *r, double *t, int flags);
typedef void (*CalibHook)(int model, cv::InputArrayOfArrays obj, cv::InputArrayOfArrays img, cv::Size s, cv::Mat &K, cv::Mat &D, int flags);
typedef void (*HandEyeHook)(cv::InputArrayOfArrays, cv::InputArrayOfArrays, cv::InputArrayOfArrays, cv::InputArrayOfArrays, double *r, double *t);
typedef int (*KmeansHook)(int i, int n, int k);
// stage 0: markers (fill corners, ids); stage 1: interpolation (fill charuco, ids)
typedef void (*DetectHook)(int stage, cv::InputArray image, const cv::aruco::CharucoBoard *b, std::vector<std::vector<cv::Point2f>> &corners, std::vector<int> &ids, std::vector<cv::Point2f> *charuco);
typedef cv::Mat (*ImreadHook)(const cv::String &f);
typedef void (*UndistHook)(cv::InputArray s, cv::OutputArray d, cv::InputArray K, cv::InputArray D, cv::InputArray P);
typedef void (*CircleHook)(cv::InputOutputArray image, cv::Point c, int radius, const cv::Scalar &color);
typedef void (*ImwriteHook)(const cv::String &f, cv::InputArray image);
extern CircleHook circle_hook; extern ImwriteHook imwrite_hook;
typedef void (*GlobHook)(const cv::String &p, std::vector<cv::String> &r);
// image of one object point at a pose (symbolic runs only); false: not known
typedef bool (*ProjectHook)(const cv::Point3d &p, const cv::Mat &r, const cv::Mat &t, const cv::Mat &K, const cv::Mat &d, double uv[2]);
extern ProjectHook project_hook;
extern int opaque_projection; // projections are uninterpreted functions even where all values are known
extern int random_mode, random_levels; // levels: a multiple of the sizes drawn from; 0: fixed choices, 1: every permutation / draw
extern PnpHook pnp_hook; extern int pnp_calls;
extern CalibHook calib_hook; extern HandEyeHook handeye_hook; extern KmeansHook kmeans_hook; extern DetectHook detect_hook; extern ImreadHook imread_hook;
extern UndistHook undist_hook; extern GlobHook glob_hook;
}
