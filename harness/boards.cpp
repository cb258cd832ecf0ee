// Board geometry, marker ids, configuration.
#include "cal.h"
extern "C" void h_layout() {
  Cfg g; g.ncam = 1;
  int total = sx_choose("boards_printed", 1, 3), per_count = sx_choose("counts_per_board", 0, 3), per_size = sx_choose("sizes_per_board", 0, 1), subset = sx_choose("subset", 0, 2);
  g.nx = sx_choose("nx", 3, 5); g.ny = sx_choose("ny", 3, 4); double sq = sx_real("square"); sx_assume(sq > 0.001 && sq < 1000); g.sq = sq;
  if (per_count) for (int i = 0; i < total; i++) { if (per_count & 1) g.nxs.push_back(i == 0 ? g.nx + 1 : 3 + i); if (per_count & 2) g.nys.push_back(i == 0 ? g.ny : 6 - i); }
  if (per_size) for (int i = 0; i < total; i++) { double s = sx_real("square_of_board"); sx_assume(s > 0.001 && s < 1000); g.sqs.push_back(s); }
  std::vector<int> used;
  if (subset == 0) for (int i = 0; i < total; i++) used.push_back(i);
  else { used.push_back(total - 1); if (subset == 2 && total > 1) used.push_back(0); g.bindex = used; }
  g.nboard = total;
  Calibration *c = makeCalib(g);
  sx_prove(c->nb_board_ == used.size() && c->boards_3d_.size() == used.size(), "exactly the selected boards are used");
  for (size_t b = 0; b < used.size(); b++) {
    sx_prove(c->boards_3d_.count((int)b) == 1, "exactly the selected boards are used");
    Board &bd = *c->boards_3d_[(int)b]; int id = used[b];
    int nx = per_count & 1 ? g.nxs[id] : g.nx, ny = per_count & 2 ? g.nys[id] : g.ny; double s = per_size ? g.sqs[id] : sq;
    sx_prove(bd.nb_x_square_ == nx && bd.nb_y_square_ == ny, "a board has the configured number of squares");
    sx_prove((int)bd.nb_pts_ == (nx - 1) * (ny - 1) && bd.pts_3d_.size() == bd.nb_pts_, "a board has (nx-1)(ny-1) corners");
    sx_prove(bd.charuco_board_->chessboardCorners.size() == bd.pts_3d_.size(), "every corner id the detector can report exists on the board");
    for (size_t i = 0; i < bd.pts_3d_.size(); i++) {
      sx_prove_eq(bd.pts_3d_[i].x, (double)(i % (nx - 1)) * s, "corners form the printed grid scaled by the square size");
      sx_prove_eq(bd.pts_3d_[i].y, (double)(i / (nx - 1)) * s, "corners form the printed grid scaled by the square size");
      sx_prove_eq(bd.pts_3d_[i].z, 0, "corners form the printed grid scaled by the square size");
    }
    sx_prove_eq(bd.square_size_, s, "a board has the configured square size");
    sx_prove(bd.board_id_ == (int)b, "a board knows its index");
    // the corners of the detector's board are the same grid, up to scale and offset
    auto &cc = bd.charuco_board_->chessboardCorners;
    for (size_t i = 1; i < cc.size(); i++) {
      sx_prove_close((cc[i].x - cc[0].x) / g.len_sq, (double)(i % (nx - 1)), 1e-3, "corner ids mean the same corner to the detector and to the board"); sx_prove_close((cc[i].y - cc[0].y) / g.len_sq, (double)(i / (nx - 1)), 1e-3, "corner ids mean the same corner to the detector and to the board");
    }
  }
  sx_reach(per_count ? "counts per board" : "uniform counts"); sx_reach(subset ? "subset" : "all boards");
}
// Marker ids identify boards: disjoint between boards, and independent of which
// subset of the printed boards is selected.
extern "C" void h_markers() {
  int total = sx_choose("boards_printed", 1, 4); std::vector<int> nx, ny;
  for (int i = 0; i < total; i++) { nx.push_back(sx_choose("nx", 3, 5)); ny.push_back(sx_choose("ny", 3, 4)); }
  auto dict = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  auto printed = createCharucoBoards(total, nx, ny, 0.04f, 0.03f, dict);
  sx_prove((int)printed.size() == total, "one board per requested board");
  int next = 0;
  for (int b = 0; b < total; b++) {
    sx_prove(printed.count(b) == 1, "one board per requested board");
    auto &ids = printed[b]->ids; int nm = nx[b] * ny[b] / 2;
    sx_prove((int)ids.size() == nm, "a board carries one marker per white square");
    for (size_t k = 0; k < ids.size(); k++) { sx_prove_eqi(ids[k], next, "marker ids of successive boards are consecutive and disjoint"); next++; }
  }
  Cfg g; g.nboard = total; g.nx = nx[0]; g.ny = ny[0]; g.nxs = nx; g.nys = ny;
  int last = sx_choose("selected", 0, total - 1); g.bindex.push_back(last); if (last > 0 && sx_choose("two", 0, 1)) g.bindex.push_back(0);
  Calibration *c = makeCalib(g);
  for (size_t b = 0; b < g.bindex.size(); b++) {
    auto &ids = c->boards_3d_[(int)b]->charuco_board_->ids; auto &want = printed[g.bindex[b]]->ids;
    sx_prove(ids.size() == want.size(), "a selected board is searched with the markers printed on it");
    for (size_t k = 0; k < ids.size(); k++) sx_prove_eqi(ids[k], want[k], "a selected board is searched with the markers printed on it");
  }
  sx_reach(total > 1 ? "several boards" : "one board");
}
extern "C" void h_images() { // board images: one per board, of the configured resolution
  int total = sx_choose("boards", 1, 3); std::vector<int> nx, ny, rx, ry;
  for (int i = 0; i < total; i++) { nx.push_back(3 + i); ny.push_back(4); rx.push_back(100 * (i + 1) + 100 * sx_choose("rx", 0, 1)); ry.push_back(150 + 50 * i); }
  auto im = createCharucoBoardsImages(total, nx, ny, 0.04f, 0.03f, rx, ry);
  sx_prove((int)im.size() == total, "one image per board");
  for (int i = 0; i < total; i++) sx_prove(im[i].cols == rx[i] && im[i].rows == ry[i], "a board image has the resolution of its board");
  sx_reach("images");
}
extern "C" void h_config() {
  Cfg g; g.ncam = sx_choose("cameras", 1, 3); g.nboard = sx_choose("boards", 1, 2);
  g.model = sx_choose("model", 0, 1); int per = sx_choose("per_camera", 0, 1); if (per) for (int i = 0; i < g.ncam; i++) g.model_per_cam.push_back(sx_choose("camera_model", 0, 1));
  g.refine = sx_choose("refine", 0, 1); g.he = sx_range("he", 0, 1); g.fix = sx_range("fix", 0, 1); g.iters = sx_range("iters", 1, 100000);
  double mp = sx_real("min_perc"), rt = sx_real("ransac"); sx_assume(mp >= 0 && mp <= 1 && rt > 0 && rt < 1000); g.min_perc = mp; g.ransac = rt;
  g.custom_quat = 1; g.quat = sx_choose("quat", 0, 1); g.root = sx_choose("root", 0, 1) ? "in/a" : "data"; g.pfile = sx_choose("pfile", 0, 1) ? "cams.yml" : "";
  g.params = sx_choose("params", 0, 1) ? "p/intrinsics.yml" : "None";
  Calibration *c = makeCalib(g);
  sx_prove((int)c->nb_camera_ == g.ncam && (int)c->cams_.size() == g.ncam, "one camera per configured camera");
  for (int i = 0; i < g.ncam; i++) { sx_prove(c->cams_.count(i) == 1 && c->cams_[i]->cam_idx_ == i, "one camera per configured camera"); sx_prove_eqi(c->cams_[i]->distortion_model_, per ? g.model_per_cam[i] : g.model, "each camera uses the configured lens model"); }
  sx_prove(c->refine_corner_ == (g.refine != 0), "the corner refinement switch takes effect");
  sx_prove(c->quaternion_averaging_ == (g.quat != 0), "the rotation averaging switch takes effect");
  sx_prove_eqi(c->he_approach_, g.he, "the hand-eye method takes effect"); sx_prove_eqi(c->fix_intrinsic_, g.fix, "the fixed-intrinsics switch takes effect"); sx_prove_eqi(c->nb_iterations_, g.iters, "the iteration limit takes effect");
  sx_prove_eq(c->min_perc_pts_, mp, "the visibility threshold takes effect"); sx_prove_eq(c->ransac_thresh_, rt, "the outlier threshold takes effect");
  sx_prove(c->root_path_ == g.root && c->save_path_ == g.save && c->camera_params_file_name_ == g.pfile && c->cam_params_path_ == g.params && c->keypoints_path_ == g.kpts && c->cam_prefix_ == "Cam_", "the configured paths take effect");
  sx_reach("configured");
}
