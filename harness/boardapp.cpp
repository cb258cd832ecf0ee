// The board generator: from a configuration file to the files of the printable boards.
#include "cal.h"
#include <iostream>
namespace std { static const char *sx_endl = "\n"; }
#define endl sx_endl
#define main generator_main
#include "apps/create_charuco_boards/src/create_charuco_boards.cpp"
#undef main
#undef endl
static std::vector<std::pair<std::string, cv::Mat>> out;
static void save(const cv::String &n, cv::InputArray m) { out.push_back(std::make_pair(std::string(n), m.getMat().clone())); }
extern "C" void h_generator() {
  Cfg g; g.rx = 120; g.ry = 100; g.nboard = sx_choose("boards", 1, 3); g.nx = sx_choose("nx", 3, 4); g.ny = sx_choose("ny", 3, 4); int per = sx_choose("per board", 0, 31);
  for (int i = 0; i < g.nboard; i++) { if (per & 1) g.nxs.push_back(3 + (i + 1) % 3); if (per & 2) g.nys.push_back(5 - i); if (per & 4) g.resx.push_back(130 + 20 * i); if (per & 8) g.resy.push_back(140 - 10 * i); if (per & 16) g.sqs.push_back(0.1 * (i + 1)); }
  ensureDir(g.save); writeCfg(g, "cfg.yml"); env::imwrite_hook = save; char a0[] = "generate", a1[] = "cfg.yml"; char *argv[] = {a0, a1, nullptr};
  int rc = generator_main(2, argv); sx_prove(rc == 0, "boards are generated from a valid configuration"); Calibration *c = new Calibration("cfg.yml");
  sx_prove((int)out.size() == g.nboard && (int)c->boards_3d_.size() == g.nboard, "one file per board");
  for (int i = 0; i < g.nboard; i++) { const cv::Mat *m = nullptr; int n = 0; for (auto &o : out) if (o.first == "charuco_boards/charuco_board_00" + std::to_string(i) + ".bmp") { m = &o.second; n++; }
    sx_prove(n == 1, "each board has its own file"); if (!m) continue; int rx = per & 4 ? g.resx[i] : 120, ry = per & 8 ? g.resy[i] : 100;
    sx_prove(m->cols == rx && m->rows == ry, "a board is drawn in its resolution"); if (m->cols != rx || m->rows != ry) continue;
    auto &b = *c->boards_3d_[i]; sx_prove(b.nb_x_square_ == (per & 1 ? g.nxs[i] : g.nx) && b.nb_y_square_ == (per & 2 ? g.nys[i] : g.ny), "the calibration knows the layout of the board");
    cv::Mat e; b.charuco_board_->draw(cv::Size(rx, ry), e, 10, 1); bool same = true; for (int y = 0; y < (sx_symbolic_run() ? 1 : ry); y++) for (int x = 0; x < (sx_symbolic_run() ? 5 : rx); x++) if (e.at<uchar>(y, x) != m->at<uchar>(y, x)) same = false;
    sx_prove(same, "the drawn board is the one the calibration looks for under its number"); }
  sx_reach(per == 31 ? "per board" : per == 0 ? "uniform" : "mixed");
}
