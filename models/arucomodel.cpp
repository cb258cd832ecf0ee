// Symbolic-run model of OpenCV 4.6's ChArUco board objects.
#include "sx_api.h"
#include <opencv2/aruco/charuco.hpp>
namespace cv { namespace aruco {
DetectorParameters::DetectorParameters() {}
Ptr<DetectorParameters> DetectorParameters::create() { return makePtr<DetectorParameters>(); }
Dictionary::Dictionary(const Mat &b, int ms, int mc) : bytesList(b), markerSize(ms), maxCorrectionBits(mc) {}
Ptr<Dictionary> getPredefinedDictionary(PREDEFINED_DICTIONARY_NAME) { return makePtr<Dictionary>(Mat(), 6, 5); }
// markers lie on the white squares, ids 0, 1, 2, ... from the bottom row up;
// inner chessboard corners row by row (OpenCV 4.6 charuco.cpp)
Ptr<CharucoBoard> CharucoBoard::create(int sx, int sy, float sl, float ml, const Ptr<Dictionary> &dict) {
  if (!(sx > 1 && sy > 1 && ml > 0 && sl > ml)) { sx_fault("cv-exception", "CharucoBoard::create: invalid board size"); }
  Ptr<CharucoBoard> r = makePtr<CharucoBoard>();
  r->_squaresX = sx; r->_squaresY = sy; r->_squareLength = sl; r->_markerLength = ml; r->dictionary = dict;
  float diff = (sl - ml) / 2;
  for (int y = sy - 1; y >= 0; y--) for (int x = 0; x < sx; x++) {
    if (y % 2 == x % 2) continue;
    std::vector<Point3f> c(4); c[0] = Point3f(x * sl + diff, y * sl + diff + ml, 0); c[1] = c[0] + Point3f(ml, 0, 0); c[2] = c[0] + Point3f(ml, -ml, 0); c[3] = c[0] + Point3f(0, -ml, 0);
    r->objPoints.push_back(c); r->ids.push_back((int)r->ids.size());
  }
  for (int y = 0; y < sy - 1; y++) for (int x = 0; x < sx - 1; x++) r->chessboardCorners.push_back(Point3f((x + 1) * sl, (y + 1) * sl, 0));
  return r;
}
// a drawn board is a blank image with its layout and markers written in the first pixels
void CharucoBoard::draw(Size s, OutputArray img, int, int) {
  Mat m(s.height, s.width, CV_8UC1, Scalar(255)); int v[5] = {_squaresX, _squaresY, ids.empty() ? 255 : ids[0], (int)ids.size(), (int)(_markerLength / _squareLength * 100 + 0.5f)};
  for (int i = 0; i < 5 && i < s.width && s.height > 0; i++) m.at<unsigned char>(0, i) = (unsigned char)v[i];
  m.copyTo(img);
}
} }
