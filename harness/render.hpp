// Pictures of ChArUco boards with known corner positions.
#pragma once
#include "scene.hpp"
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>

namespace rd {
using namespace ref;
using vh::cat;

// one printed board, as the documentation describes a configuration
struct Print {
  int nx, ny;
  double ratio; // marker / square
  cv::Ptr<cv::aruco::CharucoBoard> board;
  int firstId = 0;
};

inline cv::Ptr<cv::aruco::Dictionary> dictionary() {
  static cv::Ptr<cv::aruco::Dictionary> d = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  return d;
}

// boards 0..n-1 of one configuration carry consecutive marker numbers
inline std::vector<Print> prints(const std::vector<std::pair<int, int>> &size, double square, double marker) {
  std::vector<Print> out;
  int first = 0;
  for (auto &z : size) {
    Print p;
    p.nx = z.first, p.ny = z.second, p.ratio = marker / square, p.firstId = first;
    p.board = cv::aruco::CharucoBoard::create(z.first, z.second, float(square), float(marker), dictionary());
    for (auto &id : p.board->ids)
      id += first;
    first += int(p.board->ids.size());
    out.push_back(p);
  }
  return out;
}

struct Placed {
  int print;  // which printed board
  double sq;  // metric square size
  M4 T;       // board -> camera (z away from the viewer)
  std::vector<char> hidden; // per square, row-major from the top
  std::vector<V2> truth;    // image position of every corner
  bool clean(const Print &p, int k) const { // none of the four squares around corner k is hidden
    int x = k % (p.nx - 1), y = k / (p.nx - 1);
    for (int b = 0; b < 2; b++)
      for (int a = 0; a < 2; a++)
        if (hidden[(y + b) * p.nx + x + a])
          return false;
    return true;
  }
};

struct Lens {
  double f, cx, cy;
  int w, h;
};

inline V3 corner(const Print &p, double sq, int k) { return V3((k % (p.nx - 1)) * sq, (k / (p.nx - 1)) * sq, 0); }

// paint the board over the (SS times larger) canvas
const int SS = 3;
inline void paint(cv::Mat &canvas, const Lens &L, const Print &p, Placed &b, vh::Rng &r) {
  const int px = 48;
  cv::Mat tex;
  p.board->draw(cv::Size(p.nx * px, p.ny * px), tex, 0, 1);
  for (int y = 0; y < p.ny; y++)
    for (int x = 0; x < p.nx; x++)
      if (b.hidden[y * p.nx + x])
        tex(cv::Rect(x * px, y * px, px, px)).setTo(120 + r.i(-30, 30));
  // darker white and lighter black, as in a photograph
  tex.convertTo(tex, CV_8U, r.u(0.7, 0.9), r.u(10, 25));
  const int quiet = px / 2;
  cv::Mat framed;
  cv::copyMakeBorder(tex, framed, quiet, quiet, quiet, quiet, cv::BORDER_CONSTANT, cv::Scalar(220));
  // texture pixel -> board plane -> image pixel -> canvas pixel
  M3 A;
  A << b.sq / px, 0, ((0.5 - quiet) / px - 1) * b.sq, 0, b.sq / px, ((0.5 - quiet) / px - 1) * b.sq, 0, 0, 1;
  M3 P, K, S;
  P << b.T(0, 0), b.T(0, 1), b.T(0, 3), b.T(1, 0), b.T(1, 1), b.T(1, 3), b.T(2, 0), b.T(2, 1), b.T(2, 3);
  K << L.f, 0, L.cx, 0, L.f, L.cy, 0, 0, 1;
  S << SS, 0, (SS - 1) / 2., 0, SS, (SS - 1) / 2., 0, 0, 1;
  M3 H = S * K * P * A;
  cv::Mat Hc = toCv3(H);
  cv::Mat warped, mask, ones(framed.size(), CV_8U, cv::Scalar(255));
  cv::warpPerspective(framed, warped, Hc, canvas.size(), cv::INTER_LINEAR);
  cv::warpPerspective(ones, mask, Hc, canvas.size(), cv::INTER_NEAREST);
  warped.copyTo(canvas, mask);
  b.truth.clear();
  for (int k = 0; k < (p.nx - 1) * (p.ny - 1); k++) {
    V3 q = K * app(b.T, corner(p, b.sq, k));
    b.truth.emplace_back(q.x() / q.z(), q.y() / q.z());
  }
}

inline cv::Mat background(const Lens &L, vh::Rng &r) {
  cv::Mat c(L.h * SS, L.w * SS, CV_8U);
  int a = r.i(60, 200), gx = r.i(-40, 40), gy = r.i(-40, 40);
  for (int y = 0; y < c.rows; y++)
    for (int x = 0; x < c.cols; x++)
      c.at<uchar>(y, x) = cv::saturate_cast<uchar>(a + gx * x / c.cols + gy * y / c.rows);
  return c;
}
inline cv::Mat shoot(const cv::Mat &canvas, const Lens &L, double noise, vh::Rng &r) {
  cv::Mat g, out;
  cv::resize(canvas, g, cv::Size(L.w, L.h), 0, 0, cv::INTER_AREA);
  if (noise > 0) {
    cv::Mat n(g.size(), CV_16S);
    cv::RNG rng(r.g());
    rng.fill(n, cv::RNG::NORMAL, 0, noise);
    cv::Mat t;
    g.convertTo(t, CV_16S);
    t += n;
    t.convertTo(g, CV_8U);
  }
  cv::cvtColor(g, out, cv::COLOR_GRAY2BGR);
  return out;
}
// board facing the camera, turned by R, its middle at c
inline M4 facing(const Print &p, double sq, const M3 &R, const V3 &c) {
  const M3 &Q = R;
  V3 mid((p.nx - 2) * sq / 2, (p.ny - 2) * sq / 2, 0);
  return T(Q, c - Q * mid);
}

// ------------------------------------------------ what a detection must be
struct Seen {
  std::vector<int> ids;
  std::vector<cv::Point2f> raw;
};
inline Seen look(const cv::Mat &img, const Print &p) {
  Seen s;
  auto prm = cv::aruco::DetectorParameters::create();
  prm->adaptiveThreshConstant = 1;
  std::vector<int> mi;
  std::vector<std::vector<cv::Point2f>> mc;
  cv::aruco::detectMarkers(img, dictionary(), mc, mi, prm);
  if (!mc.empty())
    cv::aruco::interpolateCornersCharuco(mc, mi, img, p.board, s.raw, s.ids);
  return s;
}
// mean distance of the corners from their best line, in squares
inline double spread(const Print &p, const std::vector<int> &ids) {
  if (ids.empty())
    return 0;
  V2 m(0, 0);
  std::vector<V2> q;
  for (int k : ids)
    q.emplace_back(k % (p.nx - 1), k / (p.nx - 1));
  for (auto &x : q)
    m += x / double(q.size());
  Eigen::Matrix2d S = Eigen::Matrix2d::Zero();
  for (auto &x : q)
    S += (x - m) * (x - m).transpose();
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d> es(S);
  V2 n = es.eigenvectors().col(0);
  double d = 0;
  for (auto &x : q)
    d += std::fabs(n.dot(x - m)) / double(q.size());
  return d;
}
// 1 must be accepted, 0 must not, -1 borderline
inline int verdict(const Print &p, const Seen &s, double share) {
  double n = (p.nx - 1) * (p.ny - 1), cnt = double(s.ids.size());
  double want = std::floor(share * n + 0.5); // the share in whole corners
  bool tie = std::fabs(share * n + 0.5 - std::round(share * n + 0.5)) < 1e-4;
  if (s.ids.size() <= 4 || cnt < want - 1e-6)
    return 0;
  double d = spread(p, s.ids);
  if (d < 1e-3)
    return 0;
  if (tie && std::fabs(cnt - want) < 1.5)
    return -1;
  if (cnt <= want)
    return 0;
  return d > 0.1001 ? 1 : -1;
}
} // namespace rd
