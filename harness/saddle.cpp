// Sub-pixel refinement of corners on rendered saddles (D04, M02).
#include "ref.hpp"
#include "vh.hpp"

#define McCalib McCalib_pr // the header defines plain functions, also compiled into the library
#include "point_refinement.h"
#undef McCalib

#include "vh_main.inc"

using namespace vh;
using McCalib_pr::SaddlePoint;
using McCalib_pr::saddleSubpixelRefinement;

namespace {

struct Patch {
  double cx, cy; // true saddle, image coordinates (pixel centres at integers)
  double a1, a2; // directions of the two edges
  int lo, hi;
  int kind; // 0 saddle, 1 flat, 2 straight edge, 3 bright or dark dot
};

double shade(const Patch &p, double x, double y) {
  double dx = x - p.cx, dy = y - p.cy;
  double s1 = -std::sin(p.a1) * dx + std::cos(p.a1) * dy, s2 = -std::sin(p.a2) * dx + std::cos(p.a2) * dy;
  switch (p.kind) {
  case 0:
    return (s1 > 0) == (s2 > 0) ? p.hi : p.lo;
  case 1:
    return p.lo;
  case 2:
    return s1 > 0 ? p.hi : p.lo;
  default:
    return dx * dx + dy * dy < 9 ? p.hi : p.lo;
  }
}

bool same(double a, double b) { return a == b || (std::isinf(a) && std::isinf(b)); }

} // namespace

SUITE(d04) {
  Rng &r = c.rng;
  const bool dflt = r.p(0.5); // the window and iterations a calibration uses
  const int w = dflt ? 5 : r.i(2, 6), iters = dflt ? 20 : r.i(10, 30);
  const int cell = 4 * w + 14, nx = r.i(2, 5), ny = r.i(2, 5);
  const double blur = r.p(0.5) ? 0 : r.u(0.3, 1.2);
  const double noise = r.p(0.6) ? 0 : r.u(0.2, 2);
  cv::Mat img(ny * cell, nx * cell, CV_8UC1);
  std::vector<Patch> ps;
  for (int k = 0; k < nx * ny; k++) {
    Patch p;
    p.kind = r.p(0.75) ? 0 : r.i(1, 3);
    p.cx = (k % nx + 0.5) * cell + r.u(-1, 1);
    p.cy = (k / nx + 0.5) * cell + r.u(-1, 1);
    p.a1 = r.u(0, M_PI);
    p.a2 = p.a1 + r.u(0.9, M_PI - 0.9);
    p.lo = r.i(0, 120);
    p.hi = p.lo + r.i(60, 255 - p.lo > 60 ? 255 - p.lo : 60);
    if (r.p(0.5))
      std::swap(p.lo, p.hi);
    ps.push_back(p);
  }
  cv::Mat big(img.rows, img.cols, CV_64F);
  const int S = 6;
  for (int y = 0; y < img.rows; y++)
    for (int x = 0; x < img.cols; x++) {
      const Patch &p = ps[(y / cell) * nx + x / cell];
      double v = 0;
      for (int a = 0; a < S; a++)
        for (int b = 0; b < S; b++)
          v += shade(p, x + (a + 0.5) / S - 0.5, y + (b + 0.5) / S - 0.5);
      big.at<double>(y, x) = v / (S * S);
    }
  if (blur > 0)
    cv::GaussianBlur(big, big, cv::Size(0, 0), blur);
  for (int y = 0; y < img.rows; y++)
    for (int x = 0; x < img.cols; x++)
      img.at<uchar>(y, x) = cv::saturate_cast<uchar>(big.at<double>(y, x) + (noise > 0 ? noise * r.n() : 0));

  struct Start {
    int patch; // -1: near the border
    double off;
  };
  std::vector<cv::Point2f> in;
  std::vector<Start> st;
  for (int k = 0; k < nx * ny; k++)
    for (int rep = r.i(1, 2); rep > 0; rep--) {
      double reach = r.p(0.2) ? 1.6 : 0.7, dx = r.u(-reach, reach), dy = r.u(-reach, reach);
      in.emplace_back(float(ps[k].cx + dx), float(ps[k].cy + dy));
      st.push_back({k, std::max(std::fabs(dx), std::fabs(dy))});
    }
  for (int k = r.i(0, 4); k > 0; k--) {
    // so close to (or over) the border that the window does not fit
    float d = float(r.u(-2, w + 0.9)), t = float(r.u(0, 1));
    switch (r.i(0, 3)) {
    case 0: in.emplace_back(d, t * img.rows); break;
    case 1: in.emplace_back(t * img.cols, d); break;
    case 2: in.emplace_back(img.cols - 1 - d, t * img.rows); break;
    default: in.emplace_back(t * img.cols, img.rows - 1 - d);
    }
    st.push_back({-1, 0});
  }
  std::vector<size_t> ord(in.size());
  for (size_t k = 0; k < ord.size(); k++)
    ord[k] = k;
  r.shuffle(ord);
  std::vector<cv::Point2f> in2;
  std::vector<Start> st2;
  for (size_t k : ord) {
    in2.push_back(in[k]);
    st2.push_back(st[k]);
  }
  in = in2;
  st = st2;
  const cv::Mat before = img.clone();
  std::vector<SaddlePoint> out;
  c.desc = cat("window ", w, " iterations ", iters, " corners ", in.size(), " blur ", blur, " noise ", noise);
  saddleSubpixelRefinement(img, in, out, w, iters);
  if (cv::norm(before, img, cv::NORM_INF) != 0)
    c.fail("D04", "image", "the refinement changed the image");
  if (out.size() != in.size()) {
    c.fail("D04", "count", cat(in.size(), " corners in, ", out.size(), " out"));
    return;
  }
  double tol = 0.1 + 0.05 * noise;
  for (size_t k = 0; k < in.size(); k++) {
    const bool inf = std::isinf(out[k].x) || std::isinf(out[k].y);
    const double moved = std::max(std::fabs(out[k].x - in[k].x), std::fabs(out[k].y - in[k].y));
    c.cov("corners");
    if (!inf && !(moved <= 1.01))
      c.fail("D04", "region", cat("corner moved by ", moved, " pixels"));
    if (st[k].patch < 0) {
      c.cov("corners_at_border");
      if (!inf)
        c.fail("D04", "border", cat("corner ", in[k].x, ",", in[k].y, " in ", img.cols, "x", img.rows, " has no full window but was refined"));
      continue;
    }
    const Patch &p = ps[st[k].patch];
    if (p.kind == 0) {
      double err = std::max(std::fabs(out[k].x - p.cx), std::fabs(out[k].y - p.cy));
      bool clean = std::abs(p.hi - p.lo) >= 60 && noise <= 0.5;
      if (inf && clean && st[k].off <= 0.7)
        c.fail("D04", "gave-up", cat("corner ", st[k].off, " pixels from a clean saddle was not refined (window ", w, " iterations ", iters, ")"));
      if (!inf && err > tol * std::max(1., 120. / std::abs(p.hi - p.lo)))
        c.fail("D04", "accuracy", cat("refined corner is ", err, " pixels off (started ", st[k].off, " off, window ", w, " blur ", blur, " noise ", noise, ")"));
      if (!inf)
        c.covmax(noise > 0 ? "max_error_noisy_upx" : "max_error_upx", long(err * 1e6));
      c.cov(inf ? "saddles_left" : "saddles_refined");
      c.sig(cat("saddle", w, iters, int(p.a1 * 8), int((p.a2 - p.a1) * 6), inf));
    } else {
      c.cov("corners_without_saddle");
      if (p.kind != 2 && noise == 0 && !inf)
        c.fail("D04", "no-saddle", cat("a corner on a ", p.kind == 1 ? "flat" : "dotted", " patch was refined"));
      c.sig(cat("other", p.kind, w, inf));
    }
  }
  // each corner alone, and the list once more: same answers
  std::vector<SaddlePoint> again;
  for (size_t k = 0; k < in.size(); k++) {
    saddleSubpixelRefinement(img, std::vector<cv::Point2f>{in[k]}, again, w, iters);
    c.cov("refined_alone");
    if (again.size() != 1 || !same(again[0].x, out[k].x) || !same(again[0].y, out[k].y))
      c.fail("D04", "list", cat("corner ", k, " of ", in.size(), " is refined to ", out[k].x, ",", out[k].y, " in the list but to ",
                                again.empty() ? 0 : again[0].x, ",", again.empty() ? 0 : again[0].y, " alone"));
  }
  saddleSubpixelRefinement(img, in, again, w, iters);
  for (size_t k = 0; k < in.size() && k < again.size(); k++)
    if (!same(again[k].x, out[k].x) || !same(again[k].y, out[k].y)) {
      c.fail("D04", "repeat", "the same call gives another answer");
      break;
    }
}
