// The line fit behind the collinearity test of detections (D03).
#include "ref.hpp"
#include "vh.hpp"

#include "McCalib.hpp"
#include "logger.h"

#include "vh_main.inc"

using namespace vh;
using namespace ref;

SUITE(d03line) {
  Rng &r = c.rng;
  int n = r.i(2, 40);
  double sc = std::pow(10., r.u(-2, 3));
  int kind = r.i(0, 3); // exact line, noisy, blob, grid subset
  double ang = r.p(0.2) ? M_PI / 2 * r.i(0, 3) : r.u(0, 2 * M_PI);
  V2 d(std::cos(ang), std::sin(ang)), o(r.u(-1, 1) * sc, r.u(-1, 1) * sc);
  std::vector<cv::Point2f> p;
  for (int k = 0; k < n; k++) {
    V2 q;
    if (kind == 3)
      q = V2(r.i(0, 5), r.i(0, 5)) * sc;
    else
      q = o + d * r.u(-1, 1) * sc * 5 + V2(-d.y(), d.x()) * (kind == 0 ? 0 : kind == 1 ? 0.05 : 2) * sc * r.n();
    p.emplace_back(float(q.x()), float(q.y()));
  }
  // total least squares optimum
  V2 m(0, 0);
  for (auto &q : p)
    m += V2(q.x, q.y) / n;
  Eigen::Matrix2d S = Eigen::Matrix2d::Zero();
  for (auto &q : p)
    S += (V2(q.x, q.y) - m) * (V2(q.x, q.y) - m).transpose();
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d> es(S);
  double opt = es.eigenvalues()(0), big = es.eigenvalues()(1);
  if (big < 1e-9 * sc * sc)
    return;
  double a, b, e, res;
  McCalib::calcLinePara(p, a, b, e, res);
  double sum = 0, sum2 = 0;
  for (auto &q : p) {
    double dd = std::fabs(a * q.x + b * q.y + e);
    sum += dd;
    sum2 += dd * dd;
  }
  static const char *kn[] = {"line", "noisy", "blob", "grid"};
  c.desc = cat(kn[kind], " n=", n, " scale=", sc);
  c.cov("fits");
  c.sig(cat(kind, n, int(std::log10(sc))));
  double far = o.norm() + 10 * sc;
  if (std::fabs(std::hypot(a, b) - 1) > 1e-5)
    c.fail("D03", "norm", cat("line normal has length ", std::hypot(a, b)));
  if (std::fabs(sum / n - res) > 1e-6 * far)
    c.fail("D03", "residual", cat("residual ", res, " is not the mean distance ", sum / n));
  if (std::sqrt(sum2 / n) > std::sqrt(std::max(0., opt) / n) * 1.001 + 2e-5 * far)
    c.fail("D03", "fit", cat("line is not the best fit: rms ", std::sqrt(sum2 / n), " instead of ", std::sqrt(opt / n)));
}
