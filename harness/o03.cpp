// The residuals the refinements minimise, against the reference camera models (O03).
#include "ref.hpp"
#include "vh.hpp"

#include "McCalib.hpp"
#include "OptimizationCeres.h"
#include "logger.h"

#include "vh_main.inc"

using namespace vh;
using namespace ref;

using McCalib::Camera;

template <class F>
static void checkJac(Ctx &c, const std::string &name, ceres::CostFunction *cost, std::vector<std::vector<double>> params,
                     F model, const std::string &cls, bool checkDeriv) {
  std::vector<const double *> pp;
  for (auto &p : params)
    pp.push_back(p.data());
  double res[2];
  std::vector<std::vector<double>> J;
  std::vector<double *> jp;
  for (auto &p : params)
    J.emplace_back(2 * p.size(), 0.);
  for (auto &j : J)
    jp.push_back(j.data());
  bool ok = cost->Evaluate(pp.data(), res, jp.data());
  c.cov("residuals");
  V2 want = model(params);
  double sc = 1 + want.norm();
  if (!ok || !(std::hypot(res[0] - want[0], res[1] - want[1]) < 1e-7 * sc))
    c.fail("O03", "residual-" + name, cat("residual (", res[0], ",", res[1], ") but the model gives (", want[0], ",", want[1], ") ", cls));
  double res2[2];
  if (!cost->Evaluate(pp.data(), res2, nullptr) || std::hypot(res2[0] - res[0], res2[1] - res[1]) > 1e-9 * sc)
    c.fail("O03", "residual-nojac-" + name, "value differs when no derivative is asked for");
  for (size_t b = 0; b < params.size(); b++)
    for (size_t k = 0; k < params[b].size(); k++) {
      if (!std::isfinite(J[b][k]) || !std::isfinite(J[b][params[b].size() + k])) {
        c.fail("O03", "nonfinite-" + name, cat("derivative by parameter ", b, ".", k, " is not finite (", cls, ")"));
        continue;
      }
      if (!checkDeriv)
        continue;
      double x = params[b][k], h = 1e-5 * std::max(1., std::fabs(x)) * (b == params.size() ? 1 : 1);
      // Richardson-extrapolated central difference of the reference model
      auto D = [&](double hh) {
        auto q = params;
        q[b][k] = x + hh;
        V2 up = model(q);
        q[b][k] = x - hh;
        return V2((up - model(q)) / (2 * hh));
      };
      V2 d1 = D(h), d2 = D(h / 2), d = (4 * d2 - d1) / 3;
      double err = std::hypot(J[b][k] - d[0], J[b][params[b].size() + k] - d[1]);
      double unc = (d1 - d2).norm() * 4 + 1e-4 * (1 + d.norm());
      c.cov("derivatives");
      if (err > unc)
        c.fail("O03", "derivative-" + name, cat("derivative by parameter ", b, ".", k, " is off by ", err, " of ", d.norm(), " (", cls, ")"));
    }
  delete cost;
}
static Cam camFrom(int model, const std::vector<double> &in) {
  Cam q;
  q.model = model;
  q.fx = in[0], q.fy = in[1], q.cx = in[2], q.cy = in[3];
  for (int k = 0; k < 4; k++)
    q.d[k] = in[4 + k];
  q.d[4] = model == 0 ? in[8] : 0;
  return q;
}
SUITE(o03) {
  Rng &r = c.rng;
  int model = r.i(0, 1);
  Cam cam = randCam(r, model);
  std::vector<double> in = {cam.fx, cam.fy, cam.cx, cam.cy, cam.d[0], cam.d[1], cam.d[2], cam.d[3],
                            model == 0 ? cam.d[4] : 0};
  int cls = r.i(0, 6);
  static const char *cn[] = {"general", "general", "identity-rotation", "small-rotation", "on-axis", "near-axis", "wide"};
  auto rv = [&]() -> V3 {
    if (cls == 2)
      return V3::Zero();
    if (cls == 3)
      return randUnit(r) * 1e-9;
    return randUnit(r) * r.u(0.05, 3.0);
  };
  auto mk = [&](const V3 &w, const V3 &t) {
    return std::vector<double>{w.x(), w.y(), w.z(), t.x(), t.y(), t.z()};
  };
  V3 wb = rv(), wo = rv(), wc = rv();
  V3 tb = randUnit(r) * r.u(0, 2), to = randUnit(r) * r.u(0, 2), X(r.u(-1, 1), r.u(-1, 1), 0);
  if (cls == 4 || cls == 5)
    wb = wo = wc = V3::Zero();
  V3 target; // where the point must land in the camera
  double z = r.u(0.5, 10);
  double rad = cls == 4 ? 0 : cls == 5 ? std::pow(10., r.u(-12, -6)) : cls == 6 ? (model ? r.u(1, 2.2) : r.u(.5, .8)) : r.u(0.05, 0.6);
  double ph = r.u(0, 2 * M_PI);
  target = V3(rad * z * std::cos(ph), rad * z * std::sin(ph), z);
  if (cls == 4) { // exactly on the optical axis, bit for bit
    tb = to = V3::Zero();
    X = V3(r.u(-1, 1), r.u(-1, 1), 0);
    target = V3(0, 0, z);
  }
  V3 obs2(r.u(0, 640), r.u(0, 480), 0);
  double u = obs2.x(), v = obs2.y();
  c.desc = cat(model ? "kannala " : "brown ", cn[cls]);
  c.sig(cat(model, cls, int(rad * 5)));
  bool deriv = cls != 5;
  auto resid = [&](const Cam &q, const V3 &P) {
    V2 p;
    q.project(P, p);
    return V2(p.x() - u, p.y() - v);
  };
  auto pose = [](const std::vector<double> &p) { return fromVec6(p); };
  auto chain = [&](bool useB, bool useO, bool useC, std::vector<double> &pb, std::vector<double> &po, std::vector<double> &pc) {
    // choose the translation of the outermost pose so that the point lands on target
    V3 Y = X;
    pb = mk(wb, tb);
    po = mk(wo, to);
    pc = mk(wc, V3(V3::Zero()));
    if (useB)
      Y = app(pose(pb), Y);
    if (useC) {
      if (useO)
        Y = app(pose(po), Y);
      V3 t = target - expm(wc) * Y;
      pc = mk(wc, t);
    } else if (useO) {
      V3 t = target - expm(wo) * Y;
      po = mk(wo, t);
    }
  };
  std::vector<double> pb, po, pc;
  { // single camera
    chain(false, true, false, pb, po, pc);
    checkJac(c, "single", ReprojectionError::Create(u, v, X.x(), X.y(), X.z(), model), {po, in},
             [&](auto &p) { return resid(camFrom(model, p[1]), app(pose(p[0]), X)); }, c.desc, deriv);
  }
  auto k3 = in[8];
  double a4 = in[4], a5 = in[5], a6 = in[6], a7 = in[7];
  bool rb = r.p(0.6), rc = r.p(0.6);
  // the code hands the intrinsics over in this order for both models
  auto D = [&](auto &&f) { return f(); };
  (void)D;
  { // board in object
    chain(rb, true, false, pb, po, pc);
    checkJac(c, "object",
             ReprojectionError_3DObjRef::Create(u, v, X.x(), X.y(), X.z(), in[0], in[1], in[2], in[3], a4, a5,
                                                model == 0 ? k3 : k3, a6, a7, rb, model),
             {po, pb},
             [&](auto &p) {
               V3 Y = rb ? app(pose(p[1]), X) : X;
               return resid(camFrom(model, in), app(pose(p[0]), Y));
             },
             c.desc + (rb ? " board" : " ref-board"), deriv);
  }
  { // camera in group
    chain(false, true, rc, pb, po, pc);
    checkJac(c, "group",
             ReprojectionError_CameraGroupRef::Create(u, v, X.x(), X.y(), X.z(), in[0], in[1], in[2], in[3], a4, a5, k3,
                                                      a6, a7, rc, model),
             {pc, po},
             [&](auto &p) {
               V3 Y = app(pose(p[1]), X);
               if (rc)
                 Y = app(pose(p[0]), Y);
               return resid(camFrom(model, in), Y);
             },
             c.desc + (rc ? " cam" : " ref-cam"), deriv);
  }
  auto full = [&](auto &p, const Cam &q) {
    V3 Y = rb ? app(pose(p[2]), X) : X;
    Y = app(pose(p[1]), Y);
    if (rc)
      Y = app(pose(p[0]), Y);
    return resid(q, Y);
  };
  chain(rb, true, rc, pb, po, pc);
  checkJac(c, "group-object",
           ReprojectionError_CameraGroupAndObjectRef::Create(u, v, X.x(), X.y(), X.z(), in[0], in[1], in[2], in[3], a4,
                                                             a5, k3, a6, a7, rc, rb, model),
           {pc, po, pb}, [&](auto &p) { return full(p, camFrom(model, in)); },
           c.desc + (rc ? " cam" : " ref-cam") + (rb ? " board" : " ref-board"), deriv);
  checkJac(c, "group-object-intrinsics",
           ReprojectionError_CameraGroupAndObjectRefAndIntrinsics::Create(u, v, X.x(), X.y(), X.z(), rc, rb, model),
           {pc, po, pb, in}, [&](auto &p) { return full(p, camFrom(model, p[3])); },
           c.desc + (rc ? " cam" : " ref-cam") + (rb ? " board" : " ref-board"), deriv);
  // the model the reports use
  std::vector<cv::Point3f> P3 = {cv::Point3f(X.x(), X.y(), X.z())};
  chain(false, true, false, pb, po, pc);
  std::vector<cv::Point2f> out;
  McCalib::projectPointsWithDistortion(P3, rowv(V3(po[0], po[1], po[2])), rowv(V3(po[3], po[4], po[5])), cam.K(),
                                       cam.D(), model, out);
  V2 w;
  cam.project(app(pose(po), V3(P3[0].x, P3[0].y, P3[0].z)), w);
  if (out.size() != 1 || std::hypot(out[0].x - w.x(), out[0].y - w.y()) > 2e-3 + 1e-6 * w.norm())
    c.fail("O03", "reported", cat("reported projection differs from the model by ", out.empty() ? -1 : std::hypot(out[0].x - w.x(), out[0].y - w.y()), " px"));
  // a Camera object stores and returns the intrinsics it is given
  Camera cc(3, model);
  cc.setIntrinsics(cam.K(), cam.D());
  cv::Mat K2, D2;
  cc.getIntrinsics(K2, D2);
  std::vector<double> got(9, 0);
  for (int k = 0; k < 8 + (model == 0); k++)
    got[k] = cc.intrinsics_[k];
  Cam q = camFrom(model, got);
  bool good = K2.at<double>(0, 0) == cam.fx && K2.at<double>(1, 1) == cam.fy && K2.at<double>(0, 2) == cam.cx &&
              K2.at<double>(1, 2) == cam.cy && D2.total() == (model ? 4u : 5u) && q.fx == cam.fx && q.fy == cam.fy &&
              q.cx == cam.cx && q.cy == cam.cy;
  for (int k = 0; good && k < (model ? 4 : 5); k++)
    good = D2.at<double>(k) == cam.d[k] && q.d[k] == cam.d[k];
  if (!good)
    c.fail("O03", "intrinsics", "a camera does not give back the intrinsics it was given");
}

