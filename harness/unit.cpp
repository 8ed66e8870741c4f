// Function-level monitors: K01..K06.
#include "ref.hpp"
#include "vh.hpp"

#include "McCalib.hpp"
#include "logger.h"
#include <fstream>

#include "vh_main.inc"

using namespace vh;
using namespace ref;
using McCalib::Board;
using McCalib::BoardObs;
using McCalib::Camera;
using McCalib::CameraGroup;
using McCalib::CameraGroupObs;
using McCalib::Object3D;
using McCalib::Object3DObs;

static const double DEG = M_PI / 180;

// ---------------------------------------------------------------- K01
static V3 poseRot(Rng &r, std::string &cls) {
  int k = r.i(0, 9);
  if (k == 0) {
    cls = "zero";
    return V3::Zero();
  }
  if (k == 1) {
    cls = "tiny";
    return randUnit(r) * std::pow(10., r.u(-9, -4));
  }
  if (k == 2) {
    cls = "nearpi";
    return randUnit(r) * (M_PI - std::pow(10., r.u(-4, -1)));
  }
  if (k == 3) {
    cls = "axis90";
    V3 v = V3::Zero();
    v[r.i(0, 2)] = (r.p(.5) ? 1 : -1) * M_PI / 2;
    return v;
  }
  cls = "any";
  return randUnit(r) * r.u(1e-3, M_PI - 1e-2);
}

SUITE(k01) {
  Rng &r = c.rng;
  std::string cls;
  V3 w = poseRot(r, cls), t = randUnit(r) * std::pow(10., r.u(-3, 4));
  M4 P = T(w, t);
  double tol = 1e-9 * (1 + t.norm());
  // OpenCV's matrix -> vector conversion rounds rotations below 1e-5 rad to 0
  double atol = cls == "nearpi" ? 1e-7 : cls == "tiny" ? 2e-5 : 1e-9;
  bool row = r.p(0.5);
  c.desc = cat("pose ", cls, " |t|=", t.norm(), " rot ", w.transpose());
  c.sig(cat("conv", cls, row, int(std::log10(t.norm()))));
  cv::Mat rv = row ? rowv(w) : colv(w), tv = colv(t);
  auto near4 = [&](const M4 &a, const M4 &b, double s = 1) {
    return (rot(a) - rot(b)).cwiseAbs().maxCoeff() <= atol * s &&
           (tr(a) - tr(b)).cwiseAbs().maxCoeff() <= tol * s + atol * s * t.norm();
  };
  // forward
  M4 A = fromCv(McCalib::RVecT2Proj(rv, tv));
  if (!near4(A, P))
    c.fail("K01", "rvec2proj", "RVecT2Proj differs from the pose");
  M4 B = fromCv(McCalib::RT2Proj(toCv3(expm(w)), tv));
  if (!near4(B, P))
    c.fail("K01", "rt2proj", "RT2Proj differs from the pose");
  cv::Mat R2, T2;
  McCalib::Proj2RT(toCv(P), R2, T2);
  if (!near4(T(vecCv(R2), vecCv(T2)), P, 10))
    c.fail("K01", "proj2rt", "Proj2RT loses the pose");
  cv::Mat K = (cv::Mat_<double>(3, 3) << 500, 1, 320, 0, 510, 240, 0, 0, 1);
  M4 KP = fromCv(McCalib::RVecT2ProjInt(rv, tv, K));
  M4 KPr = M4::Identity();
  KPr.block<3, 4>(0, 0) = fromCv3(K) * P.block<3, 4>(0, 0);
  if (!near4(KP, KPr, 1e4))
    c.fail("K01", "rvec2projint", "RVecT2ProjInt differs from K[R|t]");
  // 6-vectors in single precision
  auto v6 = McCalib::ProjToVec(toCv(P));
  M4 Pf = T(V3(v6[0], v6[1], v6[2]), V3(v6[3], v6[4], v6[5]));
  if (angleBetween(rot(Pf), rot(P)) > 2e-6 + (cls == "tiny" ? 2e-5 : 0) || (tr(Pf) - t).norm() > 1e-6 * (1 + t.norm()))
    c.fail("K01", "projtovec", "ProjToVec loses more than single precision");
  std::vector<float> pv = {float(w.x()), float(w.y()), float(w.z()),
                           float(t.x()), float(t.y()), float(t.z())};
  M4 Pv = fromCv(McCalib::vectorProj(pv));
  M4 Pvr = T(V3(pv[0], pv[1], pv[2]), V3(pv[3], pv[4], pv[5]));
  if (!near4(Pv, Pvr))
    c.fail("K01", "vectorproj", "vectorProj differs from the 6-vector pose");
  // inversion
  cv::Mat iR, iT;
  McCalib::invertRvecT(rv, tv, iR, iT);
  if (!near4(T(vecCv(iR), vecCv(iT)), inv(P), 20))
    c.fail("K01", "invert", "invertRvecT (4 arguments) is not the inverse pose");
  cv::Mat a = rv.clone(), b = tv.clone();
  McCalib::invertRvecT(a, b);
  if (!near4(T(vecCv(a), vecCv(b)), inv(P), 20))
    c.fail("K01", "invert2", "invertRvecT (in place) is not the inverse pose");
  cv::Mat a1 = a.clone(), b1 = b.clone();
  McCalib::invertRvecT(a1, b1);
  if (!near4(T(vecCv(a1), vecCv(b1)), P, 50))
    c.fail("K01", "invert3", "inverting twice does not give the pose back");
  if ((vecCv(rv) - w).norm() != 0 || (vecCv(tv) - t).norm() != 0)
    c.fail("K01", "input", "an input pose was modified");
  // points
  std::vector<cv::Point3f> pts;
  int n = r.i(0, 8);
  for (int k = 0; k < n; k++)
    pts.emplace_back(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2));
  auto q = McCalib::transform3DPts(pts, rv, tv);
  if (int(q.size()) != n)
    c.fail("K01", "transform-size", "transform3DPts changes the number of points");
  for (int k = 0; k < n && k < int(q.size()); k++) {
    V3 e = app(P, V3(pts[k].x, pts[k].y, pts[k].z));
    if ((V3(q[k].x, q[k].y, q[k].z) - e).norm() > 1e-6 * (4 + t.norm()))
      c.fail("K01", "transform", "transform3DPts differs from the matrix product");
  }
  // quaternions
  M3 Rq = fromCv3(McCalib::convertQuaternionToRotationMatrix([&] {
    cv::Mat m = McCalib::convertRotationMatrixToQuaternion(toCv3(expm(w)));
    return std::array<double, 4>{m.at<double>(0), m.at<double>(1), m.at<double>(2),
                                 m.at<double>(3)};
  }()));
  if (angleBetween(Rq, expm(w)) > 1e-7)
    c.fail("K01", "quat", "rotation -> quaternion -> rotation differs");
  c.cov("conversions", 10);
}

// every pose setter/getter pair, against a model of what is stored
SUITE(k01s) {
  Rng &r = c.rng;
  auto mkCam = [](int id) { return std::make_shared<Camera>(id, 0); };
  auto cam = mkCam(0);
  std::vector<cv::Point2f> no2;
  std::vector<int> noi;
  auto bo = std::make_shared<BoardObs>(0, 0, 0, no2, noi, cam, nullptr);
  auto bo2 = std::make_shared<BoardObs>(0, 1, 0, no2, noi, cam, nullptr);
  std::array<int, 3> col{1, 2, 3};
  auto obj = std::make_shared<Object3D>(3, 0, 0, col);
  auto oo = std::make_shared<Object3DObs>(obj, 0);
  auto oo2 = std::make_shared<Object3DObs>(obj, 0);
  auto cg = std::make_shared<CameraGroup>(0, 0);
  auto cgo = std::make_shared<CameraGroupObs>(cg, true);
  // slots: id -> current model pose
  struct Slot {
    std::string name;
    std::function<void(const cv::Mat &, const cv::Mat &)> setVec;
    std::function<void(const cv::Mat &)> setMat;
    std::function<void(cv::Mat &, cv::Mat &)> getVec;
    std::function<cv::Mat()> getMat, getR, getT;
    M4 model;
    bool set = false;
  };
  std::vector<Slot> S;
  for (auto &p : {bo, bo2})
    S.push_back({"BoardObs",
                 [p](const cv::Mat &a, const cv::Mat &b) { p->setPoseVec(a, b); },
                 [p](const cv::Mat &m) { p->setPoseMat(m); },
                 [p](cv::Mat &a, cv::Mat &b) { p->getPoseVec(a, b); },
                 [p] { return p->getPoseMat(); }, [p] { return p->getRotVec(); },
                 [p] { return p->getTransVec(); }, M4::Identity()});
  for (auto &p : {oo, oo2}) {
    S.push_back({"Object3DObs",
                 [p](const cv::Mat &a, const cv::Mat &b) { p->setPoseVec(a, b); },
                 [p](const cv::Mat &m) { p->setPoseMat(m); },
                 [p](cv::Mat &a, cv::Mat &b) { p->getPoseVec(a, b); },
                 [p] { return p->getPoseMat(); }, [p] { return p->getRotVec(); },
                 [p] { return p->getTransVec(); }, M4::Identity()});
    S.push_back({"Object3DObs.group",
                 [p](const cv::Mat &a, const cv::Mat &b) { p->setPoseInGroupVec(a, b); },
                 [p](const cv::Mat &m) { p->setPoseInGroupMat(m); },
                 [p](cv::Mat &a, cv::Mat &b) { p->getPoseInGroupVec(a, b); },
                 [p] { return p->getPoseInGroupMat(); }, [p] { return p->getRotInGroupVec(); },
                 [p] { return p->getTransInGroupVec(); }, M4::Identity()});
  }
  for (int id : {0, 2, 7}) {
    auto p = obj;
    S.push_back({"Object3D.board",
                 [p, id](const cv::Mat &a, const cv::Mat &b) { p->setBoardPoseVec(id, a, b); },
                 [p, id](const cv::Mat &m) { p->setBoardPoseMat(id, m); },
                 [p, id](cv::Mat &a, cv::Mat &b) { p->getBoardPoseVec(id, a, b); },
                 [p, id] { return p->getBoardPoseMat(id); },
                 [p, id] { return p->getBoardRotVec(id); },
                 [p, id] { return p->getBoardTransVec(id); }, M4::Identity()});
    auto g = cg;
    S.push_back({"CameraGroup.camera",
                 [g, id](const cv::Mat &a, const cv::Mat &b) { g->setCameraPoseVec(a, b, id); },
                 [g, id](const cv::Mat &m) { g->setCameraPoseMat(m, id); },
                 [g, id](cv::Mat &a, cv::Mat &b) { g->getCameraPoseVec(id, a, b); },
                 [g, id] { return g->getCameraPoseMat(id); },
                 [g, id] { return g->getCameraRotVec(id); },
                 [g, id] { return g->getCameraTransVec(id); }, M4::Identity()});
    auto o = cgo;
    S.push_back({"CameraGroupObs.object",
                 [o, id](const cv::Mat &a, const cv::Mat &b) { o->setObjectPoseVec(a, b, id); },
                 [o, id](const cv::Mat &m) { o->setObjectPoseMat(m, id); },
                 [o, id](cv::Mat &a, cv::Mat &b) { o->getObjectPoseVec(id, a, b); },
                 [o, id] { return o->getObjectPoseMat(id); },
                 [o, id] { return o->getObjectRotVec(id); },
                 [o, id] { return o->getObjectTransVec(id); }, M4::Identity()});
  }
  auto same = [&](const M4 &a, const M4 &b) {
    return angleBetween(rot(a), rot(b)) < 2e-5 && (tr(a) - tr(b)).norm() < 1e-8 * (1 + tr(b).norm());
  };
  int steps = 60;
  std::string last;
  for (int s = 0; s < steps; s++) {
    Slot &x = S[r.i(0, int(S.size()) - 1)];
    std::string cls;
    V3 w = poseRot(r, cls), t = randUnit(r) * std::pow(10., r.u(-2, 3));
    x.model = T(w, t);
    bool mat = r.p(0.5), row = r.p(0.5);
    last = x.name + (mat ? ".mat " : ".vec ") + cls;
    cv::Mat in1, in2;
    if (mat) {
      in1 = toCv(x.model);
      x.setMat(in1);
    } else {
      in1 = row ? rowv(w) : colv(w);
      in2 = row ? rowv(t) : colv(t);
      x.setVec(in1, in2);
    }
    x.set = true;
    // later changes of the caller's own matrices must not reach the store
    in1.setTo(7);
    if (!in2.empty())
      in2.setTo(7);
    c.sig(x.name + (mat ? "m" : row ? "r" : "c") + cls);
    for (Slot &y : S) {
      if (!y.set)
        continue;
      cv::Mat a, b;
      y.getVec(a, b);
      M4 gv = T(vecCv(a), vecCv(b));
      M4 gm = fromCv(y.getMat());
      M4 gs = T(vecCv(y.getR()), vecCv(y.getT()));
      c.cov("reads", 3);
      const char *what = &y == &x ? "own" : "other";
      if (!same(gv, y.model))
        c.fail("K01", cat("getvec-", what), cat(y.name, " vector read back differs after ", last));
      if (!same(gm, y.model))
        c.fail("K01", cat("getmat-", what), cat(y.name, " matrix read back differs after ", last));
      if (!same(gs, y.model))
        c.fail("K01", cat("getrt-", what), cat(y.name, " rotation/translation read back differs after ", last));
      a.setTo(3); // what was handed out is a copy
      b.setTo(3);
      cv::Mat m = y.getMat();
      m.setTo(3);
    }
  }
  // an object observation's poses in camera, group and group-observation agree
  c.desc = "setter/getter history, " + std::to_string(steps) + " writes over " +
           std::to_string(S.size()) + " stores";
}

// ---------------------------------------------------------------- K02
SUITE(k02) {
  Rng &r = c.rng;
  int n = r.i(1, 12);
  int kind = r.i(0, 5);
  static const char *kn[] = {"identical", "tight", "wide", "halfturn", "tight+flip", "any"};
  M3 base = kind == 3 ? expm(randUnit(r) * (M_PI - r.u(0, 0.02))) : randRot(r);
  double spread = kind == 0 ? 0 : kind == 1 || kind == 4 ? 0.03 : kind == 2 ? 0.6 : kind == 3 ? 0.1 : 1.2;
  std::vector<M3> Rs;
  for (int k = 0; k < n; k++)
    Rs.push_back(base * expm(randUnit(r) * r.u(0, spread)));
  c.desc = cat(kn[kind], " n=", n);
  c.sig(cat(kn[kind], n, int(angleOf(base) * 4)));
  auto rep = [&](const M3 &R, bool flip) {
    V3 w = logm(R);
    double a = w.norm();
    if (flip && a > 1e-3)
      w *= (a - 2 * M_PI) / a;
    return w;
  };
  auto call = [&](const std::vector<M3> &in, int flip) {
    std::vector<double> a, b, d;
    for (size_t k = 0; k < in.size(); k++) {
      V3 w = rep(in[k], flip == 2 ? r.p(0.5) : flip);
      a.push_back(w.x());
      b.push_back(w.y());
      d.push_back(w.z());
    }
    return expm(vecCv(McCalib::getAverageRotation(a, b, d, true)));
  };
  double gap;
  M3 want = chordalMean(Rs, &gap);
  if (gap > 0.02 && logm(want).norm() < M_PI - 3e-5) {
    // OpenCV's matrix -> vector conversion rounds within 1e-5 rad of 0 and of pi
    double tol = 1e-7 / gap + 2.5e-5;
    M3 got = call(Rs, kind == 4 ? 2 : 0);
    c.cov("averages");
    if (angleBetween(got, want) > tol)
      c.fail("K02", "mean", cat("average is ", angleBetween(got, want) / DEG, " deg from the chordal mean, n=", n, " ", kn[kind]));
    if (kind == 0 && angleBetween(got, base) > 2.5e-5)
      c.fail("K02", "identical", "average of identical rotations is not that rotation");
    double mx = 0;
    for (auto &A : Rs)
      for (auto &B : Rs)
        mx = std::max(mx, angleBetween(A, B));
    for (auto &A : Rs)
      if (mx < 1 && angleBetween(got, A) > mx + 2.5e-5)
        c.fail("K02", "spread", "average outside the spread of the inputs");
    auto perm = Rs;
    r.shuffle(perm);
    if (angleBetween(call(perm, 0), want) > tol)
      c.fail("K02", "order", "average depends on the order of the inputs");
    if (angleBetween(call(Rs, 1), want) > tol || angleBetween(call(Rs, 2), want) > tol)
      c.fail("K02", "representation", "average depends on the representation of the inputs");
    M3 Q = randRot(r);
    std::vector<M3> turned, turned2;
    for (auto &A : Rs)
      turned.push_back(Q * A), turned2.push_back(A * Q);
    if (angleBetween(call(turned, 0), M3(Q * want)) > tol || angleBetween(call(turned2, 0), M3(want * Q)) > tol)
      c.fail("K02", "equivariance", "average does not turn with the inputs");
    c.cov("averages", 6);
  }
  // median branch: componentwise, any order, odd and even counts
  std::vector<double> x[3], s[3];
  for (int k = 0; k < n; k++)
    for (int j = 0; j < 3; j++)
      x[j].push_back(r.p(0.2) && k ? x[j][0] : r.u(-3, 3));
  for (int j = 0; j < 3; j++) {
    s[j] = x[j];
    std::sort(s[j].begin(), s[j].end());
  }
  cv::Mat m = McCalib::getAverageRotation(x[0], x[1], x[2], false);
  for (int j = 0; j < 3; j++) {
    double want1 = n % 2 ? s[j][n / 2] : (s[j][n / 2] + s[j][n / 2 - 1]) / 2;
    if (std::fabs(vecCv(m)[j] - want1) > 1e-12)
      c.fail("K02", "median", cat("component ", j, " is not the median of ", n, " values"));
    std::vector<double> y = x[j];
    r.shuffle(y);
    if (std::fabs(McCalib::median(y) - want1) > 1e-12)
      c.fail("K02", "median1", "median() is not the median");
  }
  c.cov("medians", 6);
}

// ---------------------------------------------------------------- K03
SUITE(k03) {
  Rng &r = c.rng;
  int kind = r.i(0, 5);
  static const char *wn[] = {"int", "1/n", "real", "tiny", "huge", "equal"};
  auto weight = [&]() -> double {
    switch (kind) {
    case 0: return r.i(1, 20);
    case 1: return 1.0 / r.i(1, 50);
    case 2: return r.u(0.01, 3);
    case 3: return r.u(1e-7, 1e-5);
    case 4: return r.u(1e6, 1e9);
    default: return 1.0;
    }
  };
  Graph g;
  int rounds = r.p(0.3) ? 2 : 1;
  std::set<int> oldIds;
  for (int round = 0; round < rounds; round++) {
    if (round) {
      g.clearGraph();
      if (!g.connectedComponents().empty())
        c.fail("K03", "clear", "a cleared graph still has components");
      for (int v : oldIds)
        if (!g.shortestPathBetween(v, v).empty())
          c.fail("K03", "clear", "a cleared graph still knows a vertex");
    }
    int n = r.i(1, 24);
    std::vector<int> ids;
    std::set<int> used;
    bool dense = r.p(0.5);
    while (int(ids.size()) < n) {
      int v = dense ? int(ids.size()) : r.i(0, 100000);
      if (used.insert(v).second)
        ids.push_back(v);
    }
    r.shuffle(ids);
    oldIds = used;
    const double INF = 1e300;
    std::vector<std::vector<double>> D(n, std::vector<double>(n, INF)), W;
    for (int i = 0; i < n; i++)
      D[i][i] = 0;
    int m = r.p(0.15) ? 0 : r.i(0, 2 * n);
    bool verticesFirst = r.p(0.6);
    std::vector<int> order(n);
    for (int i = 0; i < n; i++)
      order[i] = i;
    if (verticesFirst) {
      r.shuffle(order);
      for (int i : order)
        g.addVertex(ids[i]);
    }
    int par = 0;
    for (int e = 0; e < m; e++) {
      int i = r.i(0, n - 1), j = r.i(0, n - 1);
      if (i == j && r.p(0.7))
        continue;
      double w = weight();
      if (i == j) { // a loop: no effect on any answer
        g.addEdge(ids[i], ids[i], w);
        c.cov("self_loops");
        continue;
      }
      if (D[i][j] < INF)
        par++;
      g.addEdge(ids[i], ids[j], w);
      D[i][j] = D[j][i] = std::min(D[i][j], w);
    }
    if (!verticesFirst)
      for (int i : order)
        g.addVertex(ids[i]); // existing ones must not be duplicated
    W = D;
    for (int k = 0; k < n; k++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if (D[i][k] < INF && D[k][j] < INF)
            D[i][j] = std::min(D[i][j], D[i][k] + D[k][j]);
    c.desc += cat("[", wn[kind], " n=", n, " m=", m, verticesFirst ? " v" : " e", "]");
    // components: an exact partition
    auto cc = g.connectedComponents();
    std::map<int, int> idx;
    for (int i = 0; i < n; i++)
      idx[ids[i]] = i;
    std::map<int, int> comp;
    for (size_t k = 0; k < cc.size(); k++) {
      if (cc[k].empty())
        c.fail("K03", "cc", "empty component");
      for (int v : cc[k]) {
        if (!idx.count(v))
          c.fail("K03", "cc", "component contains an unknown vertex");
        else if (!comp.insert({v, int(k)}).second)
          c.fail("K03", "cc", "vertex in two components");
      }
    }
    if (int(comp.size()) != n)
      c.fail("K03", "cc", cat("components cover ", comp.size(), " of ", n, " vertices"));
    else
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if ((comp[ids[i]] == comp[ids[j]]) != (D[i][j] < INF))
            c.fail("K03", "cc", "components do not match connectivity");
    c.covmax("max_components", long(cc.size()));
    // all pairs
    long unreach = 0, multi = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        auto p = g.shortestPathBetween(ids[i], ids[j]);
        c.cov("queries");
        if (D[i][j] >= INF) {
          unreach++;
          if (!p.empty())
            c.fail("K03", "unreachable", "a path between unconnected vertices");
          continue;
        }
        if (p.empty() || p.front() != ids[i] || p.back() != ids[j]) {
          c.fail("K03", "path-ends", cat("path does not run from ", ids[i], " to ", ids[j]));
          continue;
        }
        double s = 0;
        bool ok = true;
        for (size_t k = 1; k < p.size() && ok; k++) {
          ok = idx.count(p[k - 1]) && idx.count(p[k]) && W[idx[p[k - 1]]][idx[p[k]]] < INF && p[k] != p[k - 1];
          if (ok)
            s += W[idx[p[k - 1]]][idx[p[k]]];
        }
        if (!ok)
          c.fail("K03", "path-edges", "path uses an edge that does not exist");
        else if (s > D[i][j] * (1 + 1e-9) + 1e-300)
          c.fail("K03", "path-weight", cat("path weight ", s, " but the shortest is ", D[i][j], " (", wn[kind], ")"));
        multi += p.size() > 2;
      }
    c.cov("unreachable_pairs", unreach);
    c.cov("multi_hop_paths", multi);
    c.cov("parallel_edges", par);
    int unk = 200001 + r.i(0, 9);
    if (!g.shortestPathBetween(unk, ids[0]).empty() || !g.shortestPathBetween(ids[0], unk).empty())
      c.fail("K03", "unknown", "a path for an unknown vertex");
    c.sig(cat(kind, "/", cc.size(), "/", m, "/", n, unreach > 0, multi > 0));
  }
}

// ---------------------------------------------------------------- K04
struct TmpBoard {
  std::string path;
  std::shared_ptr<Board> b;
};
static std::shared_ptr<Board> mkBoard(Rng &r, int nx, int ny, double sq) {
  std::string p = cat("board_", getpid(), ".yml");
  {
    std::ofstream f(p);
    f << "%YAML:1.0\n---\nnumber_board: 1\nnumber_x_square: " << nx << "\nnumber_y_square: " << ny
      << "\nlength_square: 0.04\nlength_marker: 0.03\nresolution_x: 500\nresolution_y: 500\nsquare_size: " << sq
      << "\nnumber_x_square_per_board: []\nnumber_y_square_per_board: []\nsquare_size_per_board: []\nboards_index: []\n";
  }
  auto dict = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  auto cb = cv::aruco::CharucoBoard::create(nx, ny, 0.04f, 0.03f, dict);
  return std::make_shared<Board>(std::filesystem::path(p), 0, cb);
}

SUITE(k04) {
  Rng &r = c.rng;
  int model = r.i(0, 1);
  Cam cam = randCam(r, model);
  int nx = r.i(5, 9), ny = r.i(5, 9);
  double sq = std::pow(10., r.u(-2, 1));
  auto board = mkBoard(r, nx, ny, sq);
  int N = (nx - 1) * (ny - 1);
  // a pose that puts the whole board well inside the picture
  double size = sq * std::hypot(nx, ny);
  M4 P;
  std::vector<V2> uv(N);
  for (int tries = 0;; tries++) {
    V3 ctr(sq * (nx - 2) / 2, sq * (ny - 2) / 2, 0);
    M3 R = randRot(r, 0.9);
    double z = size * r.u(0.9, 2.2);
    V3 pos(r.u(-.3, .3) * z, r.u(-.2, .2) * z, z);
    P = T(R, V3(pos - R * ctr));
    bool ok = true;
    for (int k = 0; k < N && ok; k++) {
      V3 q = app(P, V3((k % (nx - 1)) * sq, (k / (nx - 1)) * sq, 0));
      ok = q.z() > 0.1 * size && cam.project(q, uv[k]) && uv[k].x() > 4 && uv[k].y() > 4 &&
           uv[k].x() < cam.w - 4 && uv[k].y() < cam.h - 4;
    }
    if (ok)
      break;
    if (tries > 2000) {
      c.desc = "no pose";
      return;
    }
  }
  // visible subset, shuffled
  std::vector<int> ids(N);
  for (int k = 0; k < N; k++)
    ids[k] = k;
  r.shuffle(ids);
  int n = r.i(6, N);
  bool few = r.p(0.15); // too few agreeing points
  if (few)
    n = r.i(4, 10);
  ids.resize(n);
  double frac = r.p(0.3) ? 0 : r.u(0.05, 0.35);
  int nout = few ? n - r.i(0, 3) : std::min(int(frac * n), n - 5);
  if (nout < 0)
    nout = 0;
  float thr = float(r.u(2, 10));
  std::set<int> bad;
  while (int(bad.size()) < nout)
    bad.insert(r.i(0, n - 1));
  std::vector<cv::Point2f> px(n);
  std::set<int> good;
  for (int k = 0; k < n; k++) {
    V2 p = uv[ids[k]];
    if (bad.count(k)) {
      V2 q;
      do
        q = V2(r.u(0, cam.w), r.u(0, cam.h));
      while ((q - p).norm() < 80);
      p = q;
    } else
      good.insert(ids[k]);
    px[k] = cv::Point2f(float(p.x()), float(p.y()));
  }
  c.desc = cat(model ? "kannala" : "brown", " ", nx, "x", ny, " n=", n, " outliers=", nout, few ? " few" : "");
  auto camera = std::make_shared<Camera>(0, model);
  camera->setIntrinsics(cam.K(), cam.D());
  // a violation is reported only if it shows under three different draws: the
  // estimator is a random-sample consensus with a stated 99 % confidence
  std::vector<Viol> all;
  for (int attempt = 0; attempt < 3; attempt++) {
    seedAll(c.seed + 17 * attempt);
    Ctx d;
    auto obs = std::make_shared<BoardObs>(0, 0, 0, px, ids, camera, board);
    obs->estimatePose(thr, 1000);
    c.cov("estimates");
    std::map<int, cv::Point2f> in;
    for (int k = 0; k < n; k++)
      in[ids[k]] = px[k];
    if (obs->pts_2d_.size() != obs->charuco_id_.size())
      d.fail("K04", "pairing", "corner positions and numbers have different counts");
    else {
      std::set<int> seen;
      for (size_t k = 0; k < obs->charuco_id_.size(); k++) {
        int id = obs->charuco_id_[k];
        if (!in.count(id) || in[id] != obs->pts_2d_[k])
          d.fail("K04", "pairing", "a kept corner has another corner's number");
        if (!seen.insert(id).second)
          d.fail("K04", "pairing", "a corner is kept twice");
      }
      if (!few) {
        if (seen != good) {
          int lost = 0, kept = 0;
          for (int g : good)
            lost += !seen.count(g);
          for (int s : seen)
            kept += !good.count(s);
          d.fail("K04", "inliers", cat("kept ", kept, " outliers, dropped ", lost, " of ", good.size(), " inliers"));
        }
        if (!obs->valid_)
          d.fail("K04", "valid", "a good observation is marked unusable");
        M4 G = fromVec6(obs->pose_);
        double worst = 0;
        for (int id : good) {
          V2 q;
          cam.project(app(G, V3((id % (nx - 1)) * sq, (id / (nx - 1)) * sq, 0)), q);
          worst = std::max(worst, (q - uv[id]).norm());
        }
        if (!(worst < 0.1))
          d.fail("K04", "pose", cat("estimated pose misses an inlier by ", worst, " px"));
        else if (good.size() >= 12 && (angleBetween(rot(G), rot(P)) > 0.3 * DEG || (tr(G) - tr(P)).norm() > 0.004 * tr(P).norm()))
          d.fail("K04", "pose", cat("estimated pose is off by ", angleBetween(rot(G), rot(P)) / DEG, " deg"));
      } else if (obs->pts_2d_.size() < 4 && obs->valid_)
        d.fail("K04", "valid-few", cat("valid with only ", obs->pts_2d_.size(), " agreeing points"));
    }
    if (d.viols.empty()) {
      all.clear();
      break;
    }
    all = d.viols;
  }
  for (auto &v : all)
    c.fail(v.prop, v.kind, v.msg + " (" + c.desc + ")");
  c.sig(cat(model, few, n / 4, nout / 3));
  c.cov(few ? "few_cases" : nout ? "outlier_cases" : "clean_cases");
}

// fewer points than a pose needs (run under AddressSanitizer)
SUITE(k04few) {
  Rng &r = c.rng;
  int n = c.idx % 7, model = (c.idx / 7) % 2;
  Cam cam = randCam(r, model);
  auto board = mkBoard(r, 5, 6, 0.1);
  std::vector<int> ids;
  std::vector<cv::Point2f> px;
  M4 P = T(randRot(r, 0.5), V3(-.2, -.2, 1.));
  for (int k = 0; k < n; k++) {
    ids.push_back(k * 2 + r.i(0, 1));
    V2 q;
    cam.project(app(P, V3((ids[k] % 4) * .1, (ids[k] / 4) * .1, 0)), q);
    if (c.idx / 14 % 3 == 1)
      q = V2(r.u(0, 600), r.u(0, 400)); // nothing agrees
    px.emplace_back(float(q.x()), float(q.y()));
  }
  c.desc = cat("n=", n, " model=", model);
  auto camera = std::make_shared<Camera>(0, model);
  camera->setIntrinsics(cam.K(), cam.D());
  auto obs = std::make_shared<BoardObs>(0, 0, 0, px, ids, camera, board);
  try {
    obs->estimatePose(5.f, 100);
    c.cov("returned");
  } catch (const cv::Exception &e) {
    c.cov("refused");
    obs->valid_ = false;
  }
  if (n < 4 && obs->valid_)
    c.fail("K04", "valid-few", cat("observation of ", n, " points is trusted"));
  if (obs->pts_2d_.size() != obs->charuco_id_.size())
    c.fail("K04", "pairing", "corner positions and numbers have different counts");
  std::vector<cv::Point3f> sp;
  for (int id : ids)
    sp.emplace_back((id % 4) * .1f, (id / 4) * .1f, 0.f);
  cv::Mat R(1, 3, CV_64F), t(1, 3, CV_64F);
  try {
    cv::Mat in = McCalib::ransacP3PDistortion(sp, px, cam.K(), cam.D(), R, t, 5.f, 100, model);
    if (n < 4 && in.rows > 0)
      c.fail("K04", "few-inliers", cat("a pose claimed from ", n, " points"));
  } catch (const cv::Exception &) {
  }
  c.sig(c.desc);
}

// ---------------------------------------------------------------- K05
SUITE(k05) {
  Rng &r = c.rng;
  Cam cam = randCam(r, 0, false);
  int n = r.i(2, 10);
  bool robust = r.p(0.6);
  int nout = robust && n >= 6 ? r.i(0, (n - 3) / 3) : 0;
  V3 X(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
  double sc = std::pow(10., r.u(-1, 2));
  X *= sc;
  std::vector<V3> C;
  std::vector<cv::Mat> rv, tv;
  std::vector<cv::Point2f> px;
  double minBase = 1e9;
  for (int k = 0, tries = 0; k < n && tries < 5000; tries++) {
    V3 ctr = X + randUnit(r) * sc * r.u(2, 5);
    M3 look;
    V3 z = (X - ctr).normalized(), x = z.cross(randUnit(r)).normalized(), y = z.cross(x);
    look.row(0) = x, look.row(1) = y, look.row(2) = z;
    look = expm(randUnit(r) * r.u(0, 0.2)) * look;
    bool ok = true;
    for (auto &o : C) {
      double ang = std::acos(std::max(-1., std::min(1., (X - ctr).normalized().dot((X - o).normalized()))));
      ok = ok && ang > 0.15 && ang < M_PI - 0.15; // distinct viewing directions
    }
    if (!ok)
      continue;
    M4 P = T(look, V3(-look * ctr));
    V2 q;
    if (!cam.project(app(P, X), q))
      continue;
    C.push_back(ctr);
    rv.push_back(r.p(0.5) ? rowv(logm(look)) : colv(logm(look)));
    tv.push_back(colv(tr(P)));
    px.emplace_back(float(q.x()), float(q.y()));
    k++;
  }
  n = int(px.size());
  if (n < 2)
    return;
  std::set<int> bad;
  while (int(bad.size()) < nout)
    bad.insert(r.i(0, n - 1));
  for (int b : bad) {
    double a = r.u(0, 2 * M_PI), d = r.u(60, 200);
    px[b].x += float(d * std::cos(a));
    px[b].y += float(d * std::sin(a));
  }
  c.desc = cat(robust ? "robust" : "linear", " views=", n, " wrong=", nout);
  double err = 0;
  for (int attempt = 0; attempt < 3; attempt++) {
    seedAll(c.seed + 31 * attempt);
    cv::Point3f p(0, 0, 0);
    if (robust)
      McCalib::ransacTriangulation(px, rv, tv, cam.K(), cam.D(), 4.0, 0.99, 1000, p);
    else
      p = McCalib::triangulateNViewLinearEigen(px, rv, tv, cam.K());
    c.cov("points");
    err = (V3(p.x, p.y, p.z) - X).norm() / sc;
    if (err < 2e-4)
      break;
  }
  if (!(err < 2e-4))
    c.fail("K05", robust ? "robust" : "linear", cat("recovered point is off by ", err, " of the scene scale (", c.desc, ")"));
  c.sig(c.desc + cat(int(std::log10(sc))));
}
SUITE(k05few) {
  Rng &r = c.rng;
  int n = c.idx % 6;
  Cam cam = randCam(r, 0, false);
  std::vector<cv::Mat> rv, tv;
  std::vector<cv::Point2f> px;
  V3 X(0.1, 0.2, 3);
  for (int k = 0; k < n; k++) {
    M4 P = T(V3(V3::Zero()), V3(-0.3 * k, 0.1 * k, 0));
    V2 q;
    cam.project(app(P, X), q);
    rv.push_back(colv(V3::Zero()));
    tv.push_back(colv(tr(P)));
    px.emplace_back(float(q.x()), float(q.y()));
  }
  c.desc = cat("views=", n);
  cv::Point3f p(0, 0, 0);
  try {
    McCalib::ransacTriangulation(px, rv, tv, cam.K(), cam.D(), 4.0, 0.99, 50, p);
  } catch (const cv::Exception &) {
    if (n >= 2)
      c.fail("K05", "few-refused", cat(n, " views refused"));
  }
  if (n >= 2 && (V3(p.x, p.y, p.z) - X).norm() > 1e-3)
    c.fail("K05", "few", cat("wrong point from ", n, " views"));
  c.cov("points");
  c.sig(c.desc);
}

// ---------------------------------------------------------------- K06
SUITE(k06) {
  Rng &r = c.rng;
  int n = r.p(0.3) ? r.i(4, 7) : r.i(8, 50);
  bool boot = r.p(0.6);
  double xang = r.p(0.3) ? r.u(0, 0.1) : r.u(0, 165 * DEG);
  int special = r.p(0.3) ? r.i(1, 4) : 0; // quarter and half turns, back to back, and close to them
  V3 xax = randUnit(r);
  if (special) {
    xang = special == 1 ? M_PI / 2 : special == 4 ? M_PI - std::pow(10., r.u(-9, -1)) : M_PI;
    if (special <= 2 || r.p(0.5))
      xax = V3(r.i(0, 1), r.i(0, 1), r.i(0, 1));
    if (xax.norm() < 0.5)
      xax = V3(0, 1, 0);
    xax.normalize();
  }
  double sc = std::pow(10., r.u(-1, 2));
  M4 X = T(expm(xax * xang), V3(randUnit(r) * sc * r.u(0, 2))); // g2 -> g1
  M4 C = T(randRot(r), V3(randUnit(r) * sc * r.u(0.5, 4)));             // obj2 -> obj1
  double noise = r.p(0.4) ? r.u(0, 1e-3) : 0;
  int kinds = r.i(0, 2); // share of corrupted poses only with many poses
  int nbad = boot && n >= 15 && kinds == 0 ? int(n * r.u(0.02, 0.12)) : 0;
  bool garbage = boot && r.p(0.12); // no subset is consistent: everything falls back
  std::vector<cv::Mat> p1, p2;
  std::vector<M4> A, B;
  for (int k = 0; k < n; k++) {
    // a rotating, translating rig: at least two axes
    M4 P1 = T(expm(randUnit(r) * r.u(0.2, 1.0)), V3(randUnit(r) * sc * r.u(1, 3)));
    M4 P2 = inv(X) * P1 * C; // obj2 -> g2
    if (noise > 0)
      P2 = P2 * T(V3(randUnit(r) * noise * r.u()), V3(randUnit(r) * noise * sc * r.u()));
    if (k < nbad)
      P2 = T(randRot(r), V3(randUnit(r) * sc * r.u(1, 3)));
    A.push_back(P1);
    B.push_back(P2);
    p1.push_back(toCv(P1));
    p2.push_back(toCv(P2));
  }
  c.desc = cat(boot ? "bootstrap" : "direct", " n=", n, " angle=", int(xang / DEG), " noise=", noise, " bad=", nbad);
  // how well the motion determines the answer: skip weak geometry
  double best = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      for (int k = 0; k < std::min(n, 6); k++)
        for (int l = 0; l < k; l++) {
          V3 a = logm(M3(rot(A[i]).transpose() * rot(A[j]))), b = logm(M3(rot(A[k]).transpose() * rot(A[l])));
          best = std::max(best, a.cross(b).norm());
        }
  if (best < 0.3)
    return;
  (void)garbage;
  double ae = 9, te = 9;
  for (int attempt = 0; attempt < 2; attempt++) {
    seedAll(c.seed + 13 * attempt);
    cv::Mat m = boot ? McCalib::handeyeBootstraptTranslationCalibration(20, 200, p1, p2)
                     : McCalib::handeyeCalibration(p1, p2);
    c.cov("solutions");
    M4 G = fromCv(m);
    ae = angleBetween(rot(G), rot(X));
    te = (tr(G) - tr(X)).norm() / sc;
    double lim = 1e-4 + 40 * noise + (nbad ? 2 * DEG : 0);
    if (ae < lim && te < 4 * lim) {
      ae = te = 0;
      break;
    }
  }
  if (ae != 0 || te != 0)
    c.fail("K06", boot ? "bootstrap" : "direct", cat("hand-eye solution is off by ", ae / DEG, " deg and ", te, " of the scale: ", c.desc));
  c.sig(cat(boot, n < 8, int(xang / DEG) / 20, noise > 0, nbad > 0, special));
}
// no consistent subset at all: the bootstrap must answer exactly what the
// direct method answers on all poses
SUITE(k06fb) {
  Rng &r = c.rng;
  int n = r.i(8, 24);
  double ns = 1.0;
  M4 X = T(randRot(r, 2.0), V3(randUnit(r)));
  std::vector<cv::Mat> p1, p2;
  for (int k = 0; k < n; k++) {
    M4 P1 = T(expm(randUnit(r) * r.u(0.2, 1.0)), V3(randUnit(r) * r.u(1, 3)));
    M4 P2 = T(randRot(r), V3(randUnit(r) * r.u(1, 3)));
    (void)ns;
    (void)X;
    p1.push_back(toCv(P1));
    p2.push_back(toCv(P2));
  }
  c.desc = cat("inconsistent poses n=", n);
  M4 a = fromCv(McCalib::handeyeCalibration(p1, p2));
  M4 b = fromCv(McCalib::handeyeBootstraptTranslationCalibration(20, 200, p1, p2));
  c.cov("solutions", 2);
  if (angleBetween(rot(a), rot(b)) > 1e-6 || (tr(a) - tr(b)).norm() > 1e-6 * (1 + tr(a).norm()))
    c.fail("K06", "fallback", cat("without a consistent subset the answer is not the one of all poses (", angleBetween(rot(a), rot(b)) / DEG, " deg apart)"));
  c.sig(cat(n));
}
// four poses is the least the calibration passes (run under ASan)
SUITE(k06few) {
  Rng &r = c.rng;
  int n = 4 + c.idx % 5;
  M4 X = T(expm(randUnit(r) * r.u(0, 2)), V3(randUnit(r)));
  M4 C = T(randRot(r), V3(randUnit(r)));
  std::vector<cv::Mat> p1, p2;
  bool same = c.idx / 5 % 3 == 1; // identical positions: k-means finds empty clusters
  V3 w0 = randUnit(r) * 0.5, t0 = randUnit(r) * 3;
  for (int k = 0; k < n; k++) {
    M4 P1 = same ? T(w0, t0) : T(expm(randUnit(r) * r.u(0.3, 1.0)), V3(randUnit(r) * r.u(1, 3)));
    M4 P2 = inv(X) * P1 * C;
    p1.push_back(toCv(P1));
    p2.push_back(toCv(P2));
  }
  c.desc = cat("poses=", n, same ? " identical" : "");
  try {
    cv::Mat m = McCalib::handeyeBootstraptTranslationCalibration(20, 40, p1, p2);
    M4 G = fromCv(m);
    if (!same && (angleBetween(rot(G), rot(X)) > 2 * DEG || (tr(G) - tr(X)).norm() > 0.3))
      c.fail("K06", "few", cat("unusable answer from ", n, " poses: ", angleBetween(rot(G), rot(X)) / DEG, " deg"));
  } catch (const cv::Exception &) {
    if (!same)
      c.fail("K06", "few-refused", cat(n, " good poses refused"));
  }
  c.cov("solutions");
  c.sig(c.desc);
}
