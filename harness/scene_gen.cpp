// Scene generation and input files.
#include "scene.hpp"
#include "vh.hpp"
#include <opencv2/calib3d.hpp>

namespace sc {
bool view(const Scene &s, int c, int f, int b, Det &d, double margin, double minCos) {
  const SBoard &B = s.boards[b];
  const Cam &C = s.cams[c].cam;
  M4 T = s.boardInCam(c, f, b);
  V3 cc = app(T, B.centre());
  if (cc.z() <= 0.02 * s.S)
    return false;
  V3 nz = rot(T).col(2); // points away from the camera on the printed side
  if (nz.dot(cc.normalized()) < minCos)
    return false;
  d = Det{c, f, b, {}, {}, {}, false};
  double rmax = C.model == 0 ? 1.0 : 2.2;
  for (int k = 0; k < B.npts(); k++) {
    V3 P = app(T, B.pt(k));
    if (P.z() < 0.02 * s.S || std::hypot(P.x(), P.y()) > rmax * P.z())
      continue;
    V2 uv;
    C.project(P, uv);
    if (uv.x() < margin || uv.y() < margin || uv.x() > C.w - 1 - margin || uv.y() > C.h - 1 - margin)
      continue;
    d.ids.push_back(k);
    d.pts.push_back(cv::Point2f(float(uv.x()), float(uv.y())));
    d.bad.push_back(0);
  }
  return true;
}

bool usable(const Scene &s, const Det &d, double share, int least) {
  const SBoard &B = s.boards[d.b];
  if (int(d.ids.size()) < std::max(least, int(std::ceil(share * B.npts())) + 1))
    return false;
  std::map<int, int> rows, cols;
  for (int k : d.ids) {
    rows[k / (B.nx - 1)]++;
    cols[k % (B.nx - 1)]++;
  }
  return rows.size() >= 3 && cols.size() >= 3;
}

// A view of a plane that its mirrored pose explains about as well: no pose
// estimate can tell the two apart.
bool ambiguous(const Scene &s, const Det &d) {
  const Cam &C = s.cams[d.c].cam;
  M4 W = s.boardInCam(d.c, d.f, d.b);
  std::vector<cv::Point3f> o;
  std::vector<cv::Point2f> p;
  for (int k : d.ids) {
    V3 q = s.boards[d.b].pt(k), m = app(W, q);
    o.push_back(cv::Point3f(float(q.x()), float(q.y()), 0));
    p.push_back(cv::Point2f(float(m.x() / m.z()), float(m.y() / m.z())));
  }
  std::vector<cv::Mat> rv, tv;
  cv::solvePnPGeneric(o, p, cv::Mat::eye(3, 3, CV_64F), cv::noArray(), rv, tv, false, cv::SOLVEPNP_IPPE);
  for (size_t j = 0; j < rv.size(); j++) {
    const double *w = rv[j].ptr<double>(), *u = tv[j].ptr<double>();
    M4 X = T(expm(V3(w[0], w[1], w[2])), V3(u[0], u[1], u[2]));
    if (angleBetween(rot(X), rot(W)) < deg(2))
      continue;
    int in = 0;
    for (size_t k = 0; k < o.size(); k++) {
      V3 m = app(X, V3(o[k].x, o[k].y, 0));
      in += std::hypot((m.x() / m.z() - p[k].x) * C.fx, (m.y() / m.z() - p[k].y) * C.fy) < 1.1 * s.thr;
    }
    if (in >= 0.75 * o.size())
      return true;
  }
  return false;
}

M3 lookAt(const V3 &from, const V3 &to, const V3 &up = V3(0, -1, 0)) {
  V3 z = (to - from).normalized();
  V3 x = (-up).cross(z);
  if (x.norm() < 1e-6)
    x = V3(1, 0, 0).cross(z);
  x.normalize();
  V3 y = z.cross(x);
  M3 R; // camera -> world columns
  R << x, y, z;
  return R;
}

M4 camPose(const V3 &pos, const V3 &target, const M3 &extra) {
  M3 Rcw = lookAt(pos, target) * extra;
  return inv(T(Rcw, pos));
}

void focus(Scene &s, vh::Rng &r, int f, int c, int b, double fracLo, double fracHi, double uvLo, double uvHi,
                  double tiltLo, double tiltHi, bool anyRoll) {
  const Cam &C = s.cams[c].cam;
  const SBoard &B = s.boards[b];
  double u = r.u(uvLo, uvHi) * C.w, v = r.u(uvLo, uvHi) * C.h;
  V3 ray;
  if (C.model == 0)
    ray = V3((u - C.cx) / C.fx, (v - C.cy) / C.fy, 1).normalized();
  else {
    double x = (u - C.cx) / C.fx, y = (v - C.cy) / C.fy, th = std::hypot(x, y);
    ray = th < 1e-9 ? V3(0, 0, 1) : V3(std::sin(th) * x / th, std::sin(th) * y / th, std::cos(th));
  }
  double frac = r.u(fracLo, fracHi);
  double d = C.fx * B.width() / (frac * C.w);
  // board frame: x right, y down, z away from the camera
  M3 base = Eigen::Quaterniond::FromTwoVectors(V3(0, 0, 1), ray).toRotationMatrix();
  double phi = r.u(0, 2 * M_PI);
  M3 tilt = expm(V3(std::cos(phi), std::sin(phi), 0) * r.u(tiltLo, tiltHi));
  M3 roll = expm(V3(0, 0, 1) * (anyRoll ? r.u(-M_PI, M_PI) : r.u(-0.5, 0.5)));
  M4 T_CB = T(M3(base * tilt * roll), V3(0, 0, 0));
  V3 t = ray * d - rot(T_CB) * B.centre();
  T_CB.block<3, 1>(0, 3) = t;
  s.T_RW[f] = inv(s.cams[c].T_CR) * T_CB * inv(B.T_WB);
}

SBoard mkBoard(vh::Rng &r, double width) {
  SBoard B;
  B.nx = r.i(5, 8);
  B.ny = r.i(5, 7);
  if (r.p(0.12)) // more than a hundred corners
    B.nx = B.ny = r.i(11, 13);
  B.sq = float(width / B.nx);
  B.dict = 0;
  B.T_WB = M4::Identity();
  return B;
}

M4 placeBoard(const SBoard &B, const M3 &R, const V3 &centre) {
  return T(R, V3(centre - R * B.centre()));
}

Scene generate(vh::Rng &r, const GenOpt &o) {
  Scene s;
  s.kind = o.kind;
  static const double scales[] = {0.05, 1, 1, 10, 100};
  s.S = scales[r.i(0, 4)];
  double S = s.S, D = 1.2 * S;
  bool nonov = o.kind == "nonov" || o.kind == "nochain" || o.kind == "nofew" || o.kind == "split" || o.kind == "partial";
  s.nonoverlap = nonov;
  bool thin = o.kind == "thin", big = o.kind == "big"; // links measured once or twice; many of everything
  bool median = r.p(0.25) && !nonov && o.kind != "ring" && !thin && !big;
  s.qavg = median ? 0 : 1;
  s.he = r.i(0, 1);
  s.precal = thin || big || (nonov ? r.p(0.6) : r.p(0.4));
  s.fix = thin || big || (s.precal && r.p(0.5)) ? 1 : 0;
  static const double thrs[] = {3, 4, 5, 10};
  s.thr = nonov ? r.u(2, 4) : thrs[r.i(0, 3)]; // few views each: keep mirrored planar poses out
  s.sigma = o.sigma >= 0 ? o.sigma : (r.p(0.6) ? 0 : r.u(0.02, 0.12));
  bool anyRoll = !median;
  int fish = o.fisheye >= 0 ? o.fisheye : (r.p(0.55) ? 0 : r.p(0.4) ? 1 : 2); // 2: mixed
  auto model = [&](int k) { return fish == 2 ? k % 2 : fish; };
  std::vector<std::vector<int>> groups;

  if (o.kind == "row" || o.kind == "tree" || o.kind == "mono" || thin || big) {
    int nc = o.nc ? o.nc : o.kind == "mono" ? 1 : o.kind == "tree" ? r.i(3, 5) : big ? r.i(5, 8) : r.i(2, thin ? 5 : 4);
    int nb = o.nb ? o.nb : big ? r.i(2, 3) : r.i(1, thin ? 4 : 3);
    double base = (big ? r.u(0.06, 0.1) : thin ? r.u(0.1, 0.2) : r.u(0.12, 0.3)) * D;
    for (int k = 0; k < nc; k++) {
      SCam c;
      c.cam = randCam(r, model(k));
      V3 pos((k - (nc - 1) / 2.) * base + r.u(-.03, .03) * D, r.u(-.1, .1) * D, r.u(-.1, .1) * D);
      c.T_CR = camPose(pos, V3(r.u(-.05, .05), r.u(-.05, .05), 1) * D,
                       expm(V3(0, 0, 1) * (median ? r.u(-.3, .3) : r.p(0.3) ? r.u(-3, 3) : r.u(-.3, .3))));
      if (thin && k && r.p(0.4)) { // upside down to its neighbour: the link is about a half turn
        M3 flip = expm(V3(0, 0, 1) * (M_PI + (r.p(0.6) ? 0 : r.u(-.02, .02))));
        c.T_CR = T(M3(flip * rot(s.cams[k - 1].T_CR)), V3(0, 0, 0));
        c.T_CR.block<3, 1>(0, 3) = -rot(c.T_CR) * pos;
      }
      s.cams.push_back(c);
    }
    double w = (nb == 1 ? r.u(0.35, 0.5) : r.u(0.26, 0.32)) * D;
    for (int k = 0; k < nb; k++) {
      SBoard B = mkBoard(r, w * r.u(0.85, 1.1));
      double off = k - (nb - 1) / 2.;
      M3 R = expm(V3(0, 1, 0) * (-off * r.u(0, 0.5))) * expm(randUnit(r) * r.u(0, 0.15)) *
             expm(V3(0, 0, 1) * (median ? r.u(-.3, .3) : r.p(0.5) ? r.i(0, 3) * M_PI / 2 + r.u(-.2, .2) : r.u(-.2, .2)));
      if (thin && k && r.p(0.4)) // the same for boards
        R = rot(s.boards[k - 1].T_WB) * expm(V3(0, 0, 1) * (M_PI + (r.p(0.6) ? 0 : r.u(-.02, .02))));
      double ww = std::max(B.nx, B.ny) * B.sq;
      B.T_WB = placeBoard(B, R, V3(off * std::max(w, ww) * 1.1, r.u(-.03, .03) * D, r.u(-.05, .05) * D));
      s.boards.push_back(B);
    }
  } else if (o.kind == "ring") {
    int nc = o.nc ? o.nc : r.i(3, 5);
    int m = r.i(5, 6);
    int nb = o.nb ? o.nb : r.i(3, m);
    double step = deg(r.u(30, 50));
    for (int k = 0; k < nc; k++) {
      SCam c;
      c.cam = randCam(r, model(k));
      double a = k * step + r.u(-.05, .05);
      V3 pos(D * std::sin(a), r.u(-.15, .15) * D, -D * std::cos(a));
      c.T_CR = camPose(pos, V3(0, 0, 0), expm(V3(0, 0, 1) * (r.p(0.3) ? r.u(-3, 3) : r.u(-.2, .2))));
      s.cams.push_back(c);
    }
    double rho = r.u(0.24, 0.3) * D, w = 2 * rho * std::tan(M_PI / m) * 0.92;
    for (int k = 0; k < nb; k++) {
      SBoard B = mkBoard(r, w);
      double a = 2 * M_PI * k / m;
      // printed side outwards: board z axis points to the centre
      M3 R = expm(V3(0, 1, 0) * (-a)) * expm(V3(0, 0, 1) * (r.p(0.4) ? r.i(0, 3) * M_PI / 2 : r.u(-.3, .3)));
      V3 n = R * V3(0, 0, 1);
      if (std::max(B.nx, B.ny) * B.sq > w)
        B.sq = float(w / std::max(B.nx, B.ny));
      B.T_WB = placeBoard(B, R, V3(-n * rho + V3(0, r.u(-.02, .02) * D, 0)));
      s.boards.push_back(B);
    }
  } else { // non-overlapping groups
    int G = o.kind == "nonov" ? (r.p(0.7) ? 2 : 3) : o.kind == "nochain" || o.kind == "partial" ? 3 : 2;
    double yaw = 0;
    for (int g = 0; g < G; g++) {
      int n = r.p(0.4) ? 2 : 1;
      groups.push_back({});
      M3 Rg = expm(V3(0, 1, 0) * yaw) * expm(randUnit(r) * r.u(0, 0.2));
      V3 og = V3(r.u(-.2, .2), r.u(-.2, .2), r.u(-.2, .2)) * D;
      for (int k = 0; k < n; k++) {
        SCam c;
        c.cam = randCam(r, model(int(s.cams.size())));
        if (c.cam.model == 0) { // wide
          c.cam.fx *= 0.68;
          c.cam.fy *= 0.68;
          for (double &x : c.cam.d)
            x *= 0.4;
        }
        c.group = g;
        V3 pos = og + Rg * V3(k * r.u(0.15, 0.25) * D, r.u(-.03, .03) * D, 0);
        c.T_CR = camPose(pos, V3(og + Rg * V3(0, 0, D)), expm(V3(0, 0, 1) * r.u(-.3, .3)));
        groups[g].push_back(int(s.cams.size()));
        s.cams.push_back(c);
      }
      int m = r.p(0.4) ? 2 : 1;
      for (int k = 0; k < m; k++) {
        SBoard B = mkBoard(r, (m == 1 ? r.u(0.5, 0.6) : 0.42) * D);
        B.group = g;
        double off = m == 1 ? 0 : (k - 0.5) * 0.5;
        double ta = r.u(0, 2 * M_PI); // never face on
        M3 R = Rg * expm(V3(std::cos(ta), std::sin(ta), 0) * deg(r.u(12, 30))) * expm(V3(0, 0, 1) * r.u(-.4, .4));
        B.T_WB = placeBoard(B, R, V3(og + Rg * V3(off * D, 0, D)));
        s.boards.push_back(B);
      }
      double next = r.u(60, 150);
      yaw += deg(next);
      // stay away from opposite viewing directions between any two groups
      for (int h = 0; h <= g; h++) {
        double rel = std::fmod((yaw - 0) * 180 / M_PI, 360.);
        if (std::fabs(rel - 180) < 20)
          yaw += deg(40);
      }
    }
  }
  // a random numbering of cameras and boards
  auto permCams = [&] {
    std::vector<int> p(s.cams.size());
    std::iota(p.begin(), p.end(), 0);
    r.shuffle(p);
    std::vector<SCam> n;
    for (int k : p)
      n.push_back(s.cams[k]);
    s.cams = n;
    r.shuffle(s.boards);
  };
  permCams();
  int nc = int(s.cams.size()), nb = int(s.boards.size());
  s.perCamModel = fish == 2 || r.p(0.3);
  s.perBoard = true; // sizes differ in general
  if (r.p(0.4)) {    // equal boards through the common settings
    for (auto &B : s.boards) {
      V3 c = app(B.T_WB, B.centre());
      B.nx = s.boards[0].nx;
      B.ny = s.boards[0].ny;
      double sq = 1e18;
      for (auto &X : s.boards)
        sq = std::min(sq, X.sq);
      B.sq = sq;
      M3 R = rot(B.T_WB);
      B.T_WB = placeBoard(B, R, c);
    }
    s.perBoard = r.p(0.3);
  }
  s.useIndex = r.p(0.3);
  int num = 0;
  for (auto &B : s.boards) {
    B.dict = num;
    num += s.useIndex ? r.i(1, 3) : 1;
  }
  if (s.useIndex && r.p(0.5)) { // any order of the selection
    std::vector<int> ds;
    for (auto &B : s.boards)
      ds.push_back(B.dict);
    r.shuffle(ds);
    for (size_t k = 0; k < ds.size(); k++)
      s.boards[k].dict = ds[k];
  }

  // ---- frames
  int f = r.i(0, 3);
  auto nextFrame = [&] { int x = f; f += r.p(0.8) ? 1 : r.i(2, 4); return x; };
  std::vector<Det> dets;
  auto addFrame = [&](int fr, const std::vector<int> &cs, const std::vector<int> &bs) {
    int n = 0;
    for (int c : cs)
      for (int b : bs) {
        if (s.cams[c].group != s.boards[b].group)
          continue;
        Det d;
        if (!view(s, c, fr, b, d) || !usable(s, d))
          continue;
        dets.push_back(d);
        n++;
      }
    return n;
  };
  std::vector<int> allC(nc), allB(nb);
  std::iota(allC.begin(), allC.end(), 0);
  std::iota(allB.begin(), allB.end(), 0);
  int most = std::max(nc, nb);
  int total = o.framesPer ? o.framesPer * most
              : o.small   ? 9 * most
              : big       ? 5 * most
              : r.p(0.12) ? 18 * most // the calibration then draws a subset of the views
              : o.kind == "tree" ? std::max(16, r.i(7, 10) * std::max(1, nc - 1) * std::max(1, nb - 1))
                                 : std::max(15, r.i(5, 8) * most);
  total = std::min(total, 100);
  if (!nonov) {
    // links of a random tree over cameras and boards (kind tree: nothing else is ever seen together)
    std::vector<std::pair<int, int>> cl, bl;
    for (int k = 1; k < nc; k++)
      cl.push_back({r.p(0.6) ? k - 1 : r.i(0, k - 1), k});
    for (int k = 1; k < nb; k++)
      bl.push_back({r.p(0.6) ? k - 1 : r.i(0, k - 1), k});
    // neighbours in space: cameras and boards were shuffled, so order them by position
    auto byX = [&](std::vector<int> v, auto key) {
      std::sort(v.begin(), v.end(), [&](int a, int b) { return key(a) < key(b); });
      return v;
    };
    std::vector<int> co = byX(allC, [&](int k) { return tr(inv(s.cams[k].T_CR)).x(); });
    std::vector<int> bo = byX(allB, [&](int k) { return app(s.boards[k].T_WB, s.boards[k].centre()).x(); });
    for (auto &l : cl)
      l = {co[l.first], co[l.second]};
    for (auto &l : bl)
      l = {bo[l.first], bo[l.second]};
    bool ring = o.kind == "ring";
    // every link measured once or twice, and nothing else seen together
    auto shoot = [&](int c, int b, const std::vector<int> &cs, const std::vector<int> &bs, size_t need) {
      int fr = nextFrame();
      for (int tries = 0; tries < 60; tries++) {
        size_t n0 = dets.size();
        focus(s, r, fr, c, b, nb == 1 ? 0.3 : 0.24, nb == 1 ? 0.5 : 0.36, 0.3, 0.7, deg(12), deg(40), true);
        addFrame(fr, cs, bs);
        if (dets.size() - n0 >= need)
          return;
        dets.resize(n0);
        s.T_RW.erase(fr);
      }
    };
    if (thin) {
      for (auto &l : cl)
        for (int k = r.p(0.3) ? 1 : 2; k > 0; k--) {
          int b = r.i(0, nb - 1);
          shoot(r.p(0.5) ? l.first : l.second, b, {l.first, l.second}, {b}, 2);
        }
      for (auto &l : bl)
        for (int k = r.p(0.3) ? 1 : 2; k > 0; k--) {
          int c = r.i(0, nc - 1);
          shoot(c, r.p(0.5) ? l.first : l.second, {c}, {l.first, l.second}, 2);
        }
      for (int k = r.i(0, 4); k > 0; k--) {
        int c = r.i(0, nc - 1), b = r.i(0, nb - 1);
        shoot(c, b, {c}, {b}, 1);
      }
      total = 0;
    }
    for (int k = 0; k < total; k++) {
      int c = k % nc, b = r.i(0, nb - 1);
      std::vector<int> cs = allC, bs = allB;
      if (o.kind == "tree") {
        if (!cl.empty()) {
          auto l = cl[k % cl.size()];
          cs = {l.first, l.second};
          c = cs[r.i(0, 1)];
        }
        if (!bl.empty()) {
          auto l = bl[(k / std::max<size_t>(1, cl.size())) % bl.size()];
          bs = {l.first, l.second};
          b = bs[r.i(0, 1)];
        }
      }
      int fr = nextFrame();
      for (int tries = 0; tries < 30; tries++) {
        size_t n0 = dets.size();
        if (ring)
          focus(s, r, fr, c, b, 0.26, 0.36, 0.4, 0.6, deg(5), deg(40), true);
        else if (nb == 1)
          focus(s, r, fr, c, b, 0.35, 0.65, 0.25, 0.75, deg(8), deg(45), anyRoll);
        else
          focus(s, r, fr, c, b, 0.24, 0.4, 0.25, 0.75, deg(8), deg(40), anyRoll);
        int n = addFrame(fr, cs, bs);
        // mostly keep views that link something
        if (n >= 2 || (n >= 1 && (tries > 12 || nc * nb == 1)))
          break;
        dets.resize(n0);
        s.T_RW.erase(fr);
      }
    }
  } else {
    int G = int(groups.size());
    std::vector<std::vector<int>> gc(G), gb(G);
    for (int k = 0; k < nc; k++)
      gc[s.cams[k].group].push_back(k);
    for (int k = 0; k < nb; k++)
      gb[s.boards[k].group].push_back(k);
    // single-group frames: intrinsics
    if (!s.fix || o.kind == "split")
      for (int g = 0; g < G; g++)
        for (int c : gc[g])
          for (int k = 0; k < (o.small ? 8 : 16); k++) {
            int fr = nextFrame();
            for (int tries = 0; tries < 30; tries++) {
              size_t n0 = dets.size();
              focus(s, r, fr, c, r.pick(gb[g]), 0.3, 0.5, 0.25, 0.75, deg(8), deg(45), false);
              if (addFrame(fr, gc[g], gb[g]) >= 1)
                break;
              dets.resize(n0);
              s.T_RW.erase(fr);
            }
          }
    // shared frames
    auto shared = [&](std::vector<int> gs, int count) {
      std::vector<int> cs, bs;
      for (int g : gs) {
        cs.insert(cs.end(), gc[g].begin(), gc[g].end());
        bs.insert(bs.end(), gb[g].begin(), gb[g].end());
      }
      int got = 0;
      for (int tries = 0; tries < count * 300 && got < count; tries++) {
        size_t n0 = dets.size();
        s.T_RW[f] = T(expm(randUnit(r) * deg(r.u(5, 28))), V3(V3(r.u(-.22, .22), r.u(-.22, .22), r.u(-.2, .2)) * D));
        addFrame(f, cs, bs);
        std::set<int> seen;
        for (size_t k = n0; k < dets.size(); k++)
          seen.insert(s.cams[dets[k].c].group);
        if (seen.size() == gs.size()) {
          got++;
          nextFrame();
        } else {
          dets.resize(n0);
          s.T_RW.erase(f);
        }
      }
    };
    int n = o.small ? 10 : r.i(22, 30);
    std::vector<int> order(G);
    std::iota(order.begin(), order.end(), 0);
    r.shuffle(order);
    if (o.kind == "nonov")
      shared(order, n);
    else if (o.kind == "nochain") {
      shared({order[0], order[1]}, n);
      shared({order[1], order[2]}, n);
    } else if (o.kind == "partial" || o.kind == "nofew") {
      if (o.kind == "partial") {
        shared({order[0], order[1]}, n);
        s.apart = order[2];
        if (r.p(0.5))
          shared({order[r.i(0, 1)], order[2]}, r.i(1, 3));
      } else
        shared({0, 1}, r.i(1, 3));
      if (s.fix)
        for (int g = 0; g < G; g++)
          for (int k = 0; k < 12; k++) {
            int fr = nextFrame();
            for (int tries = 0; tries < 30; tries++) {
              size_t n0 = dets.size();
              focus(s, r, fr, r.pick(gc[g]), r.pick(gb[g]), 0.3, 0.5, 0.25, 0.75, deg(8), deg(45), false);
              if (addFrame(fr, gc[g], gb[g]) >= 1)
                break;
              dets.resize(n0);
              s.T_RW.erase(fr);
            }
          }
    }
  }
  if (o.keep < 1) {
    std::vector<Det> some;
    for (auto &d : dets)
      if (r.p(o.keep))
        some.push_back(d);
    if (!some.empty())
      dets = some;
    s.precal = true;
    s.fix = 1;
  }
  // dropped corners, noise
  for (auto &d : dets) {
    double drop = r.p(0.5) ? r.u(0, 0.12) : 0;
    Det k = d;
    k.ids.clear();
    k.pts.clear();
    k.bad.clear();
    std::vector<int> order(d.ids.size());
    std::iota(order.begin(), order.end(), 0);
    if (r.p(0.3))
      r.shuffle(order); // corners in any order
    for (int j : order)
      if (!r.p(drop)) {
        k.ids.push_back(d.ids[j]);
        cv::Point2f p = d.pts[j];
        if (s.sigma > 0) {
          p.x += float(s.sigma * r.n());
          p.y += float(s.sigma * r.n());
        }
        k.pts.push_back(p);
        k.bad.push_back(0);
      }
    d = usable(s, k, 0.3, 6) ? k : d;
  }
  // frame numbers: gaps, large numbers, several recordings one after the other
  if (r.p(0.4)) {
    static const int bases[] = {64, 100, 128, 256, 1000, 1024, 2048, 4096, 10000, 32768, 65536, 100000, 1 << 20, 1 << 24, 1 << 30};
    int base = bases[r.i(0, 14)], kind = r.i(0, 2), n = int(s.T_RW.size()), k = 0;
    std::map<int, int> num;
    std::map<int, M4> T2;
    int cut = std::min(base, n > 1 ? r.i(1, n - 1) : 1), step = std::max(1, std::min(base, 2000000000 / std::max(1, n)));
    for (auto &x : s.T_RW) {
      num[x.first] = kind == 0 ? (k < cut ? k : base + k - cut) : kind == 1 ? k * step : base + x.first;
      T2[num[x.first]] = x.second;
      k++;
    }
    s.T_RW = T2;
    for (auto &d : dets)
      d.f = num[d.f];
  }
  s.dets = dets;
  if (r.p(0.5))
    s.iters = r.i(200, 3000);
  return s;
}

void writeKeypoints(const Scene &s, const std::string &path) {
  cv::FileStorage fs(path, cv::FileStorage::WRITE);
  fs << "nb_camera" << int(s.cams.size());
  for (size_t c = 0; c < s.cams.size(); c++) {
    fs << "camera_" + std::to_string(c) << "{";
    fs << "img_width" << s.cams[c].cam.w << "img_height" << s.cams[c].cam.h;
    std::vector<int> fi, bi;
    std::vector<std::string> fp;
    std::vector<std::vector<cv::Point2f>> pts;
    std::vector<std::vector<int>> ids;
    for (auto &d : s.dets)
      if (d.c == int(c)) {
        fi.push_back(d.f);
        bi.push_back(d.b);
        fp.push_back(imgPath(s, d.c, d.f));
        pts.push_back(d.pts);
        ids.push_back(d.ids);
      }
    fs << "frame_idxs" << fi << "frame_paths" << fp << "board_idxs" << bi << "pts_2d" << pts << "charuco_idxs" << ids;
    fs << "}";
  }
}

void writeCamParams(const Scene &s, const std::string &path, vh::Rng *perturb) {
  cv::FileStorage fs(path, cv::FileStorage::WRITE);
  fs << "nb_camera" << int(s.cams.size());
  for (size_t c = 0; c < s.cams.size(); c++) {
    Cam k = s.cams[c].cam;
    if (perturb) {
      k.fx *= perturb->u(0.99, 1.01);
      k.fy *= perturb->u(0.99, 1.01);
    }
    fs << "camera_" + std::to_string(c) << "{"
       << "camera_matrix" << k.K() << "distortion_vector" << k.D() << "distortion_type" << k.model << "}";
  }
}

void writeConfig(const Scene &s, const std::string &path, const std::string &save, const std::string &keyp,
                        const std::string &camp, std::map<std::string, std::string> extra) {
  std::vector<std::pair<std::string, std::string>> kv;
  int maxd = 0;
  for (auto &B : s.boards)
    maxd = std::max(maxd, B.dict);
  std::vector<int> nx(maxd + 1, 5), ny(maxd + 1, 5), idx, rx(maxd + 1, 400), ry(maxd + 1, 400);
  std::vector<double> sq(maxd + 1, 0.123);
  for (auto &B : s.boards) {
    nx[B.dict] = B.nx;
    ny[B.dict] = B.ny;
    sq[B.dict] = B.sq;
    idx.push_back(B.dict);
  }
  auto num = [](double d) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return std::string(b);
  };
  bool common = !s.perBoard;
  kv.push_back({"number_x_square", std::to_string(common ? s.boards[0].nx : 6)});
  kv.push_back({"number_y_square", std::to_string(common ? s.boards[0].ny : 7)});
  kv.push_back({"resolution_x", "500"});
  kv.push_back({"resolution_y", "500"});
  kv.push_back({"length_square", "0.04"});
  kv.push_back({"length_marker", "0.03"});
  kv.push_back({"number_board", std::to_string(s.useIndex ? maxd + 1 : int(s.boards.size()))});
  kv.push_back({"boards_index", s.useIndex ? listOf(idx) : "[]"});
  kv.push_back({"square_size", num(common ? s.boards[0].sq : 0.777)});
  kv.push_back({"number_x_square_per_board", common ? "[]" : listOf(nx)});
  kv.push_back({"number_y_square_per_board", common ? "[]" : listOf(ny)});
  kv.push_back({"square_size_per_board", common ? "[]" : listOf(sq)});
  std::vector<int> dm;
  for (auto &c : s.cams)
    dm.push_back(c.cam.model);
  kv.push_back({"distortion_model", std::to_string(s.perCamModel ? 1 - dm[0] : dm[0])});
  kv.push_back({"distortion_per_camera", s.perCamModel ? listOf(dm) : "[]"});
  kv.push_back({"number_camera", std::to_string(s.cams.size())});
  kv.push_back({"refine_corner", "1"});
  kv.push_back({"min_perc_pts", "0.4"});
  kv.push_back({"cam_params_path", "\"" + (s.precal ? camp : std::string("None")) + "\""});
  kv.push_back({"fix_intrinsic", std::to_string(s.fix)});
  kv.push_back({"root_path", "\"" + s.root + "\""});
  kv.push_back({"cam_prefix", "\"Cam_\""});
  kv.push_back({"keypoints_path", "\"" + (keyp.empty() ? std::string("None") : keyp) + "\""});
  kv.push_back({"quaternion_averaging", std::to_string(s.qavg)});
  kv.push_back({"ransac_threshold", num(s.thr)});
  kv.push_back({"number_iterations", std::to_string(s.iters)});
  kv.push_back({"he_approach", std::to_string(s.he)});
  kv.push_back({"save_path", "\"" + save + "\""});
  kv.push_back({"save_detection", std::to_string(int(s.saveDet))});
  kv.push_back({"save_reprojection", std::to_string(int(s.saveRep))});
  kv.push_back({"camera_params_file_name", "\"" + s.camFile + "\""});
  std::ofstream f(path);
  f << "%YAML:1.0\n---\n";
  for (auto &x : kv) {
    auto it = extra.find(x.first);
    std::string v = it != extra.end() ? it->second : x.second;
    if (v == "<omit>")
      continue;
    f << x.first << ": " << v << "\n";
  }
}
} // namespace sc
