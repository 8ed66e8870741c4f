// Rendered pictures of a whole calibration: a rig of cameras, boards that move
// rigidly before it, everything known.
#pragma once
#include "render.hpp"
#include "vh.hpp"

namespace al {
using namespace ref;
using vh::cat;
namespace fs = std::filesystem;

struct Album {
  sc::Scene s; // cameras, boards, poses by picture number, settings
  std::vector<rd::Print> prints;
  std::vector<rd::Lens> lens;
  std::map<std::string, std::string> extra; // settings
  int frames = 0;
};

inline Album make(vh::Rng &r, const std::string &dir, int cams, int boards, int frames) {
  Album a;
  sc::Scene &s = a.s;
  s.kind = "album";
  s.root = dir + "/in";
  s.perBoard = boards > 1 && r.p(0.7);
  s.S = r.p(0.5) ? 1 : std::exp(r.u(-2, 3));
  std::vector<std::pair<int, int>> size;
  int X = r.i(5, 7), Y = r.i(5, 6);
  for (int b = 0; b < boards; b++)
    size.push_back(s.perBoard ? std::make_pair(r.i(4, 7), r.i(5, 6)) : std::make_pair(X, Y));
  double ratio = r.u(0.68, 0.76);
  a.extra["length_square"] = "0.04";
  a.extra["length_marker"] = cat(0.04 * ratio);
  a.prints = rd::prints(size, 0.04, 0.04 * ratio);
  // boards side by side, slightly turned against each other
  const double z = 1.2 * s.S;
  double w = boards < 3 ? 640 : 1120, h = 0.75 * w, f0 = r.u(0.9, 1.2) * w, room = (boards == 1 ? 0.55 : 0.84 / boards) * w / f0 * z;
  double common = 0, x = 0;
  for (int b = 0; b < boards; b++) {
    sc::SBoard B;
    B.nx = size[b].first, B.ny = size[b].second, B.dict = b;
    double sq = std::min(room / (B.nx + 1.5), 0.62 * h / f0 * z / (B.ny + 1));
    B.sq = b == 0 || s.perBoard ? double(float(sq)) : common;
    common = b == 0 ? B.sq : common;
    double wide = (B.nx + 1.5) * B.sq;
    M3 Q = expm(V3(r.u(-0.15, 0.15), r.u(-0.25, 0.25), r.u(-0.2, 0.2)));
    V3 mid(x + wide / 2, 0, r.u(-0.03, 0.03) * s.S);
    x += wide;
    B.T_WB = T(Q, mid - Q * B.centre());
    s.boards.push_back(B);
  }
  for (auto &B : s.boards) // their middle is the origin
    B.T_WB(0, 3) -= x / 2;
  for (int c = 0; c < cams; c++) {
    sc::SCam C;
    rd::Lens L{f0 * r.u(0.95, 1.05), w / 2 + r.u(-15, 15), h / 2 + r.u(-15, 15), int(w), int(h)};
    C.cam.model = 0, C.cam.fx = C.cam.fy = L.f, C.cam.cx = L.cx, C.cam.cy = L.cy, C.cam.w = L.w, C.cam.h = L.h;
    // around the middle, looking at it
    M3 turn = expm(V3(r.u(-0.08, 0.08), c == 0 ? 0 : r.u(0.12, 0.3) * (c % 2 ? 1 : -1), r.u(-0.2, 0.2)));
    C.T_CR = T(turn, V3(0, 0, z) - turn * V3(0, 0, z));
    s.cams.push_back(C);
    a.lens.push_back(L);
  }
  a.frames = frames;
  for (int f = 0; f < frames; f++) {
    for (int t = 0;; t++) {
      double tilt = r.u(0.25, 0.6), phi = r.u(0, 2 * M_PI);
      M3 Q = expm(V3(std::cos(phi), std::sin(phi), 0) * tilt) * expm(V3(0, 0, r.u(-0.35, 0.35) + (boards == 1 ? r.i(0, 3) * M_PI / 2 : r.i(0, 1) * M_PI)));
      s.T_RW[f] = T(Q, V3(r.u(-0.12, 0.12) * s.S, r.u(-0.1, 0.1) * s.S, z * r.u(0.9, 1.25)));
      // all in sight of the first camera
      bool in = true;
      for (int b = 0; b < boards; b++)
        for (int k : {0, s.boards[b].nx - 2, s.boards[b].npts() - s.boards[b].nx + 1, s.boards[b].npts() - 1}) {
          V2 uv;
          V3 P = app(s.boardInCam(0, f, b), s.boards[b].pt(k));
          s.cams[0].cam.project(P, uv);
          in &= P.z() > 0.2 * s.S && uv.x() > 5 && uv.y() > 5 && uv.x() < w - 6 && uv.y() < h - 6;
        }
      if (in || t > 300)
        break;
    }
  }
  double noise = r.p(0.5) ? 0 : r.u(0.5, 2);
  static const char *ext[] = {"png", "bmp", "png", "tiff"};
  for (int c = 0; c < cams; c++) {
    char d[40];
    snprintf(d, sizeof d, "Cam_%03d", c + 1);
    fs::create_directories(s.root + "/" + d);
    std::string e = ext[r.i(0, 3)];
    for (int f = 0; f < frames; f++) {
      cv::Mat canvas = rd::background(a.lens[c], r);
      for (int b = 0; b < boards; b++) {
        rd::Placed p;
        p.print = b, p.sq = s.boards[b].sq, p.T = s.boardInCam(c, f, b);
        p.hidden.assign(a.prints[b].nx * a.prints[b].ny, 0);
        rd::paint(canvas, a.lens[c], a.prints[b], p, r);
      }
      char n[40];
      snprintf(n, sizeof n, "/%06d.", f * 3);
      cv::imwrite(s.root + "/" + d + n + e, rd::shoot(canvas, a.lens[c], noise, r));
    }
  }
  return a;
}
} // namespace al
