// Synthetic calibration scenes with known truth: rigid worlds of boards seen by
// rigid camera rigs.  Everything a calibration should recover is known here.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <opencv2/core/persistence.hpp>

namespace sc {
using namespace ref;

struct SBoard {
  int nx, ny;     // squares
  double sq;      // metric size of a square
  int dict;       // number of the printed board (boards_index)
  M4 T_WB;        // board -> world
  int group = -1; // non-overlapping scenes: only this group's cameras may see it
  int npts() const { return (nx - 1) * (ny - 1); }
  V3 pt(int k) const { // as the calibration computes it (float)
    float s = float(sq);
    return V3(double((k % (nx - 1)) * s), double((k / (nx - 1)) * s), 0);
  }
  V3 centre() const { return V3((nx - 2) * sq / 2, (ny - 2) * sq / 2, 0); }
  double width() const { return nx * sq; }
};
struct SCam {
  Cam cam;
  M4 T_CR; // rig -> camera
  int group = -1;
};
struct Det {
  int c, f, b;
  std::vector<int> ids;
  std::vector<cv::Point2f> pts;
  std::vector<char> bad; // grossly misplaced corner
  bool badView = false;
};
struct Scene {
  std::string kind;
  double S = 1; // unit scale
  std::vector<SCam> cams;
  std::vector<SBoard> boards;
  std::map<int, M4> T_RW; // by frame number
  std::vector<Det> dets;
  double sigma = 0;
  // settings
  int qavg = 1, he = 0, fix = 0, iters = 1000;
  double thr = 10;
  bool precal = false, perCamModel = false, perBoard = false, useIndex = false;
  bool saveDet = false, saveRep = false;
  std::string camFile;
  std::string root = "/nonexistent";
  int apart = -1; // a group that must stay alone
  bool nonoverlap = false; // truth known only through motion for some links
  M4 camRel(int c, int r) const { return cams[c].T_CR * inv(cams[r].T_CR); } // ref cam -> cam
  M4 boardRel(int b, int r) const { return inv(boards[r].T_WB) * boards[b].T_WB; } // board b -> board r
  M4 boardInCam(int c, int f, int b) const { return cams[c].T_CR * T_RW.at(f) * boards[b].T_WB; }
};

inline std::string imgPath(const Scene &s, int c, int f) {
  char b[200];
  snprintf(b, sizeof b, "%s/Cam_%03d/%06d.png", s.root.c_str(), c + 1, f);
  return b;
}

// corners of board b seen by camera c in frame f (noise added later)
bool view(const Scene &s, int c, int f, int b, Det &d, double margin = 4, double minCos = 0.35);
bool ambiguous(const Scene &s, const Det &d); // its mirror image fits within the threshold as well
// enough corners, in two directions
bool usable(const Scene &s, const Det &d, double share = 0.4, int least = 8);



struct GenOpt {
  std::string kind = "row"; // row ring tree mono nonov nochain nofew split
  int nc = 0, nb = 0;       // 0: random
  int framesPer = 0;        // focused frames per camera, 0: default
  double sigma = -1;        // <0: random
  int fisheye = -1;         // -1: random mix
  double keep = 1;          // share of the views kept (structure only)
  bool small = false;       // few frames (sanitizer runs)
};

inline double deg(double d) { return d * M_PI / 180; }


Scene generate(vh::Rng &r, const GenOpt &o);

// ------------------------------------------------------------------ files
void writeKeypoints(const Scene &s, const std::string &path);
void writeCamParams(const Scene &s, const std::string &path, vh::Rng *perturb = nullptr);
template <class V> std::string listOf(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t k = 0; k < v.size(); k++)
    o << (k ? "," : "") << v[k];
  o << "]";
  return o.str();
}
// extra: settings to override or add
void writeConfig(const Scene &s, const std::string &path, const std::string &save, const std::string &keyp,
                        const std::string &camp, std::map<std::string, std::string> extra = {});

// ------------------------------------------------- reference co-visibility
struct UF {
  std::map<int, int> p;
  void add(int x) { p.emplace(x, x); }
  int find(int x) {
    while (p[x] != x)
      x = p[x] = p[p[x]];
    return x;
  }
  void join(int a, int b) {
    add(a);
    add(b);
    a = find(a), b = find(b);
    if (a != b)
      p[std::max(a, b)] = std::min(a, b); // root: smallest member
  }
  std::map<int, std::set<int>> comps() {
    std::map<int, std::set<int>> m;
    for (auto &x : p)
      m[find(x.first)].insert(x.first);
    return m;
  }
};
} // namespace sc
