// Runs the real calibration application in process and watches it: stage
// monitors on function entry and exit, a monitor on every solver call, and
// readers of the files it leaves behind.
#pragma once
#include "McCalib.hpp"
#include "scene.hpp"
#include "yml.hpp"
#include <ceres/ceres.h>
#include <dlfcn.h>
#include <filesystem>
#include <unordered_map>

int calibrate_app_main(int argc, char **argv);

namespace pl {
using namespace ref;
using vh::cat;
namespace fs = std::filesystem;
using Cal = McCalib::Calibration;

struct Unit { // what one refinement is about
  char kind;  // c camera, o object, g group
  int id;
  bool operator<(const Unit &b) const { return std::tie(kind, id) < std::tie(b.kind, b.id); }
};

// ---- final state, copied while the calibration is alive
struct FCam {
  Cam cam;
  int group;
  M4 pose; // reference -> camera
};
struct FObs {
  int obj, group, c, f;
  M4 pose; // object -> reference camera of the group
  std::vector<double> err;
};
struct FObj {
  int refBoard;
  std::map<int, M4> boards;
  std::vector<std::array<double, 5>> pts; // x y z board point
};
struct FDet {
  int c, f, b;
  std::vector<cv::Point2f> pts;
  std::vector<int> ids;
  std::string path;
  bool valid;
  double err = 0; // mean reprojection error in the final state
};
struct Final {
  bool ok = false;
  std::map<int, FCam> cams;
  std::map<int, FObj> objs;
  std::vector<FObs> obs;
  std::vector<FDet> dets;
  std::map<int, std::pair<int, int>> size;
  double avg = 0, avgRef = 0;
};

struct Tol {
  double rot, pos, pix; // rad, share of the working distance, pixels
};

struct Mark { // a corner in use
  V2 seen, projected;
  std::array<int, 3> color; // of its object
};
struct Run {
  vh::Ctx *c = nullptr;
  const sc::Scene *s = nullptr;
  Cal *cal = nullptr;
  bool exact = false;  // noise-free, enough data: tight truth checks
  bool truth = false;  // compare with the truth at all
  bool spoilt = false; // wrong corners and views among the detections
  bool strict = true;  // the input is fair: structure must be right
  std::map<int, sc::Cam> supplied;
  Final fin;
  int solves = 0, unknownSolves = 0;
  std::map<Unit, double> before;
  std::set<Unit> solved;
  std::map<int, std::set<int>> objPart; // last known object partition (boards), by object
  std::map<int, std::set<int>> grpPart;
  std::map<int, std::map<int, M4>> oldCamPose;
  std::string stage;
  // F04: seed of the pictures (0: none), those that exist, what marks them
  uint64_t shots = 0;
  std::set<std::pair<int, int>> pictures; // camera, frame
  std::map<std::pair<int, int>, std::vector<Mark>> marks;
};
extern Run *R;
void paintShots(const sc::Scene &S, vh::Rng &r);
void checkShots(const std::string &save);
extern bool busy;

Cam camOf(const McCalib::Camera &k);
template <class T> bool idPose(const T &a) {
  for (double x : a)
    if (!(std::fabs(x) <= 1e-9))
      return false;
  return true;
}

// ------------------------------------------------------- reprojection cost
struct Cost {
  double sq = 0, rob = 0; // 0.5 sum of squares, 0.5 sum Huber(1)
  long n = 0;
  bool usable = true;
  void add(const Cam &k, const V3 &P, const cv::Point2f &o) {
    V2 uv;
    if (!(P.z() > 1e-9))
      usable = false;
    k.project(P, uv);
    double s = (uv - V2(o.x, o.y)).squaredNorm();
    if (!std::isfinite(s))
      usable = false;
    sq += 0.5 * s;
    rob += 0.5 * (s <= 1 ? s : 2 * std::sqrt(s) - 1);
    n++;
  }
};
inline V3 bpt(const McCalib::Board &b, int k) {
  auto &p = b.pts_3d_.at(k);
  return V3(p.x, p.y, p.z);
}
inline int groupOf(Cal &cal, int cam) {
  for (auto &g : cal.cam_group_)
    if (g.second->cameras_.count(cam))
      return g.first;
  return -1;
}
Cost costCamera(Cal &cal, int c);
Cost costObject(Cal &cal, int obj, long *invalid = nullptr);
Cost costGroup(Cal &cal, int g, long *invalid = nullptr);
inline Cost costOf(Cal &cal, const Unit &u, long *invalid = nullptr) {
  return u.kind == 'c' ? costCamera(cal, u.id) : u.kind == 'o' ? costObject(cal, u.id, invalid)
                                                              : costGroup(cal, u.id, invalid);
}
std::vector<Unit> unitsOf(Cal &cal, char kind);

// --------------------------------------------------------------- O01, O02
inline void fixedPoses(Cal &cal, const std::string &when) {
  for (auto &o : cal.object_3d_)
    if (!idPose(o.second->relative_board_pose_[o.second->ref_board_id_]))
      R->c->fail("O02", "ref_board_moved", cat(when, ": object ", o.first, " reference board ", o.second->ref_board_id_));
  for (auto &g : cal.cam_group_)
    if (!idPose(g.second->relative_camera_pose_[g.second->id_ref_cam_]))
      R->c->fail("O02", "ref_camera_moved", cat(when, ": group ", g.first, " reference camera ", g.second->id_ref_cam_));
  R->c->cov("fixed_pose_checks");
}

struct SolveInfo {
  std::set<Unit> units;
  bool known = true;
};
SolveInfo identify(Cal &cal, ceres::Problem *p);

void onSolve(const ceres::Solver::Options &o, ceres::Problem *p, ceres::Solver::Summary *sum,
                    const std::function<void()> &real);

inline void refineEnter(char kind) {
  R->before.clear();
  R->solved.clear();
  R->unknownSolves = 0;
  for (auto &u : unitsOf(*R->cal, kind)) {
    Cost k = costOf(*R->cal, u);
    if (k.n && k.usable)
      R->before[u] = k.rob;
  }
}
void refineExit(char kind);

// --------------------------------------------------------------------- S02
inline std::string detName(int c, int f, int b) { return cat("camera ", c, " frame ", f, " board ", b); }

// where == everything the calibration may know the detections from
void checkRegistered(Cal &cal, const std::vector<sc::Det> &dets, vh::Ctx &c,
                            const std::function<std::string(int, int)> &path);

// --------------------------------------------------------------------- S03
void checkObjectObs(Cal &cal, bool groups, const std::string &stage, vh::Ctx &c);

// ---------------------------------------------------------------- S01, R04
inline std::map<int, std::set<int>> objPart(Cal &cal) {
  std::map<int, std::set<int>> m;
  for (auto &o : cal.object_3d_)
    for (auto &b : o.second->boards_)
      m[o.first].insert(b.first);
  return m;
}
inline std::map<int, std::set<int>> grpPart(Cal &cal) {
  std::map<int, std::set<int>> m;
  for (auto &g : cal.cam_group_) {
    std::set<int> a, b;
    for (auto &k : g.second->cameras_)
      a.insert(k.first);
    m[g.first] = a;
  }
  return m;
}
inline std::string show(const std::map<int, std::set<int>> &p) {
  std::ostringstream o;
  for (auto &x : p) {
    o << "{";
    for (int v : x.second)
      o << v << " ";
    o << "}";
  }
  return o.str();
}
inline std::set<std::set<int>> blocksOf(const std::map<int, std::set<int>> &p) {
  std::set<std::set<int>> s;
  for (auto &x : p)
    s.insert(x.second);
  return s;
}
// S01 at the board/object level
void checkObjects(Cal &cal, const std::map<int, std::set<int>> &want, const std::string &stage);
void checkGroups(Cal &cal, const std::map<int, std::set<int>> *want, const std::string &stage);

inline double workDist() { return 1.2 * R->s->S; }
inline bool poseNear(const M4 &a, const M4 &b, double rot, double pos, std::string &why) {
  double dr = angleBetween(M3(a.block<3, 3>(0, 0)), M3(b.block<3, 3>(0, 0)));
  double dt = (tr(a) - tr(b)).norm() / workDist();
  why = cat("off by ", dr * 180 / M_PI, " deg and ", dt * 100, "% of the distance");
  return dr <= rot && dt <= pos;
}
inline void checkBoardPoses(Cal &cal, const std::string &prop, const std::string &stage, double rot, double pos) {
  for (auto &o : cal.object_3d_)
    for (auto &b : o.second->boards_) {
      std::string why;
      M4 got = fromVec6(o.second->relative_board_pose_[b.first]);
      if (!poseNear(got, R->s->boardRel(b.first, o.second->ref_board_id_), rot, pos, why))
        R->c->fail(prop, "board_pose", cat(stage, ": board ", b.first, " in object ", o.first, " ", why));
      R->c->cov("board_poses_checked");
    }
}
void checkCamPoses(Cal &cal, const std::string &prop, const std::string &stage, double rot, double pos,
                          const std::set<int> *only = nullptr);
// points of the objects: every member board's points once, rigid copies
void checkObjectPoints(Cal &cal, const std::string &stage);
} // namespace pl
