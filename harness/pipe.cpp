// Whole calibrations on synthetic scenes with known truth (see pipe.hpp).
#include "pipe.hpp"
#include "vh_main.inc"

using namespace vh;
using namespace pl;

void checkFiles(const std::string &dir, const std::string &save, int part);

// ------------------------------------------------------------- the observers
extern "C" {
void __real__ZN7McCalib11CalibrationC1ERKNSt10filesystem7__cxx114pathE(McCalib::Calibration *, const fs::path &);
void __wrap__ZN7McCalib11CalibrationC1ERKNSt10filesystem7__cxx114pathE(McCalib::Calibration *c, const fs::path &p) {
  if (R && !busy)
    R->cal = c;
  __real__ZN7McCalib11CalibrationC1ERKNSt10filesystem7__cxx114pathE(c, p);
}
void __real__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(
    const ceres::Solver::Options &, ceres::Problem *, ceres::Solver::Summary *);
void __wrap__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(
    const ceres::Solver::Options &o, ceres::Problem *p, ceres::Solver::Summary *s) {
  onSolve(o, p, s, [&] { __real__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(o, p, s); });
}
}

static const char *kStages[] = {"boardExtraction", "initializeCalibrationAllCam", "refineIntrinsicAndPoseAllCam",
                                "init3DObjects", "initAll3DObjectObs", "refineAllObject3D", "initCameraGroup",
                                "initAllCameraGroupObs", "estimatePoseAllObjects", "refineAllCameraGroup", "refineAllCameraGroupAndObjects",
                                "refineAllCameraGroupAndObjectsAndIntrinsic", "mergeObjects", "mergeAllObjectObs",
                                "mergeCameraGroup", "mergeAllCameraGroupObs", "saveCamerasParams",
                                "handeyeBootstrap", "handeyeDirect"};
static std::unordered_map<void *, int> gTable;
static bool gWatching = false;
static void stageEnter(const std::string &s);
static void stageExit(const std::string &s);
static void fillTable() {
  if (!gTable.empty())
    return;
  int k = 0;
  for (const char *n : kStages) {
    for (const char *pre : {"_ZN7McCalib11Calibration", "_ZNK7McCalib11Calibration"}) {
      std::string m = cat(pre, strlen(n), n, "Ev");
      if (void *p = dlsym(RTLD_DEFAULT, m.c_str()))
        gTable[p] = k;
    }
    if (!strcmp(n, "handeyeBootstrap"))
      gTable[reinterpret_cast<void *>(&McCalib::handeyeBootstraptTranslationCalibration)] = k;
    if (!strcmp(n, "handeyeDirect"))
      gTable[reinterpret_cast<void *>(&McCalib::handeyeCalibration)] = k;
    k++;
  }
}
extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *fn, void *) {
  if (!gWatching || busy)
    return;
  auto it = gTable.find(fn);
  if (it == gTable.end() || !R || !R->cal)
    return;
  busy = true;
  stageEnter(kStages[it->second]);
  busy = false;
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *fn, void *) {
  if (!gWatching || busy)
    return;
  auto it = gTable.find(fn);
  if (it == gTable.end() || !R || !R->cal || std::uncaught_exceptions())
    return;
  busy = true;
  stageExit(kStages[it->second]);
  busy = false;
}
}

// ------------------------------------------------------------ stage monitors
static std::map<int, std::set<int>> boardsSeen() {
  sc::UF u;
  std::map<std::pair<int, int>, std::vector<int>> by;
  for (auto &it : R->cal->board_observations_) {
    u.add(it.second->board_id_);
    if (it.second->valid_)
      by[{it.second->camera_id_, it.second->frame_id_}].push_back(it.second->board_id_);
  }
  for (auto &x : by)
    for (int b : x.second)
      u.join(x.second[0], b);
  return u.comps();
}
static std::map<int, int> owner(const std::map<int, std::set<int>> &p) {
  std::map<int, int> m;
  for (auto &x : p)
    for (int v : x.second)
      m[v] = x.first;
  return m;
}
static std::map<int, std::set<int>> camerasLinked(const std::map<int, std::set<int>> &objs) {
  sc::UF u;
  auto of = owner(objs);
  std::map<std::pair<int, int>, std::vector<int>> by; // frame, object -> cameras
  for (auto &it : R->cal->board_observations_) {
    auto &o = *it.second;
    if (!o.valid_)
      continue;
    u.add(o.camera_id_);
    if (of.count(o.board_id_))
      by[{o.frame_id_, of[o.board_id_]}].push_back(o.camera_id_);
  }
  for (auto &x : by)
    for (int k : x.second)
      u.join(x.second[0], k);
  return u.comps();
}
// objects after merging those one group saw in one frame
static std::map<int, std::set<int>> objectsLinked(const std::map<int, std::set<int>> &objs,
                                                  const std::map<int, std::set<int>> &grps) {
  sc::UF u;
  for (auto &o : objs)
    for (int b : o.second)
      u.join(*o.second.begin(), b);
  auto gOf = owner(grps);
  std::map<std::pair<int, int>, std::vector<int>> by;
  for (auto &it : R->cal->board_observations_) {
    auto &o = *it.second;
    if (o.valid_ && gOf.count(o.camera_id_))
      by[{gOf[o.camera_id_], o.frame_id_}].push_back(o.board_id_);
  }
  for (auto &x : by)
    for (int b : x.second)
      u.join(x.second[0], b);
  return u.comps();
}
struct GroupMerge {
  std::map<int, std::set<int>> grps;
  sc::UF must, may;
  std::map<int, int> refCam;
  std::map<int, M4> pose; // of each camera in its group before
  int calls = 0;
} static gm;
static void mergeReference() {
  Cal &cal = *R->cal;
  gm.grps = grpPart(cal);
  gm.must = sc::UF();
  gm.may = sc::UF();
  gm.refCam.clear();
  gm.pose.clear();
  for (auto &g : cal.cam_group_)
    for (auto &k : g.second->cameras_)
      gm.pose[k.first] = fromVec6(g.second->relative_camera_pose_[k.first]);
  auto gOf = owner(gm.grps), oOf = owner(objPart(cal));
  std::map<std::pair<int, int>, std::set<int>> frames; // (group, object) -> frames
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    if (o.valid_ && gOf.count(o.camera_id_) && oOf.count(o.board_id_))
      frames[{gOf[o.camera_id_], oOf[o.board_id_]}].insert(o.frame_id_);
  }
  for (auto &g : gm.grps) {
    gm.must.add(*g.second.begin());
    gm.may.add(*g.second.begin());
    gm.refCam[g.first] = cal.cam_group_[g.first]->id_ref_cam_;
    for (int k : g.second) {
      gm.must.join(*g.second.begin(), k);
      gm.may.join(*g.second.begin(), k);
    }
  }
  for (auto &a : gm.grps)
    for (auto &b : gm.grps) {
      if (a.first >= b.first)
        continue;
      int best = 0, least = 1 << 30;
      for (auto &x : frames)
        for (auto &y : frames) {
          if (x.first.first != a.first || y.first.first != b.first)
            continue;
          int n = 0;
          for (int f : x.second)
            n += y.second.count(f);
          if (n) {
            best = std::max(best, n);
            least = std::min(least, n);
          }
        }
      if (best > 3)
        gm.may.join(*a.second.begin(), *b.second.begin());
      if (best > 3 && least > 3)
        gm.must.join(*a.second.begin(), *b.second.begin());
    }
}

static void checkShapes(const std::string &stage) {
  Cal &cal = *R->cal;
  checkObjectPoints(cal, stage);
  for (auto &b : cal.boards_3d_) {
    if (b.first >= int(R->s->boards.size()))
      continue;
    auto &B = R->s->boards[b.first];
    bool ok = int(b.second->pts_3d_.size()) == B.npts();
    for (int k = 0; ok && k < B.npts(); k++)
      ok = (bpt(*b.second, k) - B.pt(k)).norm() <= 1e-6 * B.width();
    if (!ok)
      R->c->fail("R03", "shape", cat(stage, ": board ", b.first, " does not have its metric shape"));
  }
}

static double kInitRot = 0.02, kInitPos = 0.02;   // exact data, before refinement
static double kFinRot = 1e-3, kFinPos = 1e-3;     // exact data, final
static void finalState();

static void settings(const Cal &cal, const sc::Scene &S) {
  auto want = [&](const char *n, double got, double v) {
    if (!(std::fabs(got - v) <= 1e-6 * (1 + std::fabs(v))))
      R->c->fail("C01", "setting", cat(n, " is ", got, " instead of ", v));
  };
  want("number_camera", cal.nb_camera_, S.cams.size());
  want("number of boards", cal.nb_board_, S.boards.size());
  want("ransac_threshold", cal.ransac_thresh_, S.thr);
  want("number_iterations", cal.nb_iterations_, S.iters);
  want("quaternion_averaging", cal.quaternion_averaging_, S.qavg);
  want("he_approach", cal.he_approach_, S.he);
  want("fix_intrinsic", cal.fix_intrinsic_, S.fix);
  R->c->cov("settings_checked", 7);
}
static int heBoot = 0, heDirect = 0, heDirectAlone = 0, heDepth = 0;
static void handeyeStage(const std::string &s, bool enter);
static void mirrored(bool boards);
static void stageEnter(const std::string &s) {
  Cal &cal = *R->cal;
  R->stage = s;
  handeyeStage(s, true);
  if (s == "boardExtraction")
    settings(cal, *R->s);
  if (s == "init3DObjects")
    mirrored(true);
  if (s == "refineIntrinsicAndPoseAllCam")
    refineEnter('c');
  if (s == "refineAllObject3D")
    refineEnter('o');
  if (s.rfind("refineAllCameraGroup", 0) == 0)
    refineEnter('g');
  if (s == "mergeObjects") {
    R->objPart = objectsLinked(objPart(cal), grpPart(cal));
  }
  if (s == "mergeCameraGroup")
    mergeReference();
  if (s == "saveCamerasParams")
    finalState();
}
// The initial poses must agree with the truth up to the error of the pairwise
// measurements they are composed from: the worst mean deviation of a measured
// pair, for boards (from the poses of the detections) or for cameras (from the
// poses of the object observations).
static void pairErrors(bool boards, double &rot, double &pos) {
  Cal &cal = *R->cal;
  const sc::Scene &S = *R->s;
  std::map<std::pair<int, int>, std::array<double, 3>> sum;
  auto put = [&](int a, int b, const M4 &got, const M4 &want) {
    auto &s = sum[{std::min(a, b), std::max(a, b)}];
    s[0] += angleBetween(M3(got.block<3, 3>(0, 0)), M3(want.block<3, 3>(0, 0)));
    s[1] += (tr(got) - tr(want)).norm() / workDist();
    s[2] += 1;
  };
  if (boards) {
    std::map<std::pair<int, int>, std::vector<McCalib::BoardObs *>> by;
    for (auto &it : cal.board_observations_)
      if (it.second->valid_)
        by[{it.second->camera_id_, it.second->frame_id_}].push_back(it.second.get());
    for (auto &x : by)
      for (auto *a : x.second)
        for (auto *b : x.second)
          if (a != b)
            put(a->board_id_, b->board_id_, inv(fromVec6(a->pose_)) * fromVec6(b->pose_), S.boardRel(b->board_id_, a->board_id_));
  } else {
    std::map<std::pair<int, int>, std::vector<McCalib::Object3DObs *>> by;
    for (auto &it : cal.object_observations_)
      by[{it.second->object_3d_id_, it.second->frame_id_}].push_back(it.second.get());
    for (auto &x : by)
      for (auto *a : x.second)
        for (auto *b : x.second)
          if (a != b)
            put(a->camera_id_, b->camera_id_, fromVec6(b->pose_) * inv(fromVec6(a->pose_)), S.camRel(b->camera_id_, a->camera_id_));
  }
  rot = pos = 0;
  for (auto &s : sum) {
    rot = std::max(rot, s.second[0] / s.second[2]);
    pos = std::max(pos, s.second[1] / s.second[2]);
  }
}
static void initPoses(const std::string &s, bool boards, bool handeye, const std::set<int> *only = nullptr) {
  if (!R->truth)
    return;
  double rot = kInitRot, pos = kInitPos;
  if (handeye && !R->s->nonoverlap)
    return; // nothing was composed
  if (handeye) {
    double k = R->exact && R->s->precal && R->s->fix ? 1.5 : 5;
    rot *= k;
    pos *= k;
  } else {
    double r, p;
    pairErrors(boards, r, p);
    size_t hops = (boards ? R->s->boards.size() : R->s->cams.size()) - 1;
    rot += 1.5 * hops * r;
    pos += 1.5 * hops * (p + 1.5 * r);
    R->c->covmax("max_pair_error_urad", long(1e6 * r));
  }
  if (boards)
    checkBoardPoses(*R->cal, "R04", s, rot, pos);
  else
    checkCamPoses(*R->cal, "R04", s, rot, pos, only);
}
// Each averaged link against the average of its measures, taken from the poses
// they are measured with.
static void pairAverages(bool boards) {
  Cal &cal = *R->cal;
  std::map<std::pair<int, int>, std::vector<M4>> want;
  if (boards) {
    std::map<std::pair<int, int>, std::vector<McCalib::BoardObs *>> by;
    for (auto &it : cal.board_observations_)
      if (it.second->valid_)
        by[{it.second->camera_id_, it.second->frame_id_}].push_back(it.second.get());
    for (auto &x : by)
      for (auto *a : x.second)
        for (auto *b : x.second)
          if (a->board_id_ != b->board_id_)
            want[{a->board_id_, b->board_id_}].push_back(inv(fromVec6(b->pose_)) * fromVec6(a->pose_));
  } else {
    std::map<std::pair<int, int>, std::vector<McCalib::Object3DObs *>> by;
    for (auto &it : cal.object_observations_)
      by[{it.second->object_3d_id_, it.second->frame_id_}].push_back(it.second.get());
    for (auto &x : by)
      for (auto *a : x.second)
        for (auto *b : x.second)
          if (a->camera_id_ != b->camera_id_)
            want[{a->camera_id_, b->camera_id_}].push_back(fromVec6(b->pose_) * inv(fromVec6(a->pose_)));
  }
  auto &got = boards ? cal.inter_board_transform_ : cal.inter_camera_transform_;
  const char *what = boards ? "boards " : "cameras ";
  for (auto &x : want) {
    std::string name = cat(what, x.first.first, " -> ", x.first.second, " (", x.second.size(), " measures)");
    auto it = got.find(x.first);
    if (it == got.end()) {
      R->c->fail("R04", "pair", "no averaged link for " + name);
      continue;
    }
    M4 g = fromCv(it->second);
    std::vector<M3> rs;
    std::vector<double> t[3], w[3];
    bool plain = true, halfTurn = false;
    for (auto &m : x.second) {
      rs.push_back(M3(m.block<3, 3>(0, 0)));
      V3 v = logm(rs.back());
      plain &= v.norm() < 3.0;
      halfTurn |= v.norm() > M_PI - 3e-5;
      for (int k = 0; k < 3; k++) {
        w[k].push_back(v[k]);
        t[k].push_back(m(k, 3));
      }
    }
    auto med = [](std::vector<double> v) {
      std::sort(v.begin(), v.end());
      size_t n = v.size();
      return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
    };
    V3 mt(med(t[0]), med(t[1]), med(t[2]));
    if (!((tr(g) - mt).norm() <= 1e-7 * (mt.norm() + workDist())))
      R->c->fail("R04", "pair", cat("position of ", name, " is not the median of its measures, off by ", (tr(g) - mt).norm() / workDist()));
    double gap;
    M3 mean = chordalMean(rs, &gap);
    if (R->s->qavg ? gap < 0.02 : !plain)
      continue;
    M3 mr = R->s->qavg ? mean : expm(V3(med(w[0]), med(w[1]), med(w[2])));
    // within 1e-5 of a half turn OpenCV's matrix -> vector conversion can turn
    // the small components of the axis round
    halfTurn |= logm(mr).norm() > M_PI - 3e-5;
    if (halfTurn)
      continue;
    double e = angleBetween(rot(g), mr);
    if (!(e <= 3e-5)) {
      R->c->fail("R04", "pair", cat("rotation of ", name, " is not the average of its measures, off by ", e, " rad"));
      R->c->fail("C01", "averaging", cat("rotation of ", name, " is not the ", R->s->qavg ? "quaternion mean" : "median", " of its measures, off by ", e, " rad"));
    }
    R->c->cov("averaged_links_checked");
    R->c->covmax("max_measures_of_a_link", long(rs.size()));
    R->c->covmax("max_gap_between_mean_and_median_urad", long(1e6 * angleBetween(mean, expm(V3(med(w[0]), med(w[1]), med(w[2]))))));
  }
  for (auto &x : got)
    if (!want.count(x.first))
      R->c->fail("R04", "pair", cat("an averaged link for ", what, x.first.first, " -> ", x.first.second, ", never seen together"));
}
// A view of one plane whose mirrored pose fits as well: whichever the pose
// estimate took, what is built on the other one is not judged by the truth.
static void mirrored(bool boards) {
  Cal &cal = *R->cal;
  const sc::Scene &S = *R->s;
  if (!R->truth)
    return;
  auto wrong = [&](int c, int f, int b, const std::vector<int> &ids, const M4 &got) {
    M4 want = S.boardInCam(c, f, b);
    if (angleBetween(M3(got.block<3, 3>(0, 0)), M3(want.block<3, 3>(0, 0))) < sc::deg(2.5))
      return false;
    sc::Det d;
    d.c = c, d.f = f, d.b = b, d.ids = ids;
    return sc::ambiguous(S, d);
  };
  int n = 0;
  std::set<std::tuple<int, int, int>> bad; // never to be right
  for (auto &d : S.dets)
    if (d.badView)
      bad.insert({d.c, d.f, d.b});
  if (boards)
    for (auto &it : cal.board_observations_)
      n += it.second->valid_ && !bad.count({it.second->camera_id_, it.second->frame_id_, it.second->board_id_}) && wrong(it.second->camera_id_, it.second->frame_id_, it.second->board_id_, it.second->charuco_id_,
                 fromVec6(it.second->pose_));
  else
    for (auto &it : cal.object_observations_) {
      auto &o = *it.second;
      auto &ob = *cal.object_3d_.at(o.object_3d_id_);
      std::set<int> bs;
      std::vector<int> ids;
      for (int k : o.pts_id_) {
        auto q = ob.pts_obj_2_board_.at(k);
        bs.insert(q.first);
        ids.push_back(q.second);
      }
      if (bs.size() == 1 && !bad.count({o.camera_id_, o.frame_id_, *bs.begin()}))
        n += wrong(o.camera_id_, o.frame_id_, *bs.begin(), ids, fromVec6(o.pose_) * fromVec6(ob.relative_board_pose_[*bs.begin()]));
    }
  if (n) {
    R->truth = R->exact = false;
    R->c->cov("runs_with_mirrored_views");
  }
}
// which hand-eye method ran
static void handeyeStage(const std::string &s, bool enter) {
  bool boot = s == "handeyeBootstrap", direct = s == "handeyeDirect";
  if (boot) {
    heBoot += enter;
    heDepth += enter ? 1 : -1;
  }
  if (direct && enter) {
    heDirect++;
    heDirectAlone += heDepth == 0;
  }
}
static void stageExit(const std::string &s) {
  Cal &cal = *R->cal;
  handeyeStage(s, false);
  vh::Ctx &c = *R->c;
  const sc::Scene &S = *R->s;
  c.cov("stages_observed");
  if (s == "boardExtraction")
    checkRegistered(cal, S.dets, c, [&](int k, int f) { return sc::imgPath(S, k, f); });
  if (s == "initializeCalibrationAllCam" && S.precal)
    for (auto &k : R->supplied) {
      Cam a = camOf(*cal.cams_.at(k.first)), b = k.second;
      bool same = a.fx == b.fx && a.fy == b.fy && a.cx == b.cx && a.cy == b.cy;
      for (int i = 0; i < (b.model == 0 ? 5 : 4); i++)
        same &= a.d[i] == b.d[i];
      if (!same)
        c.fail("O02", "start", cat("camera ", k.first, " does not start from the supplied intrinsics"));
      c.cov("supplied_intrinsics_checked");
    }
  if (s == "refineIntrinsicAndPoseAllCam") {
    refineExit('c');
  }
  if (s == "init3DObjects") {
    checkObjects(cal, boardsSeen(), s);
    checkShapes(s);
    pairAverages(true);
    initPoses(s, true, false);
  }
  if (s == "initAll3DObjectObs" || s == "mergeAllObjectObs")
    checkObjectObs(cal, false, s, c);
  if (s == "estimatePoseAllObjects")
    mirrored(false);
  if (s == "initAllCameraGroupObs" || s == "mergeAllCameraGroupObs")
    checkObjectObs(cal, true, s, c);
  if (s == "refineAllObject3D") {
    refineExit('o');
    checkShapes(s);
    if (R->exact)
      checkBoardPoses(cal, "R03", s, 2e-2, 2e-2);
  }
  if (s == "initCameraGroup") {
    auto want = camerasLinked(objPart(cal));
    checkGroups(cal, &want, s);
    for (auto &g : cal.cam_group_)
      if (!g.second->cameras_.empty() && g.second->id_ref_cam_ != g.second->cameras_.begin()->first)
        c.fail("S01", "ref_camera", cat(s, ": group ", g.first, " has reference camera ", g.second->id_ref_cam_));
    pairAverages(false);
    initPoses(s, false, false);
  }
  if (s.rfind("refineAllCameraGroup", 0) == 0) {
    refineExit('g');
    checkShapes(s);
  }
  if (s == "mergeObjects") {
    checkObjects(cal, R->objPart, s);
    checkShapes(s);
    initPoses(s, true, true);
  }
  if (s == "mergeCameraGroup") {
    checkGroups(cal, nullptr, s);
    auto got = grpPart(cal);
    auto of = owner(got);
    bool first = gm.calls++ == 0;
    sc::UF lo;
    for (auto &g : gm.grps)
      for (int k : g.second)
        lo.join(*g.second.begin(), k);
    auto musts = first ? gm.must.comps() : lo.comps();
    for (auto &m : musts) {
      std::set<int> in;
      for (int k : m.second)
        in.insert(of.count(k) ? of[k] : -1);
      if (in.size() != 1 || in.count(-1))
        c.fail("S01", "groups", cat(s, ": cameras ", show({{0, m.second}}), " belong together but are in ", show(got)));
    }
    auto mays = owner(gm.may.comps());
    for (auto &g : got) {
      std::set<int> in;
      for (int k : g.second)
        in.insert(mays.count(k) ? mays[k] : -1);
      if (in.size() != 1)
        c.fail("S01", "groups", cat(s, ": cameras ", show({{0, g.second}}), " were merged without enough shared frames"));
      // reference: that of the lowest-numbered original group
      auto gOf = owner(gm.grps);
      int low = 1 << 30;
      for (int k : g.second)
        if (gOf.count(k))
          low = std::min(low, gOf[k]);
      if (low < (1 << 30) && cal.cam_group_[g.first]->id_ref_cam_ != gm.refCam[low])
        c.fail("S01", "ref_camera", cat(s, ": merged group ", g.first, " has reference camera ", cal.cam_group_[g.first]->id_ref_cam_,
                                        " instead of ", gm.refCam[low]));
    }
    // A merged group: the cameras of each original group keep their places in
    // it, and those of the reference group do not move at all.
    auto gOf = owner(gm.grps);
    std::set<int> composed;
    for (auto &g : got) {
      std::map<int, int> lead;
      for (int k : g.second) {
        if (!gOf.count(k))
          continue;
        auto &G = *cal.cam_group_[g.first];
        int f = lead.emplace(gOf[k], k).first->second;
        M4 was = gm.pose[k] * inv(gm.pose[f]);
        M4 is = fromVec6(G.relative_camera_pose_[k]) * inv(fromVec6(G.relative_camera_pose_[f]));
        std::string why;
        if (!poseNear(is, was, 1e-6, 1e-6, why))
          c.fail("R04", "merge_rigid", cat(s, ": cameras ", f, " and ", k, " moved in their group: ", why));
      }
      if (lead.size() > 1)
        composed.insert(g.first);
      else
        for (int k : g.second) {
          std::string why;
          if (!poseNear(fromVec6(cal.cam_group_[g.first]->relative_camera_pose_[k]), gm.pose[k], 1e-6, 1e-6, why))
            c.fail("R04", "merge_rigid", cat(s, ": camera ", k, " of an unmerged group moved: ", why));
        }
    }
    if (first)
      initPoses(s, false, true, &composed);
  }
}

// ---------------------------------------------------------------- final state
// How far two models are apart over what the camera saw, once the best turn of
// the camera is taken out (centre and direction trade off under noise).
static double intrinsicGap(const Cam &a, const Cam &t, int cam, double *mean) {
  std::vector<V3> P;
  for (auto &d : R->s->dets) {
    if (d.c != cam)
      continue;
    M4 T = R->s->boardInCam(d.c, d.f, d.b);
    for (int k : d.ids)
      P.push_back(app(T, R->s->boards[d.b].pt(k)));
  }
  V3 w(0, 0, 0);
  auto diff = [&](const V3 &q, const V3 &v) {
    V2 x, y;
    a.project(expm(v) * q, x);
    t.project(q, y);
    return V2(x - y);
  };
  for (int it = 0; it < 4; it++) {
    M3 H = M3::Zero();
    V3 g = V3::Zero();
    for (auto &q : P) {
      V2 e = diff(q, w);
      Eigen::Matrix<double, 2, 3> J;
      for (int k = 0; k < 3; k++) {
        V3 h = w;
        h[k] += 1e-6;
        J.col(k) = (diff(q, h) - e) / 1e-6;
      }
      H += J.transpose() * J;
      g += J.transpose() * e;
    }
    w -= H.ldlt().solve(g);
  }
  double worst = 0, sum = 0;
  for (auto &q : P) {
    double e = diff(q, w).norm();
    worst = std::max(worst, e);
    sum += e;
  }
  if (mean)
    *mean = P.empty() ? 0 : sum / P.size();
  return worst;
}
static void spoilt();
static void finalState() {
  Cal &cal = *R->cal;
  const sc::Scene &S = *R->s;
  vh::Ctx &c = *R->c;
  Final &F = R->fin;
  F = Final();
  for (auto &g : cal.cam_group_)
    for (auto &k : g.second->cameras_) {
      auto p = k.second.lock();
      if (p)
        F.cams[k.first] = {camOf(*p), g.first, fromVec6(g.second->relative_camera_pose_[k.first])};
    }
  for (auto &k : cal.cams_)
    F.size[k.first] = {k.second->im_cols_, k.second->im_rows_};
  for (auto &o : cal.object_3d_) {
    FObj x;
    x.refBoard = o.second->ref_board_id_;
    for (auto &b : o.second->boards_) {
      x.boards[b.first] = fromVec6(o.second->relative_board_pose_[b.first]);
      auto B = b.second.lock();
      for (size_t k = 0; B && k < B->pts_3d_.size(); k++) {
        V3 q = app(x.boards[b.first], bpt(*B, int(k)));
        x.pts.push_back({q.x(), q.y(), q.z(), double(b.first), double(k)});
      }
    }
    F.objs[o.first] = x;
  }
  double sum = 0;
  for (auto &it : cal.object_observations_) {
    auto &o = *it.second;
    FObs x{o.object_3d_id_, groupOf(cal, o.camera_id_), o.camera_id_, o.frame_id_, M4::Identity(), {}};
    auto go = cal.cams_group_obs_.find({x.group, o.frame_id_});
    if (go == cal.cams_group_obs_.end() || !F.cams.count(o.camera_id_) || !go->second->object_pose_.count(x.obj))
      continue;
    x.pose = fromVec6(go->second->object_pose_[x.obj]);
    double m = 0;
    for (size_t k = 0; k < o.pts_id_.size(); k++) {
      auto q = cal.object_3d_[x.obj]->pts_obj_2_board_.at(o.pts_id_[k]);
      M4 T = F.cams[x.c].pose * x.pose * F.objs[x.obj].boards[q.first];
      V2 uv;
      F.cams[x.c].cam.project(app(T, bpt(*cal.boards_3d_[q.first], q.second)), uv);
      x.err.push_back((uv - V2(o.pts_2d_[k].x, o.pts_2d_[k].y)).norm());
      if (R->shots)
        R->marks[{x.c, x.f}].push_back({V2(o.pts_2d_[k].x, o.pts_2d_[k].y), uv, cal.object_3d_[x.obj]->color_});
      m += x.err.back();
    }
    sum += m / x.err.size();
    F.obs.push_back(x);
  }
  F.avgRef = sum / F.obs.size();
  F.avg = cal.computeAvgReprojectionError();
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    std::string p;
    auto f = cal.frames_.find(o.frame_id_);
    if (f != cal.frames_.end() && f->second->frame_path_.count(o.camera_id_))
      p = f->second->frame_path_[o.camera_id_].string();
    FDet x{o.camera_id_, o.frame_id_, o.board_id_, o.pts_2d_, o.charuco_id_, p, o.valid_, 0};
    auto go = cal.cams_group_obs_.find({groupOf(cal, o.camera_id_), o.frame_id_});
    for (auto &ob : F.objs)
      if (ob.second.boards.count(o.board_id_) && go != cal.cams_group_obs_.end() && go->second->object_pose_.count(ob.first) &&
          F.cams.count(o.camera_id_)) {
        M4 T = F.cams[o.camera_id_].pose * fromVec6(go->second->object_pose_[ob.first]) * ob.second.boards[o.board_id_];
        for (size_t k = 0; k < o.charuco_id_.size(); k++) {
          V2 uv;
          F.cams[o.camera_id_].cam.project(app(T, bpt(*cal.boards_3d_[o.board_id_], o.charuco_id_[k])), uv);
          x.err += (uv - V2(o.pts_2d_[k].x, o.pts_2d_[k].y)).norm() / o.charuco_id_.size();
        }
      }
    F.dets.push_back(x);
  }
  F.ok = true;
  if (!(std::fabs(F.avg - F.avgRef) <= 2e-3 + 1e-3 * F.avgRef))
    c.fail("F03", "average", cat("average reprojection error reported ", F.avg, ", real ", F.avgRef));
  c.cov("averages_checked");

  // ---- structure
  if (R->strict) {
    std::set<int> seen;
    for (auto &d : S.dets)
      seen.insert(d.c);
    std::set<int> in;
    for (auto &k : F.cams)
      in.insert(k.first);
    if (seen != in)
      c.fail("R01", "lost_camera", cat(in.size(), " cameras calibrated, ", seen.size(), " saw boards"));
    std::set<int> groups;
    for (auto &k : F.cams)
      groups.insert(k.second.group);
    bool one = S.kind == "row" || S.kind == "ring" || S.kind == "tree" || S.kind == "mono" || S.kind == "thin" || S.kind == "big";
    bool merged = S.kind == "nonov" || S.kind == "nochain";
    if (one && groups.size() != 1 && camerasLinked(boardsSeen()).size() == 1)
      c.fail("R01", "groups", cat("a linked rig ended in ", groups.size(), " groups"));
    if (merged && groups.size() != 1)
      c.fail("R02", "groups", cat("groups moving together ended as ", groups.size(), " groups"));
    auto part = [&](int cam) { // expected block of a camera
      int g = S.cams[cam].group;
      return S.apart < 0 ? g : int(g == S.apart);
    };
    if (S.kind == "nofew" || S.kind == "split" || S.kind == "partial") {
      for (auto &a : F.cams)
        for (auto &b : F.cams)
          if ((a.second.group == b.second.group) != (part(a.first) == part(b.first)))
            c.fail("R02", "separate", cat("cameras ", a.first, " and ", b.first, " share too few frames but ",
                                          a.second.group == b.second.group ? "were merged" : "were split"));
    }
    if (one)
      for (auto &k : F.cams)
        if (k.second.group == F.cams.begin()->second.group &&
            cal.cam_group_[k.second.group]->id_ref_cam_ != F.cams.begin()->first)
          c.fail("R01", "reference", "the frame of the rig is not that of its lowest-numbered camera");
    c.cov("final_structures");
    c.sig(cat("final ", S.kind, groups.size(), cal.object_3d_.size(), F.cams.size(), S.boards.size(), S.qavg, S.he));
  }
  if (R->spoilt)
    spoilt();
  if (!R->truth)
    return;
  // ---- accuracy
  bool tight = R->exact;
  double nz = S.sigma;
  // free intrinsics: the refinements stop at a relative cost change of 1e-6, up
  // to some hundredths of a pixel away from the exact solution
  bool fixed = S.precal && S.fix;
  double rot = !tight ? 0.01 + 0.06 * nz : fixed ? kFinRot : 4e-3;
  double pos = !tight ? 0.01 + 0.06 * nz : fixed ? kFinPos : 1.2e-2;
  double pix = !tight ? 1.5 + 6 * nz : fixed ? 1e-6 : 0.8;
  if (S.nonoverlap && !tight)
    rot *= 3, pos *= 4;
  std::string P = S.nonoverlap ? "R02" : "R01";
  checkCamPoses(cal, P, "final", rot, pos);
  checkBoardPoses(cal, "R03", "final", rot, pos);
  checkShapes("final");
  for (auto &k : F.cams) {
    double mean, g = intrinsicGap(k.second.cam, S.cams[k.first].cam, k.first, &mean);
    if (!(mean <= pix) || (tight && !(g <= 8 * pix)))
      c.fail("R01", "intrinsics", cat("camera ", k.first, " model ", k.second.cam.model, ": off by ", g, " px, mean ", mean));
    c.covmax(tight ? fixed ? "max_intrinsic_gap_fixed_upx" : "max_intrinsic_gap_exact_upx" : "max_intrinsic_gap_upx", long(1e6 * mean));
    c.cov("intrinsics_checked");
  }
  for (auto &g : cal.cam_group_)
    for (auto &k : g.second->cameras_) {
      M4 a = fromVec6(g.second->relative_camera_pose_[k.first]), b = S.camRel(k.first, g.second->id_ref_cam_);
      c.covmax(tight ? fixed ? "max_camera_fixed_urad" : "max_camera_exact_urad" : "max_camera_urad", long(1e6 * angleBetween(M3(a.block<3, 3>(0, 0)), M3(b.block<3, 3>(0, 0)))));
      c.covmax(tight ? fixed ? "max_camera_fixed_ppm" : "max_camera_exact_ppm" : "max_camera_ppm", long(1e6 * (tr(a) - tr(b)).norm() / workDist()));
    }
  if (tight && !(F.avgRef < (fixed ? 0.005 : 0.06)))
    c.fail(P, "residual", cat("mean reprojection error ", F.avgRef, " px on noise-free data"));
  if (!tight && !(F.avgRef < 0.1 + 2.5 * nz))
    c.fail(P, "residual", cat("mean reprojection error ", F.avgRef, " px with noise ", nz));
}

// E01: what was wrong in the detections is gone or outweighed
// errors of the runs with wrong views: cameras, boards
static std::vector<std::array<double, 4>> gSpoilt;
static void spoilt() {
  Cal &cal = *R->cal;
  const sc::Scene &S = *R->s;
  vh::Ctx &c = *R->c;
  std::map<std::tuple<int, int, int>, const McCalib::BoardObs *> have;
  for (auto &o : cal.board_observations_)
    have[{o.second->camera_id_, o.second->frame_id_, o.second->board_id_}] = o.second.get();
  std::map<std::tuple<int, int, int>, std::set<int>> used; // corners in object observations
  for (auto &it : cal.object_observations_)
    for (int k : it.second->pts_id_) {
      auto q = cal.object_3d_.at(it.second->object_3d_id_)->pts_obj_2_board_.at(k);
      used[{it.second->camera_id_, it.second->frame_id_, q.first}].insert(q.second);
    }
  for (auto &o : cal.board_observations_)
    if (!o.second->valid_) {
      c.cov("views_without_pose");
      if (used.count({o.second->camera_id_, o.second->frame_id_, o.second->board_id_}))
        c.fail("E01", "no_pose", cat("the view of board ", o.second->board_id_, " by camera ", o.second->camera_id_, " in frame ", o.second->frame_id_, " has no pose but is used"));
    }
  long good = 0, goodKept = 0, bad = 0, badKept = 0, badUsed = 0, goodUsed = 0, wrongViews = 0, wrongCorners = 0;
  for (auto &d : S.dets) {
    std::tuple<int, int, int> key{d.c, d.f, d.b};
    std::set<int> kept;
    if (have.count(key))
      kept.insert(have[key]->charuco_id_.begin(), have[key]->charuco_id_.end());
    if (d.badView) {
      wrongViews++;
      wrongCorners += long(kept.size());
      continue;
    }
    for (size_t j = 0; j < d.ids.size(); j++) {
      bool k = kept.count(d.ids[j]), u = used[key].count(d.ids[j]);
      (d.bad[j] ? bad : good)++;
      (d.bad[j] ? badKept : goodKept) += k;
      (d.bad[j] ? badUsed : goodUsed) += u;
    }
  }
  c.cov("good_corners", good);
  c.cov("good_corners_dropped", good - goodKept);
  c.cov("good_corners_unused", good - goodUsed);
  c.cov("bad_corners", bad);
  c.cov("bad_corners_kept", badKept);
  c.cov("bad_corners_used", badUsed);
  c.cov("wrong_views", wrongViews);
  c.cov("wrong_view_corners_kept", wrongCorners);
  double rot = 0, pos = 0, pix = 0;
  for (auto &g : cal.cam_group_)
    for (auto &k : g.second->cameras_) {
      M4 a = fromVec6(g.second->relative_camera_pose_[k.first]), b = S.camRel(k.first, g.second->id_ref_cam_);
      rot = std::max(rot, angleBetween(M3(a.block<3, 3>(0, 0)), M3(b.block<3, 3>(0, 0))));
      pos = std::max(pos, (tr(a) - tr(b)).norm() / workDist());
    }
  double brot = 0, bpos = 0;
  for (auto &o : cal.object_3d_)
    for (auto &b : o.second->boards_) {
      M4 a = fromVec6(o.second->relative_board_pose_[b.first]), w = S.boardRel(b.first, o.second->ref_board_id_);
      brot = std::max(brot, angleBetween(M3(a.block<3, 3>(0, 0)), M3(w.block<3, 3>(0, 0))));
      bpos = std::max(bpos, (tr(a) - tr(w)).norm() / workDist());
    }
  for (auto &k : R->fin.cams) {
    double mean;
    intrinsicGap(k.second.cam, S.cams[k.first].cam, k.first, &mean);
    pix = std::max(pix, mean);
  }
  if (badKept > 4 + 0.02 * bad || badUsed > badKept) // some may be taken in with a chance model
    c.fail("E01", "misplaced", cat(badKept, " corners many times the threshold off are still in their views, ", badUsed, " in the objects' observations, of ", bad));
  // intrinsics off by one percent may put corners beyond the threshold
  if (!(good - goodKept <= 2 + (S.fix ? 0.02 : 0.2) * good))
    c.fail("E01", "dropped", cat(good - goodKept, " of ", good, " right corners were dropped with the wrong ones"));
  if (good - goodUsed > good - goodKept)
    c.fail("E01", "dropped", cat(goodKept - goodUsed, " right corners of usable views are in no object observation"));
  if (getenv("VH_SPOIL"))
    fprintf(stderr, "SPOIL %d rot %g pos %g brot %g bpos %g pix %g kept %ld/%ld bad %ld/%ld used %ld wrong %ld:%ld exact %d mirrored %ld fix %d thr %g\n", c.idx, rot, pos, brot, bpos, pix, goodKept, good, badKept, bad, badUsed, wrongViews, wrongCorners, S.sigma == 0, c.covs["runs_with_mirrored_views"], int(S.fix), S.thr);
  if (!R->truth)
    return;
  if (wrongViews) { // see outweighed()
    gSpoilt.push_back({rot, pos, brot, bpos});
    c.cov("runs_with_wrong_views");
    return;
  }
  if (badKept)
    return;
  double nz = S.sigma, lr, lp, lx;
  if (R->exact && S.fix)
    lr = kFinRot, lp = kFinPos, lx = 1e-6;
  else if (R->exact)
    lr = 4e-3, lp = 1.2e-2, lx = 0.8;
  else
    lr = lp = 0.01 + 0.06 * nz, lx = S.fix ? 1e-6 : 1.5 + 6 * nz;
  std::string cls = cat("wrong_corners", R->exact ? "_exact" : "_noisy", S.fix ? "_fixed" : "");
  c.covmax("max_camera_urad_" + cls, long(1e6 * rot));
  c.covmax("max_board_urad_" + cls, long(1e6 * brot));
  c.covmax("max_intrinsic_gap_upx_" + cls, long(1e6 * pix));
  c.cov("runs_with_" + cls);
  if (!(rot <= lr && pos <= lp))
    c.fail("E01", "cameras", cat("a camera pose is off by ", rot, " rad and ", pos, " of the working distance with ", bad, " wrong corners and ", good, " right ones"));
  if (!(brot <= lr && bpos <= lp))
    c.fail("E01", "boards", cat("a board pose is off by ", brot, " rad and ", bpos, " of the working distance with ", bad, " wrong corners and ", good, " right ones"));
  if (!(pix <= lx))
    c.fail("E01", "intrinsics", cat("intrinsics off by ", pix, " px on average with ", bad, " wrong corners and ", good, " right ones"));
  c.sig(cat("spoilt ", S.kind, " ", S.cams.size(), S.boards.size(), cls, S.qavg, S.thr, badKept, bad > 0));
}
// ------------------------------------------------------------------- a run
struct RunOpt {
  bool strict = true, truth = true, spoilt = false, shots = false;
};
static bool wellPosed(const sc::Scene &S, bool forExact) {
  std::map<int, std::set<int>> views;
  std::map<int, int> nv;
  for (auto &d : S.dets) {
    views[d.c].insert(d.f);
    nv[d.c]++;
  }
  for (size_t c = 0; c < S.cams.size(); c++)
    if (!S.precal && nv[int(c)] < (forExact ? 10 : 6))
      return false;
  return true;
}
static void runScene(vh::Ctx &c, sc::Scene &S, RunOpt o = {}) {
  static int serial = 0;
  std::string dir = cat(std::filesystem::current_path().string(), "/w", getpid(), "_", serial++);
  std::filesystem::create_directories(dir);
  struct Rm {
    std::string d;
    ~Rm() {
      gWatching = false;
      busy = false;
      R = nullptr;
      std::error_code e;
      std::filesystem::remove_all(d, e);
    }
  } rm{dir};
  Run run;
  run.c = &c;
  run.s = &S;
  run.strict = o.strict;
  run.spoilt = o.spoilt;
  run.truth = o.truth && wellPosed(S, false);
  run.exact = run.truth && S.sigma == 0 && wellPosed(S, true);
  std::string save = dir + "/out", kp = dir + "/kp.yml", cp = dir + "/cams.yml", cfg = dir + "/cfg.yml";
  R = &run;
  if (o.shots) {
    S.root = dir + "/in";
    paintShots(S, c.rng);
  }
  sc::writeKeypoints(S, kp);
  for (size_t k = 0; k < S.cams.size(); k++)
    run.supplied[int(k)] = S.cams[k].cam;
  if (S.precal && !S.fix)
    for (auto &k : run.supplied) {
      k.second.fx *= c.rng.u(0.99, 1.01);
      k.second.fy *= c.rng.u(0.99, 1.01);
    }
  sc::Scene P = S;
  for (size_t k = 0; k < S.cams.size(); k++)
    P.cams[k].cam = run.supplied[int(k)];
  sc::writeCamParams(P, cp);
  sc::writeConfig(S, cfg, save, kp, cp);
  gm = GroupMerge();
  heBoot = heDirect = heDirectAlone = heDepth = 0;
  fillTable();
  R = &run;
  std::string a0 = "calibrate";
  char *argv[] = {&a0[0], &cfg[0], nullptr};
  gWatching = true;
  int rc = calibrate_app_main(2, argv);
  gWatching = false;
  run.cal = nullptr;
  busy = true;
  if (rc != 0)
    c.fail("R01", "exit", cat("calibrate returned ", rc));
  if (run.fin.ok) {
    checkFiles(dir, save, 0);
    checkShots(save);
  } else
    c.fail("R01", "unfinished", "the calibration never saved its cameras");
  if (heBoot + heDirect > 0) {
    if (S.he == 0 ? heBoot == 0 || heDirectAlone > 0 : heBoot > 0 || heDirect == 0)
      c.fail("C01", "he_approach", cat("he_approach ", S.he, ": ", heBoot, " bootstraps and ", heDirectAlone, " direct estimations"));
    c.cov(S.he ? "runs_with_direct_handeye" : "runs_with_bootstrapped_handeye");
  }
  c.cov("calibrations");
  c.cov("detections_fed", long(S.dets.size()));
  c.sig(cat("run ", S.kind, " ", S.cams.size(), S.boards.size(), S.precal, S.fix, S.qavg, S.he, S.sigma > 0, S.perCamModel, S.perBoard, S.useIndex));
}
static std::string descOf(const sc::Scene &S) {
  std::string m;
  for (auto &k : S.cams)
    m += k.cam.model ? 'F' : 'P';
  return cat(S.kind, " cams ", m, " boards ", S.boards.size(), " dets ", S.dets.size(), " frames ", S.T_RW.size(), " scale ", S.S,
             " sigma ", S.sigma, " qavg ", S.qavg, " he ", S.he, " precal ", S.precal, " fix ", S.fix, " thr ", S.thr);
}
// Whether the views of a fisheye camera suit OpenCV's own calibration, which
// the tool starts from and which gives up on some of them.
static bool fisheyeCalibrates(const sc::Scene &S, int cam) {
  std::vector<std::vector<cv::Point3f>> op;
  std::vector<std::vector<cv::Point2f>> ip;
  const Cam &C = S.cams[cam].cam;
  for (auto &d : S.dets) {
    if (d.c != cam)
      continue;
    bool in = true;
    std::vector<cv::Point3f> o;
    for (size_t k = 0; k < d.ids.size(); k++) {
      V3 p = S.boards[d.b].pt(d.ids[k]);
      o.push_back(cv::Point3f(float(p.x()), float(p.y()), 0));
      auto &q = d.pts[k];
      in &= q.x > 0.05f * C.w && q.x < 0.95f * C.w && q.y > 0.05f * C.h && q.y < 0.95f * C.h;
    }
    if (in) {
      op.push_back(o);
      ip.push_back(d.pts);
    }
  }
  if (op.size() < 6)
    return false;
  try {
    cv::Mat K, D;
    std::vector<cv::Mat> r, t;
    double e = cv::fisheye::calibrate(op, ip, cv::Size(C.w, C.h), K, D, r, t,
                                      cv::fisheye::CALIB_RECOMPUTE_EXTRINSIC | cv::fisheye::CALIB_FIX_SKEW);
    return e < 0.2 + 3 * S.sigma && std::fabs(K.at<double>(0, 0) / C.fx - 1) < 0.05;
  } catch (const cv::Exception &) {
    return false;
  }
}
static void settle(vh::Ctx &c, sc::Scene &S) {
  if (S.precal)
    return;
  for (size_t k = 0; k < S.cams.size(); k++)
    if (S.cams[k].cam.model == 1 && !fisheyeCalibrates(S, int(k))) {
      S.precal = true;
      S.fix = c.rng.p(0.5);
      c.cov("intrinsics_supplied_instead");
      return;
    }
}
static bool allUsed(const sc::Scene &S) {
  std::map<int, int> n;
  for (auto &d : S.dets)
    n[d.c]++;
  return n.size() == S.cams.size();
}

// F04: pictures behind the detections, some corners off enough for two marks
SUITE(shots) {
  static const char *kinds[] = {"row", "nonov", "tree", "partial", "mono", "split", "ring", "nofew"};
  sc::GenOpt o;
  o.kind = kinds[c.idx % 8];
  o.small = true;
  o.nc = c.rng.i(2, 4);
  sc::Scene S = sc::generate(c.rng, o);
  S.precal = true;
  S.fix = c.rng.p(0.7);
  S.iters = 50;
  S.thr = 14;
  S.saveDet = c.rng.p(0.75);
  S.saveRep = c.rng.p(0.75);
  for (auto &d : S.dets)
    for (auto &p : d.pts)
      if (c.rng.p(0.1)) {
        double a = c.rng.u(0, 2 * M_PI), l = c.rng.u(9.5, 13.5);
        p += cv::Point2f(float(l * std::cos(a)), float(l * std::sin(a)));
      }
  c.desc = descOf(S);
  RunOpt ro;
  ro.truth = ro.strict = false;
  ro.shots = true;
  runScene(c, S, ro);
}

SUITE(rig) {
  static const char *kinds[] = {"row", "tree", "ring", "mono", "row", "tree", "ring"};
  sc::GenOpt o;
  o.kind = kinds[c.idx % 7];
  sc::Scene S;
  for (int t = 0; t < 5; t++) {
    S = sc::generate(c.rng, o);
    if (allUsed(S))
      break;
  }
  settle(c, S);
  S.camFile = c.rng.p(0.3) ? "my_cameras.yml" : "";
  c.desc = descOf(S);
  if (!allUsed(S)) {
    c.cov("scenes_skipped");
    return;
  }
  runScene(c, S);
}
SUITE(nonov) {
  static const char *kinds[] = {"nonov", "nochain", "nofew", "partial", "split", "nonov", "partial"};
  sc::GenOpt o;
  o.kind = kinds[c.idx % 7];
  sc::Scene S;
  for (int t = 0; t < 5; t++) {
    S = sc::generate(c.rng, o);
    if (allUsed(S))
      break;
  }
  settle(c, S);
  c.desc = descOf(S);
  if (!allUsed(S)) {
    c.cov("scenes_skipped");
    return;
  }
  runScene(c, S);
}
// links measured once or twice, upside-down neighbours, many cameras and boards
SUITE(thin) {
  sc::GenOpt o;
  o.kind = c.idx % 4 == 3 ? "big" : "thin";
  sc::Scene S;
  for (int t = 0; t < 5; t++) {
    S = sc::generate(c.rng, o);
    if (allUsed(S))
      break;
  }
  c.desc = descOf(S);
  if (!allUsed(S)) {
    c.cov("scenes_skipped");
    return;
  }
  RunOpt ro;
  ro.truth = S.sigma == 0 || o.kind == "big"; // one noisy view of a plane may be taken for its mirror image
  runScene(c, S, ro);
}
// few views: several components, cameras and boards alone, objects shared by groups
SUITE(sparse) {
  static const char *kinds[] = {"tree", "row", "ring", "partial", "nonov", "tree", "big", "nochain"};
  sc::GenOpt o;
  o.kind = kinds[c.idx % 8];
  o.keep = c.rng.u(0.08, 0.6);
  sc::Scene S = sc::generate(c.rng, o);
  c.desc = cat("sparse ", descOf(S));
  RunOpt ro;
  ro.strict = ro.truth = false;
  runScene(c, S, ro);
}

// wrong corners and wrong views among good ones
static void spoil(vh::Rng &r, sc::Scene &S, double corners, double views) {
  // a link keeps most of its measures: of the frames two cameras (or boards)
  // share, at most every sixth has a wrong view
  std::map<std::array<int, 3>, std::set<int>> shared, hit; // (cameras or boards, a, b)
  auto links = [&](const sc::Det &d, auto f) {
    for (auto &e : S.dets)
      if (e.f == d.f && (e.c != d.c || e.b != d.b)) {
        if (e.c != d.c)
          f(std::array<int, 3>{0, std::min(d.c, e.c), std::max(d.c, e.c)});
        if (e.b != d.b)
          f(std::array<int, 3>{1, std::min(d.b, e.b), std::max(d.b, e.b)});
      }
  };
  for (auto &d : S.dets)
    links(d, [&](const std::array<int, 3> &k) { shared[k].insert(d.f); });
  auto allowed = [&](const sc::Det &d) {
    bool ok = true;
    links(d, [&](const std::array<int, 3> &k) { ok &= hit[k].count(d.f) || hit[k].size() + 1 <= shared[k].size() / 6; });
    if (ok)
      links(d, [&](const std::array<int, 3> &k) { hit[k].insert(d.f); });
    return ok;
  };
  for (auto &d : S.dets) {
    const Cam &C = S.cams[d.c].cam;
    auto anywhere = [&] { return cv::Point2f(float(r.u(0, C.w - 1)), float(r.u(0, C.h - 1))); };
    if (r.p(views) && allowed(d)) {
      d.badView = true;
      switch (r.i(0, 2)) {
      case 0: // corner numbers mixed up
        r.shuffle(d.pts);
        break;
      case 1: // seen elsewhere
        for (auto &p : d.pts)
          p = anywhere();
        break;
      default: { // a picture of another moment
        std::vector<const sc::Det *> o;
        for (auto &e : S.dets)
          if (e.c == d.c && e.b == d.b && e.f != d.f)
            o.push_back(&e);
        if (o.empty()) {
          d.badView = false;
          break;
        }
        auto &e = *o[r.i(0, int(o.size()) - 1)];
        std::map<int, cv::Point2f> at;
        for (size_t j = 0; j < e.ids.size(); j++)
          at[e.ids[j]] = e.pts[j];
        for (size_t j = 0; j < d.ids.size(); j++)
          d.pts[j] = at.count(d.ids[j]) ? at[d.ids[j]] : anywhere();
      }
      }
      continue;
    }
    if (!r.p(0.7))
      continue;
    double share = r.u(0, corners);
    for (size_t j = 0; j < d.pts.size(); j++)
      if (r.p(share)) {
        double a = r.u(0, 2 * M_PI), l = std::max(4 * S.thr, std::exp(r.u(std::log(20.), std::log(400.))));
        d.pts[j] += cv::Point2f(float(l * std::cos(a)), float(l * std::sin(a)));
        d.bad[j] = 1;
      }
  }
}
static bool spoiltScene(vh::Ctx &c, int k, double views) {
  static const char *kinds[] = {"row", "tree", "ring", "mono", "row", "tree", "ring"};
  sc::GenOpt o;
  o.kind = kinds[k % 7];
  sc::Scene S;
  for (int t = 0; t < 5; t++) {
    S = sc::generate(c.rng, o);
    if (allUsed(S))
      break;
  }
  S.precal = true;
  // wrong views weigh on every parameter they are left free: judged with the
  // intrinsics kept
  S.fix = views > 0 || c.rng.p(0.5);
  spoil(c.rng, S, 0.15, views);
  c.desc += cat(" spoilt ", descOf(S));
  if (!allUsed(S)) {
    c.cov("scenes_skipped");
    return false;
  }
  RunOpt ro;
  ro.spoilt = true;
  runScene(c, S, ro);
  return true;
}
SUITE(spoil) { spoiltScene(c, c.idx, 0); }
// Several scenes with up to 5 % wrong views each: a view that is off by far can
// win over the few right ones of a link, but not in one scene out of four.
SUITE(outweigh) {
  gSpoilt.clear();
  for (int k = 0; k < 8; k++)
    spoiltScene(c, 8 * c.idx + k, 0.05);
  size_t n = gSpoilt.size();
  if (n < 4)
    return;
  static const char *what[] = {"camera rotation", "camera position", "board rotation", "board position"};
  static const double lim[] = {0.006, 0.006, 0.006, 0.003};
  for (int q = 0; q < 4; q++) {
    std::vector<double> v;
    size_t far = 0;
    for (auto &e : gSpoilt) {
      v.push_back(e[q]);
      far += !(e[q] <= 0.06);
    }
    std::sort(v.begin(), v.end());
    double med = v[n / 2];
    c.covmax(cat("max_median_", what[q], "_ppm"), long(1e6 * med));
    c.cov("scenes_spoilt_by_wrong_views", long(q == 0 ? far : 0));
    if (!(med <= lim[q]))
      c.fail("E01", "outweighed", cat("the median error of ", n, " calibrations with few wrong views is ", med, " in ", what[q]));
    if (far > (n + 3) / 4)
      c.fail("E01", "outweighed", cat(far, " of ", n, " calibrations with few wrong views are spoilt in ", what[q]));
  }
}
