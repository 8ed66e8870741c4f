// Monitors of the calibration state (see pipe.hpp).
#include "pipe.hpp"

namespace pl {
Run *R = nullptr;
bool busy = false;

Cam camOf(const McCalib::Camera &k) {
  Cam c;
  c.model = k.distortion_model_;
  c.fx = k.intrinsics_[0];
  c.fy = k.intrinsics_[1];
  c.cx = k.intrinsics_[2];
  c.cy = k.intrinsics_[3];
  for (int i = 0; i < (c.model == 0 ? 5 : 4); i++)
    c.d[i] = k.intrinsics_[4 + i];
  c.w = k.im_cols_;
  c.h = k.im_rows_;
  return c;
}

Cost costCamera(Cal &cal, int c) {
  Cost r;
  Cam k = camOf(*cal.cams_.at(c));
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    if (o.camera_id_ != c || !o.valid_)
      continue;
    M4 T = fromVec6(o.pose_);
    for (size_t i = 0; i < o.charuco_id_.size(); i++)
      r.add(k, app(T, bpt(*cal.boards_3d_.at(o.board_id_), o.charuco_id_[i])), o.pts_2d_[i]);
  }
  return r;
}

Cost costObject(Cal &cal, int obj, long *invalid) {
  Cost r;
  auto &O = *cal.object_3d_.at(obj);
  std::map<std::pair<int, int>, McCalib::Object3DObs *> by;
  for (auto &it : cal.object_observations_)
    if (it.second->object_3d_id_ == obj)
      by[{it.second->camera_id_, it.second->frame_id_}] = it.second.get();
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    if (!O.boards_.count(o.board_id_))
      continue;
    if (!o.valid_) {
      if (invalid)
        *invalid += o.pts_2d_.size();
      continue;
    }
    auto w = by.find({o.camera_id_, o.frame_id_});
    if (w == by.end()) {
      r.n += o.charuco_id_.size();
      r.usable = false;
      continue;
    }
    M4 T = fromVec6(w->second->pose_) * fromVec6(O.relative_board_pose_[o.board_id_]);
    Cam k = camOf(*cal.cams_.at(o.camera_id_));
    for (size_t i = 0; i < o.charuco_id_.size(); i++)
      r.add(k, app(T, bpt(*cal.boards_3d_.at(o.board_id_), o.charuco_id_[i])), o.pts_2d_[i]);
  }
  return r;
}

Cost costGroup(Cal &cal, int g, long *invalid) {
  Cost r;
  auto &G = *cal.cam_group_.at(g);
  std::map<int, int> objOf;
  for (auto &o : cal.object_3d_)
    for (auto &b : o.second->boards_)
      objOf[b.first] = o.first;
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    if (!G.cameras_.count(o.camera_id_))
      continue;
    if (!o.valid_) {
      if (invalid)
        *invalid += o.pts_2d_.size();
      continue;
    }
    auto go = cal.cams_group_obs_.find({g, o.frame_id_});
    int obj = objOf.count(o.board_id_) ? objOf[o.board_id_] : -1;
    if (obj < 0 || go == cal.cams_group_obs_.end() || !go->second->object_pose_.count(obj)) {
      r.n += o.charuco_id_.size();
      r.usable = false;
      continue;
    }
    M4 T = fromVec6(G.relative_camera_pose_[o.camera_id_]) * fromVec6(go->second->object_pose_[obj]) *
           fromVec6(cal.object_3d_[obj]->relative_board_pose_[o.board_id_]);
    Cam k = camOf(*cal.cams_.at(o.camera_id_));
    for (size_t i = 0; i < o.charuco_id_.size(); i++)
      r.add(k, app(T, bpt(*cal.boards_3d_.at(o.board_id_), o.charuco_id_[i])), o.pts_2d_[i]);
  }
  return r;
}

std::vector<Unit> unitsOf(Cal &cal, char kind) {
  std::vector<Unit> v;
  if (kind == 'c')
    for (auto &x : cal.cams_)
      v.push_back({'c', x.first});
  if (kind == 'o')
    for (auto &x : cal.object_3d_)
      v.push_back({'o', x.first});
  if (kind == 'g')
    for (auto &x : cal.cam_group_)
      v.push_back({'g', x.first});
  return v;
}

SolveInfo identify(Cal &cal, ceres::Problem *p) {
  SolveInfo si;
  std::unordered_map<const double *, Unit> m;
  for (auto &c : cal.cams_)
    m[c.second->intrinsics_.data()] = {'i', c.first};
  for (auto &b : cal.board_observations_)
    m[b.second->pose_.data()] = {'c', b.second->camera_id_};
  for (auto &o : cal.object_observations_)
    m[o.second->pose_.data()] = {'o', o.second->object_3d_id_};
  for (auto &o : cal.object_3d_)
    for (auto &b : o.second->relative_board_pose_)
      m[b.second.data()] = {'b', o.first};
  for (auto &g : cal.cam_group_)
    for (auto &c : g.second->relative_camera_pose_)
      m[c.second.data()] = {'g', g.first};
  for (auto &g : cal.cams_group_obs_)
    for (auto &o : g.second->object_pose_)
      m[o.second.data()] = {'g', g.first.first};
  std::vector<double *> blocks;
  p->GetParameterBlocks(&blocks);
  std::set<char> kinds;
  for (double *b : blocks) {
    auto it = m.find(b);
    if (it == m.end()) {
      si.known = false;
      continue;
    }
    if (it->second.kind == 'c' || it->second.kind == 'o' || it->second.kind == 'g') {
      si.units.insert(it->second);
      kinds.insert(it->second.kind);
    }
  }
  if (kinds.size() != 1)
    si.known = false;
  return si;
}

void onSolve(const ceres::Solver::Options &o, ceres::Problem *p, ceres::Solver::Summary *sum,
                    const std::function<void()> &real) {
  if (!R || !R->cal || busy) {
    real();
    return;
  }
  busy = true;
  Cal &cal = *R->cal;
  SolveInfo si = identify(cal, p);
  R->solves++;
  R->c->cov("solver_calls");
  double before = -1, after = -1;
  Cost ownB;
  auto sumCost = [&](long *inv) {
    Cost t;
    for (auto &u : si.units) {
      Cost k = costOf(cal, u, inv);
      t.sq += k.sq;
      t.rob += k.rob;
      t.n += k.n;
      t.usable &= k.usable;
    }
    return t;
  };
  R->c->cov("settings_checked");
  if (o.max_num_iterations != R->s->iters)
    R->c->fail("C01", "iterations", cat(R->stage, ": a refinement is limited to ", o.max_num_iterations, " iterations, number_iterations is ", R->s->iters));
  if (si.known && p->NumResiduals() > 0) {
    ceres::Problem::EvaluateOptions eo;
    eo.apply_loss_function = false;
    p->Evaluate(eo, &before, nullptr, nullptr, nullptr);
    long inv = 0;
    ownB = sumCost(&inv);
    std::string what;
    for (auto &u : si.units)
      what += cat(u.kind, u.id, " ");
    long nr = p->NumResiduals();
    if (nr < 2 * ownB.n || nr > 2 * (ownB.n + inv))
      R->c->fail("O01", "corners", cat(R->stage, " ", what, ": ", nr / 2, " corners in the cost, ", ownB.n, " observed"));
    else if (ownB.usable && inv == 0 && !(std::fabs(before - ownB.sq) <= 1e-5 * ownB.sq + 1e-6 * ownB.n))
      R->c->fail("O01", "cost", cat(R->stage, " ", what, ": cost ", before, " at the start, reprojection gives ", ownB.sq));
    R->c->cov("corners_in_cost", ownB.n);
    for (auto &u : si.units)
      R->solved.insert(u);
  } else {
    R->unknownSolves++;
    R->c->cov("solver_calls_unidentified");
  }
  busy = false;
  real();
  busy = true;
  if (si.known && ownB.n > 0) {
    Cost ownA = sumCost(nullptr);
    if (ownB.usable && !(ownA.rob <= ownB.rob * (1 + 1e-9) + 1e-8 * ownA.n))
      R->c->fail("O01", "worse", cat(R->stage, ": robust cost ", ownB.rob, " -> ", ownA.rob, " over ", ownA.n, " corners"));
    R->c->covmax("max_corners_in_one_solve", ownA.n);
  }
  if (si.known)
    fixedPoses(cal, cat("after a solve in ", R->stage));
  busy = false;
}

void refineExit(char kind) {
  Cal &cal = *R->cal;
  // groups that see the same object are refined one after the other
  std::map<int, std::set<int>> seenBy;
  if (kind == 'g')
    for (auto &it : cal.cams_group_obs_)
      for (auto &o : it.second->object_pose_)
        seenBy[o.first].insert(it.first.first);
  std::set<int> sharing;
  for (auto &x : seenBy)
    if (x.second.size() > 1)
      sharing.insert(x.second.begin(), x.second.end());
  for (auto &u : unitsOf(cal, kind)) {
    Cost k = costOf(cal, u);
    if (!R->before.count(u))
      continue;
    double b = R->before[u];
    if (k.n && !sharing.count(u.id) && !(k.rob <= b * (1 + 1e-9) + 1e-8 * k.n))
      R->c->fail("O01", "worse", cat(R->stage, " ", u.kind, u.id, ": robust cost ", b, " -> ", k.rob, " over ", k.n, " corners"));
    if (k.n && R->unknownSolves == 0 && !R->solved.count(u))
      R->c->fail("O01", "not_refined", cat(R->stage, ": ", u.kind, u.id, " has ", k.n, " corners and was not refined"));
    R->c->cov("refinements");
    R->c->sig(cat(R->stage, u.kind, int(std::log2(k.n + 1)), b > k.rob * 1.001));
  }
  fixedPoses(cal, R->stage);
}

void checkRegistered(Cal &cal, const std::vector<sc::Det> &dets, vh::Ctx &c,
                            const std::function<std::string(int, int)> &path) {
  std::map<std::tuple<int, int, int>, const sc::Det *> want;
  for (auto &d : dets)
    want[{d.c, d.f, d.b}] = &d;
  std::map<std::tuple<int, int, int>, McCalib::BoardObs *> have;
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    auto key = std::make_tuple(o.camera_id_, o.frame_id_, o.board_id_);
    std::string n = detName(o.camera_id_, o.frame_id_, o.board_id_);
    if (have.count(key))
      c.fail("S02", "twice", n + " is in the global list twice");
    have[key] = &o;
    auto w = want.find(key);
    if (w == want.end()) {
      c.fail("S02", "extra", n + " was never detected");
      continue;
    }
    std::map<int, cv::Point2f> a, b;
    for (size_t k = 0; k < w->second->ids.size(); k++)
      a[w->second->ids[k]] = w->second->pts[k];
    if (o.charuco_id_.size() != o.pts_2d_.size())
      c.fail("S02", "pairing", n + ": corner and number lists differ in length");
    for (size_t k = 0; k < std::min(o.charuco_id_.size(), o.pts_2d_.size()); k++)
      b[o.charuco_id_[k]] = o.pts_2d_[k];
    if (a != b)
      c.fail("S02", "pairing", n + ": corners do not match the detection");
    if (o.cam_.lock().get() != (cal.cams_.count(o.camera_id_) ? cal.cams_[o.camera_id_].get() : nullptr) ||
        o.board_3d_.lock().get() != (cal.boards_3d_.count(o.board_id_) ? cal.boards_3d_[o.board_id_].get() : nullptr))
      c.fail("S02", "owner", n + ": refers to another camera or board");
    c.cov("detections_checked");
  }
  for (auto &w : want)
    if (!have.count(w.first))
      c.fail("S02", "missing", detName(w.second->c, w.second->f, w.second->b) + " is not in the global list");
  // a list must hold exactly the observations selected by sel
  auto listIs = [&](const std::string &name, const std::map<int, std::weak_ptr<McCalib::BoardObs>> &l,
                    const std::vector<int> *idx, const std::function<bool(const McCalib::BoardObs &)> &sel) {
    std::multiset<McCalib::BoardObs *> got;
    std::multiset<int> gi, wi;
    for (auto &x : l) {
      auto p = x.second.lock();
      got.insert(p.get());
      if (p)
        wi.insert(p->board_id_);
    }
    std::multiset<McCalib::BoardObs *> need;
    for (auto &h : have)
      if (sel(*h.second))
        need.insert(h.second);
    if (got != need)
      c.fail("S02", "list", cat(name, " lists ", got.size(), " detections, ", need.size(), " belong there",
                                got.size() == need.size() ? " (different ones)" : ""));
    if (idx) {
      gi.insert(idx->begin(), idx->end());
      if (gi != wi)
        c.fail("S02", "list", name + ": board numbers differ from the detections listed");
    }
    c.cov("lists_checked");
  };
  std::set<int> framesSeen;
  std::map<int, std::set<int>> camFrames, boardFrames, frameCams;
  for (auto &h : have) {
    auto &o = *h.second;
    framesSeen.insert(o.frame_id_);
    camFrames[o.camera_id_].insert(o.frame_id_);
    boardFrames[o.board_id_].insert(o.frame_id_);
    frameCams[o.frame_id_].insert(o.camera_id_);
  }
  for (auto &k : cal.cams_) {
    listIs(cat("camera ", k.first), k.second->board_observations_, &k.second->vis_board_idx_,
           [&](auto &o) { return o.camera_id_ == k.first; });
    std::set<int> fr;
    for (auto &x : k.second->frames_) {
      fr.insert(x.first);
      auto p = x.second.lock();
      if (!p || !cal.frames_.count(x.first) || p.get() != cal.frames_[x.first].get())
        c.fail("S02", "frames", cat("camera ", k.first, " lists a frame that is not frame ", x.first));
    }
    if (fr != camFrames[k.first])
      c.fail("S02", "frames", cat("camera ", k.first, " lists ", fr.size(), " frames and saw boards in ", camFrames[k.first].size()));
  }
  for (auto &k : cal.boards_3d_) {
    listIs(cat("board ", k.first), k.second->board_observations_, nullptr,
           [&](auto &o) { return o.board_id_ == k.first; });
    std::set<int> fr;
    for (auto &x : k.second->frames_)
      fr.insert(x.first);
    if (fr != boardFrames[k.first])
      c.fail("S02", "frames", cat("board ", k.first, " lists ", fr.size(), " frames and was seen in ", boardFrames[k.first].size()));
  }
  std::set<int> fs;
  for (auto &k : cal.frames_) {
    fs.insert(k.first);
    auto &F = *k.second;
    listIs(cat("frame ", k.first), F.board_observations_, &F.boards_idx_, [&](auto &o) { return o.frame_id_ == k.first; });
    if (F.frame_idx_ != k.first)
      c.fail("S02", "frame_number", cat("frame ", k.first, " calls itself ", F.frame_idx_));
    std::multiset<int> cams(F.cam_idx_.begin(), F.cam_idx_.end());
    std::multiset<int> need(frameCams[k.first].begin(), frameCams[k.first].end());
    if (cams != need)
      c.fail("S02", "frame_cameras", cat("frame ", k.first, " lists ", cams.size(), " cameras, ", need.size(), " saw a board"));
    std::multiset<McCalib::CameraObs *> co, cw;
    for (auto &x : F.cam_obs_)
      co.insert(x.second.lock().get());
    for (int cam : frameCams[k.first]) {
      cw.insert(cal.cams_obs_.count({cam, k.first}) ? cal.cams_obs_[{cam, k.first}].get() : nullptr);
      auto it = F.frame_path_.find(cam);
      std::string p = path ? path(cam, k.first) : "";
      if (it == F.frame_path_.end() || (path && it->second.string() != p))
        c.fail("S02", "path", cat("frame ", k.first, " camera ", cam, " has image '",
                                  it == F.frame_path_.end() ? "" : it->second.string(), "' instead of '", p, "'"));
    }
    if (co != cw)
      c.fail("S02", "frame_cameras", cat("frame ", k.first, " lists wrong camera records"));
  }
  if (fs != framesSeen)
    c.fail("S02", "frames", cat(fs.size(), " frames kept, ", framesSeen.size(), " have detections"));
  size_t pairs = 0;
  for (auto &f : frameCams)
    pairs += f.second.size();
  if (cal.cams_obs_.size() != pairs)
    c.fail("S02", "camera_frames", cat(cal.cams_obs_.size(), " camera-frame records, ", pairs, " expected"));
  for (auto &k : cal.cams_obs_) {
    listIs(cat("camera ", k.first.first, " frame ", k.first.second), k.second->board_observations_, &k.second->board_idx_,
           [&](auto &o) { return o.camera_id_ == k.first.first && o.frame_id_ == k.first.second; });
    if (k.second->cam_idx_ != k.first.first)
      c.fail("S02", "camera_frames", cat("record of camera ", k.first.first, " says camera ", k.second->cam_idx_));
  }
}

void checkObjectObs(Cal &cal, bool groups, const std::string &stage, vh::Ctx &c) {
  using Obs = McCalib::Object3DObs;
  std::map<int, int> objOf;
  for (auto &o : cal.object_3d_)
    for (auto &b : o.second->boards_)
      objOf[b.first] = o.first;
  // what must be there
  std::map<std::tuple<int, int, int>, std::set<McCalib::BoardObs *>> need, may;
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    if (!objOf.count(o.board_id_))
      continue;
    auto key = std::make_tuple(o.camera_id_, o.frame_id_, objOf[o.board_id_]);
    if (o.valid_ && !o.pts_2d_.empty())
      need[key].insert(&o);
    if (o.valid_)
      may[key].insert(&o);
  }
  std::map<std::tuple<int, int, int>, Obs *> have;
  std::set<Obs *> all;
  for (auto &it : cal.object_observations_) {
    Obs &o = *it.second;
    std::string n = cat(stage, ": observation of object ", o.object_3d_id_, " by camera ", o.camera_id_, " in frame ", o.frame_id_);
    if (!all.insert(&o).second)
      c.fail("S03", "twice", n + " is in the global list twice");
    auto key = std::make_tuple(o.camera_id_, o.frame_id_, o.object_3d_id_);
    if (have.count(key)) {
      c.fail("S03", "twice", n + " exists twice");
      continue;
    }
    have[key] = &o;
    auto O = o.object_3d_.lock();
    if (!O || !cal.object_3d_.count(o.object_3d_id_) || O.get() != cal.object_3d_[o.object_3d_id_].get() ||
        O->obj_id_ != o.object_3d_id_) {
      c.fail("S03", "dead", n + " refers to an object that is not there");
      continue;
    }
    if (o.cam_.lock().get() != (cal.cams_.count(o.camera_id_) ? cal.cams_[o.camera_id_].get() : nullptr))
      c.fail("S03", "dead", n + " refers to another camera");
    // boards
    std::multiset<McCalib::BoardObs *> bs;
    for (auto &x : o.board_observations_)
      bs.insert(x.second.lock().get());
    std::multiset<int> bi, wi(o.board_id_.begin(), o.board_id_.end());
    std::multiset<std::tuple<int, int, float, float>> wantPts, gotPts;
    for (auto *b : bs) {
      if (!b || bs.count(b) != 1 || !may[key].count(b)) {
        c.fail("S03", "foreign", n + " holds a detection that does not belong to it, or twice");
        continue;
      }
      bi.insert(b->board_id_);
      for (size_t k = 0; k < b->pts_2d_.size(); k++)
        wantPts.insert({b->board_id_, b->charuco_id_[k], b->pts_2d_[k].x, b->pts_2d_[k].y});
    }
    for (auto *b : need[key])
      if (!bs.count(b))
        c.fail("S03", "dropped", n + cat(" lacks the detection of board ", b->board_id_));
    if (bi != wi)
      c.fail("S03", "foreign", n + ": board numbers differ from the detections held");
    if (o.pts_2d_.size() != o.pts_id_.size())
      c.fail("S03", "points", n + ": point and number lists differ in length");
    for (size_t k = 0; k < std::min(o.pts_2d_.size(), o.pts_id_.size()); k++) {
      int id = o.pts_id_[k];
      if (id < 0 || id >= int(O->pts_obj_2_board_.size())) {
        c.fail("S03", "points", n + cat(": point number ", id, " of ", O->pts_obj_2_board_.size()));
        continue;
      }
      auto q = O->pts_obj_2_board_[id];
      gotPts.insert({q.first, q.second, o.pts_2d_[k].x, o.pts_2d_[k].y});
    }
    if (gotPts != wantPts)
      c.fail("S03", "points", n + ": its points do not designate the detected corners");
    c.cov("object_observations_checked");
  }
  for (auto &w : need)
    if (!have.count(w.first))
      c.fail("S03", "dropped", cat(stage, ": no observation of object ", std::get<2>(w.first), " by camera ",
                                   std::get<0>(w.first), " in frame ", std::get<1>(w.first)));
  auto listIs = [&](const std::string &name, const std::map<int, std::weak_ptr<Obs>> &l, const std::vector<int> *idx,
                    const std::function<bool(const Obs &)> &sel) {
    std::multiset<Obs *> got, want;
    std::multiset<int> gi;
    for (auto &x : l) {
      auto p = x.second.lock();
      if (!p)
        c.fail("S03", "dead", cat(stage, ": ", name, " lists an observation that no longer exists"));
      got.insert(p.get());
      if (p)
        gi.insert(p->object_3d_id_);
    }
    for (auto &h : cal.object_observations_)
      if (sel(*h.second))
        want.insert(h.second.get());
    if (got != want)
      c.fail("S03", "list", cat(stage, ": ", name, " lists ", got.size(), " object observations, ", want.size(), " belong there"));
    if (idx && gi != std::multiset<int>(idx->begin(), idx->end()))
      c.fail("S03", "list", cat(stage, ": ", name, ": object numbers differ from the observations listed"));
    c.cov("lists_checked");
  };
  for (auto &k : cal.cams_)
    listIs(cat("camera ", k.first), k.second->object_observations_, &k.second->vis_object_idx_,
           [&](auto &o) { return o.camera_id_ == k.first; });
  for (auto &k : cal.frames_)
    listIs(cat("frame ", k.first), k.second->object_observations_, &k.second->objects_idx_,
           [&](auto &o) { return o.frame_id_ == k.first; });
  for (auto &k : cal.cams_obs_)
    listIs(cat("camera ", k.first.first, " frame ", k.first.second), k.second->object_observations_, &k.second->object_idx_,
           [&](auto &o) { return o.camera_id_ == k.first.first && o.frame_id_ == k.first.second; });
  for (auto &k : cal.object_3d_)
    listIs(cat("object ", k.first), k.second->object_observations_, nullptr,
           [&](auto &o) { return o.object_3d_id_ == k.first; });
  if (groups) {
    std::set<std::pair<int, int>> wantG;
    for (auto &k : cal.cam_group_) {
      auto in = [&](const Obs &o) { return k.second->cameras_.count(o.camera_id_) > 0; };
      listIs(cat("group ", k.first), k.second->object_observations_, nullptr, in);
      std::set<int> fr, fw;
      for (auto &x : k.second->frames_) {
        fr.insert(x.first);
        if (x.second.expired())
          c.fail("S03", "dead", cat(stage, ": group ", k.first, " lists a frame that no longer exists"));
      }
      for (auto &h : cal.object_observations_)
        if (in(*h.second)) {
          fw.insert(h.second->frame_id_);
          wantG.insert({k.first, h.second->frame_id_});
        }
      if (fr != fw)
        c.fail("S03", "list", cat(stage, ": group ", k.first, " lists ", fr.size(), " frames, saw objects in ", fw.size()));
    }
    std::set<std::pair<int, int>> gotG;
    for (auto &k : cal.cams_group_obs_) {
      gotG.insert(k.first);
      if (!cal.cam_group_.count(k.first.first) || k.second->cam_group_.lock().get() != cal.cam_group_[k.first.first].get() ||
          k.second->cam_group_idx_ != k.first.first) {
        c.fail("S03", "dead", cat(stage, ": record of group ", k.first.first, " refers to a group that is not there"));
        continue;
      }
      auto &G = *cal.cam_group_[k.first.first];
      listIs(cat("group ", k.first.first, " frame ", k.first.second), k.second->object_observations_, &k.second->object_idx_,
             [&](auto &o) { return G.cameras_.count(o.camera_id_) && o.frame_id_ == k.first.second; });
    }
    if (gotG != wantG)
      c.fail("S03", "list", cat(stage, ": ", gotG.size(), " group-frame records, ", wantG.size(), " expected"));
    for (auto &k : cal.frames_) {
      std::multiset<McCalib::CameraGroupObs *> got, want;
      for (auto &x : k.second->cam_group_observations_)
        got.insert(x.second.lock().get());
      for (auto &g : cal.cams_group_obs_)
        if (g.first.second == k.first)
          want.insert(g.second.get());
      if (got != want)
        c.fail("S03", "list", cat(stage, ": frame ", k.first, " lists ", got.size(), " group records, ", want.size(), " exist"));
      std::multiset<int> gi(k.second->cam_group_idx_.begin(), k.second->cam_group_idx_.end()), wi;
      for (auto &g : cal.cams_group_obs_)
        if (g.first.second == k.first)
          wi.insert(g.first.first);
      if (gi != wi)
        c.fail("S03", "list", cat(stage, ": frame ", k.first, " lists wrong group numbers"));
    }
  }
  c.sig(cat("s03 ", stage, cal.object_3d_.size(), cal.cam_group_.size(), int(std::log2(have.size() + 1))));
}

void checkObjects(Cal &cal, const std::map<int, std::set<int>> &want, const std::string &stage) {
  auto got = objPart(cal);
  vh::Ctx &c = *R->c;
  if (blocksOf(got) != blocksOf(want) || got.size() != want.size())
    c.fail("S01", "objects", cat(stage, ": objects ", show(got), " but the detections give ", show(want)));
  for (auto &o : cal.object_3d_) {
    auto &O = *o.second;
    if (O.boards_.empty())
      continue;
    if (O.ref_board_id_ != O.boards_.begin()->first)
      c.fail("S01", "ref_board", cat(stage, ": object ", o.first, " has reference board ", O.ref_board_id_, " of ", show({{0, got[o.first]}})));
    if (!O.relative_board_pose_.count(O.ref_board_id_) || !idPose(O.relative_board_pose_[O.ref_board_id_]))
      c.fail("S01", "ref_board_pose", cat(stage, ": reference board of object ", o.first, " is not at the identity"));
    if (O.obj_id_ != o.first)
      c.fail("S01", "number", cat(stage, ": object ", o.first, " calls itself ", O.obj_id_));
  }
  c.cov("partitions_checked");
  c.sig(cat(stage, " objects ", show(got)));
}

void checkGroups(Cal &cal, const std::map<int, std::set<int>> *want, const std::string &stage) {
  auto got = grpPart(cal);
  vh::Ctx &c = *R->c;
  if (want && (blocksOf(got) != blocksOf(*want) || got.size() != want->size()))
    c.fail("S01", "groups", cat(stage, ": groups ", show(got), " but the detections give ", show(*want)));
  std::map<int, int> times;
  for (auto &g : got)
    for (int k : g.second)
      times[k]++;
  for (auto &t : times)
    if (t.second > 1)
      c.fail("S01", "groups", cat(stage, ": camera ", t.first, " is in ", t.second, " groups"));
  for (auto &g : cal.cam_group_) {
    auto &G = *g.second;
    std::multiset<int> a(G.cam_idx.begin(), G.cam_idx.end()), b(got[g.first].begin(), got[g.first].end());
    if (a != b)
      c.fail("S01", "groups", cat(stage, ": group ", g.first, " has inconsistent camera lists"));
    if (!G.relative_camera_pose_.count(G.id_ref_cam_) || !idPose(G.relative_camera_pose_[G.id_ref_cam_]))
      c.fail("S01", "ref_camera_pose", cat(stage, ": reference camera of group ", g.first, " is not at the identity"));
    for (auto &k : G.relative_camera_pose_)
      if (!G.cameras_.count(k.first))
        c.fail("S01", "groups", cat(stage, ": group ", g.first, " has a pose for camera ", k.first));
  }
  c.cov("partitions_checked");
  c.sig(cat(stage, " groups ", show(got)));
}

void checkCamPoses(Cal &cal, const std::string &prop, const std::string &stage, double rot, double pos,
                          const std::set<int> *only) {
  for (auto &g : cal.cam_group_)
    for (auto &k : g.second->cameras_) {
      if (only && !only->count(g.first))
        continue;
      std::string why;
      M4 got = fromVec6(g.second->relative_camera_pose_[k.first]);
      if (!poseNear(got, R->s->camRel(k.first, g.second->id_ref_cam_), rot, pos, why))
        R->c->fail(prop, "camera_pose", cat(stage, ": camera ", k.first, " in group ", g.first, " ", why));
      R->c->cov("camera_poses_checked");
    }
}

void checkObjectPoints(Cal &cal, const std::string &stage) {
  vh::Ctx &c = *R->c;
  for (auto &o : cal.object_3d_) {
    auto &O = *o.second;
    std::string n = cat(stage, ": object ", o.first);
    size_t total = 0;
    for (auto &b : O.boards_) {
      auto B = b.second.lock();
      if (!B) {
        c.fail("R03", "points", n + " has a board that does not exist");
        continue;
      }
      total += B->pts_3d_.size();
      M4 T = fromVec6(O.relative_board_pose_[b.first]);
      double size = B->pts_3d_.empty() ? 1 : cv::norm(B->pts_3d_.back()) + tr(T).norm();
      for (size_t k = 0; k < B->pts_3d_.size(); k++) {
        auto it = O.pts_board_2_obj_.find({b.first, int(k)});
        if (it == O.pts_board_2_obj_.end() || it->second < 0 || it->second >= int(O.pts_3d_.size()) ||
            it->second >= int(O.pts_obj_2_board_.size()) ||
            O.pts_obj_2_board_[it->second] != std::make_pair(b.first, int(k))) {
          c.fail("R03", "points", n + cat(": point ", k, " of board ", b.first, " is missing or misnumbered"));
          break;
        }
        auto &p = O.pts_3d_[it->second];
        V3 q = app(T, bpt(*B, int(k)));
        if (!((q - V3(p.x, p.y, p.z)).norm() <= 2e-6 * size)) {
          c.fail("R03", "shape", n + cat(": point ", k, " of board ", b.first, " is ", (q - V3(p.x, p.y, p.z)).norm(),
                                        " away from its place"));
          break;
        }
        c.cov("points_checked");
      }
    }
    if (O.pts_3d_.size() != total || O.pts_obj_2_board_.size() != total || O.pts_board_2_obj_.size() != total ||
        O.nb_pts_ != total)
      c.fail("R03", "points", n + cat(" has ", O.pts_3d_.size(), " points, its boards have ", total));
  }
}
} // namespace pl
