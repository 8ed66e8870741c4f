// The files a calibration leaves behind, against what was observed (see pipe.hpp).
#include "pipe.hpp"
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>

using namespace vh;
using namespace pl;

// ---------------------------------------------------------------- the files
static bool close(double a, double b, double rel, double abs) {
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
static bool closeM(const yml::Mat &a, const M4 &b, double tol) {
  if (a.rows != 4 || a.cols != 4)
    return false;
  for (int r = 0; r < 4; r++)
    for (int c = 0; c < 4; c++)
      if (!close(a(r, c), b(r, c), tol, tol * (c == 3 ? workDist() : 1)))
        return false;
  return true;
}
struct CamFile {
  std::map<int, Cam> cams;
  std::map<int, M4> pose; // reference -> camera
  std::map<int, int> group;
};
static CamFile checkCamFile(const std::string &path) {
  vh::Ctx &c = *R->c;
  CamFile out;
  yml::Node n;
  try {
    n = yml::load(path);
  } catch (const std::exception &e) {
    c.fail("F02", "cameras", cat("camera file: ", e.what()));
    return out;
  }
  if (n.count("nb_camera") != 1 || n.at("nb_camera").i() != int(R->s->cams.size()))
    c.fail("F02", "cameras", cat("camera file: nb_camera ", n.count("nb_camera"), " times"));
  size_t blocks = 0;
  for (auto &x : n.m)
    blocks += x.first.rfind("camera_", 0) == 0;
  if (blocks != R->fin.cams.size())
    c.fail("F02", "cameras", cat("camera file has ", blocks, " cameras, ", R->fin.cams.size(), " were calibrated"));
  for (auto &k : R->fin.cams) {
    std::string key = cat("camera_", k.first);
    if (n.count(key) != 1) {
      c.fail("F02", "cameras", cat("camera ", k.first, " of group ", k.second.group, " is in the file ", n.count(key), " times"));
      continue;
    }
    try {
      const yml::Node &b = n.at(key);
      auto K = yml::mat(b.at("camera_matrix")), D = yml::mat(b.at("distortion_vector")), T = yml::mat(b.at("camera_pose_matrix"));
      const Cam &m = k.second.cam;
      Cam f = m;
      size_t nd = m.model == 0 ? 5 : 4;
      bool ok = K.rows == 3 && K.cols == 3 && D.d.size() == nd;
      if (ok) {
        f.fx = K(0, 0), f.fy = K(1, 1), f.cx = K(0, 2), f.cy = K(1, 2);
        ok = K(0, 1) == 0 && K(1, 0) == 0 && K(2, 0) == 0 && K(2, 1) == 0 && K(2, 2) == 1;
        ok &= f.fx == m.fx && f.fy == m.fy && f.cx == m.cx && f.cy == m.cy;
        for (size_t i = 0; ok && i < nd; i++) {
          f.d[i] = D.d[i];
          ok &= D.d[i] == m.d[i];
        }
      }
      if (!ok)
        c.fail("F02", "intrinsics", cat("camera ", k.first, ": saved intrinsics are not the final ones"));
      if (b.at("distortion_type").i() != m.model || b.at("camera_group").i() != k.second.group ||
          b.at("img_width").i() != R->fin.size[k.first].first || b.at("img_height").i() != R->fin.size[k.first].second)
        c.fail("F02", "fields", cat("camera ", k.first, ": model, group or image size differ from the final ones"));
      if (b.at("img_width").i() != R->s->cams[k.first].cam.w || b.at("img_height").i() != R->s->cams[k.first].cam.h)
        c.fail("F02", "fields", cat("camera ", k.first, ": wrong image size"));
      if (!closeM(T, inv(k.second.pose), 1e-9))
        c.fail("F02", "pose", cat("camera ", k.first, ": the saved pose is not its pose in the reference frame"));
      M4 m4;
      for (int r = 0; r < 4; r++)
        for (int q = 0; q < 4; q++)
          m4(r, q) = T(r, q);
      out.cams[k.first] = f;
      out.pose[k.first] = inv(m4);
      out.group[k.first] = b.at("camera_group").i();
      if (R->s->precal && R->s->fix && R->supplied.count(k.first)) {
        const Cam &sp = R->supplied[k.first];
        bool same = f.fx == sp.fx && f.fy == sp.fy && f.cx == sp.cx && f.cy == sp.cy;
        for (size_t i = 0; i < nd; i++)
          same &= f.d[i] == sp.d[i];
        if (!same)
          c.fail("O02", "fixed_intrinsics", cat("camera ", k.first, ": fixed intrinsics were changed"));
        c.cov("fixed_intrinsics_checked");
      }
      c.cov("saved_cameras_checked");
    } catch (const std::exception &e) {
      c.fail("F02", "cameras", cat("camera ", k.first, ": ", e.what()));
    }
  }
  return out;
}
struct ObjFile {
  std::map<int, std::vector<std::array<double, 5>>> pts;
  std::map<int, std::vector<M4>> poses;
};
static ObjFile checkObjFiles(const std::string &dir) {
  vh::Ctx &c = *R->c;
  ObjFile out;
  try {
    yml::Node a = yml::load(dir + "/calibrated_objects_data.yml"), b = yml::load(dir + "/calibrated_objects_pose_data.yml");
    if (a.m.size() != R->fin.objs.size() || b.m.size() != R->fin.objs.size())
      c.fail("F02", "objects", cat("object files have ", a.m.size(), " and ", b.m.size(), " objects, ", R->fin.objs.size(), " exist"));
    for (auto &o : R->fin.objs) {
      std::string key = cat("object_", o.first);
      if (a.count(key) != 1 || b.count(key) != 1) {
        c.fail("F02", "objects", cat(key, " is in the files ", a.count(key), " and ", b.count(key), " times"));
        continue;
      }
      auto P = yml::mat(a.at(key).at("points"));
      std::map<std::pair<int, int>, V3> want;
      for (auto &p : o.second.pts)
        want[{int(p[3]), int(p[4])}] = V3(p[0], p[1], p[2]);
      bool ok = P.rows == 5 && P.cols == int(want.size());
      std::set<std::pair<int, int>> seen;
      double size = 1e-9;
      for (auto &w : want)
        size = std::max(size, w.second.norm());
      for (int k = 0; ok && k < P.cols; k++) {
        std::pair<int, int> id(int(P(3, k)), int(P(4, k)));
        out.pts[o.first].push_back({P(0, k), P(1, k), P(2, k), P(3, k), P(4, k)});
        ok = seen.insert(id).second && want.count(id) && (want[id] - V3(P(0, k), P(1, k), P(2, k))).norm() <= 4e-6 * size;
      }
      if (!ok)
        c.fail("F02", "object_points", cat(key, ": saved points are not those of its boards, each once"));
      c.cov("saved_points_checked", P.cols);
      // poses
      auto Q = yml::mat(b.at(key).at("poses"));
      std::vector<const FObs *> views;
      for (auto &v : R->fin.obs)
        if (v.obj == o.first)
          views.push_back(&v);
      if (Q.rows != 6 || Q.cols != int(views.size())) {
        c.fail("F02", "object_poses", cat(key, ": ", Q.cols, " poses saved for ", views.size(), " views"));
        continue;
      }
      std::vector<char> used(views.size(), 0);
      int wrong = 0;
      double worst = 0;
      for (int k = 0; k < Q.cols; k++) {
        M4 T = expm(V3(Q(0, k), Q(1, k), Q(2, k))).isIdentity(0) ? M4(M4::Identity()) : M4(M4::Identity());
        T = ref::T(expm(V3(Q(0, k), Q(1, k), Q(2, k))), V3(Q(3, k), Q(4, k), Q(5, k)));
        out.poses[o.first].push_back(T);
        size_t best = views.size();
        double bd = 1e300;
        for (size_t i = 0; i < views.size(); i++)
          if (!used[i]) {
            double d = (views[i]->pose - T).norm();
            if (d < bd)
              bd = d, best = i;
          }
        double m = (M3(T.block<3, 3>(0, 0)) - M3(views[best]->pose.block<3, 3>(0, 0))).norm() +
                   (tr(T) - tr(views[best]->pose)).norm() / workDist();
        worst = std::max(worst, m);
        if (!(m <= 1e-7))
          wrong++;
        else
          used[best] = 1;
      }
      if (wrong)
        c.fail("F02", "object_poses", cat(key, ": ", wrong, " of ", Q.cols, " saved poses are not poses in the reference camera's frame (", worst, ")"));
      c.cov("saved_object_poses_checked", Q.cols);
    }
  } catch (const std::exception &e) {
    c.fail("F02", "objects", cat("object files: ", e.what()));
  }
  return out;
}
struct KDet {
  std::vector<int> ids;
  std::vector<std::pair<float, float>> pts;
  std::string path;
  bool operator==(const KDet &o) const { return ids == o.ids && pts == o.pts && path == o.path; }
};
using KFile = std::map<std::tuple<int, int, int>, KDet>;
static bool readKeypoints(const std::string &path, int ncam, KFile &out, std::map<int, std::pair<int, int>> &size, std::string &why) {
  try {
    yml::Node n = yml::load(path);
    if (n.count("nb_camera") != 1 || n.at("nb_camera").i() != ncam)
      throw std::runtime_error("nb_camera");
    for (int c = 0; c < ncam; c++) {
      std::string key = cat("camera_", c);
      if (n.count(key) != 1)
        throw std::runtime_error(key + cat(" ", n.count(key), " times"));
      auto &b = n.at(key);
      size[c] = {b.at("img_width").i(), b.at("img_height").i()};
      auto f = b.at("frame_idxs").nums(), bd = b.at("board_idxs").nums();
      auto &p = b.at("pts_2d").q, &id = b.at("charuco_idxs").q, &pa = b.at("frame_paths").q;
      if (f.size() != bd.size() || f.size() != p.size() || f.size() != id.size() || f.size() != pa.size())
        throw std::runtime_error(key + ": lists of different lengths");
      for (size_t k = 0; k < f.size(); k++) {
        KDet d;
        auto xy = p[k].nums();
        // points may be nested [x, y] or flat
        if (!p[k].q.empty() && p[k].q[0].kind == yml::Node::Seq) {
          xy.clear();
          for (auto &q : p[k].q)
            for (double v : q.nums())
              xy.push_back(v);
        }
        for (double v : id[k].nums())
          d.ids.push_back(int(v));
        if (xy.size() != 2 * d.ids.size())
          throw std::runtime_error(key + ": corners and numbers differ in length");
        for (size_t i = 0; i + 1 < xy.size(); i += 2)
          d.pts.push_back({float(xy[i]), float(xy[i + 1])});
        d.path = pa[k].s;
        if (!out.emplace(std::make_tuple(c, int(f[k]), int(bd[k])), d).second)
          throw std::runtime_error(key + cat(": frame ", f[k], " board ", bd[k], " twice"));
      }
    }
  } catch (const std::exception &e) {
    why = e.what();
    return false;
  }
  return true;
}
static std::string kdiff(const KFile &a, const KFile &b) {
  for (auto &x : a) {
    std::string n = cat("camera ", std::get<0>(x.first), " frame ", std::get<1>(x.first), " board ", std::get<2>(x.first));
    auto it = b.find(x.first);
    if (it == b.end())
      return n + " is missing";
    if (x.second.ids != it->second.ids || x.second.pts != it->second.pts)
      return n + " has other corners";
    if (x.second.path != it->second.path)
      return n + " has image '" + it->second.path + "' instead of '" + x.second.path + "'";
  }
  for (auto &x : b)
    if (!a.count(x.first))
      return cat("camera ", std::get<0>(x.first), " frame ", std::get<1>(x.first), " board ", std::get<2>(x.first), " was added");
  return "";
}
static KFile kOf(const std::vector<FDet> &v) {
  KFile k;
  for (auto &d : v) {
    KDet x;
    x.ids = d.ids;
    for (auto &p : d.pts)
      x.pts.push_back({p.x, p.y});
    x.path = d.path;
    k[{d.c, d.f, d.b}] = x;
  }
  return k;
}
static std::vector<FDet> detsOf(Cal &cal) {
  std::vector<FDet> v;
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    std::string p;
    auto f = cal.frames_.find(o.frame_id_);
    if (f != cal.frames_.end() && f->second->frame_path_.count(o.camera_id_))
      p = f->second->frame_path_[o.camera_id_].string();
    v.push_back({o.camera_id_, o.frame_id_, o.board_id_, o.pts_2d_, o.charuco_id_, p, o.valid_});
  }
  return v;
}
static void checkReprojFile(const std::string &path) {
  vh::Ctx &c = *R->c;
  try {
    yml::Node n = yml::load(path);
    std::map<int, std::map<int, std::map<int, std::vector<const FObs *>>>> want; // group, frame, camera
    for (auto &o : R->fin.obs)
      want[o.group][o.f][o.c].push_back(&o);
    if (n.count("nb_camera_group") != 1 || n.at("nb_camera_group").i() != int(want.size()) || n.m.size() != want.size() + 1)
      c.fail("F03", "groups", cat("log has ", n.m.size() - 1, " groups, ", want.size(), " exist"));
    double sum = 0;
    long cnt = 0;
    for (auto &g : want) {
      std::string gk = cat("camera_group_", g.first);
      if (n.count(gk) != 1) {
        c.fail("F03", "groups", gk + cat(" is in the log ", n.count(gk), " times"));
        continue;
      }
      auto &G = n.at(gk);
      std::vector<double> fl = yml::mat(G.at("frame_list")).d;
      std::multiset<int> fs(fl.begin(), fl.end()), fw;
      for (auto &f : g.second)
        fw.insert(f.first);
      if (fs != fw)
        c.fail("F03", "frame_list", cat(gk, " lists ", fs.size(), " frames, saw ", fw.size()));
      if (G.m.size() != fw.size() + 1)
        c.fail("F03", "frames", cat(gk, " has ", G.m.size() - 1, " frame entries, saw ", fw.size()));
      for (auto &f : g.second) {
        std::string fk = cat("frame_", f.first);
        if (G.count(fk) != 1) {
          c.fail("F03", "frames", gk + " " + fk + cat(" ", G.count(fk), " times"));
          continue;
        }
        auto &F = G.at(fk);
        std::vector<double> cl = yml::mat(F.at("camera_list")).d;
        std::multiset<int> cs(cl.begin(), cl.end()), cw;
        for (auto &k : f.second)
          for (size_t i = 0; i < k.second.size(); i++)
            cw.insert(k.first);
        if (cs != cw)
          c.fail("F03", "camera_list", cat(gk, " ", fk, " lists ", cs.size(), " cameras, ", cw.size(), " saw it"));
        for (auto &k : f.second) {
          std::string ck = cat("camera_", k.first);
          if (F.count(ck) != int(k.second.size())) {
            c.fail("F03", "cameras", cat(gk, " ", fk, " ", ck, " ", F.count(ck), " times"));
            continue;
          }
          if (k.second.size() != 1)
            continue;
          auto &C = F.at(ck);
          auto &e = k.second[0]->err;
          auto L = yml::mat(C.at("error_list"));
          bool ok = C.at("nb_pts").i() == int(e.size()) && L.d.size() == e.size();
          double worst = 0;
          for (size_t i = 0; ok && i < e.size(); i++)
            worst = std::max(worst, std::fabs(L.d[i] - e[i]) - 2e-3 * e[i]);
          if (!ok)
            c.fail("F03", "count", cat(gk, " ", fk, " ", ck, ": ", L.d.size(), " errors, ", e.size(), " corners"));
          else if (!(worst <= 5e-3))
            c.fail("F03", "error", cat(gk, " ", fk, " ", ck, ": an error is off by ", worst, " px"));
          double m = 0;
          for (double x : L.d)
            m += x;
          sum += m / std::max<size_t>(1, L.d.size());
          cnt++;
          c.cov("logged_errors_checked", long(L.d.size()));
        }
      }
    }
    if (cnt == long(R->fin.obs.size()) && !close(sum / cnt, R->fin.avg, 1e-4, 1e-5))
      c.fail("F03", "average", cat("the log gives an average of ", sum / cnt, ", reported ", R->fin.avg));
  } catch (const std::exception &e) {
    c.fail("F03", "log", cat("reprojection log: ", e.what()));
  }
}
// --------------------------------------------------------------------- F04
static const int CELL = 64; // whole JPEG blocks of one grey
static int grey(uint64_t seed, int c, int f, int x, int y) {
  uint64_t h = seed + uint64_t(c) * 1000003 + uint64_t(f) * 7919 + uint64_t(x) * 31 + uint64_t(y) * 131071;
  return 70 + int(vh::splitmix(h) % 110);
}
static cv::Mat picture(uint64_t seed, int c, int f, int w, int h) {
  cv::Mat m(h, w, CV_8UC3);
  for (int y = 0; y < h; y += CELL)
    for (int x = 0; x < w; x += CELL) {
      int g = grey(seed, c, f, x / CELL, y / CELL);
      m(cv::Rect(x, y, std::min(CELL, w - x), std::min(CELL, h - y))).setTo(cv::Scalar(g, g, g));
    }
  return m;
}
void pl::paintShots(const sc::Scene &S, vh::Rng &r) {
  R->shots = r.g() | 1;
  std::set<std::pair<int, int>> all;
  for (auto &d : S.dets)
    all.insert({d.c, d.f});
  for (auto &k : all) {
    std::string p = sc::imgPath(S, k.first, k.second);
    fs::create_directories(fs::path(p).parent_path());
    int how = r.p(0.06) ? r.i(0, 1) : 2;
    if (how == 0)
      continue; // not there any more
    if (how == 1) {
      std::ofstream(p) << "damaged";
      continue;
    }
    auto &K = S.cams[k.first].cam;
    cv::imwrite(p, picture(R->shots, k.first, k.second, K.w, K.h), {cv::IMWRITE_PNG_COMPRESSION, 1});
    R->pictures.insert(k);
  }
}
void pl::checkShots(const std::string &save) {
  vh::Ctx &c = *R->c;
  const sc::Scene &S = *R->s;
  std::set<std::string> want, got;
  auto name = [](bool rep, int cam, int f) {
    char b[60];
    snprintf(b, sizeof b, "%s/%03d/%06d.jpg", rep ? "Reprojection" : "Detection", cam, f);
    return std::string(b);
  };
  for (auto &e : fs::recursive_directory_iterator(save))
    if (e.is_regular_file() && e.path().parent_path() != fs::path(save))
      got.insert(fs::relative(e.path(), save).string());
  for (auto &k : R->pictures)
    for (int rep = 0; rep < 2; rep++)
      if (rep ? S.saveRep : S.saveDet)
        want.insert(name(rep, k.first, k.second));
  for (auto &n : want)
    if (!got.count(n))
      c.fail("F04", "missing", n + " is not written");
  for (auto &n : got)
    if (!want.count(n))
      c.fail("F04", "extra", n + " is written" + (S.saveRep || S.saveDet ? "" : " without being asked for"));
  if (!R->shots)
    return;
  auto is = [](const cv::Vec3b &v, const std::array<int, 3> &w) {
    return std::abs(v[0] - w[0]) < 60 && std::abs(v[1] - w[1]) < 60 && std::abs(v[2] - w[2]) < 60;
  };
  const std::array<int, 3> red{0, 0, 255}, green{0, 255, 0};
  for (auto &k : R->pictures)
    for (int rep = 0; rep < 2; rep++) {
      std::string n = name(rep, k.first, k.second);
      if (!want.count(n) || !got.count(n))
        continue;
      cv::Mat out = cv::imread(save + "/" + n, cv::IMREAD_COLOR), in = picture(R->shots, k.first, k.second, S.cams[k.first].cam.w, S.cams[k.first].cam.h);
      if (out.size() != in.size()) {
        c.fail("F04", "size", n + " is not of the size of its picture");
        continue;
      }
      auto &M = R->marks[k];
      std::vector<V2> at;
      for (auto &m : M) {
        at.push_back(m.seen);
        if (rep)
          at.push_back(m.projected);
      }
      // blocks no mark reaches
      const int B = 16;
      cv::Mat touched((in.rows + B - 1) / B, (in.cols + B - 1) / B, CV_8U, cv::Scalar(0));
      for (auto &p : at)
        for (int y = int(std::floor((p.y() - 7) / B)); y <= int(std::floor((p.y() + 7) / B)); y++)
          for (int x = int(std::floor((p.x() - 7) / B)); x <= int(std::floor((p.x() + 7) / B)); x++)
            if (x >= 0 && y >= 0 && x < touched.cols && y < touched.rows)
              touched.at<uchar>(y, x) = 1;
      cv::Mat dif;
      cv::absdiff(in, out, dif);
      for (int y = 0; y < touched.rows; y++)
        for (int x = 0; x < touched.cols; x++) {
          if (touched.at<uchar>(y, x))
            continue;
          cv::Rect q(x * B, y * B, std::min(B, in.cols - x * B), std::min(B, in.rows - y * B));
          if (cv::norm(dif(q), cv::NORM_INF) > 12) {
            c.fail("F04", "picture", cat(n, " differs from its picture at ", q.x, ",", q.y, ", away from every mark"));
            y = touched.rows;
            break;
          }
          c.cov("blocks_compared");
        }
      // every mark
      auto inside = [&](const V2 &p) { return p.x() >= 1 && p.y() >= 1 && p.x() < in.cols - 1 && p.y() < in.rows - 1; };
      auto others = [&](size_t self, const V2 &p, bool seen, bool proj) { // marks that may cover p
        for (size_t j = 0; j < M.size(); j++)
          if ((seen && j != self && (M[j].seen - p).norm() < 9) || (proj && (M[j].projected - p).norm() < 9))
            return true;
        return false;
      };
      auto pix = [&](const V2 &p) { return out.at<cv::Vec3b>(int(p.y()), int(p.x())); };
      for (size_t j = 0; j < M.size(); j++) {
        auto &m = M[j];
        if (inside(m.seen) && !others(j, m.seen, !rep, rep)) {
          c.cov(rep ? "reprojection_marks_of_corners" : "detection_marks");
          if (!is(pix(m.seen), rep ? green : m.color))
            c.fail("F04", "corner", cat(n, ": no mark of its corner at ", m.seen.x(), ",", m.seen.y()));
        } else if (rep && inside(m.seen) && (m.projected - m.seen).norm() < 6.5) { // both marks in one place
          c.cov("reprojection_marks_together");
          if (auto v = pix(m.seen); std::max(v[1], v[2]) - v[0] < 40) // neither green nor red nor between
            c.fail("F04", "corner", cat(n, ": no mark at ", m.seen.x(), ",", m.seen.y(), ", its reprojection at ", m.projected.x(), ",", m.projected.y(), ", colour ", int(pix(m.seen)[0]), " ", int(pix(m.seen)[1]), " ", int(pix(m.seen)[2])));
        }
        bool alone = rep && inside(m.projected);
        for (size_t q = 0; alone && q < M.size(); q++)
          alone = (M[q].seen - m.projected).norm() > 9;
        if (alone) {
          c.cov("reprojection_marks");
          if (!is(pix(m.projected), red))
            c.fail("F04", "projected", cat(n, ": no mark of its reprojection at ", m.projected.x(), ",", m.projected.y()));
        }
      }
      c.cov(rep ? "reprojection_pictures" : "detection_pictures");
      c.sig(cat("shot ", rep, " ", M.size() / 8, " ", S.kind));
    }
}

void checkFiles(const std::string &dir, const std::string &save, int part) {
  vh::Ctx &c = *R->c;
  const sc::Scene &S = *R->s;
  std::string camPath = save + "/" + (S.camFile.empty() ? "calibrated_cameras_data.yml" : S.camFile);
  CamFile cf = checkCamFile(camPath);
  ObjFile of = checkObjFiles(save);
  checkReprojFile(save + "/reprojection_error_data.yml");
  // ---- F01
  KFile want = kOf(R->fin.dets), got;
  std::map<int, std::pair<int, int>> size;
  std::string why, kp = save + "/detected_keypoints_data.yml";
  if (!readKeypoints(kp, int(S.cams.size()), got, size, why)) {
    c.fail("F01", "file", "keypoint file: " + why);
    return;
  }
  if (!(why = kdiff(want, got)).empty())
    c.fail("F01", "saved", "saved detections: " + why);
  for (auto &z : size)
    if (R->fin.cams.count(z.first) && z.second != std::make_pair(S.cams[z.first].cam.w, S.cams[z.first].cam.h))
      c.fail("F01", "size", cat("camera ", z.first, ": saved image size is wrong"));
  for (auto &d : R->fin.dets)
    if (d.path != sc::imgPath(S, d.c, d.f))
      c.fail("F01", "path", cat("camera ", d.c, " frame ", d.f, ": image path is '", d.path, "'"));
  c.cov("saved_detections_checked", long(want.size()));
  // ---- the saved files explain the detections
  if (R->truth && c.wants("F02")) {
    Rng pick(c.seed + 5);
    std::map<int, int> objOf;
    for (auto &o : of.pts)
      for (auto &p : o.second)
        objOf[int(p[3])] = o.first;
    std::map<std::pair<int, int>, V3> P;
    for (auto &o : of.pts)
      for (auto &p : o.second)
        P[{int(p[3]), int(p[4])}] = V3(p[0], p[1], p[2]);
    int n = 0;
    for (auto &d : R->fin.dets) {
      if (!d.valid || !cf.cams.count(d.c) || !objOf.count(d.b) || pick.p(1 - 40.0 / R->fin.dets.size()))
        continue;
      double best = 1e300;
      for (auto &T : of.poses[objOf[d.b]]) {
        double s = 0;
        for (size_t k = 0; k < d.ids.size(); k++) {
          V2 uv;
          cf.cams[d.c].project(app(cf.pose[d.c] * T, P[{d.b, d.ids[k]}]), uv);
          s += (uv - V2(d.pts[k].x, d.pts[k].y)).norm();
        }
        if (s == s)
          best = std::min(best, s / d.ids.size());
      }
      double lim = (R->exact ? 0.1 : 0.5) + 1.5 * d.err;
      if (!(best <= lim))
        c.fail("F02", "explains", cat("no saved object pose puts board ", d.b, " where camera ", d.c, " saw it in frame ", d.f,
                                      " (", best, " px)"));
      n++;
    }
    c.cov("detections_reproduced_from_files", n);
  }
  // ---- read back: detections and intrinsics
  if (c.wants("F01") || c.wants("F02")) {
    sc::Scene S2 = S;
    S2.precal = true;
    S2.camFile = "";
    std::string cfg = dir + "/again.yml", save2 = dir + "/again";
    sc::writeConfig(S2, cfg, save2, kp, camPath);
    Cal again(cfg);
    again.boardExtraction();
    if (!(why = kdiff(want, kOf(detsOf(again)))).empty())
      c.fail("F01", "reloaded", "reloaded detections: " + why);
    for (auto &k : again.cams_)
      if (R->fin.cams.count(k.first) && (k.second->im_cols_ != S.cams[k.first].cam.w || k.second->im_rows_ != S.cams[k.first].cam.h))
        c.fail("F01", "size", cat("camera ", k.first, ": reloaded image size is wrong"));
    std::filesystem::create_directories(save2);
    again.saveDetectedKeypoints();
    KFile got2;
    std::map<int, std::pair<int, int>> size2;
    if (!readKeypoints(save2 + "/detected_keypoints_data.yml", int(S.cams.size()), got2, size2, why))
      c.fail("F01", "file", "second keypoint file: " + why);
    else if (!(why = kdiff(want, got2)).empty())
      c.fail("F01", "resaved", "saved again: " + why);
    else if (size != size2)
      c.fail("F01", "size", "saved again: other image sizes");
    if (R->fin.cams.size() == S.cams.size() && cf.cams.size() == S.cams.size()) {
      again.initializeCalibrationAllCam();
      for (auto &k : R->fin.cams) {
        Cam a = camOf(*again.cams_[k.first]), b = k.second.cam;
        bool same = a.fx == b.fx && a.fy == b.fy && a.cx == b.cx && a.cy == b.cy;
        for (int i = 0; i < (b.model ? 4 : 5); i++)
          same &= a.d[i] == b.d[i];
        if (!same)
          c.fail("F02", "fed_back", cat("camera ", k.first, ": fed back, the saved intrinsics are not those saved"));
        c.cov("intrinsics_fed_back");
      }
    }
    c.cov("reloads");
  }
}

