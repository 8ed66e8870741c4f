// Detection of boards in folders of rendered pictures (D01-D04, S02, F01, B01).
#include "render.hpp"
#include "vh.hpp"

#include "pipe.hpp"
#include "logger.h"

#define McCalib McCalib_pr // the header defines plain functions, also compiled into the library
#include "point_refinement.h"
#undef McCalib

#include <atomic>
#include <mutex>
#include <thread>

// Pictures are read on the worker threads: delays here vary their schedule.
static std::atomic<uint64_t> g_delay{0}, g_reads{0};
static std::atomic<int> g_inside{0}, g_together{0};
extern "C" {
cv::Mat __real__ZN2cv6imreadERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi(const std::string &, int);
cv::Mat __wrap__ZN2cv6imreadERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi(const std::string &p, int flags) {
  // relaxed: the monitor must not order the threads it watches
  const auto rlx = std::memory_order_relaxed;
  uint64_t d = g_delay.load(rlx);
  if (d) {
    int now = g_inside.fetch_add(1, rlx) + 1, top = g_together.load(rlx);
    while (now > top && !g_together.compare_exchange_weak(top, now, rlx, rlx))
      ;
    uint64_t s = d + g_reads.fetch_add(1, rlx) * 0x9e3779b97f4a7c15ull, x = vh::splitmix(s);
    if (x % 3)
      usleep((x >> 8) % 4000);
    g_inside.fetch_sub(1, rlx);
  }
  return __real__ZN2cv6imreadERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi(p, flags);
}
}

#include "vh_main.inc"

using namespace vh;
using namespace ref;
namespace fs = std::filesystem;

namespace {
struct Frame {
  std::string file; // name in the folder
  bool readable = true;
  std::vector<rd::Placed> boards;
};
using Key = std::tuple<int, int, int>; // camera, frame, board of the configuration
struct World {
  std::string dir, prefix;
  sc::Scene s; // settings carrier
  std::vector<rd::Print> prints;
  std::vector<int> chosen; // configuration board -> printed board
  rd::Lens lens;
  std::vector<std::vector<Frame>> cams;
  double share = 0.4;
  bool refine = false;
  std::map<std::string, std::string> extra;
};
using Dets = std::map<Key, std::map<int, cv::Point2f>>;

std::string folder(const World &w, int c, const std::string &root) {
  char b[40];
  snprintf(b, sizeof b, "%03d", c + 1);
  return root + "/" + w.prefix + b;
}
void config(const World &w, const std::string &path, const std::string &root, double share, bool refine,
            const std::string &keyp = "") {
  auto e = w.extra;
  std::ostringstream sh;
  sh.precision(9);
  sh << share;
  e["min_perc_pts"] = sh.str();
  e["refine_corner"] = refine ? "1" : "0";
  e["root_path"] = "\"" + root + "\"";
  e["cam_prefix"] = "\"" + w.prefix + "\"";
  sc::writeConfig(w.s, path, w.dir + "/out", keyp, "", e);
}
Dets collect(McCalib::Calibration &cal, std::string *dup = nullptr) {
  Dets d;
  for (auto &it : cal.board_observations_) {
    auto &o = *it.second;
    Key k{o.camera_id_, o.frame_id_, o.board_id_};
    if (dup && d.count(k))
      *dup = pl::detName(o.camera_id_, o.frame_id_, o.board_id_);
    auto &m = d[k];
    for (size_t j = 0; j < std::min(o.charuco_id_.size(), o.pts_2d_.size()); j++)
      m[o.charuco_id_[j]] = o.pts_2d_[j];
  }
  return d;
}
std::string name(const Key &k) { return pl::detName(std::get<0>(k), std::get<1>(k), std::get<2>(k)); }
std::string diff(const Dets &a, const Dets &b) {
  for (auto &x : a)
    if (!b.count(x.first))
      return name(x.first) + " is only in the first";
    else if (b.at(x.first) != x.second)
      return name(x.first) + " differs";
  for (auto &x : b)
    if (!a.count(x.first))
      return name(x.first) + " is only in the second";
  return "";
}

World make(Ctx &c, bool small) {
  Rng &r = c.rng;
  World w;
  w.dir = fs::current_path().string() + "/w" + std::to_string(getpid()) + "_" + std::to_string(c.idx);
  fs::create_directories(w.dir);
  static const char *pre[] = {"Cam_", "cam", "", "seq.1_cam-", "C"};
  w.prefix = pre[r.i(0, 4)];
  // printed boards and the selection
  w.s.perBoard = r.p(0.6);
  w.s.useIndex = r.p(0.4);
  int printed = r.i(1, 4);
  std::vector<std::pair<int, int>> size;
  int X = r.i(3, 7), Y = r.i(3, 6);
  if (X * Y == 9)
    X = 4;
  for (int k = 0; k < printed; k++)
    size.push_back(w.s.perBoard ? std::make_pair(r.i(4, 7), r.i(3, 6)) : std::make_pair(X, Y));
  w.chosen.resize(printed);
  std::iota(w.chosen.begin(), w.chosen.end(), 0);
  if (w.s.useIndex) {
    r.shuffle(w.chosen);
    w.chosen.resize(r.i(1, printed));
  }
  double sqLen = r.p(0.5) ? 0.04 : r.u(0.02, 2), ratio = r.p(0.5) ? 0.75 : r.u(0.6, 0.85);
  w.extra["length_square"] = cat(sqLen);
  w.extra["length_marker"] = cat(sqLen * ratio);
  double common = r.u(0.02, 3);
  for (int b : w.chosen) {
    sc::SBoard B;
    B.nx = size[b].first, B.ny = size[b].second, B.dict = b;
    B.sq = w.s.perBoard ? r.u(0.02, 3) : common;
    w.s.boards.push_back(B);
  }
  if (w.s.perBoard) { // sizes of the boards that are not selected matter for the numbers
    std::vector<int> nx, ny;
    for (auto &z : size)
      nx.push_back(z.first), ny.push_back(z.second);
    std::vector<double> sq(printed, 0.5);
    for (auto &B : w.s.boards)
      sq[B.dict] = B.sq;
    w.extra["number_x_square_per_board"] = sc::listOf(nx);
    w.extra["number_y_square_per_board"] = sc::listOf(ny);
    w.extra["square_size_per_board"] = sc::listOf(sq);
  }
  w.extra["number_board"] = cat(printed);
  w.prints = rd::prints(size, sqLen, sqLen * ratio);
  w.share = r.p(0.3) ? r.i(0, 10) / 10. : r.p(0.5) ? r.u(0, 1) : 0.4;
  w.refine = r.p(0.6);
  w.lens = {r.u(500, 900), 0, 0, 64 * r.i(9, 11), 48 * r.i(9, 11)};
  w.lens.cx = w.lens.w / 2. + r.u(-20, 20), w.lens.cy = w.lens.h / 2. + r.u(-20, 20);
  int ncam = r.i(1, small ? 2 : 3), nframe = small ? r.i(2, 3) : r.i(2, 5);
  for (int k = 0; k < ncam; k++) {
    sc::SCam C;
    C.cam.model = 0;
    C.cam.fx = C.cam.fy = w.lens.f, C.cam.cx = w.lens.cx, C.cam.cy = w.lens.cy, C.cam.w = w.lens.w, C.cam.h = w.lens.h;
    w.s.cams.push_back(C);
    w.cams.emplace_back();
    fs::create_directories(folder(w, k, w.dir + "/in"));
    std::vector<std::string> names;
    static const char *ext[] = {"png", "bmp", "jpg", "jpeg", "png", "tiff"};
    for (int f = 0; f < nframe; f++) {
      char b[60];
      int style = r.i(0, 2);
      snprintf(b, sizeof b, style == 0 ? "%06d" : style == 1 ? "img.%d" : "%d", style == 0 ? f : r.i(0, 400) * 10 + f);
      names.push_back(std::string(b) + "." + ext[r.i(0, 5)]);
    }
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
      Frame F;
      F.file = n;
      w.cams[k].push_back(F);
    }
    // files that are not pictures
    if (r.p(0.5))
      std::ofstream(folder(w, k, w.dir + "/in") + "/000.txt") << "notes";
    if (r.p(0.3))
      std::ofstream(folder(w, k, w.dir + "/in") + "/Thumbs.db") << "junk";
    if (r.p(0.3))
      std::ofstream(folder(w, k, w.dir + "/in") + "/0000.png.part") << "junk";
  }
  for (int k = 0; k < ncam; k++)
    for (size_t f = 0; f < w.cams[k].size(); f++) {
      Frame &F = w.cams[k][f];
      std::string path = folder(w, k, w.dir + "/in") + "/" + F.file;
      if (f > 0 && r.p(0.1)) { // a damaged picture keeps its place
        F.readable = false;
        std::ofstream o(path);
        int how = r.i(0, 2);
        if (how == 1)
          o << "not a picture";
        if (how == 2)
          o << std::string("\x89PNG\r\n\x1a\n\0\0\0\rIHDR", 16);
        continue;
      }
      cv::Mat canvas = rd::background(w.lens, r);
      std::vector<int> who(printed);
      std::iota(who.begin(), who.end(), 0);
      r.shuffle(who);
      int n = r.p(0.1) ? 0 : r.i(1, std::min(printed, 3));
      for (int j = 0; j < n; j++) {
        rd::Placed b;
        b.print = who[j];
        const rd::Print &p = w.prints[b.print];
        int conf = -1;
        for (size_t q = 0; q < w.chosen.size(); q++)
          if (w.chosen[q] == b.print)
            conf = int(q);
        b.sq = conf >= 0 ? w.s.boards[conf].sq : 0.5;
        // a column of the picture per board
        double cw = double(w.lens.w) / n, diag = std::hypot(p.nx + 1.0, p.ny + 1.0) * b.sq;
        double spanPx = n == 1 ? r.u(0.7, 1.0) * w.lens.h : r.u(0.9, 1.15) * std::min(cw, double(w.lens.h));
        double z = w.lens.f * diag / spanPx;
        V3 mid((cw * (j + 0.5) - w.lens.cx + (n == 1 ? r.u(-0.15, 0.15) * w.lens.w : 0)) / w.lens.f * z,
               (w.lens.h * r.u(0.42, 0.58) - w.lens.cy) / w.lens.f * z, z);
        M3 R = expm(V3(r.n(), r.n(), 0) * 0.3) * expm(V3(0, 0, r.u(-M_PI, M_PI)));
        b.T = rd::facing(p, b.sq, R, mid);
        b.hidden.assign(p.nx * p.ny, 0);
        double hide = r.u();
        if (hide < 0.2) { // keep a few rows or columns of squares
          bool row = r.p(0.5);
          int len = row ? p.ny : p.nx, keep = r.i(2, std::min(3, len)), at = r.i(0, len - keep);
          for (int y = 0; y < p.ny; y++)
            for (int x = 0; x < p.nx; x++)
              b.hidden[y * p.nx + x] = (row ? y : x) < at || (row ? y : x) >= at + keep;
        } else if (hide < 0.45) {
          double share = r.u(0.05, 0.6);
          for (auto &h : b.hidden)
            h = r.p(share);
        }
        rd::paint(canvas, w.lens, p, b, r);
        F.boards.push_back(b);
      }
      cv::Mat img = rd::shoot(canvas, w.lens, r.p(0.5) ? 0 : r.u(0.5, 3), r);
      cv::imwrite(path, img);
    }
  return w;
}

// detections of the whole folder
struct Got {
  Dets d;
  std::string dup;
  std::vector<Key> order;
  std::unique_ptr<McCalib::Calibration> cal;
};
Got detect(const World &w, const std::string &conf, uint64_t delay) {
  Got g;
  g.cal.reset(new McCalib::Calibration(conf));
  g_reads = 0;
  g_delay = delay;
  g.cal->boardExtraction();
  g_delay = 0;
  g.d = collect(*g.cal, &g.dup);
  for (auto &it : g.cal->board_observations_)
    g.order.emplace_back(it.second->camera_id_, it.second->frame_id_, it.second->board_id_);
  return g;
}
// each picture on its own, one after the other, through the same code
Dets oneByOne(const World &w) {
  Dets all;
  std::string solo = w.dir + "/solo";
  for (size_t k = 0; k < w.cams.size(); k++)
    for (size_t f = 0; f < w.cams[k].size(); f++) {
      if (!w.cams[k][f].readable)
        continue;
      fs::remove_all(solo);
      for (size_t q = 0; q < w.cams.size(); q++)
        fs::create_directories(folder(w, q, solo));
      fs::create_hard_link(folder(w, k, w.dir + "/in") + "/" + w.cams[k][f].file, folder(w, k, solo) + "/" + w.cams[k][f].file);
      config(w, w.dir + "/solo.yml", solo, w.share, w.refine);
      McCalib::Calibration cal(w.dir + "/solo.yml");
      cal.boardExtraction();
      for (auto &d : collect(cal)) {
        auto [c2, f2, b2] = d.first;
        all[Key{c2, int(f) + f2, b2}] = d.second;
      }
    }
  return all;
}

void body(Ctx &c, World &w) {
  Rng &r = c.rng;
  const std::string in = w.dir + "/in", conf = w.dir + "/conf.yml";
  config(w, conf, in, w.share, w.refine);
  int pics = 0;
  for (auto &k : w.cams)
    pics += int(k.size());
  c.desc = cat(w.cams.size(), " cameras ", pics, " pictures ", w.chosen.size(), " of ", w.prints.size(), " boards share ", w.share,
               w.refine ? " refined" : "", " prefix '", w.prefix, "'");
  Got got = detect(w, conf, r.g() | 1);
  auto &cal = *got.cal;
  c.cov("pictures", pics);
  c.cov("detections", long(got.d.size()));
  c.covmax("max_reads_at_once", g_together.exchange(0));
  if (!got.dup.empty())
    c.fail("D02", "twice", got.dup + " was registered twice");

  // --- against the specification, applied to our own detection
  std::map<Key, rd::Seen> seen;
  std::map<std::pair<int, int>, cv::Mat> gray;
  if (c.wants("D01") || c.wants("D03") || c.wants("D04") || c.wants("S02"))
    for (size_t k = 0; k < w.cams.size(); k++)
      for (size_t f = 0; f < w.cams[k].size(); f++) {
        if (!w.cams[k][f].readable)
          continue;
        cv::Mat img = cv::imread(folder(w, k, in) + "/" + w.cams[k][f].file);
        cv::cvtColor(img, gray[{int(k), int(f)}], cv::COLOR_BGR2GRAY);
        for (size_t b = 0; b < w.chosen.size(); b++)
          seen[Key{int(k), int(f), int(b)}] = rd::look(img, w.prints[w.chosen[b]]);
      }
  std::vector<sc::Det> dets;
  for (auto &sn : seen) {
    auto [k, f, b] = sn.first;
    const rd::Print &p = w.prints[w.chosen[b]];
    const rd::Seen &s = sn.second;
    int v = rd::verdict(p, s, w.share);
    auto it = got.d.find(sn.first);
    bool have = it != got.d.end();
    c.cov(v == 1 ? "must_accept" : v == 0 ? (s.ids.empty() ? "not_there" : "must_reject") : "borderline");
    c.sig(cat("verdict", v, have, p.nx, p.ny, s.ids.size(), int(w.share * 10)));
    if (v == 1 && !have) {
      std::string m = cat(name(sn.first), ": ", s.ids.size(), " of ", (p.nx - 1) * (p.ny - 1), " corners visible, share ", w.share,
                          ", spread ", rd::spread(p, s.ids), ", not accepted");
      c.fail("D03", "rejected", m);
      c.fail("D01", "missed", m);
      if (w.refine)
        c.fail("D04", "missed", m);
    }
    if (v == 0 && have) {
      std::string m = cat(name(sn.first), ": ", s.ids.size(), " of ", (p.nx - 1) * (p.ny - 1), " corners visible, share ", w.share,
                          ", spread ", rd::spread(p, s.ids), ", accepted");
      c.fail("D03", "accepted", m);
      if (s.ids.empty())
        c.fail("D01", "ghost", m);
    }
    if (!have)
      continue;
    sc::Det d;
    d.c = k, d.f = f, d.b = b;
    std::vector<int> gi;
    for (auto &q : it->second)
      gi.push_back(q.first);
    std::vector<int> wi = s.ids;
    std::sort(wi.begin(), wi.end());
    if (gi != wi) {
      c.fail("D01", "numbers", cat(name(sn.first), ": ", gi.size(), " corner numbers instead of ", wi.size(), " or others"));
      continue;
    }
    const rd::Placed *truth = nullptr;
    for (auto &pb : w.cams[k][f].boards)
      if (pb.print == w.chosen[b])
        truth = &pb;
    if (!truth)
      c.fail("D01", "ghost", name(sn.first) + " is not in the picture");
    std::vector<McCalib_pr::SaddlePoint> alone;
    std::vector<cv::Point2f> want = s.raw;
    int lost = 0;
    for (size_t j = 0; j < s.ids.size(); j++) {
      cv::Point2f g = it->second.at(s.ids[j]);
      if (w.refine) {
        McCalib_pr::saddleSubpixelRefinement(gray[{k, f}], std::vector<cv::Point2f>{s.raw[j]}, alone, 5, 20);
        if (std::isinf(alone[0].x) || std::isinf(alone[0].y))
          lost++;
        else
          want[j] = cv::Point2f(float(alone[0].x), float(alone[0].y));
        c.cov("corners_refined");
      }
      d.ids.push_back(s.ids[j]);
      d.pts.push_back(g);
      double off = std::max(std::fabs(g.x - want[j].x), std::fabs(g.y - want[j].y));
      if (off > 1e-3)
        c.fail(w.refine ? "D04" : "D01", w.refine ? "refined" : "position",
               cat(name(sn.first), " corner ", s.ids[j], " is ", off, " pixels from where it was ",
                   w.refine ? (want[j] == s.raw[j] ? "detected, though it cannot be refined" : "refined alone") : "detected"));
      if (truth && truth->clean(p, s.ids[j])) {
        V2 t = truth->truth[s.ids[j]];
        double e = std::hypot(g.x - t.x(), g.y - t.y());
        c.covmax(w.refine ? "max_truth_error_refined_mpx" : "max_truth_error_raw_mpx", long(e * 1000));
        c.cov("corners_against_truth");
        if (e > 8)
          c.fail("D01", "truth", cat(name(sn.first), " corner ", s.ids[j], " of ", p.nx, "x", p.ny, " is ", e, " pixels from the truth"));
      }
    }
    c.cov("corners_left_unrefined", lost);
    dets.push_back(d);
  }
  if (c.wants("D01") && !seen.empty()) {
    for (auto &g : got.d)
      if (!seen.count(g.first))
        c.fail("D01", "ghost", name(g.first) + " comes from no readable picture");
    for (size_t k = 0; k < w.cams.size(); k++)
      if (!w.cams[k].empty() && (cal.cams_[k]->im_cols_ != w.lens.w || cal.cams_[k]->im_rows_ != w.lens.h))
        c.fail("D01", "size", cat("camera ", k, " has size ", cal.cams_[k]->im_cols_, "x", cal.cams_[k]->im_rows_));
  }
  if (c.wants("S02") && !seen.empty())
    pl::checkRegistered(cal, dets, c, [&](int k, int f) {
      return f < int(w.cams[k].size()) ? folder(w, k, in) + "/" + w.cams[k][f].file : std::string("?");
    });

  // --- other schedules, and none at all
  if (c.wants("D02")) {
    Dets seq = oneByOne(w);
    std::string why = diff(got.d, seq);
    if (!why.empty())
      c.fail("D02", "sequential", "all at once against one after the other: " + why);
    c.sig(cat("order", r.g() * 0, [&] {
      std::string o;
      for (auto &k : got.order)
        o += name(k) + ";";
      return o;
    }()));
    for (int rep = 0; rep < 3; rep++) {
      Got g2 = detect(w, conf, r.g() | 1);
      why = diff(g2.d, got.d);
      if (!g2.dup.empty())
        c.fail("D02", "twice", g2.dup + " was registered twice");
      if (!why.empty())
        c.fail("D02", "schedule", "another schedule: " + why);
      std::string o;
      for (auto &k : g2.order)
        o += name(k) + ";";
      c.sig(cat("order", o));
      c.cov("schedules");
      c.covmax("max_reads_at_once", g_together.exchange(0));
    }
  }
  // --- another share selects otherwise and changes nothing else
  if (c.wants("D03")) {
    double other = r.p(0.5) ? r.u() : r.i(0, 10) / 10.;
    config(w, w.dir + "/conf2.yml", in, other, w.refine);
    Got g2 = detect(w, w.dir + "/conf2.yml", 0);
    for (auto &x : other < w.share ? got.d : g2.d) {
      auto &big = other < w.share ? g2.d : got.d;
      if (!big.count(x.first))
        c.fail("D03", "monotone", cat(name(x.first), " is accepted at share ", std::max(other, w.share), " but not at ", std::min(other, w.share)));
      else if (big.at(x.first) != x.second)
        c.fail("D03", "share", cat(name(x.first), " changes with the share"));
      c.cov("shares_compared");
    }
    for (auto &sn : seen) {
      auto [k, f, b] = sn.first;
      int v = rd::verdict(w.prints[w.chosen[b]], sn.second, other);
      bool have = g2.d.count(sn.first);
      if ((v == 1 && !have) || (v == 0 && have))
        c.fail("D03", have ? "accepted" : "rejected", cat(name(sn.first), " with ", sn.second.ids.size(), " corners at share ", other));
    }
  }
  // --- saved and loaded again
  if (c.wants("F01") && !got.d.empty()) {
    bool all = true; // every camera saw something
    std::set<int> cams;
    for (auto &d : got.d)
      cams.insert(std::get<0>(d.first));
    all = cams.size() == w.cams.size();
    cal.saveDetectedKeypoints();
    std::string kp = w.dir + "/out/detected_keypoints_data.yml";
    config(w, w.dir + "/conf3.yml", "/nonexistent", w.share, w.refine, kp);
    if (all) {
      McCalib::Calibration c3(w.dir + "/conf3.yml");
      c3.boardExtraction();
      std::string why = diff(got.d, collect(c3));
      c.cov("reloads");
      if (!why.empty())
        c.fail("F01", "reloaded", "detections from pictures against reloaded ones: " + why);
      for (size_t k = 0; k < w.cams.size(); k++)
        if (c3.cams_[k]->im_cols_ != w.lens.w || c3.cams_[k]->im_rows_ != w.lens.h)
          c.fail("F01", "size", cat("camera ", k, ": reloaded size is ", c3.cams_[k]->im_cols_, "x", c3.cams_[k]->im_rows_));
    }
  }
}
} // namespace

SUITE(img) {
  World w = make(c, getenv("VERIF_SLOW") != nullptr);
  body(c, w);
  fs::remove_all(w.dir);
}
