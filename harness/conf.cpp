// Configuration files (C01) and printed boards (B01).
#include "pipe.hpp"
#include "render.hpp"
#include "vh_main.inc"
#include <sys/stat.h>
#include <sys/wait.h>

using namespace vh;
using namespace ref;
namespace fs = std::filesystem;
int create_charuco_boards_app_main(int argc, char **argv);

namespace {
struct Dir {
  std::string d;
  explicit Dir(int idx) : d(cat(fs::current_path().string(), "/c", getpid(), "_", idx)) { fs::create_directories(d); }
  ~Dir() {
    std::error_code e;
    fs::remove_all(d, e);
  }
};
// a configuration as the documentation describes it, and what it must mean
struct Conf {
  int nb = 1; // number_board
  std::vector<int> index, xs, ys, rx, ry, dist;
  std::vector<double> sq;
  int nx = 5, ny = 5, ncam = 1, model = 0, rx0 = 500, ry0 = 500, refine = 1, qavg = 1, iters = 1000, he = 0, fix = 0;
  int savedet = 0, saverep = 0;
  double lsq = 0.04, lm = 0.03, sq0 = 0.1, share = 0.5, thr = 10;
  std::string root, prefix, cp, kp, save, camfile;
  bool hasFix = true, hasRes = true;
  int chosen() const { return index.empty() ? nb : int(index.size()); }
  int printed() const { // numbers of boards that exist
    return index.empty() ? nb : std::max(nb, *std::max_element(index.begin(), index.end()) + 1);
  }
  int number(int k) const { return index.empty() ? k : index[k]; }
  int X(int n) const { return xs.empty() ? nx : xs[n]; }
  int Y(int n) const { return ys.empty() ? ny : ys[n]; }
  double S(int n) const { return sq.empty() ? sq0 : sq[n]; }
  int RX(int n) const { return rx.empty() ? rx0 : rx[n]; }
  int RY(int n) const { return ry.empty() ? ry0 : ry[n]; }
  int D(int c) const { return dist.empty() ? model : dist[c]; }
};
int markers(int nx, int ny) { return nx * ny / 2; }

Conf make(Rng &r, bool print) {
  Conf k;
  k.nb = r.p(0.3) ? 1 : r.i(2, print ? 5 : 12);
  bool sel = r.p(0.45);
  if (sel) {
    int top = r.i(1, print ? 6 : 14);
    std::vector<int> all(top);
    std::iota(all.begin(), all.end(), 0);
    r.shuffle(all);
    all.resize(r.i(1, top));
    k.index = all;
    int most = *std::max_element(all.begin(), all.end()) + 1;
    k.nb = print || r.p(0.4) ? most + r.i(0, 1) : int(all.size()); // both are seen in the example files
  }
  int n = k.printed(), budget = 990 / n; // markers in the dictionary
  auto side = [&] { return r.i(3, print ? 7 : 10); };
  auto fit = [&](int &x, int &y) {
    while (markers(x, y) > budget)
      (x > y ? x : y)--;
    if (x == 3 && y == 3)
      x = 4;
  };
  k.nx = side(), k.ny = side();
  fit(k.nx, k.ny);
  bool both = r.p(0.55);
  if (both) {
    for (int j = 0; j < n; j++) {
      int x = side(), y = side();
      fit(x, y);
      k.xs.push_back(x), k.ys.push_back(y);
    }
  }
  if (r.p(both ? 0.6 : 0.3))
    for (int j = 0; j < n; j++)
      k.sq.push_back(r.u(0.01, 30));
  k.sq0 = r.p(0.5) ? r.u(0.01, 1) : r.i(1, 200);
  k.lsq = r.p(0.6) ? 0.04 : r.u(0.01, 5);
  k.lm = k.lsq * (print ? r.u(0.68, 0.76) : r.u(0.5, 0.95)); // larger ones merge with their squares in detection
  int cell = print ? r.i(48, 70) : 60;
  k.rx0 = 20 + cell * k.nx + r.i(0, 60), k.ry0 = 20 + cell * k.ny + r.i(0, 60);
  if (both && (print || r.p(0.5)))
    for (int j = 0; j < n; j++)
      k.rx.push_back(20 + cell * k.X(j) + r.i(0, 60)), k.ry.push_back(20 + cell * k.Y(j) + r.i(0, 60));
  if (print && both && k.sq.empty() && r.p(0.4)) // one resolution for all
    k.rx.clear(), k.ry.clear(), k.rx0 = k.ry0 = 20 + cell * 7;
  if (print && both && !k.sq.empty() && r.p(0.3))
    k.rx.clear(), k.ry.clear(), k.rx0 = k.ry0 = 20 + cell * 7;
  k.ncam = r.i(1, 12);
  k.model = r.i(0, 1);
  if (r.p(0.5))
    for (int j = 0; j < k.ncam; j++)
      k.dist.push_back(r.i(0, 1));
  k.refine = r.i(0, 1), k.qavg = r.i(0, 1), k.he = r.i(0, 1), k.fix = r.i(0, 1), k.savedet = r.i(0, 1), k.saverep = r.i(0, 1);
  k.share = r.i(0, 20) / 20., k.thr = r.p(0.5) ? r.i(1, 30) : r.u(0.5, 50), k.iters = r.i(1, 5000);
  static const char *pre[] = {"Cam_", "cam", "", "left cam ", "C-"};
  k.prefix = pre[r.i(0, 4)];
  static const char *root[] = {"/data/seq", "../relative/Images", "/with space/a", "images/"};
  k.root = root[r.i(0, 3)];
  k.cp = r.p(0.5) ? "None" : "/some/cams.yml";
  k.kp = r.p(0.5) ? "None" : "some/keypoints file.yml";
  k.camfile = r.p(0.5) ? "" : "mine.yml";
  k.hasFix = r.p(0.7);
  if (!k.hasFix)
    k.fix = 0; // not in the documented example
  k.hasRes = print || r.p(0.6);
  return k;
}
template <class T> std::string num(T x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}
void write(const Conf &k, const std::string &path, Rng &r) {
  std::vector<std::pair<std::string, std::string>> kv = {
      {"number_x_square", num(k.nx)}, {"number_y_square", num(k.ny)}, {"resolution_x", num(k.rx0)}, {"resolution_y", num(k.ry0)},
      {"length_square", num(k.lsq)}, {"length_marker", num(k.lm)}, {"number_board", num(k.nb)}, {"boards_index", sc::listOf(k.index)},
      {"square_size", num(k.sq0)}, {"number_x_square_per_board", sc::listOf(k.xs)}, {"number_y_square_per_board", sc::listOf(k.ys)},
      {"square_size_per_board", sc::listOf(k.sq)}, {"distortion_model", num(k.model)}, {"distortion_per_camera", sc::listOf(k.dist)},
      {"number_camera", num(k.ncam)}, {"refine_corner", num(k.refine)}, {"min_perc_pts", num(k.share)},
      {"cam_params_path", "\"" + k.cp + "\""}, {"root_path", "\"" + k.root + "\""}, {"cam_prefix", "\"" + k.prefix + "\""},
      {"keypoints_path", "\"" + k.kp + "\""}, {"quaternion_averaging", num(k.qavg)}, {"ransac_threshold", num(k.thr)},
      {"number_iterations", num(k.iters)}, {"he_approach", num(k.he)}, {"save_path", "\"" + k.save + "\""},
      {"save_detection", num(k.savedet)}, {"save_reprojection", num(k.saverep)},
      {"camera_params_file_name", "\"" + k.camfile + "\""}};
  if (k.hasFix)
    kv.push_back({"fix_intrinsic", num(k.fix)});
  if (k.hasRes) {
    kv.push_back({"resolution_x_per_board", sc::listOf(k.rx)});
    kv.push_back({"resolution_y_per_board", sc::listOf(k.ry)});
  }
  if (r.p(0.7))
    r.shuffle(kv);
  std::ofstream f(path);
  f << "%YAML:1.0\n---\n";
  for (auto &x : kv) {
    if (r.p(0.15))
      f << "######## section #######\n";
    if (r.p(0.1))
      f << "\n";
    f << x.first << ": " << x.second << (r.p(0.3) ? "   # a comment: [1,2]" : "") << "\n";
  }
}
std::string shape(const Conf &k) {
  return cat(k.ncam, " cameras", k.dist.empty() ? "" : " (per camera)", ", ", k.nb, " boards", k.index.empty() ? "" : " selected ",
             k.index.empty() ? "" : sc::listOf(k.index), k.xs.empty() ? "" : " counts per board", k.sq.empty() ? "" : " sizes per board",
             k.rx.empty() ? "" : " resolutions per board");
}
bool sameNum(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }
} // namespace

SUITE(conf) {
  Rng &r = c.rng;
  Dir dir(c.idx);
  Conf k = make(r, false);
  k.save = dir.d + (r.p(0.5) ? "/out" : "/new/deep er/out");
  std::string path = dir.d + "/my config.yml";
  write(k, path, r);
  c.desc = shape(k);
  c.sig(cat("conf", k.ncam, k.nb, k.index.size(), k.dist.size(), k.xs.size(), k.sq.size()));
  McCalib::Calibration cal{fs::path(path)};
  auto is = [&](const char *n, double got, double want) {
    if (!sameNum(got, want))
      c.fail("C01", "setting", cat(n, " is ", got, " instead of ", want));
    c.cov("settings_checked");
  };
  auto text = [&](const char *n, const std::string &got, const std::string &want) {
    if (got != want)
      c.fail("C01", "setting", cat(n, " is '", got, "' instead of '", want, "'"));
    c.cov("settings_checked");
  };
  is("number of cameras", cal.nb_camera_, k.ncam);
  is("number of cameras made", cal.cams_.size(), k.ncam);
  for (auto &cm : cal.cams_)
    is("camera model", cm.second->distortion_model_, cm.first >= 0 && cm.first < k.ncam ? k.D(cm.first) : -1);
  is("number of boards", cal.nb_board_, k.chosen());
  is("number of boards made", cal.boards_3d_.size(), k.chosen());
  std::set<int> ids;
  for (int b = 0; b < k.chosen(); b++) {
    auto it = cal.boards_3d_.find(b);
    if (it == cal.boards_3d_.end()) {
      c.fail("C01", "board", cat("no board ", b));
      continue;
    }
    auto &B = *it->second;
    int n = k.number(b);
    is("squares in x", B.nb_x_square_, k.X(n));
    is("squares in y", B.nb_y_square_, k.Y(n));
    is("corners of a board", B.nb_pts_, (k.X(n) - 1) * (k.Y(n) - 1));
    is("points of a board", B.pts_3d_.size(), (k.X(n) - 1) * (k.Y(n) - 1));
    for (int q = 0; q < int(B.pts_3d_.size()); q++) {
      auto &P = B.pts_3d_[q];
      int m = k.X(n) - 1;
      if (!sameNum(P.x, (q % m) * k.S(n)) || !sameNum(P.y, (q / m) * k.S(n)) || P.z != 0) {
        c.fail("C01", "board", cat("point ", q, " of board ", b, " (number ", n, ") is at ", P.x, " ", P.y, " ", P.z, ", squares of ", k.S(n)));
        break;
      }
    }
    if (!B.charuco_board_) {
      c.fail("C01", "board", cat("board ", b, " has no pattern"));
      continue;
    }
    cv::Size z = B.charuco_board_->getChessboardSize();
    is("squares of the pattern in x", z.width, k.X(n));
    is("squares of the pattern in y", z.height, k.Y(n));
    is("marker share of the pattern", B.charuco_board_->getMarkerLength() / B.charuco_board_->getSquareLength(), k.lm / k.lsq);
    int first = 0;
    for (int q = 0; q < n; q++)
      first += markers(k.X(q), k.Y(q));
    is("markers of the pattern", B.charuco_board_->ids.size(), markers(k.X(n), k.Y(n)));
    for (size_t q = 0; q < B.charuco_board_->ids.size(); q++)
      if (B.charuco_board_->ids[q] != first + int(q)) {
        c.fail("B01", "markers", cat("marker ", q, " of board ", n, " carries number ", B.charuco_board_->ids[q], " instead of ", first + int(q)));
        break;
      }
    for (int id : B.charuco_board_->ids)
      if (!ids.insert(id).second) {
        c.fail("B01", "disjoint", cat("two boards carry marker ", id));
        break;
      }
    c.cov("boards_checked");
  }
  is("refine_corner", cal.refine_corner_, k.refine);
  is("min_perc_pts", cal.min_perc_pts_, k.share);
  is("quaternion_averaging", cal.quaternion_averaging_, k.qavg);
  is("ransac_threshold", cal.ransac_thresh_, k.thr);
  is("number_iterations", cal.nb_iterations_, k.iters);
  is("he_approach", cal.he_approach_, k.he);
  is("fix_intrinsic", cal.fix_intrinsic_, k.fix);
  is("save_detection", cal.save_detect_, k.savedet);
  is("save_reprojection", cal.save_repro_, k.saverep);
  text("root_path", cal.root_path_.string(), k.root);
  text("cam_prefix", cal.cam_prefix_, k.prefix);
  text("save_path", cal.save_path_.string(), k.save);
  text("cam_params_path", cal.cam_params_path_.string(), k.cp);
  text("keypoints_path", cal.keypoints_path_.string(), k.kp);
  text("camera_params_file_name", cal.camera_params_file_name_.string(), k.camfile);
  if (!fs::is_directory(k.save))
    c.fail("C01", "save_path", "the output folder does not exist after reading the configuration");
  c.cov("configurations");
}

// ------------------------------------------------- files that are no configuration
namespace {
struct Ran {
  int code = -1, sig = 0;
};
Ran run(const std::string &exe, const std::vector<std::string> &args, const std::string &cwd) {
  Ran r;
  pid_t p = fork();
  if (p == 0) {
    if (chdir(cwd.c_str()))
      _exit(126);
    freopen("/dev/null", "w", stdout);
    freopen((cwd + "/../stderr").c_str(), "w", stderr);
    std::vector<char *> av{const_cast<char *>(exe.c_str())};
    for (auto &a : args)
      av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    alarm(60);
    execv(exe.c_str(), av.data());
    _exit(127);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st))
    r.code = WEXITSTATUS(st);
  else
    r.sig = WTERMSIG(st);
  return r;
}
std::vector<std::string> files(const std::string &d) {
  std::vector<std::string> v;
  for (auto &e : fs::recursive_directory_iterator(d))
    v.push_back(e.path().string());
  std::sort(v.begin(), v.end());
  return v;
}
} // namespace

SUITE(refuse) {
  static const char *apps[] = {"CALIBRATE", "CREATE_CHARUCO_BOARDS"};
  static const char *ways[] = {"no argument", "missing file", "missing folder", "a folder", "ending without a dot",
                               "other ending", "no ending", "empty name", "upper-case ending"};
  const char *app = apps[c.idx % 2];
  int way = c.idx / 2 % 9;
  const char *exe = getenv(cat("VH_APP_", app, "_", "REL").c_str());
  c.desc = cat(app, ": ", ways[way]);
  if (!exe)
    throw std::runtime_error("no application to run");
  Dir dir(c.idx);
  std::string cwd = dir.d + "/cwd", conf = dir.d + "/conf";
  fs::create_directories(cwd);
  fs::create_directories(conf);
  Conf k = make(c.rng, true);
  k.save = cwd + "/out";
  k.root = cwd + "/none";
  std::vector<std::string> args;
  switch (way) {
  case 0:
    break;
  case 1:
    args = {conf + "/absent.yml"};
    break;
  case 2:
    args = {conf + "/absent/x.yml"};
    break;
  case 3:
    args = {conf + "/"};
    break;
  case 4:
    write(k, conf + "/config_yml", c.rng);
    args = {conf + "/config_yml"};
    break;
  case 5:
    write(k, conf + "/c.yaml.txt", c.rng);
    args = {conf + "/c.yaml.txt"};
    break;
  case 6:
    write(k, conf + "/config", c.rng);
    args = {conf + "/config"};
    break;
  case 7:
    args = {""};
    break;
  case 8:
    write(k, conf + "/c.YML", c.rng);
    args = {conf + "/c.YML"};
    break;
  }
  Ran x = run(exe, args, cwd);
  std::string err;
  {
    std::ifstream f(dir.d + "/stderr");
    err.assign(std::istreambuf_iterator<char>(f), {});
  }
  if (x.sig)
    c.fail("C01", "crash", cat(c.desc, ": killed by signal ", x.sig));
  else if (x.code == 0)
    c.fail("C01", "accepted", cat(c.desc, ": reported success"));
  if (x.code == 126 || x.code == 127)
    throw std::runtime_error("the application did not start");
  if (err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos)
    c.fail("C01", "crash", cat(c.desc, ": ", err.substr(0, 300)));
  auto left = files(cwd);
  std::string made;
  for (auto &f : left)
    if (f.find("/Logs") == std::string::npos && f.find(".log") == std::string::npos)
      made += f + " ";
  if (!made.empty())
    c.fail("C01", "wrote", cat(c.desc, ": wrote ", made));
  c.cov("refusals");
  c.sig(c.desc);
}

// -------------------------------------------------------------- printed boards
SUITE(boards) {
  Rng &r = c.rng;
  Dir dir(c.idx);
  Conf k = make(r, true);
  k.save = dir.d + "/out";
  k.root = dir.d + "/in";
  k.kp = k.cp = "None";
  k.prefix = "Cam_";
  k.ncam = 1;
  k.dist.clear();
  k.model = 0;
  k.share = 0.4;
  std::string path = dir.d + "/conf.yml";
  write(k, path, r);
  c.desc = shape(k);
  c.sig(cat("boards", k.nb, k.index.size(), k.xs.size(), k.sq.size(), k.rx.size()));
  // print
  std::string cwd = fs::current_path().string(), at = dir.d + "/print";
  fs::create_directories(at);
  int rc;
  {
    fs::current_path(at);
    std::string a0 = "generate";
    char *argv[] = {&a0[0], &path[0], nullptr};
    struct Back {
      std::string d;
      std::streambuf *old;
      std::ostringstream sink;
      Back(const std::string &x) : d(x) { old = std::cout.rdbuf(sink.rdbuf()); }
      ~Back() {
        std::cout.rdbuf(old);
        fs::current_path(d);
      }
    } back(cwd);
    rc = create_charuco_boards_app_main(2, argv);
  }
  if (rc)
    c.fail("B01", "exit", cat("the generator returned ", rc));
  std::map<int, cv::Mat> pic;
  int count = 0;
  for (auto &f : files(at))
    count += fs::is_regular_file(f);
  if (count != k.nb)
    c.fail("B01", "count", cat(count, " files for ", k.nb, " boards"));
  for (int n = 0; n < k.nb; n++) {
    char b[60];
    snprintf(b, sizeof b, "/charuco_boards/charuco_board_%03d.bmp", n);
    cv::Mat m = cv::imread(at + b);
    if (m.empty()) {
      c.fail("B01", "missing", cat("no picture ", b));
      continue;
    }
    if (m.cols != k.RX(n) || m.rows != k.RY(n))
      c.fail("B01", "resolution", cat("board ", n, " is ", m.cols, "x", m.rows, " instead of ", k.RX(n), "x", k.RY(n)));
    pic[n] = m;
    c.cov("pictures");
  }
  // look for the boards in the pictures, one frame per printed board, framed by
  // a white margin, in random order
  std::vector<int> order;
  for (auto &p : pic)
    order.push_back(p.first);
  r.shuffle(order);
  fs::create_directories(k.root + "/Cam_001");
  int W = 0, H = 0;
  for (auto &p : pic)
    W = std::max(W, p.second.cols), H = std::max(H, p.second.rows);
  const int pad = 20;
  for (size_t f = 0; f < order.size(); f++) {
    cv::Mat sheet(H + 2 * pad, W + 2 * pad, CV_8UC3, cv::Scalar(255, 255, 255));
    pic[order[f]].copyTo(sheet(cv::Rect(pad, pad, pic[order[f]].cols, pic[order[f]].rows)));
    char b[40];
    snprintf(b, sizeof b, "/Cam_001/%04d.png", int(f));
    cv::imwrite(k.root + b, sheet);
  }
  McCalib::Calibration cal{fs::path(path)};
  cal.boardExtraction();
  std::map<int, int> where; // board number -> board of the calibration
  for (int b = 0; b < k.chosen(); b++)
    where[k.number(b)] = b;
  std::map<std::pair<int, int>, McCalib::BoardObs *> got;
  for (auto &o : cal.board_observations_)
    got[{o.second->frame_id_, o.second->board_id_}] = o.second.get();
  for (size_t f = 0; f < order.size(); f++) {
    int n = order[f];
    for (int b = 0; b < k.chosen(); b++) {
      auto it = got.find({int(f), b});
      bool mine = where.count(n) && where[n] == b;
      if (!mine) {
        if (it != got.end())
          c.fail("B01", "confused", cat("the picture of board ", n, " was taken for board ", k.number(b)));
        continue;
      }
      int nx = k.X(n), ny = k.Y(n), pts = (nx - 1) * (ny - 1);
      if (pts <= 4 || std::min(nx, ny) < 3)
        continue; // never accepted
      if (it == got.end()) {
        c.fail("B01", "lost", cat("board ", n, " (", nx, "x", ny, ") is not found in its own picture"));
        continue;
      }
      auto &o = *it->second;
      if (int(o.charuco_id_.size()) != pts)
        c.fail("B01", "corners", cat("board ", n, ": ", o.charuco_id_.size(), " of ", pts, " corners found in its own picture"));
      // the squares are as large as they fit into the picture, centred
      double w = k.RX(n) - 20, h = k.RY(n) - 20, cell = std::min(w / nx, h / ny);
      double x0 = pad + 10 + (w - cell * nx) / 2, y0 = pad + 10 + (h - cell * ny) / 2;
      double worst = 0;
      int q = -1;
      for (size_t j = 0; j < o.charuco_id_.size(); j++) {
        int id = o.charuco_id_[j];
        double e = std::hypot(o.pts_2d_[j].x + 0.5 - (x0 + (id % (nx - 1) + 1) * cell), o.pts_2d_[j].y + 0.5 - (y0 + (id / (nx - 1) + 1) * cell));
        if (e > worst)
          worst = e, q = id;
      }
      if (worst > 5)
        c.fail("B01", "order", cat("board ", n, ": corner ", q, " is ", worst, " pixels from its place in the printed rows"));
      c.covmax("max_corner_error_mpx", long(1000 * worst));
      c.cov("boards_decoded");
    }
  }
  c.cov("configurations");
}
