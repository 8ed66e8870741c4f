// M01: whatever it is given, the calibrate application reads and writes only
// memory it owns and does no undefined arithmetic.
#include "proc.hpp"
#include "vh_main.inc"
using namespace pr;

namespace {
struct KCam {
  std::vector<int> fi, bi;
  std::vector<std::string> fp;
  std::vector<std::vector<cv::Point2f>> pts;
  std::vector<std::vector<int>> ids;
  int w = 0, h = 0;
  std::set<std::string> omit;
  bool present = true;
};
std::vector<KCam> keypoints(const sc::Scene &S) {
  std::vector<KCam> v(S.cams.size());
  for (size_t c = 0; c < v.size(); c++)
    v[c].w = S.cams[c].cam.w, v[c].h = S.cams[c].cam.h;
  for (auto &d : S.dets) {
    KCam &k = v[d.c];
    k.fi.push_back(d.f), k.bi.push_back(d.b), k.fp.push_back(sc::imgPath(S, d.c, d.f));
    k.pts.push_back(d.pts), k.ids.push_back(d.ids);
  }
  return v;
}
void write(const std::vector<KCam> &v, const std::string &path) {
  cv::FileStorage fs(path, cv::FileStorage::WRITE);
  fs << "nb_camera" << int(v.size());
  for (size_t c = 0; c < v.size(); c++) {
    auto &k = v[c];
    if (!k.present)
      continue;
    auto has = [&](const char *n) { return !k.omit.count(n); };
    fs << cat("camera_", c) << "{";
    if (has("img_width"))
      fs << "img_width" << k.w;
    if (has("img_height"))
      fs << "img_height" << k.h;
    if (has("frame_idxs"))
      fs << "frame_idxs" << k.fi;
    if (has("frame_paths"))
      fs << "frame_paths" << k.fp;
    if (has("board_idxs"))
      fs << "board_idxs" << k.bi;
    if (has("pts_2d"))
      fs << "pts_2d" << k.pts;
    if (has("charuco_idxs"))
      fs << "charuco_idxs" << k.ids;
    fs << "}";
  }
}
// a damaged copy of a file
void damage(const std::string &path, vh::Rng &r) {
  std::string t = slurp(path);
  if (t.empty())
    return;
  switch (r.i(0, 3)) {
  case 0: // cut off
    t.resize(size_t(r.i(0, int(t.size()) - 1)));
    break;
  case 1: // characters changed
    for (int k = r.i(1, 4); k--;)
      t[size_t(r.i(0, int(t.size()) - 1))] = "0123456789-.,:[]{} \n\"xe"[r.i(0, 23)];
    break;
  case 2: { // a line lost
    size_t a = t.find('\n', size_t(r.i(0, int(t.size()) - 1)));
    if (a != std::string::npos) {
      size_t b = t.find('\n', a + 1);
      t.erase(a, b == std::string::npos ? b : b - a);
    }
    break;
  }
  default: { // a number changed
    static const char *val[] = {"-1", "0", "999999", "1e30", "2147483647", "-2147483648", ".Nan", ".Inf", "1000000000"};
    size_t a = t.find_first_of("0123456789", size_t(r.i(0, int(t.size()) - 1)));
    if (a != std::string::npos) {
      size_t b = t.find_first_not_of("0123456789.e+-", a);
      t.replace(a, b == std::string::npos ? b : b - a, val[r.i(0, 8)]);
    }
  }
  }
  std::ofstream(path, std::ios::binary) << t;
}
struct Case {
  sc::Scene S;
  std::map<std::string, std::string> extra;
  std::string what, after; // after: file damaged at the end
};
int oddInt(vh::Rng &r) {
  static const int v[] = {-1, -7, 0, 1000, 65536, 1000000, 2147483647, -2147483647 - 1};
  return v[r.i(0, 7)];
}
float oddFloat(vh::Rng &r) {
  static const float v[] = {NAN, INFINITY, -INFINITY, 1e30f, -1e30f, 1e9f, -1e5f, 0, 1e-30f};
  return v[r.i(0, 8)];
}
// one thing wrong with the detections
std::string spoilPoints(std::vector<KCam> &v, vh::Rng &r, int what, int nb) {
  auto each = [&](double p, auto &&f) {
    for (auto &k : v)
      for (size_t j = 0; j < k.pts.size(); j++)
        if (r.p(p))
          f(k, j);
  };
  auto cam = [&]() -> KCam & { return v[size_t(r.i(0, int(v.size()) - 1))]; };
  double p = r.p(0.5) ? 0.03 : 0.5;
  switch (what) {
  case 0:
    return "";
  case 1:
    each(p, [&](KCam &k, size_t j) {
      size_t n = size_t(r.i(0, 5));
      if (k.pts[j].size() > n)
        k.pts[j].resize(n), k.ids[j].resize(n);
    });
    return "views of few points";
  case 2:
    each(p, [&](KCam &k, size_t j) {
      for (auto &q : k.pts[j])
        if (r.p(0.3))
          (r.p(0.5) ? q.x : q.y) = oddFloat(r);
    });
    return "odd coordinates";
  case 3:
    each(p, [&](KCam &k, size_t j) {
      for (auto &q : k.ids[j])
        if (r.p(0.3))
          q = k.ids[j][0];
    });
    return "corner numbers repeated";
  case 4:
    each(0.03, [&](KCam &k, size_t j) { k.bi[j] = r.p(0.5) ? nb + r.i(0, 2) : oddInt(r); });
    return "odd board numbers";
  case 5:
    each(0.1, [&](KCam &k, size_t j) {
      for (auto &q : k.ids[j])
        if (r.p(0.1))
          q = r.p(0.5) ? 30 + r.i(0, 60) : oddInt(r);
    });
    return "odd corner numbers";
  case 6: {
    KCam &k = cam();
    size_t n = size_t(r.i(0, int(k.fi.size())));
    switch (r.i(0, 4)) {
    case 0: k.fi.resize(n); break;
    case 1: k.bi.resize(n); break;
    case 2: k.fp.resize(n); break;
    case 3: k.pts.resize(n); break;
    default: k.ids.resize(n);
    }
    return "lists of different lengths";
  }
  case 7: {
    static const char *f[] = {"img_width", "img_height", "frame_idxs", "frame_paths", "board_idxs", "pts_2d", "charuco_idxs"};
    for (int t = r.i(1, 2); t--;)
      cam().omit.insert(f[r.i(0, 6)]);
    return "a field missing";
  }
  case 8:
    cam().present = false;
    return "a camera missing";
  case 9:
    if (r.p(0.3))
      v.clear();
    else
      v.resize(size_t(r.i(0, int(v.size()) - 1)));
    return "fewer cameras than configured";
  case 10:
    each(p, [&](KCam &k, size_t j) { k.fi[j] = r.p(0.5) ? oddInt(r) : -k.fi[j]; });
    return "odd frame numbers";
  case 11:
    each(p, [&](KCam &k, size_t j) {
      size_t n = size_t(r.i(0, int(k.pts[j].size())));
      if (r.p(0.5))
        k.pts[j].resize(n);
      else
        k.ids[j].resize(n);
    });
    return "corners and numbers differ in length";
  case 12:
    for (auto &k : v)
      if (r.p(0.6))
        (r.p(0.5) ? k.w : k.h) = oddInt(r);
    return "odd picture sizes";
  case 13:
    for (auto &k : v)
      for (size_t j = 0, n = k.pts.size(); j < n; j++)
        if (r.p(p)) {
          k.fi.push_back(k.fi[j]), k.bi.push_back(k.bi[j]), k.fp.push_back(k.fp[j]);
          k.pts.push_back(k.pts[j]), k.ids.push_back(k.ids[j]);
        }
    return "views given twice";
  case 14:
    each(p, [&](KCam &k, size_t j) {
      auto q = k.pts[j].empty() ? cv::Point2f(0, 0) : k.pts[j][0];
      bool line = r.p(0.5);
      for (size_t t = 0; t < k.pts[j].size(); t++)
        k.pts[j][t] = line ? q + cv::Point2f(float(t), 2 * float(t)) : q;
    });
    return "corners in one place or on a line";
  case 15:
    each(p, [&](KCam &k, size_t j) {
      for (auto &q : k.pts[j])
        q = cv::Point2f(float(r.u(-1e4, 1e4)), float(r.u(-1e4, 1e4)));
    });
    return "corners anywhere";
  default: { // only a little left
    int left = r.i(0, 3);
    for (auto &k : v) {
      size_t n = size_t(std::min<int>(left, int(k.fi.size())));
      k.fi.resize(n), k.bi.resize(n), k.fp.resize(n), k.pts.resize(n), k.ids.resize(n);
      left = r.i(0, 2);
    }
    return "hardly a view";
  }
  }
}
// one thing wrong with the settings
std::string spoilSettings(std::map<std::string, std::string> &e, vh::Rng &r, const sc::Scene &S, int what) {
  int nc = int(S.cams.size()), nb = int(S.boards.size());
  auto list = [&](int n, int lo, int hi) {
    std::vector<int> v;
    for (int k = 0; k < n; k++)
      v.push_back(r.i(lo, hi));
    return sc::listOf(v);
  };
  switch (what) {
  case 0:
    return "";
  case 1:
    e["number_camera"] = cat(r.i(1, nc + 3));
    return "other number of cameras";
  case 2:
    e["number_board"] = cat(r.i(1, nb + 3));
    return "other number of boards";
  case 3:
    e["boards_index"] = list(r.i(1, nb + 1), r.p(0.3) ? -1 : 0, nb + 2);
    return "odd selection of boards";
  case 4:
    e[r.p(0.5) ? "number_x_square_per_board" : "number_y_square_per_board"] = list(r.i(1, nb), r.i(1, 3), 7);
    return "short list of sizes";
  case 5:
    e["square_size_per_board"] = list(r.i(1, nb), 1, 2);
    return "short list of square sizes";
  case 6:
    e["distortion_per_camera"] = list(r.i(1, nc), r.i(-1, 0), r.i(1, 2));
    return "odd list of models";
  case 7:
    e["number_x_square"] = cat(r.i(1, 3));
    e["number_y_square"] = cat(r.i(1, 3));
    return "tiny boards";
  case 8: {
    static const char *n[] = {"quaternion_averaging", "number_iterations", "he_approach", "fix_intrinsic", "distortion_model", "refine_corner", "save_detection", "save_reprojection"};
    for (int t = r.i(1, 3); t--;)
      e[n[r.i(0, 7)]] = cat(r.i(-2, 7));
    return "odd switches";
  }
  case 9: {
    static const char *v[] = {"0", "-1", "1e-9", "1e9", "0.5"};
    e["ransac_threshold"] = v[r.i(0, 4)];
    return "odd threshold";
  }
  case 10: {
    static const char *n[] = {"ransac_threshold", "number_iterations", "he_approach", "fix_intrinsic", "distortion_model", "save_path", "cam_params_path", "root_path",
                              "number_x_square", "square_size", "length_square", "boards_index", "cam_prefix", "keypoints_path", "quaternion_averaging",
                              "square_size_per_board", "number_board", "number_camera", "camera_params_file_name"};
    for (int t = r.i(1, 3); t--;)
      e[n[r.i(0, 18)]] = "<omit>";
    return "settings missing";
  }
  case 11:
    e["save_path"] = r.p(0.5) ? "\"/dev/null/none\"" : "\"\"";
    return "nowhere to save";
  case 12:
    e["save_detection"] = e["save_reprojection"] = "1";
    return "pictures asked for that are not there";
  default:
    e["camera_params_file_name"] = r.p(0.5) ? "\"../x/y.yml\"" : "\"no/such/folder/c.yml\"";
    return "odd file name";
  }
}
// one thing wrong with the supplied intrinsics
std::string spoilCams(const std::string &path, vh::Rng &r, const sc::Scene &S, int what) {
  cv::FileStorage fs(path, cv::FileStorage::WRITE);
  fs << "nb_camera" << int(S.cams.size());
  for (size_t c = 0; c < S.cams.size(); c++) {
    const ref::Cam &k = S.cams[c].cam;
    cv::Mat K = k.K(), D = k.D();
    bool hit = r.p(0.6);
    int model = k.model;
    if (hit)
      switch (what) {
      case 1: continue; // missing
      case 2: K = K(cv::Rect(0, 0, r.i(1, 3), r.i(1, 3))).clone(); break;
      case 3: D = D.reshape(1, 1).colRange(0, r.i(1, int(D.total()) - 1)).clone(); break;
      case 4: K.at<double>(r.i(0, 2), r.i(0, 2)) = oddFloat(r); break;
      case 5: D.at<double>(0) = oddFloat(r); break;
      case 6: K.convertTo(K, CV_32F); break;
      case 7: model = r.i(-1, 3); break;
      case 8: D = cv::Mat::zeros(1, r.i(6, 14), CV_64F); break;
      default: break;
      }
    fs << cat("camera_", c) << "{" << "camera_matrix" << K << "distortion_vector" << D << "distortion_type" << model << "}";
  }
  static const char *n[] = {"", "cameras missing", "small matrices", "short distortion", "odd matrix", "odd distortion", "float matrices", "another model", "long distortion", ""};
  return n[what];
}
// what the sanitizers and the container checks found
bool misbehaved(const Ran &x, std::string &why) {
  static const char *signs[] = {"ERROR: AddressSanitizer", "runtime error:", "Assertion '", "AddressSanitizer:DEADLYSIGNAL", "stack smashing", "double free", "free(): invalid", "malloc(): ", "corrupted size"};
  for (auto *s : signs) {
    size_t a = x.err.find(s);
    if (a != std::string::npos) {
      size_t b = x.err.rfind('\n', a);
      why = x.err.substr(b == std::string::npos ? 0 : b + 1, 300);
      // the innermost frames of the code under test
      size_t f = a;
      for (int t = 0; t < 2 && (f = x.err.find("/McCalib/", f + 1)) != std::string::npos; t++) {
        size_t e = x.err.find('\n', f);
        why += " | " + x.err.substr(f + 1, std::min<size_t>(100, e - f - 1));
      }
      return true;
    }
  }
  if (x.sig == SIGSEGV || x.sig == SIGBUS || x.sig == SIGILL || x.sig == SIGFPE) {
    why = cat("signal ", x.sig);
    return true;
  }
  // a precondition of an inline function of OpenCV
  if (x.status.find("/usr/include/opencv") != std::string::npos) {
    why = x.status.substr(0, 300);
    return true;
  }
  if (x.code == 99) {
    why = "sanitizer report: " + x.err.substr(0, 300);
    return true;
  }
  return false;
}
void settle(vh::Ctx &c, const Ran &x) {
  c.cov("runs");
  std::string why;
  if (misbehaved(x, why))
    c.fail("M01", "memory", why);
  else if (x.sig == SIGALRM)
    c.cov("runs_too_long");
  else if (x.sig == SIGKILL)
    c.cov("runs_ended_by_the_system");
  else if (x.sig || x.status.rfind("exception", 0) == 0 || x.code)
    c.cov("runs_with_reported_failure");
  else
    c.cov("runs_finished");
  if (getenv("VH_HOSTILE"))
    fprintf(stderr, "HOSTILE %d %.1f s %s :: code %d sig %d %s\n", c.idx, x.secs, c.desc.c_str(), x.code, x.sig, (why.empty() ? x.status + x.err.substr(0, 200) : "BAD " + why).c_str());
}
void judge(vh::Ctx &c, const std::string &cfg, const std::string &root) {
  settle(c, run({"asan", "ASAN", 0, 1, false}, c.rng.g() >> 1, {cfg}, root + "/cwd", 170));
}
} // namespace

SUITE(hostile) {
  Dir dir(c.idx);
  Input in;
  makeInput(c.rng, in, c.rng.i(0, 10), true);
  sc::Scene &S = in.S;
  S.iters = std::min(S.iters, 4);
  while (S.dets.size() > 120)
    S.dets.erase(S.dets.begin() + c.rng.i(0, int(S.dets.size()) - 1));
  vh::Rng &r = c.rng;
  std::string kp = dir.d + "/kp.yml", cp = dir.d + "/cams.yml", cfg = dir.d + "/cfg.yml", what;
  auto v = keypoints(S);
  int kind = c.idx % 4;
  std::map<std::string, std::string> extra;
  if (kind == 0 || (kind == 3 && r.p(0.5)))
    what += "; " + spoilPoints(v, r, (c.idx / 4) % 17, int(S.boards.size()));
  if (kind == 1 || (kind == 3 && r.p(0.5)))
    what += "; " + spoilSettings(extra, r, S, (c.idx / 4) % 14);
  write(v, kp);
  sc::writeCamParams(S, cp);
  if (kind == 2 || (kind == 3 && r.p(0.5))) {
    S.precal = true;
    if (r.p(0.2)) {
      fs::remove(cp);
      what += "; no intrinsics";
    } else
      what += "; " + spoilCams(cp, r, S, (c.idx / 4) % 9);
  }
  sc::writeConfig(S, cfg, "out", kp, cp, extra);
  if (kind == 3 && r.p(0.5)) {
    int f = r.i(0, 2);
    damage(f == 0 ? kp : f == 1 ? cp : cfg, r);
    what += cat("; damaged ", f == 0 ? "detections" : f == 1 ? "intrinsics" : "configuration");
  }
  c.desc = what.substr(std::min<size_t>(2, what.size())) + " :: " + in.desc;
  judge(c, cfg, dir.d);
  c.sig(cat("hostile ", what));
}

namespace {
std::vector<std::string> pictures(const std::string &root) {
  std::vector<std::string> v;
  if (fs::is_directory(root))
    for (auto &e : fs::recursive_directory_iterator(root))
      if (e.is_regular_file())
        v.push_back(e.path().string());
  std::sort(v.begin(), v.end());
  return v;
}
std::string spoilPictures(al::Album &a, vh::Rng &r, int what) {
  sc::Scene &S = a.s;
  auto folder = [&](int c) {
    char d[40];
    snprintf(d, sizeof d, "/Cam_%03d", c + 1);
    return S.root + d;
  };
  int cam = r.i(0, int(S.cams.size()) - 1);
  auto all = pictures(S.root), of = pictures(folder(cam));
  auto some = [&](double p, auto f) {
    for (auto &x : all)
      if (r.p(p))
        f(x);
  };
  auto redo = [&](double p, auto f) {
    some(p, [&](const std::string &x) {
      cv::Mat m = cv::imread(x, cv::IMREAD_UNCHANGED);
      if (!m.empty())
        cv::imwrite(x, f(m));
    });
  };
  switch (what) {
  case 0:
    fs::remove_all(folder(cam));
    return "a folder missing";
  case 1:
    for (auto &x : of)
      fs::remove(x);
    return "an empty folder";
  case 2:
    for (size_t k = 0; k < of.size() && k < size_t(r.i(1, 2)); k++)
      std::ofstream(of[k]) << (r.p(0.5) ? "" : "damaged");
    return "first picture unreadable";
  case 3:
    for (auto &x : of)
      std::ofstream(x) << "damaged";
    return "no picture readable";
  case 4:
    redo(r.p(0.5) ? 0.3 : 1, [&](const cv::Mat &m) {
      return m(cv::Rect(r.i(0, 5), r.i(0, 5), r.p(0.5) ? r.i(1, 3) : r.i(1, 100), r.p(0.5) ? r.i(1, 3) : r.i(1, 60))).clone();
    });
    return "tiny pictures";
  case 5:
    redo(0.5, [&](const cv::Mat &m) {
      cv::Mat o = m;
      switch (r.i(0, 3)) {
      case 0: cv::cvtColor(m, o, m.channels() == 1 ? cv::COLOR_GRAY2BGR : cv::COLOR_BGR2GRAY); break;
      case 1: m.convertTo(o, CV_16U, 257); break;
      case 2: if (m.channels() == 3) cv::cvtColor(m, o, cv::COLOR_BGR2BGRA); break;
      }
      return o;
    });
    return "other pixel formats";
  case 6:
    redo(0.4, [&](const cv::Mat &m) {
      cv::Mat o;
      cv::resize(m, o, cv::Size(), r.u(0.3, 1.3), r.u(0.5, 1.2));
      return o;
    });
    return "pictures of different sizes";
  case 7:
    redo(1, [&](const cv::Mat &m) { // boards cut by the border
      int x = r.i(0, m.cols / 3), y = r.i(0, m.rows / 3);
      return m(cv::Rect(x, y, r.i(m.cols / 3, m.cols - x), r.i(m.rows / 3, m.rows - y))).clone();
    });
    a.extra["min_perc_pts"] = "0.05";
    return "cut pictures";
  case 8:
    redo(0.7, [&](const cv::Mat &m) {
      cv::Mat o = m.clone(), n(m.size(), m.type());
      cv::randu(n, 0, 256);
      if (r.p(0.3))
        o.setTo(r.i(0, 255));
      else if (r.p(0.5))
        cv::addWeighted(m, 0.5, n, 0.5, 0, o);
      else
        cv::GaussianBlur(m, o, cv::Size(), r.u(0.5, 6));
      return o;
    });
    a.extra["min_perc_pts"] = r.p(0.5) ? "0.0" : "0.2";
    return "noise, blur or nothing";
  case 9: {
    static const char *v[] = {"0", "-1", "0.01", "1e9", "1"};
    a.extra["min_perc_pts"] = v[r.i(0, 4)];
    return "odd share of corners";
  }
  case 10: { // settings of other boards than those in the pictures
    std::vector<int> x, y;
    for (size_t b = 0; b < S.boards.size(); b++)
      x.push_back(r.i(3, 9)), y.push_back(r.i(3, 9));
    a.extra["number_x_square_per_board"] = sc::listOf(x);
    a.extra["number_y_square_per_board"] = sc::listOf(y);
    a.extra["min_perc_pts"] = "0.05";
    return "other boards";
  }
  case 11:
    a.extra["number_camera"] = cat(S.cams.size() + r.i(1, 2));
    return "more cameras than folders";
  case 12:
    some(0.5, [&](const std::string &x) {
      std::string t = slurp(x);
      if (r.p(0.5))
        t.resize(size_t(r.u(0, double(t.size()))));
      else
        for (int k = r.i(1, 200); k-- && !t.empty();)
          t[size_t(r.i(0, int(t.size()) - 1))] = char(r.i(0, 255));
      std::ofstream(x, std::ios::binary) << t;
    });
    return "damaged pictures";
  case 13: { // fewer pictures for one camera than for the others
    for (size_t k = size_t(r.i(0, 2)); k < of.size(); k++)
      fs::remove(of[k]);
    return "few pictures";
  }
  default:
    return spoilSettings(a.extra, r, S, r.i(0, 13));
  }
}
} // namespace

SUITE(hostilepic) {
  Dir dir(c.idx);
  vh::Rng &r = c.rng;
  al::Album a = al::make(r, dir.d, r.i(1, 2), r.i(1, 2), r.i(2, 6));
  a.s.iters = 4;
  a.s.precal = r.p(0.5);
  a.s.fix = a.s.precal && r.p(0.5);
  a.s.saveDet = r.p(0.7), a.s.saveRep = r.p(0.7);
  a.extra["refine_corner"] = r.p(0.8) ? "1" : "0";
  std::string what = spoilPictures(a, r, c.idx % 16);
  sc::writeCamParams(a.s, dir.d + "/cams.yml");
  sc::writeConfig(a.s, dir.d + "/cfg.yml", "out", "", dir.d + "/cams.yml", a.extra);
  c.desc = cat(what, " :: pictures cams ", a.s.cams.size(), " boards ", a.s.boards.size(), " frames ", a.frames, " precal ", a.s.precal, " fix ", a.s.fix, " save ", a.s.saveDet, a.s.saveRep);
  judge(c, dir.d + "/cfg.yml", dir.d);
  c.sig(cat("hostilepic ", what));
}
// the pictures named by saved detections are not what they were
SUITE(hostileshots) {
  Dir dir(c.idx);
  vh::Rng &r = c.rng;
  Input in;
  makeInput(r, in, r.i(0, 10), true);
  sc::Scene &S = in.S;
  S.iters = std::min(S.iters, 3);
  while (S.dets.size() > 60)
    S.dets.erase(S.dets.begin() + r.i(0, int(S.dets.size()) - 1));
  S.saveDet = r.p(0.7), S.saveRep = !S.saveDet || r.p(0.7);
  auto v = keypoints(S);
  for (auto &k : v)
    for (size_t j = 0; j < k.fp.size(); j++) {
      k.fp[j] = dir.d + cat("/p", r.i(0, 40), r.p(0.5) ? ".png" : ".jpg");
      if (r.p(0.4))
        continue;
      cv::Mat m(r.p(0.3) ? r.i(1, 5) : r.i(5, 400), r.p(0.3) ? r.i(1, 5) : r.i(5, 400), r.p(0.3) ? CV_8U : r.p(0.2) ? CV_16UC3 : CV_8UC3, cv::Scalar::all(90));
      if (r.p(0.1))
        std::ofstream(k.fp[j]) << "damaged";
      else
        cv::imwrite(k.fp[j], m);
      if (r.p(0.2))
        for (auto &q : k.pts[j])
          if (r.p(0.1))
            q = cv::Point2f(float(r.u(-4e4, 4e4)), float(r.u(-4e4, 4e4)));
    }
  std::string kp = dir.d + "/kp.yml", cp = dir.d + "/cams.yml", cfg = dir.d + "/cfg.yml";
  write(v, kp);
  sc::writeCamParams(S, cp);
  sc::writeConfig(S, cfg, "out", kp, cp);
  c.desc = cat("pictures changed :: save ", S.saveDet, S.saveRep, " ", in.desc);
  judge(c, cfg, dir.d);
  c.sig(c.desc);
}
// the board generator
SUITE(hostileboards) {
  Dir dir(c.idx);
  vh::Rng &r = c.rng;
  std::map<std::string, std::string> e{{"number_x_square", cat(r.i(2, 8))}, {"number_y_square", cat(r.i(2, 8))}, {"resolution_x", cat(r.i(100, 900))}, {"resolution_y", cat(r.i(100, 900))},
                                       {"length_square", "0.04"}, {"length_marker", "0.03"}, {"number_board", cat(r.i(1, 4))}};
  static const char *lists[] = {"number_x_square_per_board", "number_y_square_per_board", "resolution_x_per_board", "resolution_y_per_board"};
  auto list = [&](int n, int lo, int hi) {
    std::vector<int> v;
    for (int k = 0; k < n; k++)
      v.push_back(r.i(lo, hi));
    return sc::listOf(v);
  };
  for (int k = 0; k < 4; k++)
    e[lists[k]] = r.p(0.5) ? "[]" : list(4, k < 2 ? 3 : 200, k < 2 ? 7 : 600);
  for (int t = r.i(1, 2); t--;)
    switch (r.i(0, 6)) {
    case 0: e[lists[r.i(0, 3)]] = list(r.i(1, 3), 3, 300); break;
    case 1: e[lists[r.i(0, 3)]] = list(4, r.i(-2, 1), 6); break;
    case 2: e["number_board"] = cat(r.i(-1, 9)); break;
    case 3: e[r.p(0.5) ? "resolution_x" : "resolution_y"] = cat(r.i(-1, 60)); break;
    case 4: e[r.p(0.5) ? "length_square" : "length_marker"] = r.p(0.5) ? "0" : cat(r.u(-0.1, 0.1)); break;
    case 5: e[r.p(0.5) ? "number_x_square" : "number_y_square"] = cat(r.i(-1, 60)); break;
    default: { auto it = e.begin(); std::advance(it, r.i(0, int(e.size()) - 1)); it->second = "<omit>"; }
    }
  // OpenCV itself goes wrong on pictures smaller than the squares: not ours
  for (auto *n : {"resolution_x_per_board", "resolution_y_per_board"}) {
    std::string &l = e[n];
    for (size_t k = 0; k + 1 < l.size() && l != "<omit>"; k++)
      if (atoi(&l[k + 1]) > 0 && (l[k] == '[' || l[k] == ',') && atoi(&l[k + 1]) < 150)
        l.insert(k + 1, "90");
  }
  for (auto *n : {"number_x_square", "number_y_square"})
    if (atoi(e[n].c_str()) > 8)
      e["resolution_x"] = e["resolution_y"] = "900", e[lists[2]] = e[lists[3]] = "[]";
  for (auto *n : {"resolution_x", "resolution_y"})
    if (atoi(e[n].c_str()) > 0 && atoi(e[n].c_str()) < 100)
      e[n] = "100";
  std::string cfg = dir.d + "/c.yml", all = "%YAML:1.0\n---\n";
  for (auto &x : e)
    if (x.second != "<omit>")
      all += x.first + ": " + x.second + "\n", c.desc += x.first + " " + x.second + "; ";
  std::ofstream(cfg) << all;
  if (r.p(0.2)) { // cut off
    all.resize(size_t(r.u(0, double(all.size()))));
    std::ofstream(cfg) << all;
  }
  Ran x = run({"boards", "CREATE_CHARUCO_BOARDS_ASAN", 0, 1, false}, 0, {cfg}, dir.d + "/cwd", 170);
  settle(c, x);
  c.sig(cat("hostileboards ", e["number_board"], e[lists[0]].size(), e[lists[2]].size()));
}
