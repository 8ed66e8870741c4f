// The calibrate application in processes of its own, and inputs for it.
#pragma once
#include "album.hpp"
#include "vh.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace pr {
using vh::cat;
namespace fs = std::filesystem;
struct Ran {
  int code = -1, sig = 0;
  std::string err, status;
  double secs = 0;
};
struct Dir {
  std::string d;
  explicit Dir(int k) : d(cat(fs::current_path().string(), "/t", getpid(), "_", k)) { fs::create_directories(d); }
  ~Dir() {
    if (getenv("VH_KEEP"))
      return;
    std::error_code e;
    fs::remove_all(d, e);
  }
};
inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// how a process is run
struct Way {
  std::string name, variant;
  int perturb = 0, threads = 1;
  bool history = false;
};
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline Ran run(const Way &w, uint64_t seed, const std::vector<std::string> &cfgs, const std::string &cwd, int limit = 100) {
  // the calibrate application, or another one named with its variant
  bool other = w.variant.rfind("CREATE_", 0) == 0;
  const char *exe = getenv(cat(other ? "VH_APP_" : "VH_APP_RUN_", w.variant).c_str());
  if (!exe)
    throw std::runtime_error("no " + w.variant + " program to run");
  fs::create_directories(cwd);
  Ran r;
  std::vector<std::string> a{exe};
  if (!other)
    a.push_back(std::to_string(seed));
  a.insert(a.end(), cfgs.begin(), cfgs.end());
  std::vector<char *> av;
  for (auto &x : a)
    av.push_back(&x[0]);
  av.push_back(nullptr);
  std::string errf = cwd + "/../stderr_" + w.name;
  double t0 = now();
  pid_t p = fork();
  if (p == 0) {
    if (chdir(cwd.c_str()))
      _exit(126);
    int n = open("/dev/null", O_WRONLY), e = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(n, 1);
    dup2(e, 2);
    if (w.perturb)
      setenv("MALLOC_PERTURB_", std::to_string(w.perturb).c_str(), 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:detect_container_overflow=0:exitcode=99:max_malloc_fill_size=100000000:malloc_fill_byte=190:allocator_may_return_null=0", 1);
    setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=99", 1);
    setenv("VH_THREADS", std::to_string(w.threads).c_str(), 1);
    alarm(limit);
    execv(exe, av.data());
    _exit(127);
  }
  int st = 0;
  waitpid(p, &st, 0);
  r.secs = now() - t0;
  if (WIFEXITED(st))
    r.code = WEXITSTATUS(st);
  else
    r.sig = WTERMSIG(st);
  r.err = slurp(errf);
  r.status = slurp(cwd + "/status");
  return r;
}
inline std::map<std::string, std::string> outputs(const std::string &d) {
  std::map<std::string, std::string> m;
  if (fs::is_directory(d))
    for (auto &e : fs::recursive_directory_iterator(d))
      if (e.is_regular_file())
        m[fs::relative(e.path(), d).string()] = slurp(e.path().string());
  return m;
}
struct Input {
  sc::Scene S;
  std::string cfg, desc;
};
// a scene written below dir; the results go to ./out
inline void put(Input &in, const std::string &dir, vh::Rng &r) {
  fs::create_directories(dir);
  std::string kp = dir + "/kp.yml", cp = dir + "/cams.yml";
  in.cfg = dir + "/cfg.yml";
  sc::writeKeypoints(in.S, kp);
  sc::writeCamParams(in.S, cp, in.S.precal && !in.S.fix ? &r : nullptr);
  sc::writeConfig(in.S, in.cfg, "out", kp, cp);
}
inline void makeInput(vh::Rng &r, Input &in, int idx, bool small = false) {
  static const char *kinds[] = {"row", "tree", "ring", "mono", "nonov", "nochain", "nofew", "partial", "split", "thin", "row"};
  sc::GenOpt o;
  o.kind = kinds[idx % 11];
  if (r.p(0.5))
    o.keep = r.u(0.08, 0.7);
  o.small = small || r.p(0.7);
  o.nc = r.i(1, small ? 3 : 5);
  in.S = sc::generate(r, o);
  sc::Scene &S = in.S;
  if (S.dets.size() > 200) { // keep it short
    S.iters = r.i(3, 20);
    if (S.dets.size() > 350)
      S.precal = true;
  }
  // cameras and views with little to offer
  if (r.p(0.3)) {
    int dead = r.i(0, int(S.cams.size()) - 1), left = r.i(0, 2);
    std::vector<sc::Det> d;
    for (auto &x : S.dets)
      if (x.c != dead || left-- > 0)
        d.push_back(x);
    S.dets = d;
  }
  if (r.p(0.3))
    for (auto &x : S.dets)
      if (r.p(0.1)) {
        size_t n = size_t(r.i(1, 5));
        if (x.ids.size() > n) {
          x.ids.resize(n);
          x.pts.resize(n);
          x.bad.resize(n);
        }
      }
  if (r.p(0.3)) // no pose is found for some
    for (auto &x : S.dets)
      if (r.p(0.1))
        for (auto &p : x.pts)
          p = cv::Point2f(float(r.u(0, 1000)), float(r.u(0, 800)));
  in.desc = cat(o.kind, " cams ", S.cams.size(), " boards ", S.boards.size(), " dets ", S.dets.size(), " precal ", S.precal, " fix ",
                S.fix, " qavg ", S.qavg, " he ", S.he, " keep ", o.keep);
}
} // namespace pr
