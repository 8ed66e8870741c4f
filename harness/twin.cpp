// M02: the same calibration in differently filled memory, in fresh processes
// and after other calibrations, gives the same files.
#include "proc.hpp"
#include "vh_main.inc"
using vh::cat;
using namespace pr;

namespace {
std::string firstDifference(const std::string &a, const std::string &b) {
  size_t k = 0;
  while (k < a.size() && k < b.size() && a[k] == b[k])
    k++;
  size_t s = a.rfind('\n', k ? k - 1 : 0);
  s = s == std::string::npos ? 0 : s + 1;
  std::string key;
  size_t q = std::min(k, a.size());
  // the last named field before the difference
  for (size_t t = q; t-- > 0;)
    if (a[t] == ':' && t > 0 && isalnum((unsigned char)a[t - 1])) {
      size_t u = a.rfind('\n', t);
      key = a.substr(u == std::string::npos ? 0 : u + 1, t - (u == std::string::npos ? 0 : u + 1));
      break;
    }
  return cat("byte ", k, " under '", key, "': '", a.substr(k, 40), "' against '", b.substr(std::min(k, b.size()), 40), "'");
}

void compare(vh::Ctx &c, const std::vector<Way> &ways, const std::string &root, const std::vector<std::string> &cfgs) {
  std::vector<Ran> ran(ways.size());
  std::vector<std::map<std::string, std::string>> out(ways.size());
  uint64_t seed = c.rng.g() >> 1;
  for (size_t k = 0; k < ways.size(); k++) {
    std::string cwd = cat(root, "/w", k, "/cwd");
    std::vector<std::string> todo = cfgs;
    if (!ways[k].history)
      todo = {cfgs.back()};
    fs::create_directories(cwd);
    ran[k] = run(ways[k], seed, todo, cwd);
    if (ways[k].history && ran[k].sig == SIGALRM)
      throw std::runtime_error("too long");
    out[k] = outputs(cwd + "/out");
    c.cov("runs");
  }
  for (size_t k = 1; k < ways.size(); k++) {
    std::string pair = cat(ways[0].name, " and ", ways[k].name);
    if (ran[0].sig || ran[k].sig || ran[0].code || ran[k].code || ran[0].status != ran[k].status) {
      if (ran[0].sig != ran[k].sig || ran[0].code != ran[k].code || ran[0].status != ran[k].status)
        c.fail("M02", "ending", cat(pair, ": ", ran[0].status, " code ", ran[0].code, " signal ", ran[0].sig, " against ",
                                    ran[k].status, " code ", ran[k].code, " signal ", ran[k].sig));
      else
        c.cov("runs_that_failed");
      continue;
    }
    std::set<std::string> names;
    for (auto &x : out[0])
      names.insert(x.first);
    for (auto &x : out[k])
      names.insert(x.first);
    for (auto &n : names) {
      if (!out[0].count(n) || !out[k].count(n)) {
        if (!ways[k].history) // an earlier calibration may leave other files
          c.fail("M02", "files", cat(pair, ": ", n, " is written by one of them only"));
        continue;
      }
      if (out[0][n] != out[k][n])
        c.fail("M02", ways[k].history ? "history" : "memory", cat(pair, ": ", n, " differs at ", firstDifference(out[0][n], out[k][n])));
      c.cov("files_compared");
      c.cov("bytes_compared", long(out[0][n].size()));
    }
  }
  c.cov(ran[0].status.rfind("returned 0", 0) == 0 ? "calibrations_finished" : "calibrations_that_reported_failure");
  if (getenv("VH_TWIN"))
    fprintf(stderr, "TWIN %d %.1f %.1f s %s :: %s%s\n", c.idx, ran[0].secs, ran.back().secs, c.desc.c_str(), ran[0].status.c_str(), ran[0].err.substr(0, 300).c_str());
}
} // namespace

SUITE(twin) {
  Dir dir(c.idx);
  Input in, other;
  makeInput(c.rng, in, c.idx);
  sc::GenOpt o;
  makeInput(c.rng, other, c.rng.i(0, 10), true);
  put(in, dir.d + "/in", c.rng);
  put(other, dir.d + "/other", c.rng);
  c.desc = in.desc;
  std::vector<Way> ways = {{"zeroed stack", "ZERO", 0, 1, false},
                           {"patterned stack and heap", "PAT", c.rng.i(1, 255), 1, false}};
  if (c.idx % 2)
    ways.push_back({"the same after another calibration", "PAT", c.rng.i(1, 255), 1, true});
  compare(c, ways, dir.d, {other.cfg, in.cfg});
  c.sig(cat("twin ", in.S.kind, in.S.cams.size(), in.S.boards.size(), in.S.precal, in.S.fix, in.S.he, in.S.qavg));
}

// with detection in pictures, on one thread
SUITE(twinpic) {
  Dir dir(c.idx);
  std::vector<std::string> cfg;
  for (int k = 0; k < 2; k++) {
    std::string d = cat(dir.d, "/", k);
    al::Album a = al::make(c.rng, d, c.rng.i(1, 2), c.rng.i(1, 2), c.rng.i(5, 8));
    a.s.precal = c.rng.p(0.5);
    a.s.fix = a.s.precal && c.rng.p(0.5);
    a.s.saveDet = a.s.saveRep = c.rng.p(0.3);
    a.extra["refine_corner"] = c.rng.p(0.8) ? "1" : "0";
    if (c.rng.p(0.3)) // a picture that cannot be read
      for (auto &e : fs::recursive_directory_iterator(a.s.root))
        if (e.is_regular_file() && c.rng.p(0.1))
          std::ofstream(e.path()) << "damaged";
    sc::writeCamParams(a.s, d + "/cams.yml");
    sc::writeConfig(a.s, d + "/cfg.yml", "out", "", d + "/cams.yml", a.extra);
    cfg.push_back(d + "/cfg.yml");
    if (k == 1)
      c.desc = cat("pictures cams ", a.s.cams.size(), " boards ", a.s.boards.size(), " frames ", a.frames, " precal ", a.s.precal, " fix ", a.s.fix);
    c.sig(cat("twinpic ", c.desc));
  }
  compare(c, {{"zeroed stack", "ZERO", 0, 1, false}, {"patterned stack and heap", "PAT", c.rng.i(1, 255), 1, false}, {"the same after another calibration", "PAT", c.rng.i(1, 255), 1, true}}, dir.d, cfg);
}
