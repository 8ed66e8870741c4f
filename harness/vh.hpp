// Harness core: case runner, deterministic randomness, result records.
#pragma once
#include <boost/log/core.hpp>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <opencv2/core.hpp>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vh {

// the code under test seeds mt19937 from std::random_device: see rd_override
extern thread_local uint64_t g_rd_state;
inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash64(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
inline void seedAll(uint64_t s) {
  g_rd_state = s;
  cv::theRNG().state = s | 1;
}

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s = 1) : g(s) {}
  double u() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + int(g() % uint64_t(b - a + 1)); } // inclusive
  bool p(double x) { return u() < x; }
  double n() { // own Box-Muller: same on every libstdc++
    double a = u(), b = u();
    if (a < 1e-300)
      a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
  template <class V> void shuffle(V &v) {
    for (size_t k = v.size(); k > 1; k--)
      std::swap(v[k - 1], v[g() % k]);
  }
  template <class V> auto &pick(V &v) { return v[g() % v.size()]; }
};

inline std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      (o += '\\') += c;
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

struct Viol {
  std::string prop, kind, msg;
};

struct Ctx {
  int idx = 0;
  uint64_t seed = 0;
  Rng rng;
  std::string tier = "quick";
  std::string filter; // ",K01,K02," or empty: all
  std::string desc;
  std::vector<Viol> viols;
  std::map<std::string, long> covs;
  std::set<uint64_t> sigs;
  bool wants(const std::string &prop) const {
    return filter.empty() || filter.find("," + prop + ",") != std::string::npos;
  }
  void fail(const std::string &prop, const std::string &kind, const std::string &msg) {
    if (!wants(prop))
      return;
    int same = 0;
    for (auto &v : viols)
      same += v.prop == prop && v.kind == kind;
    if (same < 3)
      viols.push_back({prop, kind, msg});
  }
  void cov(const std::string &k, long n = 1) { covs[k] += n; }
  void covmax(const std::string &k, long n) { covs[k] = std::max(covs[k], n); }
  // a state / input class the monitors really saw
  void sig(const std::string &s) { sigs.insert(hash64(s)); }
};

template <class... A> std::string cat(const A &...a) {
  std::ostringstream o;
  o.precision(9);
  (void)std::initializer_list<int>{((o << a), 0)...};
  return o.str();
}

using SuiteFn = std::function<void(Ctx &)>;
std::map<std::string, SuiteFn> &suites();
struct Reg {
  Reg(const char *n, SuiteFn f) { suites()[n] = f; }
};
#define SUITE(name)                                                            \
  static void suite_##name(vh::Ctx &);                                         \
  static vh::Reg reg_##name(#name, suite_##name);                              \
  static void suite_##name(vh::Ctx &c)

int harnessMain(int argc, char **argv);
} // namespace vh
