// included once by each harness main file
namespace vh {
thread_local uint64_t g_rd_state = 1;
std::map<std::string, SuiteFn> &suites() {
  static std::map<std::string, SuiteFn> s;
  return s;
}
int harnessMain(int argc, char **argv) {
  std::map<std::string, std::string> a;
  for (int k = 1; k + 1 < argc; k += 2)
    a[argv[k] + 2] = argv[k + 1];
  if (!suites().count(a["suite"])) {
    fprintf(stderr, "no suite %s\n", a["suite"].c_str());
    return 2;
  }
  boost::log::core::get()->set_logging_enabled(false);
  cv::setNumThreads(a.count("cvthreads") ? atoi(a["cvthreads"].c_str()) : 1);
  SuiteFn fn = suites()[a["suite"]];
  int from = atoi(a["from"].c_str()), to = atoi(a["to"].c_str());
  int step = a.count("step") ? atoi(a["step"].c_str()) : 1;
  int lim = a.count("limit") ? atoi(a["limit"].c_str()) : 60;
  uint64_t seed = a.count("seed") ? strtoull(a["seed"].c_str(), 0, 10) : 1;
  FILE *out = fopen(a["out"].c_str(), "a");
  if (!out)
    return 2;
  for (int i = from; i < to; i += step) {
    fprintf(out, "BEGIN %d\n", i);
    fflush(out);
    Ctx c;
    c.idx = i;
    c.tier = a.count("tier") ? a["tier"] : "quick";
    if (a.count("filter") && !a["filter"].empty())
      c.filter = "," + a["filter"] + ",";
    uint64_t s = seed * 1000003ull + hash64(a["suite"]) + uint64_t(i) * 7919;
    c.seed = splitmix(s);
    c.rng = Rng(c.seed);
    seedAll(c.seed);
    alarm(lim);
    std::string err;
    try {
      fn(c);
    } catch (const std::exception &e) {
      err = e.what();
      if (err.empty())
        err = "exception";
    } catch (...) {
      err = "unknown exception";
    }
    alarm(0);
    std::string j = "{\"case\":" + std::to_string(i) + ",\"desc\":" + jesc(c.desc);
    if (!err.empty())
      j += ",\"exception\":" + jesc(err.substr(0, 600));
    j += ",\"viol\":[";
    for (size_t k = 0; k < c.viols.size(); k++)
      j += std::string(k ? "," : "") + "{\"prop\":" + jesc(c.viols[k].prop) +
           ",\"kind\":" + jesc(c.viols[k].kind) + ",\"msg\":" +
           jesc(c.viols[k].msg.substr(0, 800)) + "}";
    j += "],\"cov\":{";
    bool first = true;
    for (auto &kv : c.covs) {
      j += std::string(first ? "" : ",") + jesc(kv.first) + ":" + std::to_string(kv.second);
      first = false;
    }
    j += "},\"sigs\":[";
    first = true;
    for (auto s2 : c.sigs) {
      char b[24];
      snprintf(b, sizeof b, "%s\"%" PRIx64 "\"", first ? "" : ",", s2);
      j += b;
      first = false;
    }
    j += "]}";
    fprintf(out, "RES %s\n", j.c_str());
    fflush(out);
  }
  fprintf(out, "DONE\n");
  fclose(out);
  return 0;
}
} // namespace vh

// Every std::random_device in the process becomes a seeded generator, so that
// a case is a function of its seed (RANSAC and bootstrap draws included).
unsigned int std::random_device::_M_getval() {
  return (unsigned int)vh::splitmix(vh::g_rd_state);
}
int main(int argc, char **argv) { return vh::harnessMain(argc, argv); }
