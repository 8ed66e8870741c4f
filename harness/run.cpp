// The calibrate application with its random draws fixed: run SEED CONFIG...
// Each configuration is calibrated in turn, in this one process; what became of
// it is written to ./status.
#include "vh.hpp"
#include <thread>
int calibrate_app_main(int argc, char **argv);
namespace vh {
thread_local uint64_t g_rd_state = 1;
}
unsigned int std::random_device::_M_getval() { return (unsigned int)vh::splitmix(vh::g_rd_state); }
// rand() is a random draw too: seeded per calibration, never by the clock
extern "C" void srand(unsigned) noexcept {}
// so is the colour of a board
static int64_t gTick = 0;
int64_t cv::getTickCount() { return ++gTick; }
// as many threads as asked for: one keeps the order of the detections
unsigned int std::thread::hardware_concurrency() noexcept {
  const char *n = getenv("VH_THREADS");
  return n ? unsigned(atoi(n)) : 8;
}
int main(int argc, char **argv) {
  boost::log::core::get()->set_logging_enabled(false);
  cv::setNumThreads(1);
  for (int k = 2; k < argc; k++) {
    vh::seedAll(strtoull(argv[1], nullptr, 10));
    srandom(1);
    gTick = 0;
    char *av[] = {argv[0], argv[k], nullptr};
    std::string end;
    try {
      end = vh::cat("returned ", calibrate_app_main(2, av));
    } catch (const std::exception &e) {
      end = vh::cat("exception ", e.what());
    } catch (...) {
      end = "unknown exception";
    }
    FILE *f = fopen("status", "w");
    fprintf(f, "%s\n", end.c_str());
    fclose(f);
  }
  return 0;
}
