// Makes every run of the code under test a pure function of its input:
// std::random_device draws from a seeded generator instead of the hardware,
// and cv::getTickCount is a counter. Linked into the harness binaries only.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <random>

#include <opencv2/core.hpp>

namespace vp {
static std::mutex m;
static std::uint64_t state = 0;
static bool init = false;
void seedRandomDevice(std::uint64_t s) {
  std::lock_guard<std::mutex> l(m);
  state = s * 0x9E3779B97F4A7C15ull + 0x1234567;
  init = true;
}
static unsigned int next() {
  std::lock_guard<std::mutex> l(m);
  if (!init) {
    const char *e = std::getenv("VP_RD_SEED");
    state = (e ? std::strtoull(e, nullptr, 10) : 0) * 0x9E3779B97F4A7C15ull + 0x1234567;
    init = true;
  }
  state += 0x9E3779B97F4A7C15ull;
  std::uint64_t z = state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return static_cast<unsigned int>((z ^ (z >> 31)) >> 16);
}
} // namespace vp

namespace std {
random_device::result_type random_device::_M_getval() { return vp::next(); }
} // namespace std

namespace cv {
static std::atomic<int64> vp_ticks{1000};
int64 getTickCount() { return vp_ticks += 7919; }
} // namespace cv
