#include "common.h"
#include "src/utils/subsampling.h"
using namespace gbdt;
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(4000, 40000);
  for (long it = 0; it < iters; ++it) {
    uint n = it < 40 ? it / 4 : chance(0.98) ? rint_(0, 400) : rint_(1000, 50000);
    static const std::vector<double> rates = {0, 1, 0.5, 0.1, 0.9, 1e-9, 1 - 1e-9, -1, 2, 1.5, -0.0, 0.999999999999, 1e-300};
    double rate = chance(0.5) ? pick(rates) : runit();
    int seed = rint_(0, 1 << 30);
    CASE("n=%u rate=%.17g seed=%d", n, rate, seed);
    Subsampling::Reseed(seed);
    auto s = Subsampling::UniformSubsample(n, rate);
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] >= n) { FAIL("range", "element %zu is %u", i, s[i]); break; }
      if (i && s[i] <= s[i - 1]) { FAIL("order", "elements %zu,%zu are %u,%u", i - 1, i, s[i - 1], s[i]); break; }
    }
    if (rate >= 1 && s.size() != n) FAIL("full", "rate %g selects %zu of %u", rate, s.size(), n);
    if (rate <= 0 && !s.empty()) FAIL("none", "rate %g selects %zu", rate, s.size());
    // one fresh draw per item, in item order
    std::mt19937 g(seed);
    std::uniform_real_distribution<double> u(0.0, 1.0);
    std::vector<uint> e;
    for (uint i = 0; i < n; ++i) if (u(g) < rate) e.push_back(i);
    if (s != e) FAIL("draws", "selected %zu items, one draw per item selects %zu", s.size(), e.size());
    if (g != *Subsampling::get_generator()) FAIL("fresh", "the random source was not advanced once per item");
  }
  return DONE();
}
