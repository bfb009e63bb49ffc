#include "common.h"
#include "src/loss_func/loss_func_math.h"
using namespace gbdt;
static double val() {
  static const std::vector<double> sp = {0, 1, -1, 0.5, 3, -2.25, 1e-3, 30, -30, 100, -100, 700, -700, 709, 710, 711, -710, 745, 746, -746, 800, 1000,
                                         -1000, 1e6, -1e6, 1e15, -1e15, 1e300, -1e300, 36, 37, -36, -37, 1e-9, -1e-9};
  return chance(0.4) ? pick(sp) : (runit() - 0.5) * (chance(0.5) ? 10 : 2000);
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  for (long it = 0; it < ITER(40000, 400000); ++it) {
    bool bin = chance(0.6);
    double y = bin ? (chance(0.5) ? 1 : -1) : val(), f = val();
    if (!bin) { y = std::max(-1e6, std::min(1e6, y)); if (chance(0.8)) f = std::max(-1e6, std::min(1e6, f)); }
    CASE("y=%.17g f=%.17g", y, f);
    double l, g, h;
    std::tie(l, g, h) = ComputeMSE(y, f);
    if (std::isfinite((y - f) * (y - f)) && (!close_(l, (y - f) * (y - f)) || !close_(g, y - f) || h != 1)) FAIL("mse", "got (%.17g,%.17g,%.17g)", l, g, h);
    if (bin) {
      std::tie(l, g, h) = ComputeLogLoss(y, f);
      double m = y * f, e = std::exp(-std::fabs(m));
      double el = m >= 0 ? std::log1p(e) : -m + std::log1p(e), eg = m >= 0 ? y * e / (1 + e) : y / (1 + e), eh = e / ((1 + e) * (1 + e));
      if (!std::isfinite(l) || !std::isfinite(g) || !std::isfinite(h)) FAIL("logloss-finite", "got (%.17g,%.17g,%.17g)", l, g, h);
      else if (!close_(l, el, 1e-9, 1e-14) || !close_(g, eg, 1e-9, 1e-15) || !close_(h, eh, 1e-9, 1e-15)) FAIL("logloss", "got (%.17g,%.17g,%.17g) expected (%.17g,%.17g,%.17g)", l, g, h, el, eg, eh);
      if (l < 0 || h < 0 || g * y < 0 || g * y > 1) FAIL("logloss-range", "got (%.17g,%.17g,%.17g)", l, g, h);
    }
    std::tie(l, g, h) = ComputeHuberizedHinge(y, f);
    double e = y * f;
    if (std::isfinite(e)) {
      double el = e >= 1 ? 0 : e >= 0 ? 0.5 * (1 - e) * (1 - e) : 0.5 - e, eg = e >= 1 ? 0 : e >= 0 ? (1 - e) * y : y, eh = e >= 0 && e < 1;
      if (!close_(l, el) || !close_(g, eg) || h != eh) FAIL("huberized", "got (%.17g,%.17g,%.17g)", l, g, h);
    }
    std::tie(l, g, h) = ComputeSquaredHinge(y, f);
    e = y - f;
    bool act = e * y > 0;
    if (std::isfinite(e * e) && (!close_(l, act ? e * e : 0) || !close_(g, act ? e : 0) || h != (act ? 1 : 0))) FAIL("squared_hinge", "got (%.17g,%.17g,%.17g)", l, g, h);
  }
  return DONE();
}
