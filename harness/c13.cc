#include "common.h"
#include "src/loss_func/gradient_data.h"
using namespace gbdt;
static double val() {
  static const std::vector<double> sp = {0, 1, -1, 0.5, 3, -2.25, 1e-3, 1e6, -1e6, 7, -0.0};
  return chance(0.5) ? pick(sp) : (runit() - 0.5) * 200;
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  for (long it = 0; it < ITER(20000, 200000); ++it) {
    double a = val(), b = val(), c = val(), d = val(), l = chance(0.3) ? -b : std::fabs(val());
    float w = (float)val();
    CASE("a=(%.17g,%.17g) b=(%.17g,%.17g) lambda=%.17g w=%.9g", a, b, c, d, l, w);
    GradientData x(a, b), y(c, d), z, s = x + y, m = x - y, t = x * w, t2 = w * x, acc = x;
    acc += y;
    if (x.g != a || x.h != b) FAIL("ctor", "constructor stored %g %g", x.g, x.h);
    if (z.g != 0 || z.h != 0) FAIL("ctor0", "default is not zero");
    if (s.g != a + c || s.h != b + d) FAIL("add", "sum is (%g,%g)", s.g, s.h);
    if (acc.g != a + c || acc.h != b + d) FAIL("acc", "accumulated is (%g,%g)", acc.g, acc.h);
    if (m.g != a - c || m.h != b - d) FAIL("sub", "difference is (%g,%g)", m.g, m.h);
    if (!close_(t.g, w * a) || !close_(t.h, w * b)) FAIL("mul", "scaled is (%g,%g)", t.g, t.h);
    if (!close_(t2.g, w * a) || !close_(t2.h, w * b)) FAIL("mull", "scaled is (%g,%g)", t2.g, t2.h);
    double dv = b + l;
    if (!close_(x.Energy(l), dv == 0 ? 0 : a * a / dv)) FAIL("energy", "energy is %.17g", x.Energy(l));
    if (!close_(x.Score(l), dv == 0 ? 0 : a / dv)) FAIL("score", "score is %.17g", x.Score(l));
    LossFuncData p(c, a, b), q(d, b, c), r = p + q, r0;
    if (p.loss != c || p.gradient_data.g != a || p.gradient_data.h != b) FAIL("lctor", "loss record constructor");
    if (r.loss != c + d || r.gradient_data.g != a + b || r.gradient_data.h != b + c) FAIL("ladd", "loss record sum");
    if (r0.loss != 0 || r0.gradient_data.g != 0 || r0.gradient_data.h != 0) FAIL("lctor0", "default loss record");
  }
  return DONE();
}
