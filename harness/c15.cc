#include "common.h"
#include <gflags/gflags.h>
#include "src/proto/config.pb.h"
#include "src/data_store/column.h"
#include "src/loss_func/gradient_data.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/loss_func/loss_func_math.h"
DECLARE_int32(num_threads);
using namespace gbdt; using namespace std;
struct Sim { double c = 0, last = 0; int k = 0; bool stable = true; };
template <class L> static Sim simulate(L loss, const vector<float>& y, const vector<float>& w, const vector<double>& f, bool rev) {
  Sim s; double d;
  do {
    long double G = 0, H = 0, A = 0; s.last = s.c; int n = f.size();
    for (int j = 0; j < n; ++j) { int i = rev ? n - 1 - j : j; auto t = loss(y[i], f[i] + s.c); G += (double)w[i] * std::get<1>(t); H += (double)w[i] * std::get<2>(t); A += fabs(w[i] * std::get<1>(t)); }
    if (H != 0 && H < 1e-6 * (1 + A)) s.stable = false;
    d = H == 0 ? 0 : (double)(G / H);
    if (fabs(fabs(d) - 1e-4) < 1e-8 || fabs(d) > 1e4) s.stable = false;
    s.c += d; ++s.k;
  } while (fabs(d) > 1e-4 && s.k < 10);
  return s;
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  vector<string> names = {"mse", "logloss", "huberized_hinge"};
  int skipped = 0, many = 0;
  for (long it = 0, iters = ITER(1500, 40000); it < iters; ++it) {
    string name = pick(names);
    FLAGS_num_threads = rint_(1, 5);
    int n = chance(.03) ? rint_(100, 400) : rint_(chance(.05) ? 0 : 1, 14);
    bool bin = name != "mse";
    vector<float> y(n), w(n); for (auto& v : y) v = bin ? (chance(.5) ? 1 : -1) : rint_(-40, 40) / 8.0f; for (auto& v : w) v = chance(.15) ? 0 : rint_(1, 16) / 4.0f;
    if (chance(.1)) for (auto& v : y) v = 1;
    double span = pick(vector<double>{0, 0.5, 3, 20});
    vector<double> f(n); for (auto& v : f) v = (runit() - .5) * span;
    string d; for (int i = 0; i < n; ++i) d += to_string(y[i]).substr(0, 6) + ":" + to_string(w[i]).substr(0, 4) + ":" + to_string(f[i]).substr(0, 8) + " ";
    vector<GradientData> gd(chance(.5) ? n : rint_(0, 2 * n)); for (auto& g : gd) { g.g = rint_(-9, 9); g.h = rint_(-9, 9); }
    CASE("%s threads %d vector of %zu target:weight:score %s", name.c_str(), FLAGS_num_threads, gd.size(), d.c_str());
    Config cfg; cfg.set_loss_func(name);
    auto l = LossFuncFactory::CreateLossFunc(cfg);
    auto W = [&](int i) { if (i < 0 || i >= n) { FAIL("range", "weight %d of %d read", i, n); return 0.0f; } return w[i]; };
    auto Y = [&](int i) { if (i < 0 || i >= n) { FAIL("range", "target %d of %d read", i, n); return 1.0f; } return y[i]; };
    if (!l->Init(n, W, Y, nullptr).ok()) { FAIL("init", "Init refused"); continue; }
    auto loss = [&](double a, double b) { return name == "mse" ? ComputeMSE(a, b) : name == "logloss" ? ComputeLogLoss(a, b) : ComputeHuberizedHinge(a, b); };
    for (int round = 0; round < 2; ++round) {     // also a second call on the same object
      Sim s = simulate(loss, y, w, f, false), r = simulate(loss, y, w, f, true);
      double c = rint_(-5, 5); string prog;
      l->ComputeFunctionalGradientsAndHessians(f, &c, &gd, chance(.3) ? nullptr : &prog);
      if ((int)gd.size() != n) { FAIL("size", "%zu entries for %d rows", gd.size(), n); break; }
      if (!s.stable || !r.stable || s.k != r.k || !close_(s.c, r.c, 1e-9, 1e-9)) { ++skipped; }
      else {
        many += s.k > 1;
        if (!close_(c, s.c, 1e-6, 1e-6)) FAIL("constant", "constant %.9g, expected %.9g after %d Newton steps", c, s.c, s.k);
        else for (int i = 0; i < n; ++i) {
          auto t = loss(y[i], f[i] + s.last);
          double e0 = name == "huberized_hinge" ? y[i] * (f[i] + s.last) : .5;
          if (fabs(e0) < 1e-6 || fabs(e0 - 1) < 1e-6) continue;     // at a kink of the loss
          if (!close_(gd[i].g, std::get<1>(t), 1e-5, 1e-5) || !close_(gd[i].h, std::get<2>(t), 1e-5, 1e-5))
            FAIL("row", "row %d has (%g, %g), expected (%g, %g) at constant %g", i, gd[i].g, gd[i].h, std::get<1>(t), std::get<2>(t), s.last);
        }
      }
      for (auto& v : f) v += (runit() - .5);
    }
  }
  printf("NOTE skipped %d, more than one step %d\n", skipped, many);
  return DONE();
}
