#include "common.h"
#include <algorithm>
#include <gflags/gflags.h>
#include "src/proto/config.pb.h"
#include "src/data_store/column.h"
#include "src/loss_func/gradient_data.h"
#include "src/utils/subsampling.h"
#define private public
#define protected public
#include "src/loss_func/loss_func_pairwise.h"
#undef private
#undef protected
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
DECLARE_int32(num_threads);
using namespace gbdt; using namespace std;
int main(int argc, char** argv) {
  INIT(argc, argv);
  vector<string> names = {"auc", "pairwise_logloss", "gbrank", "lambdamart"};
  long iters = ITER(1200, 30000);
  for (long it = 0; it < iters; ++it) {
    FLAGS_num_threads = rint_(1, 4);
    int n = chance(.05) ? rint_(60, 300) : rint_(1, 12), ng = rint_(1, chance(.1) ? 60 : 4), distinct = rint_(1, 4);
    bool grouped = chance(.8), eq = chance(.3), dt = chance(.3);
    string name = pick(names);
    vector<string> gs(n); for (auto& s : gs) { int g = rint_(0, ng); s = g == ng ? (chance(.5) ? "" : "0") : "g" + to_string(g); }
    vector<float> y(n), w(n); for (auto& v : y) v = rint_(-1, distinct - 2); for (auto& v : w) v = chance(.2) ? 0 : rint_(1, 8) / 4.0f;
    vector<double> f(n); for (auto& v : f) v = chance(.3) ? rint_(0, 2) : rint_(-300, 300) / 32.0;
    float rate = chance(.3) ? rint_(1, 30) / 64.0f : rint_(1, 24) / 2.0f;
    string d; for (int i = 0; i < n; ++i) d += "\"" + gs[i] + "\":" + to_string((int)y[i]) + ":" + to_string(w[i]).substr(0, 4) + ":" + to_string(f[i]).substr(0, 7) + " ";
    CASE("%s rate %g threads %d%s%s%s group:target:weight:score %s", name.c_str(), rate, FLAGS_num_threads, grouped ? "" : " ungrouped", eq ? " equal_group_weight" : "", dt ? " pair_weight_by_delta_target" : "", d.c_str());
    Config c; c.set_loss_func(name); c.set_pair_sampling_rate(rate); c.set_equal_group_weight(eq); c.set_pair_weight_by_delta_target(dt);
    auto l = LossFuncFactory::CreateLossFunc(c);
    Pairwise* pw = static_cast<Pairwise*>(l.get());
    auto col = Column::CreateStringColumn("g", gs);
    auto W = [&](int i) { if (i < 0 || i >= n) { FAIL("range", "weight %d of %d read", i, n); return 0.0f; } return w[i]; };
    auto Y = [&](int i) { if (i < 0 || i >= n) { FAIL("range", "target %d of %d read", i, n); return 0.0f; } return y[i]; };
    if (!l->Init(n, W, Y, grouped ? static_cast<const StringColumn*>(col.get()) : nullptr).ok()) { FAIL("init", "Init refused"); continue; }
    // the pairs the loss is asked about, with the positions
    map<string, set<float>> targets; for (int i = 0; i < n; ++i) targets[grouped ? gs[i] : ""].insert(y[i]);
    long total = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) total += (!grouped || gs[i] == gs[j]) && y[i] > y[j];
    vector<GradientData> gd(chance(.3) ? rint_(0, 2 * n) : n); for (auto& x : gd) { x.g = rint_(-9, 9); x.h = rint_(-9, 9); }
    auto check = [&](const vector<GradientData>& gd, double k) {
      if (k != 0) FAIL("constant", "constant %g", k);
      if ((int)gd.size() != n) { FAIL("size", "%zu gradients", gd.size()); return; }
      double s = 0, a = 0;
      for (int i = 0; i < n; ++i) {
        s += gd[i].g; a += fabs(gd[i].g);
        if (std::isnan(gd[i].g) || std::isnan(gd[i].h)) FAIL("nan", "row %d has gradient %g, hessian %g", i, gd[i].g, gd[i].h);
        if (targets[grouped ? gs[i] : ""].size() < 2 && (gd[i].g != 0 || gd[i].h != 0)) FAIL("foreign-row", "row %d has no pair, but gradient %g, hessian %g", i, gd[i].g, gd[i].h);
      }
      if (fabs(s) > 1e-5 * (1 + a)) FAIL("balance", "gradients add up to %.9g", s);
    };
    // number of pairs per group
    auto prog = string(); double k = 5;
    l->ComputeFunctionalGradientsAndHessians(f, &k, &gd, chance(.3) ? nullptr : &prog);
    check(gd, k);
    if (total == 0) for (auto& x : gd) if (x.g != 0 || x.h != 0) FAIL("no-pair", "gradient without any pair");
    // replace the pointwise loss by one that records its calls (1 thread): replay every pair and recompute the sums
    FLAGS_num_threads = 1;
    // encode the pair in the differences: distinct scores and the row's own target
    auto f2 = f; for (int i = 0; i < n; ++i) f2[i] = (double)(i + 1) * (i + 1) + ldexp(1.0 * (i + 1), -12);
    auto keep = pw->loss_func_;
    map<double, pair<int, int>> of; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) of[f2[i] - f2[j]] = {i, j};
    vector<pair<int, int>> drawn; bool bad = false;
    pw->loss_func_ = [&](double dt, double df) {
      auto p = of.find(df);
      if (p == of.end()) { if (!bad) FAIL("pair", "score difference %g belongs to no pair of rows", df); bad = true; return keep(dt, df); }
      int i = p->second.first, j = p->second.second;
      drawn.push_back({i, j});
      if (dt != (double)(y[i] - y[j])) FAIL("delta", "rows %d, %d: target difference %g", i, j, dt);
      if (!(dt > 0)) FAIL("order", "rows %d, %d: targets %g, %g", i, j, y[i], y[j]);
      if (grouped && gs[i] != gs[j]) FAIL("group", "rows %d and %d are of different groups", i, j);
      return keep(dt, df);
    };
    pw->loss_func_ = [&, inner = pw->loss_func_](double dt, double df) -> tuple<double, double, double> {
      inner(dt, df); return make_tuple(1.0, 1.0, 3.0);
    };
    l->ComputeFunctionalGradientsAndHessians(f2, &k, &gd, nullptr);
    check(gd, k);
    if (!bad && name != "lambdamart") {
      vector<double> g(n, 0), h(n, 0);
      vector<double> rank(n, 0); map<string, long> np;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((!grouped || gs[i] == gs[j]) && y[i] > y[j]) ++np[grouped ? gs[i] : ""];
      long mx = 1; for (auto& q : np) mx = max(mx, q.second);
      for (auto& p : drawn) {
        double wt = (double)w[p.first] * w[p.second] * (dt ? y[p.first] - y[p.second] : 1);
        if (eq) wt *= (double)mx / np[grouped ? gs[p.first] : ""];
        g[p.first] += wt; g[p.second] -= wt; h[p.first] += 6 * wt; h[p.second] += 6 * wt;
      }
      for (int i = 0; i < n && (int)gd.size() == n; ++i) {
        if (!close_(g[i], gd[i].g, 1e-4, 1e-4)) FAIL("gradient", "row %d: gradient %g, its pairs add up to %g", i, gd[i].g, g[i]);
        if (!close_(h[i], gd[i].h, 1e-4, 1e-4)) FAIL("hessian", "row %d: hessian %g, its pairs add up to %g", i, gd[i].h, h[i]);
      }
    }
    pw->loss_func_ = keep;
  }
  return DONE();
}
