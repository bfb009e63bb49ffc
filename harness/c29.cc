#include "common.h"
#include <algorithm>
#include <gflags/gflags.h>
#include "src/proto/config.pb.h"
#include "src/data_store/column.h"
#define private public
#define protected public
#include "src/loss_func/loss_func_lambdamart.h"
#undef private
#undef protected
DEFINE_int32(num_threads, 2, "");
using namespace gbdt; using namespace std;
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(1500, 30000);
  for (long it = 0; it < iters; ++it) {
    Config cfg; cfg.set_pair_sampling_rate(1);
    float base = 2; int kind = rint_(0, 4);
    if (kind == 0) cfg.set_lambdamart_dcg_base(base = 1.0f + rint_(1, 40) / 8.0f);
    if (kind == 1) cfg.set_lambdamart_dcg_base(base = 1.0f + rint_(1, 4000) / 8.0f);
    if (kind == 2) cfg.set_lambdamart_dcg_base(0);
    if (kind == 3) cfg.set_lambdamart_dcg_base(-rint_(1, 9));
    unique_ptr<LambdaMART> l(new LambdaMART(cfg));
    int n = chance(.3) ? rint_(95, 260) : rint_(2, 12);
    vector<float> y(n); for (float& v : y) v = rint_(0, 8) * .25f;
    vector<uint> rows; for (int i = 0; i < n; ++i) rows.push_back(i);
    Group g(std::move(rows), [&](int i) { return y[i]; });
    vector<double> f(n); for (double& v : f) v = rint_(-500, 500) / 7.0;
    if (chance(.8)) g.Rerank(f);
    auto w = l->PairWeightingFunc(g);
    for (int k = 0; k < 40; ++k) {
      uint p = rint_(0, n - 1), q = rint_(0, n - 1);
      if (k < 6) { p = rint_(0, n - 1); for (int i = 0; i < n; ++i) if ((int)g.rank(i) == n - 1 - k || (n > 101 && (int)g.rank(i) == 98 + k)) q = i; }
      if (y[g[p]] < y[g[q]]) swap(p, q);
      auto D = [&](uint r) { return log((double)base) / log((double)base + r); };
      double want = ((double)y[g[p]] - y[g[q]]) * fabs(D(g.rank(p)) - D(g.rank(q))), got = w(make_pair(p, q));
      CASE("group of %d, base %g (configured %g), targets %g and %g at ranks %u and %u", n, base, cfg.lambdamart_dcg_base(), y[g[p]], y[g[q]], g.rank(p), g.rank(q));
      if (!close_(got, want, 1e-5, 2e-6)) FAIL("weight", "weight %.9g, expected %.9g", got, want);
      if (got < 0) FAIL("negative", "weight %g", got);
    }
  }
  return DONE();
}
