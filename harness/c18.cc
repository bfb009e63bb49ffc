#include "common.h"
#include <algorithm>
#include "src/proto/config.pb.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/data_store/column.h"
#include "src/gbdt_algo/utils.h"
using namespace gbdt; using namespace std;
int main(int argc, char** argv) {
  INIT(argc, argv);
  const float inf = numeric_limits<float>::infinity(), nan = numeric_limits<float>::quiet_NaN();
  vector<float> rates = {1, 1e-9f, 1e-45f, .5f, 0, -0.0f, -1e-45f, -1, nextafterf(1, 2), nextafterf(1, 0), 2, inf, -inf, nan, -nan, 1e30f};
  vector<int> counts = {1, 2, 0, -1, INT_MAX, INT_MIN, 100};
  vector<string> names = {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"};
  long iters = ITER(3000, 60000);
  for (long it = 0; it < iters; ++it) {
    Config c;
    int nt = chance(.7) ? rint_(1, 5) : pick(counts), nl = chance(.7) ? rint_(1, 5) : pick(counts);
    float er = chance(.6) ? rint_(1, 8) / 8.0f : pick(rates), fr = chance(.6) ? rint_(1, 8) / 8.0f : pick(rates);
    c.set_num_trees(nt); c.set_num_leaves(nl); c.set_example_sampling_rate(er); c.set_feature_sampling_rate(fr);
    CASE("CheckConfig num_trees %d num_leaves %d example_sampling_rate %g feature_sampling_rate %g", nt, nl, er, fr);
    bool want = nt > 0 && nl > 0 && er > 0 && er <= 1 && fr > 0 && fr <= 1;
    if (CheckConfig(c).ok() != want) FAIL("config", "%s", want ? "refused" : "accepted");

    string name = chance(.6) ? pick(names) : pick(vector<string>{"", "MSE", "logloss ", "ms", "msee", "huberized", "rank", "lambdamart2", string("mse\0", 4), "auc1", "none"});
    Config lc; lc.set_loss_func(name);
    CASE("CreateLossFunc \"%s\"", name.c_str());
    auto l = LossFuncFactory::CreateLossFunc(lc);
    bool known = find(names.begin(), names.end(), name) != names.end();
    if ((l != nullptr) != known) FAIL("factory", "%s", known ? "no loss created" : "a loss was created");

    int n = chance(.1) ? 0 : rint_(1, chance(.1) ? 200 : 9);
    string which = chance(.5) ? "logloss" : "huberized_hinge";
    vector<float> y(n); for (float& v : y) v = chance(.5) ? 1 : -1;
    int bad = n && chance(.6) ? rint_(0, n - 1) : -1; string ds;
    if (bad >= 0) y[bad] = pick(vector<float>{0, -0.0f, 2, -2, .5f, nextafterf(1, 2), nextafterf(1, 0), nextafterf(-1, 0), nextafterf(-1, -2), 1 + 1e-6f, -1 - 1e-6f, nan, inf, -inf, 1e-45f, 3e38f});
    for (float v : y) { char b[40]; snprintf(b, 40, "%.9g ", v); ds += b; }
    Config pc; pc.set_loss_func(which);
    auto p = LossFuncFactory::CreateLossFunc(pc);
    if (!p) { FAIL("factory", "no %s", which.c_str()); continue; }
    CASE("%s targets %s", which.c_str(), ds.c_str());
    bool ok = p->Init(n, [](int) { return 1.0f; }, [&](int i) { return y[i]; }, nullptr).ok();
    if (ok != (bad < 0)) FAIL("targets", "%s", ok ? "accepted" : "refused");

    string pw = pick(vector<string>{"auc", "pairwise_logloss", "gbrank", "lambdamart"});
    float rate = chance(.3) ? rint_(1, 200) / 8.0f : pick(rates);
    Config qc; qc.set_loss_func(pw); qc.set_pair_sampling_rate(rate);
    auto q = LossFuncFactory::CreateLossFunc(qc);
    if (!q) { FAIL("factory", "no %s", pw.c_str()); continue; }
    auto colp = Column::CreateStringColumn("g", {"a", "b", "a", "", "b"}); const StringColumn& col = *static_cast<const StringColumn*>(colp.get());
    bool grouped = chance(.5);
    CASE("%s pair_sampling_rate %g%s", pw.c_str(), rate, grouped ? " with groups" : "");
    bool qok = q->Init(5, [](int) { return 1.0f; }, [](int i) { return float(i % 3); }, grouped ? &col : nullptr).ok();
    if (qok != (rate > 0)) FAIL("pair-rate", "%s", qok ? "accepted" : "refused");
  }
  return DONE();
}
