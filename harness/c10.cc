#include "common.h"
#include <algorithm>
#include <memory>
#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
using namespace gbdt; using namespace std;
typedef GradientData GD;
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(5000, 80000);
  for (long it = 0; it < iters; ++it) {
    bool cat = it % 2;
    int n = chance(.1) ? rint_(1, 3) : rint_(2, 60), distinct = rint_(1, chance(.05) ? 500 : 10);
    if (chance(.01)) { n = 400; distinct = 300; }
    vector<float> vals(n); vector<string> strs(n); vector<GD> gd(n); vector<float> ws(n);
    for (int i = 0; i < n; ++i) {
      int x = rint_(0, distinct);
      vals[i] = x == 0 ? NAN : (x - distinct / 2) * 1.5f; strs[i] = x == 0 ? "__missing__" : "c" + to_string(x);
      gd[i] = GD(chance(.2) ? 0 : rint_(-30, 30) / 8.0, chance(.2) ? 0 : rint_(0, 16) / 8.0);
      ws[i] = chance(.3) ? 1.0f : chance(.1) ? 0.0f : rint_(1, 8) / 4.0f;
    }
    if (chance(.2) && n > 1) { gd[1].g = -gd[0].g; ws[1] = ws[0]; vals[1] = vals[0]; strs[1] = strs[0]; }
    unique_ptr<Column> col = cat ? Column::CreateStringColumn("f", strs) : Column::CreateBucketizedFloatColumn("f", vals);
    auto* ic = static_cast<IntegerizedColumn*>(col.get());
    vector<uint> rows; for (int i = 0; i < n; ++i) if (chance(.8)) rows.push_back(i);
    if (chance(.3)) shuffle(rows.begin(), rows.end(), g_rng);
    int off = rint_(0, 3); vector<uint> under(off, 0); under.insert(under.end(), rows.begin(), rows.end()); under.push_back(0);
    string d; for (uint r : rows) { char b[90]; snprintf(b, 90, "(%u:%u,%g,%g,w%g)", r, ic->col()[r], gd[r].g, gd[r].h, ws[r]); d += b; }
    CASE("%s rows=%s", cat ? "categorical" : "numeric", d.c_str());
    Histogram h(*ic, [&](int i) { return ws[i]; }, gd, VectorSlice<uint>(under, off, rows.size()));
    map<uint, GD> hist; for (uint r : rows) hist[ic->col()[r]] += GD(ws[r] * gd[r].g, ws[r] * gd[r].h);
    set<uint> seen;
    auto sums = [&](const char* key) {
      seen.clear();
      for (int i = 0; i < h.size(); ++i) {
        uint v = h.value(i);
        if (v >= ic->max_int()) { FAIL(key, "bucket %u of %u", v, ic->max_int()); return; }
        if (!seen.insert(v).second) FAIL(key, "bucket %u listed twice", v);
        if (h.data(i).g != hist[v].g || h.data(i).h != hist[v].h) FAIL(key, "bucket %u holds (%g,%g), expected (%g,%g)", v, h.data(i).g, h.data(i).h, hist[v].g, hist[v].h);
      }
      for (auto& p : hist) if ((p.second.g != 0 || p.second.h != 0) && !seen.count(p.first)) FAIL("listed", "bucket %u with (%g,%g) is not listed", p.first, p.second.g, p.second.h);
    };
    sums("sums");
    for (int i = 1; i < h.size(); ++i) if (!(h.value(i - 1) < h.value(i))) FAIL("ascending", "bucket %u before %u", h.value(i - 1), h.value(i));
    bool hm = hist.count(0) && (hist[0].g != 0 || hist[0].h != 0);
    if (h.HasMissingValue() != hm) FAIL("missing", "HasMissingValue %d", h.HasMissingValue());
    auto before = seen;
    double lam = chance(.3) ? 0 : chance(.5) ? 1 : rint_(0, 80) / 8.0;
    h.SortOnNodeScore(lam);
    sums("sorted-sums");
    if (seen != before) FAIL("permutation", "sorting changed the listed buckets");
    for (int i = 1; i < h.size(); ++i) if (h.data(i - 1).Score(lam) > h.data(i).Score(lam)) FAIL("order", "score %g before %g (lambda %g)", h.data(i - 1).Score(lam), h.data(i).Score(lam), lam);
  }
  return DONE();
}
