#include "common.h"
#include <algorithm>
#include <memory>
#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
using namespace gbdt; using namespace std;
typedef GradientData GD;
static double en(double g, double h, double l) { return h + l == 0 ? 0 : g * g / (h + l); }
// exact dyadic inputs, so that sums do not depend on their order
static double dy(int lo, int hi) { return rint_(lo, hi) / 8.0; }
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(5000, 80000);
  for (long it = 0; it < iters; ++it) {
    bool cat = it % 3 == 2;
    int n = chance(.1) ? rint_(1, 3) : rint_(2, 40), distinct = chance(.3) ? rint_(1, 3) : rint_(1, 10);
    vector<float> vals(n); vector<string> strs(n); vector<GD> gd(n); vector<float> ws(n);
    bool adjacent = chance(.15), huge = chance(.05), zeros = chance(.2), inf = chance(.05);
    for (int i = 0; i < n; ++i) {
      int x = rint_(0, distinct);
      float base = huge ? 3.0e38f : adjacent ? 1.0f : 0.f;
      float v = adjacent ? nextafterf(base, 2.f) : base + x;
      if (adjacent) { v = 1.0f; for (int j = 0; j < x; ++j) v = nextafterf(v, 2.f); }
      else if (huge) v = 3.0e38f + x * 2e36f;
      else v = (x - distinct / 2) * 1.5f;
      if (inf && x == distinct) v = INFINITY; if (inf && x == 1) v = -INFINITY;
      bool missing = x == 0 && !adjacent;
      vals[i] = missing ? NAN : v; strs[i] = missing ? "__missing__" : "c" + to_string(x);
      gd[i] = GD(zeros && chance(.5) ? 0 : dy(-30, 30), zeros && chance(.2) ? 0 : dy(0, 16));
      ws[i] = chance(.3) ? 1.0f : chance(.1) ? 0.0f : rint_(1, 8) / 4.0f;
    }
    if (zeros && n > 2) { gd[1] = GD(-gd[0].g, gd[0].h); ws[1] = ws[0]; vals[1] = vals[0]; strs[1] = strs[0]; }
    unique_ptr<Column> col = cat ? Column::CreateStringColumn("f", strs) : Column::CreateBucketizedFloatColumn("f", vals);
    if (!cat && chance(.3)) {
      auto* fc = new BucketizedFloatColumn("f", rint_(1, 6));
      col.reset(fc);
      fc->Add(&vals); fc->Finalize();
    }
    if (!col->status().ok()) { FAIL("column", "column not built"); continue; }
    auto* ic = static_cast<IntegerizedColumn*>(col.get());
    vector<uint> rows; for (int i = 0; i < n; ++i) if (chance(.85)) rows.push_back(i);
    Config config;
    config.set_l2_lambda(chance(.3) ? 0 : chance(.5) ? 1 : dy(0, 80));
    config.set_min_hessian(chance(.4) ? 0 : dy(0, 20));
    config.set_min_gain(chance(.5) ? 0 : chance(.7) ? dy(0, 40) : 1e-7);
    double lam = config.l2_lambda(), mh = config.min_hessian(), thr = max(config.min_gain(), 1e-6);
    GD tot; map<uint, GD> hist;
    for (uint r : rows) { GD x(ws[r] * gd[r].g, ws[r] * gd[r].h); tot += x; hist[ic->col()[r]] += x; }
    Split split;
    string d; for (uint r : rows) { char b[90]; snprintf(b, 90, "(%s,%g,%g,w%g)", cat ? strs[r].c_str() : to_string(vals[r]).c_str(), gd[r].g, gd[r].h, ws[r]); d += b; }
    CASE("%s lambda=%g min_hessian=%g min_gain=%g rows=%s", cat ? "categorical" : "numeric", lam, mh, config.min_gain(), d.c_str());
    bool found = FindBestSplit(col.get(), [&](int i) { return ws[i]; }, &gd, VectorSlice<uint>(rows), config, tot, &split);
    // brute force over the ordered non-empty buckets
    vector<uint> order; for (auto& p : hist) if (p.second.g != 0 || p.second.h != 0) order.push_back(p.first);
    if (cat) sort(order.begin(), order.end(), [&](uint a, uint b) { return hist[a].Score(lam) < hist[b].Score(lam); });
    double best = 0; bool any = false;
    bool hm = hist.count(0) && (hist[0].g != 0 || hist[0].h != 0);
    bool ties = false;
    if (cat) for (size_t i = 1; i < order.size(); ++i) if (hist[order[i]].Score(lam) == hist[order[i - 1]].Score(lam)) ties = true;
    double tote = en(tot.g, tot.h, lam), lg = 0, lh = 0;
    auto consider = [&](double ag, double ah) {
      double bg = tot.g - ag, bh = tot.h - ah;
      if (!(min(ah, bh) > mh)) return;
      double g = en(ag, ah, lam) + en(bg, bh, lam) - tote;
      if (g > thr && (!any || g > best)) { best = g; any = true; }
    };
    for (size_t i = 1; i < order.size(); ++i) {
      lg += hist[order[i - 1]].g; lh += hist[order[i - 1]].h;
      consider(lg, lh);
      if (!cat && hm) consider(lg - hist[0].g, lh - hist[0].h);
    }
    bool edge = any && best < thr * (1 + 1e-9);
    if (!ties && !edge && found != any) { FAIL("found", "search returned %d, a qualifying cut %s (best gain %.17g)", found, any ? "exists" : "does not exist", best); continue; }
    if (!found) continue;
    if (!ties && !close_(split.gain(), best, 1e-9, 1e-9)) FAIL("gain", "gain %.17g, best %.17g", split.gain(), best);
    if (!(split.gain() > 0)) FAIL("gain", "gain %.17g is not positive", split.gain());
    // the stored split routes the rows the way it was scored
    auto rr = rows;
    auto pr = Partition(col.get(), split, VectorSlice<uint>(rr));
    double ag = 0, ah = 0, bg = 0, bh = 0; set<uint> lb, rb;
    for (uint r : pr.first) { ag += ws[r] * gd[r].g; ah += ws[r] * gd[r].h; lb.insert(ic->col()[r]); }
    for (uint r : pr.second) { bg += ws[r] * gd[r].g; bh += ws[r] * gd[r].h; rb.insert(ic->col()[r]); }
    double rg = en(ag, ah, lam) + en(bg, bh, lam) - tote;
    if (!close_(rg, split.gain(), 1e-9, 1e-9)) FAIL("routing", "routing the rows gives gain %.17g, the split says %.17g (threshold %.9g)", rg, split.gain(), split.float_split().threshold());
    if (!(min(ah, bh) > mh)) FAIL("admissible", "hessians %g and %g, minimum %g", ah, bh, mh);
    if (!cat) {
      if (!split.has_float_split() || split.has_cat_split()) FAIL("kind", "wrong kind of split");
      float th = split.float_split().threshold();
      auto* fc = static_cast<BucketizedFloatColumn*>(col.get());
      for (uint b : order) if (b) {
        bool l = lb.count(b);
        if (l && !(fc->get_bucket_max(b) < th)) FAIL("threshold", "bucket %u on the left, threshold %g", b, th);
        if (!l && !(th <= fc->get_bucket_min(b))) FAIL("threshold", "bucket %u on the right has bound %g, threshold %.9g", b, fc->get_bucket_min(b), th);
      }
      if (split.float_split().missing_to_right_child() && !hm) FAIL("missing", "missing values sent right although there are none");
    } else {
      if (!split.has_cat_split() || split.has_float_split()) FAIL("kind", "wrong kind of split");
      auto& cs = split.cat_split();
      set<uint> s(cs.internal_categorical_index().begin(), cs.internal_categorical_index().end());
      if ((int)s.size() != cs.internal_categorical_index_size()) FAIL("categories", "duplicate categories");
      for (uint c : s) if (!count(order.begin(), order.end(), c)) FAIL("categories", "category %u is not among the scored ones", c);
      if (s.size() * 2 > order.size()) FAIL("smaller", "%zu of %zu categories", s.size(), order.size());
      double mx = -INFINITY, mn = INFINITY, mx2 = -INFINITY, mn2 = INFINITY;
      for (uint c : order) { double sc = hist[c].Score(lam); if (s.count(c)) { mx = max(mx, sc); mn = min(mn, sc); } else { mx2 = max(mx2, sc); mn2 = min(mn2, sc); } }
      if (!(mx <= mn2 || mx2 <= mn)) FAIL("order", "the categories are not cut in score order");
    }
  }
  return DONE();
}
