// Bucketized numeric columns against a direct reading of C05 and (with WITH_C06) C06.
#include "common.h"
#include <algorithm>
#include <limits>
#include <map>
#include "src/data_store/column.h"
using namespace gbdt; using namespace std;
static float some_float(int kind) {
  switch (kind) {
    case 0: return (float)rint_(-5, 5);
    case 1: return (float)(runit() * 2 - 1) * 1e3f;
    case 2: return rint_(-2, 2) * .1f;
    case 3: return (float)rint_(0, 100000);
    case 4: return pick(vector<float>{numeric_limits<float>::max(), -numeric_limits<float>::max(), numeric_limits<float>::denorm_min(), 0.f, -0.f, 1e38f, -1e38f, 3e38f, numeric_limits<float>::min(), 1.f, nextafterf(1.f, 2.f)});
    case 5: return pick(vector<float>{INFINITY, -INFINITY, 0.f, 1.f, numeric_limits<float>::max()});
    default: return NAN;
  }
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  const float FMAX = numeric_limits<float>::max();
  long iters = ITER(4000, 60000);
  vector<int> edges = {253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537};
  for (long it = 0; it < iters; ++it) {
    int wide = it < (long)edges.size() ? edges[it] : chance(.01) ? edges[rint_(0, 4)] : 0;
    int nb = wide ? wide + rint_(0, 3) : chance(.2) ? 1 : chance(.5) ? rint_(2, 6) : rint_(2, 40);
    if (chance(.02)) nb = 30000;
    BucketizedFloatColumn col("f", nb);
    vector<float> all; string d; int shown = 0;
    int batches = rint_(chance(.05) ? 0 : 1, 4), main_kind = rint_(0, 6);
    size_t built_at = 0; bool built = false;
    for (int b = 0; b < batches; ++b) {
      vector<float> v;
      if (wide && b == 0) { int dup = 1; for (int k = 0; k < wide; ++k) for (int q = 0; q < dup; ++q) v.push_back((float)k); for (size_t k = v.size(); k-- > 1;) swap(v[k], v[rint_(0, (int)k)]); }
      else { int n = chance(.1) ? rint_(100 * min(nb, 5), 120 * min(nb, 5) + 10) : rint_(0, 30);
             for (int k = 0; k < n; ++k) { int kind = chance(.7) ? main_kind : rint_(0, 6);
               v.push_back(!all.empty() && chance(.2) ? all[rint_(0, (int)all.size() - 1)] : some_float(kind)); } }
      d += "["; for (float x : v) if (++shown < 120) { char t[40]; snprintf(t, sizeof t, "%.9g ", x); d += t; } d += "] ";
      col.Add(&v); all.insert(all.end(), v.begin(), v.end());
      if (!built && all.size() > 100ul * nb) { built = true; built_at = all.size(); }
    }
    if (!built) built_at = all.size();
    CASE("%d buckets asked for, %d batches, %zu rows: %s", nb, batches, all.size(), d.c_str());
    col.Finalize();
    if (!col.status().ok()) { FAIL("status", "column in error state"); continue; }
    uint m = col.max_int();
#ifndef WITH_C06
    if (col.size() != all.size()) { FAIL("rows", "%u rows for %zu values", col.size(), all.size()); continue; }
    for (uint i = 0; i < all.size(); ++i) {
      uint b = col.col()[i]; float x = all[i];
      if (isnan(x)) { if (b != 0 || !col.col().missing(i)) { FAIL("missing", "row %u is NaN, bucket %u", i, b); break; } continue; }
      if (b < 1 || b >= m) { FAIL("bucket", "row %u value %.9g has bucket %u of %u", i, x, b, m); break; }
      float lo = col.get_bucket_min(b), hi = col.get_bucket_max(b);
      if (col.get_row_min(i) != lo || col.get_row_max(i) != hi) { FAIL("row-bounds", "row %u", i); break; }
      if (!(lo <= x)) { FAIL("lower", "row %u value %.9g in bucket %u from %.9g", i, x, b, lo); break; }
      if (!(x <= hi) && !(b == m - 1)) { FAIL("upper", "row %u value %.9g in bucket %u up to %.9g", i, x, b, hi); break; }
      if (!(b == 1 || col.get_bucket_max(b - 1) < x)) { FAIL("below", "row %u value %.9g in bucket %u although bucket %u reaches %.9g", i, x, b, b - 1, col.get_bucket_max(b - 1)); break; }
    }
    vector<pair<float, uint>> s; for (uint i = 0; i < all.size(); ++i) if (!isnan(all[i])) s.push_back({all[i], col.col()[i]});
    sort(s.begin(), s.end(), [](const pair<float, uint>& a, const pair<float, uint>& b) { return a.first < b.first; });
    for (size_t k = 1; k < s.size(); ++k) {
      if (s[k - 1].second > s[k].second) { FAIL("order", "%.9g in bucket %u, %.9g in bucket %u", s[k - 1].first, s[k - 1].second, s[k].first, s[k].second); break; }
      if (s[k - 1].first == s[k].first && s[k - 1].second != s[k].second) { FAIL("equal", "%.9g in buckets %u and %u", s[k].first, s[k - 1].second, s[k].second); break; }
    }
#else
    if (m < 2) { FAIL("count", "%u buckets", m); continue; }
    if (!isnan(col.get_bucket_max(0))) FAIL("missing-bucket", "bucket 0 ends at %.9g", col.get_bucket_max(0));
    for (uint b = 1; b < m; ++b) {
      if (isnan(col.get_bucket_max(b)) || isnan(col.get_bucket_min(b))) { FAIL("nan-bound", "bucket %u of %u", b, m); break; }
      if (b > 1 && !(col.get_bucket_max(b - 1) < col.get_bucket_max(b))) { FAIL("ascending", "bucket %u ends at %.9g, bucket %u at %.9g", b - 1, col.get_bucket_max(b - 1), b, col.get_bucket_max(b)); break; }
      if (!(col.get_bucket_min(b) <= col.get_bucket_max(b))) { FAIL("min-max", "bucket %u from %.9g to %.9g", b, col.get_bucket_min(b), col.get_bucket_max(b)); break; }
    }
    if (!(col.get_bucket_max(m - 1) >= FMAX)) FAIL("last", "last bucket ends at %.9g", col.get_bucket_max(m - 1));
    map<float, size_t> times; for (size_t i = 0; i < built_at; ++i) if (!isnan(all[i])) ++times[all[i]];
    size_t cap = max<size_t>(1, built_at / nb);
    set<float> bounds; for (uint b = 1; b < m; ++b) bounds.insert(col.get_bucket_max(b));
    for (auto& t : times) if (t.second >= cap && !bounds.count(t.first)) { FAIL("frequent", "%.9g given %zu times of %zu for %d buckets is no bucket bound", t.first, t.second, built_at, nb); break; }
#endif
  }
  DONE();
}
