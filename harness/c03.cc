#include "common.h"
#include "src/utils/subsampling.h"
#include "src/utils/utils.h"
using namespace gbdt;
static void check(const std::vector<std::pair<long, long>>& g, long n, long k, const char* key) {
  if ((long)g.size() != k) { FAIL(key, "%zu groups", g.size()); return; }
  long at = 0, mn = LONG_MAX, mx = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    if (g[i].first != at || g[i].second < g[i].first) { FAIL(key, "group %zu is [%ld,%ld), expected to start at %ld", i, g[i].first, g[i].second, at); return; }
    at = g[i].second;
    mn = std::min(mn, g[i].second - g[i].first); mx = std::max(mx, g[i].second - g[i].first);
  }
  if (at != n) FAIL(key, "ends at %ld", at);
  if (mx - mn > 1) FAIL(key, "sizes from %ld to %ld", mn, mx);
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(3000, 30000);
  for (long it = 0; it < iters; ++it) {
    int n, k;
    if (it < 400) { n = it / 20; k = 1 + it % 20; }
    else { n = chance(0.2) ? rint_(0, 5) : chance(0.97) ? rint_(0, 3000) : rint_(100000, 2000000); k = chance(0.5) ? rint_(1, 12) : chance(0.9) ? rint_(1, 200) : rint_(1, 3000); if (chance(0.1)) k = std::max(1, n); if (chance(0.05)) k = n + 1; }
    CASE("n=%d groups=%d", n, k);
    auto d = Subsampling::DivideSamples(n, k);
    std::vector<std::pair<long, long>> g;
    for (auto& p : d) g.push_back({(long)p.first, (long)p.second});
    check(g, n, k, "divide-range");
    auto all = Subsampling::CreateAllSamples(n);
    if ((int)all.size() != n) FAIL("all", "%zu samples", all.size());
    for (int i = 0; i < n && i < (int)all.size(); ++i) if (all[i] != (uint)i) { FAIL("all", "sample %d is %u", i, all[i]); break; }
    // a window of a larger vector
    int off = rint_(0, 5), tail = rint_(0, 5);
    std::vector<uint> v(off + n + tail);
    for (auto& x : v) x = rnd();
    auto copy = v;
    VectorSlice<uint> s(v, off, n);
    auto ds = Subsampling::DivideSamples(s, k);
    g.clear();
    for (auto& p : ds) g.push_back({(long)(p.begin() - v.begin()) - off, (long)(p.end() - v.begin()) - off});
    check(g, n, k, "divide-slice");
    auto c = VectorSliceToVector(s);
    if ((int)c.size() != n) FAIL("copy", "%zu rows", c.size());
    for (int i = 0; i < n && i < (int)c.size(); ++i) if (c[i] != copy[off + i]) { FAIL("copy", "row %d differs", i); break; }
    if (v != copy) FAIL("frame", "the rows were changed");
    if (s.size() != n) FAIL("slice", "size %d", s.size());
    for (int i = 0; i < n; i += 1 + n / 50) if (s[i] != copy[off + i]) { FAIL("slice", "element %d", i); break; }
  }
  return DONE();
}
