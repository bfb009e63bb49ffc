#include "common.h"
#include <algorithm>
#include "src/loss_func/group.h"
using namespace gbdt; using namespace std;
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(3000, 60000);
  for (long it = 0; it < iters; ++it) {
    int n = chance(.05) ? rint_(100, 400) : rint_(1, 12), distinct = rint_(1, chance(.5) ? 3 : 12);
    vector<float> y(n + 6); for (float& v : y) v = rint_(-2, distinct - 2) * .5f;
    vector<uint> rows; for (int i = 0; i < n; ++i) rows.push_back(i + (chance(.2) ? 6 : 0));
    sort(rows.begin(), rows.end()); rows.erase(unique(rows.begin(), rows.end()), rows.end());
    if (chance(.6)) shuffle(rows.begin(), rows.end(), g_rng);
    n = rows.size();
    string d; for (uint r : rows) d += to_string(r) + ":" + to_string(y[r]) + " ";
    CASE("rows:targets %s", d.c_str());
    vector<uint> copy = rows;
    Group g(std::move(copy), [&](int i) { return y[i]; });
    if ((int)g.size() != n) { FAIL("size", "size %u", g.size()); continue; }
    vector<uint> got; for (int i = 0; i < n; ++i) got.push_back(g[i]);
    vector<uint> a = got, b = rows; sort(a.begin(), a.end()); sort(b.begin(), b.end());
    if (a != b) { FAIL("rows", "rows lost or repeated"); continue; }
    uint64_t pairs = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) pairs += y[got[i]] > y[got[j]];
    if (g.num_pairs() != pairs) { FAIL("num_pairs", "num_pairs %llu, expected %llu", (unsigned long long)g.num_pairs(), (unsigned long long)pairs); continue; }
    for (int i = 0; i < n; ++i) if (g.y(i) != y[got[i]]) FAIL("y", "y(%d) = %g", i, g.y(i));
    set<uint> rk; for (int i = 0; i < n; ++i) { if (g.rank(i) >= (uint)n) FAIL("rank", "rank %u of %d", g.rank(i), n); rk.insert(g.rank(i)); }
    if ((int)rk.size() != n) FAIL("rank", "ranks repeat");
    if (pairs) {
      std::mt19937 gen(it);
      map<pair<uint, uint>, int> cnt;
      int draws = pairs <= 40 && it % 4 == 0 ? 400 * pairs : 30;
      bool bad = false;
      for (int k = 0; k < draws; ++k) {
        auto p = g.SamplePair(&gen);
        if (p.first >= (uint)n || p.second >= (uint)n) { FAIL("pair-range", "pair (%u, %u) of %d", p.first, p.second, n); bad = true; break; }
        if (!(y[got[p.first]] > y[got[p.second]])) { FAIL("pair-order", "pair (%u, %u) has targets %g, %g", p.first, p.second, y[got[p.first]], y[got[p.second]]); bad = true; break; }
        ++cnt[p];
      }
      if (!bad && draws > 30) {
        if (cnt.size() != pairs) FAIL("pair-coverage", "%zu of %llu pairs drawn in %d draws", cnt.size(), (unsigned long long)pairs, draws);
        for (auto& c : cnt) if (c.second < 200 || c.second > 640) FAIL("pair-uniform", "pair (%u, %u) drawn %d times in %d draws, expected about 400", c.first.first, c.first.second, c.second, draws);
      }
    }
    for (int round = 0; round < 2; ++round) {
      vector<double> f(y.size()); bool ties = chance(.4);
      for (double& v : f) v = ties ? rint_(0, 3) : rint_(-1000, 1000) / 16.0;
      g.Rerank(f);
      string fs; for (int i = 0; i < n; ++i) fs += to_string(f[got[i]]) + " ";
      CASE("rows:targets %s scores by position %s", d.c_str(), fs.c_str());
      vector<int> at(n, -1); bool ok = true;
      for (int i = 0; i < n; ++i) { uint r = g.rank(i); if (r >= (uint)n || at[r] >= 0) { FAIL("rank", "rank(%d) = %u is out of range or taken", i, r); ok = false; break; } at[r] = i; }
      for (int i = 0; i < n; ++i) if (g[i] != got[i]) FAIL("rerank-rows", "Rerank moved the rows");
      if (ok) for (int i = 1; i < n; ++i) if (f[got[at[i - 1]]] < f[got[at[i]]]) { FAIL("rank-order", "rank %d has score %g, rank %d has %g", i - 1, f[got[at[i - 1]]], i, f[got[at[i]]]); break; }
    }
  }
  return DONE();
}
