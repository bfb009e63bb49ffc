#include "common.h"
#include <algorithm>
#include <memory>
#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/proto/tree.pb.h"
using namespace gbdt; using namespace std;
static string show(const vector<uint>& v) { string s; for (auto x : v) s += to_string(x) + " "; return s; }
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(4000, 60000);
  for (long it = 0; it < iters; ++it) {
    int kind = it % 5 == 4 ? 2 : it % 2;    // 0 numeric, 1 categorical, 2 raw
    int n = chance(0.1) ? rint_(1, 3) : chance(0.95) ? rint_(1, 40) : rint_(200, 700);
    vector<float> vals(n); vector<string> strs(n);
    int distinct = chance(0.02) ? 70000 : rint_(1, 12);
    for (int i = 0; i < n; ++i) {
      int x = rint_(0, distinct);
      vals[i] = x == 0 ? NAN : chance(0.05) ? (float)((chance(.5) ? 1 : -1) * 1e30) : (float)(x - distinct / 2) * 0.5f;
      strs[i] = x == 0 ? "__missing__" : "s" + to_string(x);
    }
    unique_ptr<Column> col = kind == 0 ? Column::CreateBucketizedFloatColumn("f", vals, chance(.5) ? 30000 : 400)
                           : kind == 1 ? Column::CreateStringColumn("f", strs) : Column::CreateRawFloatColumn("f", vector<float>(vals));
    Split split; split.set_feature("f");
    set<string> cats;
    if (kind == 0 || kind == 2) {
      auto* fs = split.mutable_float_split();
      float th = chance(0.7) ? vals[rint_(0, n - 1)] : (float)(runit() * distinct - distinct / 2);
      if (std::isnan(th)) th = chance(.5) ? 0 : -1e30f;
      if (chance(.1)) th = INFINITY; if (chance(.05)) th = -INFINITY;
      fs->set_threshold(th); fs->set_missing_to_right_child(chance(.5));
    } else {
      auto* cs = split.mutable_cat_split();
      bool idx = chance(.5), both = chance(.1);
      auto* sc = static_cast<StringColumn*>(col.get());
      int m = chance(.1) ? 0 : rint_(1, 5);
      for (int j = 0; j < m; ++j) {
        string s = chance(.75) ? strs[rint_(0, n - 1)] : chance(.5) ? "unknown" : "__missing__";
        uint ci;
        if (idx || both) { if (sc->get_cat_index(s, &ci)) { cs->add_internal_categorical_index(ci); cats.insert(s); } }
        else { cs->add_category(s); cats.insert(s); }
      }
      if (both && cs->internal_categorical_index_size() > 0) cs->add_category("s1");    // numbers take precedence
      if (both) { cats.clear(); for (int x : cs->internal_categorical_index()) cats.insert(sc->get_cat_string(x)); }
    }
    // a window of a vector of rows, with duplicates sometimes
    int m = rint_(0, n), off = rint_(0, 4), tail = rint_(0, 4);
    vector<uint> rows(n); for (int i = 0; i < n; ++i) rows[i] = i;
    shuffle(rows.begin(), rows.end(), g_rng); rows.resize(m);
    if (chance(.15) && m > 1) rows[0] = rows[m - 1];
    vector<uint> under(off, 999991); under.insert(under.end(), rows.begin(), rows.end()); under.insert(under.end(), tail, 999983);
    vector<uint> before = under;
    VectorSlice<uint> sl(under, off, m);
    string desc = kind == 1 ? "categories" : "threshold " + to_string(split.float_split().threshold()) + (split.float_split().missing_to_right_child() ? " missing right" : " missing left");
    CASE("kind=%d n=%d rows=%s split=%s window=[%d,%d)", kind, n, show(rows).c_str(), desc.c_str(), off, off + m);
    auto pr = Partition(col.get(), split, sl);
    if (pr.first.begin() - under.begin() != off || pr.first.end() != pr.second.begin() || pr.second.end() - under.begin() != off + m || pr.first.size() < 0 || pr.first.size() > m) { FAIL("cover", "the groups do not cover the window"); continue; }
    for (int i = 0; i < (int)under.size(); ++i) if ((i < off || i >= off + m) && under[i] != before[i]) FAIL("frame", "row outside the window changed");
    auto a = vector<uint>(under.begin() + off, under.begin() + off + m), b = rows;
    sort(a.begin(), a.end()); sort(b.begin(), b.end());
    if (a != b) FAIL("lost", "the rows are not a permutation: %s", show(a).c_str());
    auto left = [&](uint r) {
      if (kind == 2) return false;
      if (kind == 1) return cats.count(strs[r]) > 0;
      if (std::isnan(vals[r])) return !split.float_split().missing_to_right_child();
      auto* fc = static_cast<BucketizedFloatColumn*>(col.get());
      return fc->get_row_max(r) < split.float_split().threshold();
    };
    for (uint r : pr.first) if (r < (uint)n && !left(r)) { FAIL("left", "row %u does not belong left", r); break; }
    for (uint r : pr.second) if (r < (uint)n && left(r)) { FAIL("right", "row %u belongs left", r); break; }
  }
  return DONE();
}
