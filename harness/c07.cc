#include "common.h"
#include <unordered_map>
#include "src/data_store/column.h"
using namespace gbdt; using namespace std;
int main(int argc, char** argv) {
  INIT(argc, argv);
  long iters = ITER(2500, 40000);
  vector<int> edges = {254, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 70000};
  for (long it = 0; it < iters; ++it) {
    int distinct = it < (long)edges.size() ? edges[it] : chance(.02) ? pick(edges) : chance(.1) ? rint_(200, 600) : rint_(1, 12);
    bool big = distinct > 150;
    int batches = rint_(chance(.05) ? 0 : 1, 4);
    vector<string> all; StringColumn col("s");
    string d;
    auto name = [&](int k) { return k == 0 && chance(.5) ? string("__missing__") : k == 1 ? string() : "v" + to_string(k * 7919 % 1000003); };
    int used = 0, shown = 0;
    for (int b = 0; b < batches; ++b) {
      vector<string> v;
      if (big && b == 0) { for (int k = 0; k < distinct; ++k) v.push_back("x" + to_string(k)); for (int k = 0; k < 50; ++k) v.push_back("x" + to_string(rint_(0, distinct - 1))); }
      else for (int k = rint_(0, 15); k--;) v.push_back(name(rint_(0, min(distinct, 12))));
      if (!big || b) { d += "["; for (auto& s : v) if (++shown < 80) d += "\"" + s + "\" "; d += "] "; }
      col.Add(&v); all.insert(all.end(), v.begin(), v.end());
    }
    (void)used;
    CASE("%d batches, %zu rows%s: %s", batches, all.size(), big ? (" starting with " + to_string(distinct) + " different ones").c_str() : "", d.c_str());
    col.Finalize();
    if (!col.status().ok()) { FAIL("status", "column in error state"); continue; }
    if (col.size() != all.size()) { FAIL("rows", "%u rows for %zu strings", col.size(), all.size()); continue; }
    map<string, uint> num = {{"__missing__", 0}};
    for (auto& s : all) num.emplace(s, (uint)num.size());
    if (col.max_int() != num.size()) FAIL("categories", "%u categories, %zu different strings", col.max_int(), num.size());
    for (uint i = 0; i < all.size(); ++i) {
      if (col.col()[i] != num[all[i]]) { FAIL("number", "row %u '%s' has category %u, expected %u", i, all[i].c_str(), col.col()[i], num[all[i]]); break; }
      if (col.get_row_string(i) != all[i]) { FAIL("string", "row %u reads '%s', given '%s'", i, col.get_row_string(i).c_str(), all[i].c_str()); break; }
      if (col.col().missing(i) != (all[i] == "__missing__")) { FAIL("missing", "row %u '%s'", i, all[i].c_str()); break; }
    }
    for (auto& p : num) {
      uint k = 12345; if (!col.get_cat_index(p.first, &k) || k != p.second || col.get_cat_string(k) != p.first) { FAIL("lookup", "'%s' found as %u, expected %u", p.first.c_str(), k, p.second); break; }
    }
    for (string s : {"nope", "__missing", "v", " ", ""}) { uint k; if (col.get_cat_index(s, &k) != (num.count(s) > 0)) FAIL("lookup-absent", "'%s'", s.c_str()); }
    vector<string> copy = all; auto c2 = Column::CreateStringColumn("t", copy);
    if (c2->size() != all.size() || c2->name() != "t" || c2->type() != Column::kStringColumn) FAIL("create", "CreateStringColumn");
    else for (uint i = 0; i < all.size(); ++i) if (static_cast<StringColumn*>(c2.get())->get_row_string(i) != all[i]) { FAIL("create", "row %u", i); break; }
  }
  return DONE();
}
