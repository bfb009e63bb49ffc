#include "common.h"
#include <algorithm>
#include "src/proto/tree.pb.h"
#include "src/gbdt_algo/utils.h"
using namespace gbdt; using namespace std;
static int g_kind;
static void rnd_tree(TreeNode* t, int depth, int names) {
  bool inner = depth > 0 && chance(.8);
  if (inner || chance(.3)) {
    auto* s = t->mutable_split();
    int k = rint_(0, names); if (k < names) s->set_feature("f" + to_string(k)); else if (chance(.5)) s->set_feature("");
    double g = g_kind == 0 ? rint_(0, 99) / 4.0 : g_kind == 1 ? 0 : g_kind == 2 ? -rint_(0, 9) : rint_(-99, 99) / 8.0;
    s->set_gain(g);
    if (chance(.5)) s->mutable_float_split()->set_threshold(1); else s->mutable_cat_split()->add_category("c");
  }
  if (inner) { rnd_tree(t->mutable_left_child(), depth - 1, names); rnd_tree(t->mutable_right_child(), depth - 1, names); }
}
static void walk(const TreeNode& t, map<string, double>& gain, set<string>& named) {
  if (t.has_split()) named.insert(t.split().feature());
  if (t.has_left_child()) { gain[t.split().feature()] += t.split().gain(); walk(t.left_child(), gain, named); walk(t.right_child(), gain, named); }
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  for (long it = 0, n = ITER(6000, 200000); it < n; ++it) {
    Forest f; g_kind = rint_(0, 4); int names = chance(.1) ? 200 : rint_(1, 8);
    for (int k = chance(.1) ? 0 : rint_(1, 5); k--;) rnd_tree(f.add_tree(), rint_(0, 5), names);
    CASE("forest %.6000s", f.ShortDebugString().c_str());
    map<string, double> gain; set<string> named;
    for (auto& t : f.tree()) walk(t, gain, named);
    auto got = ComputeFeatureImportance(f);
    auto all = CollectAllFeatures(f);
    if (set<string>(all.begin(), all.end()) != named) FAIL("collected", "%zu features collected, %zu named", all.size(), named.size());
    if (got.size() != gain.size()) FAIL("listed", "%zu features listed, %zu used", got.size(), gain.size());
    double top = -1e300; for (auto& p : gain) top = max(top, p.second);
    set<string> seen; double prev = 1e300;
    for (auto& p : got) {
      if (!gain.count(p.first)) FAIL("foreign", "feature '%s' is used by no internal node", p.first.c_str());
      if (!seen.insert(p.first).second) FAIL("twice", "feature '%s' twice", p.first.c_str());
      if (std::isnan(p.second)) FAIL("nan", "importance of '%s' is not a number", p.first.c_str());
      if (p.second > prev) FAIL("order", "'%s' is out of order", p.first.c_str());
      prev = p.second;
      double want = top > 0 ? gain[p.first] / top : gain[p.first];
      if (!close_(p.second, want)) FAIL("share", "importance of '%s' is %g, expected %g", p.first.c_str(), p.second, want);
    }
  }
  return DONE();
}
