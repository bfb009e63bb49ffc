// Grown trees against C12: scores of routed rows, best feature per node, best-first order, size limit, labels.
#include "common.h"
#include <algorithm>
#include <gflags/gflags.h>
#include <memory>
#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/vector_slice.h"
DECLARE_int32(num_threads);
using namespace gbdt; using namespace std;
typedef GradientData GD;
static double dy(int lo, int hi) { return rint_(lo, hi) / 8.0; }
static vector<const Column*> feats; static vector<GD> gd; static vector<float> wt; static Config config; static double lam; static bool all_features;
struct Seen { const TreeNode* node; double gain; bool inner; };
static map<const TreeNode*, int> leaves_;
static int nleaves; static bool leaf_gain;
static const Column* column(const string& n) { for (auto* c : feats) if (c->name() == n) return c; return nullptr; }
static void walk(const TreeNode& t, vector<uint> rows) {
  GD tot; for (uint r : rows) { tot.g += wt[r] * gd[r].g; tot.h += wt[r] * gd[r].h; }
  double want = tot.h + lam == 0 ? 0 : tot.g / (tot.h + lam);
  if (!close_(t.score(), want, 1e-5, 1e-5)) FAIL("score", "a node of %zu rows has score %.9g, the Newton score of its rows is %.9g", rows.size(), t.score(), want);
  if (t.has_left_child() != t.has_right_child()) { FAIL("children", "a node with one child"); return; }
  bool inner = t.has_left_child();
  if (inner && !t.has_split()) { FAIL("split", "an inner node without a split"); return; }
  if (t.has_split() && !(t.split().gain() > 0)) FAIL("gain", "a split with gain %g", t.split().gain());
  // the best split of any feature on these rows
  double best = 0; set<string> names; double own = -1;
  for (auto* f : feats) {
    Split s; auto rr = rows;
    if (!FindBestSplit(f, [](int i) { return wt[i]; }, &gd, VectorSlice<uint>(rr), config, tot, &s)) continue;
    if (t.has_split() && f->name() == t.split().feature()) own = s.gain();
    if (s.gain() > best * (1 + 1e-12)) { best = s.gain(); names.clear(); }
    if (close_(s.gain(), best, 1e-9, 1e-9)) names.insert(f->name());
  }
  if (all_features) {
    if (t.has_split() != (best > 0)) FAIL("has-split", "%s split, the best gain of any feature is %.17g", t.has_split() ? "a" : "no", best);
    else if (t.has_split() && (!close_(t.split().gain(), best, 1e-9, 1e-9) || !names.count(t.split().feature())))
      FAIL("best-feature", "split by %s with gain %.17g, the best is %s with %.17g", t.split().feature().c_str(), t.split().gain(), names.empty() ? "" : names.begin()->c_str(), best);
  }
  if (t.has_split()) {
    auto* c = column(t.split().feature());
    if (!c) { FAIL("feature", "split by '%s', which is no feature", t.split().feature().c_str()); return; }
    if (!close_(own, t.split().gain(), 1e-9, 1e-9)) FAIL("own-gain", "split by %s with gain %.17g, its best gain is %.17g", c->name().c_str(), t.split().gain(), own);
    if ((c->type() == Column::kStringColumn) != t.split().has_cat_split()) { FAIL("kind", "wrong kind of split for %s", c->name().c_str()); return; }
    if (t.split().has_cat_split()) {
      auto& cs = t.split().cat_split(); auto* sc = static_cast<const StringColumn*>(c);
      bool ok = cs.category_size() == cs.internal_categorical_index_size();
      for (int k = 0; ok && k < cs.category_size(); ++k) ok = cs.category(k) == sc->get_cat_string(cs.internal_categorical_index(k));
      if (!ok) FAIL("labels", "the category names of a split by %s are not those of its %d categories", c->name().c_str(), cs.internal_categorical_index_size());
    }
  }
  if (!inner) { ++nleaves; if (t.has_split()) leaf_gain = true; return; }
  auto rr = rows;
  auto p = Partition(column(t.split().feature()), t.split(), VectorSlice<uint>(rr));
  walk(t.left_child(), vector<uint>(p.first.begin(), p.first.end()));
  walk(t.right_child(), vector<uint>(p.second.begin(), p.second.end()));
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  for (long it = 0, iters = ITER(1200, 20000); it < iters; ++it) {
    FLAGS_num_threads = rint_(1, 4);
    int n = chance(.1) ? rint_(1, 4) : rint_(2, 40), nf = chance(.05) ? 0 : rint_(1, 4);
    vector<unique_ptr<Column>> own; feats.clear(); string d;
    gd.assign(n, GD()); wt.assign(n, 1);
    for (int i = 0; i < n; ++i) { gd[i] = GD(dy(-40, 40), chance(.1) ? 0 : dy(1, 16)); wt[i] = chance(.5) ? 1.f : rint_(0, 8) / 4.0f; }
    for (int f = 0; f < nf; ++f) {
      string name = "f" + to_string(f); int distinct = rint_(1, 8);
      if (chance(.5)) { vector<float> v(n); for (auto& x : v) x = chance(.1) ? NAN : (float)rint_(0, distinct); own.push_back(Column::CreateBucketizedFloatColumn(name, v)); }
      else { vector<string> v(n); for (auto& x : v) x = chance(.1) ? "__missing__" : "v" + to_string(rint_(0, distinct)); own.push_back(Column::CreateStringColumn(name, v)); }
      if (f && chance(.1)) { own.pop_back(); --nf; --f; continue; }
      feats.push_back(own.back().get());
    }
    config.Clear();
    lam = chance(.3) ? 0 : dy(0, 40); config.set_l2_lambda(lam); config.set_min_hessian(chance(.5) ? 0 : dy(0, 16)); config.set_min_gain(chance(.5) ? 0 : dy(0, 40));
    config.set_num_leaves(chance(.1) ? rint_(0, 2) : rint_(1, 12));
    config.set_example_sampling_rate(1); all_features = chance(.7); config.set_feature_sampling_rate(all_features ? 1 : runit());
    CASE("%d rows, %zu features, %d leaves, lambda %g, min_hessian %g, min_gain %g, feature rate %g, %d threads", n, feats.size(), config.num_leaves(), lam, config.min_hessian(), config.min_gain(),
         config.feature_sampling_rate(), FLAGS_num_threads);
    TreeNode tree = FitTreeToGradients([&](int i) { return wt[i]; }, gd, feats, config);
    vector<uint> rows(n); for (int i = 0; i < n; ++i) rows[i] = i;
    nleaves = 0; leaf_gain = false;
    walk(tree, rows);
    int limit = max(1, config.num_leaves());
    if (nleaves > limit) FAIL("leaves", "%d leaves, at most %d", nleaves, limit);
    if (nleaves < limit && leaf_gain) FAIL("stopped", "%d leaves of at most %d although a leaf has a split of positive gain", nleaves, limit);
    // best first: expanding the largest gain first meets every inner node before a leaf of larger gain
    vector<const TreeNode*> front = {&tree};
    while (!front.empty()) {
      auto g = [](const TreeNode* t) { return t->has_split() ? t->split().gain() : 0.0; };
      auto best = max_element(front.begin(), front.end(), [&](const TreeNode* a, const TreeNode* b) { return make_pair(g(a), a->has_left_child()) < make_pair(g(b), b->has_left_child()); });
      const TreeNode* t = *best;
      if (!t->has_left_child()) {
        for (auto* x : front) if (x->has_left_child() && g(x) < g(t)) { FAIL("best-first", "a leaf with gain %.17g was left, a node with gain %.17g was split", g(t), g(x)); break; }
        break;
      }
      front.erase(best); front.push_back(&t->left_child()); front.push_back(&t->right_child());
    }
  }
  return DONE();
}
