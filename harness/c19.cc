#include "common.h"
#include <glog/logging.h>
#include <gflags/gflags.h>
#include <google/protobuf/util/message_differencer.h>
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/loss_func/gradient_data.h"
#include "src/loss_func/loss_func.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/utils.h"
DECLARE_int32(num_threads);
using namespace gbdt; using namespace std;
class Store : public DataStore {};
static DataStore* g_ds; static Forest* g_forest; static int g_n;
static vector<double> predict(const Forest& f) {
  vector<double> s(g_n, 0.0);
  ComputeTreeScores c(g_ds);
  for (auto& t : f.tree()) c.AddTreeScores(t, &s);
  return s;
}
class Loss : public LossFunc {
 public:
  vector<double> consts; vector<vector<GradientData>> grads; int bad = -1; double bad_value = 0; int trees0 = 0;
  Status Init(int n, FloatVector w, FloatVector y, const StringColumn*) override { n_ = n; y_ = y; return Status::OK; }
  void ComputeFunctionalGradientsAndHessians(const vector<double>& f, double* c, vector<GradientData>* g, string* p) override {
    int r = consts.size();
    auto want = predict(*g_forest);
    for (int i = 0; i < n_; ++i) if (!close_(f[i], want[i], 1e-5, 1e-4)) { FAIL("scores", "round %d computes gradients at %.9g for row %d, the model so far predicts %.9g", r, f[i], i, want[i]); break; }
    *c = r == bad ? bad_value : rint_(-40, 40) / 8.0;
    if (chance(.2) && r != bad) *c = 0;
    g->resize(n_); for (int i = 0; i < n_; ++i) { (*g)[i].g = y_(i) - f[i] - *c; (*g)[i].h = 1; }
    consts.push_back(*c); grads.push_back(*g);
    if (p) *p = "p";
  }
  int n_ = 0; FloatVector y_;
};
static void shrink(TreeNode* t, float s) { t->set_score(t->score() * s); if (t->has_left_child()) shrink(t->mutable_left_child(), s); if (t->has_right_child()) shrink(t->mutable_right_child(), s); }
static void clean(TreeNode* t) {
  if (!t->has_left_child()) t->clear_split();
  else if (t->has_split() && t->split().has_cat_split()) t->mutable_split()->mutable_cat_split()->clear_internal_categorical_index();
  if (t->has_left_child()) clean(t->mutable_left_child());
  if (t->has_right_child()) clean(t->mutable_right_child());
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  FLAGS_minloglevel = 2; FLAGS_logtostderr = 1;
  using google::protobuf::util::MessageDifferencer;
  for (long it = 0, iters = ITER(700, 12000); it < iters; ++it) {
    FLAGS_num_threads = rint_(1, 3);
    int n = g_n = rint_(2, 12);
    Store st; vector<float> x1(n), x2(n), y(n), w(n); vector<string> s(n);
    for (int i = 0; i < n; ++i) { x1[i] = chance(.1) ? NAN : rint_(0, 5); x2[i] = rint_(0, 9); y[i] = rint_(-20, 20) / 4.0f; w[i] = rint_(1, 4); s[i] = chance(.1) ? "__missing__" : "v" + to_string(rint_(0, 3)); }
    auto add = [&](unique_ptr<Column> c) { if (!st.Add(std::move(c)).ok()) FAIL("setup", "column refused"); };
    add(Column::CreateBucketizedFloatColumn("x1", x1)); add(Column::CreateBucketizedFloatColumn("x2", x2)); add(Column::CreateStringColumn("s", s));
    g_ds = &st;
    Config cfg; cfg.set_num_trees(rint_(1, 5)); cfg.set_num_leaves(rint_(1, 5)); cfg.set_shrinkage(chance(.3) ? 1 : rint_(1, 31) / 32.0f); cfg.set_example_sampling_rate(1); cfg.set_feature_sampling_rate(1);
    cfg.set_min_hessian(0); cfg.add_float_feature("x1"); cfg.add_float_feature("x2"); cfg.add_categorical_feature("s");
    auto W = [&](int i) { return w[i]; }; auto Y = [&](int i) { return y[i]; };
    unordered_set<string> names = {"x1", "x2", "s"};
    Forest base; bool has_base = chance(.6);
    if (has_base) {
      Forest tmp; Loss l; g_forest = &tmp; Config c2 = cfg; c2.set_num_trees(rint_(1, 4));
      if (!TrainGBDT(&st, names, W, Y, &l, c2, nullptr, &tmp).ok()) { FAIL("base", "training the base forest failed"); continue; }
      for (auto& t : tmp.tree()) { while (chance(.35)) base.add_tree()->set_score(rint_(-30, 30) / 8.0); *base.add_tree() = t; }
      while (chance(.4)) base.add_tree()->set_score(rint_(-30, 30) / 8.0);
      if (chance(.1)) base.clear_tree();
    }
    Loss l; if (chance(.15)) { l.bad = rint_(0, cfg.num_trees() - 1); l.bad_value = pick(vector<double>{NAN, INFINITY, -INFINITY}); }
    Forest f; g_forest = &f;
    string d; for (int i = 0; i < n; ++i) d += to_string(x1[i]).substr(0, 3) + "," + to_string(x2[i]).substr(0, 1) + "," + s[i] + "->" + to_string(y[i]).substr(0, 5) + " ";
    CASE("%d rounds, %d leaves, shrinkage %g, bad constant in round %d, base of %d trees%s: %.900s rows %s", cfg.num_trees(), cfg.num_leaves(), cfg.shrinkage(), l.bad, base.tree_size(), has_base ? "" : " (none)", base.ShortDebugString().c_str(), d.c_str());
    auto status = TrainGBDT(&st, names, W, Y, &l, cfg, has_base ? &base : nullptr, &f);
    if (l.bad >= 0) { if (status.ok()) FAIL("not-finite", "training goes on after the constant %g", l.bad_value); continue; }
    if (!status.ok()) { FAIL("status", "training failed"); continue; }
    double want = 0; vector<TreeNode> trees;
    for (auto& t : base.tree()) if (t.has_left_child()) { trees.push_back(t); clean(&trees.back()); } else want += t.score();
    for (double c : l.consts) want += c;
    vector<const Column*> features; LoadFeatures(names, &st, &features);
    for (auto& g : l.grads) { trees.push_back(FitTreeToGradients(W, g, features, cfg)); shrink(&trees.back(), cfg.shrinkage()); clean(&trees.back()); }
    if ((int)l.grads.size() != cfg.num_trees()) FAIL("rounds", "%zu rounds", l.grads.size());
    if (f.tree_size() != 1 + (int)trees.size()) { FAIL("trees", "%d trees, expected %zu", f.tree_size(), 1 + trees.size()); continue; }
    if (f.tree(0).has_left_child() || f.tree(0).has_split() || !close_(f.tree(0).score(), want, 1e-5, 1e-4)) FAIL("constant", "constant %.9g, expected %.9g", f.tree(0).score(), want);
    for (int k = 1; k < f.tree_size(); ++k) if (!MessageDifferencer::Equals(f.tree(k), trees[k - 1])) { FAIL("tree", "tree %d is %.400s, expected %.400s", k, f.tree(k).ShortDebugString().c_str(), trees[k - 1].ShortDebugString().c_str()); break; }
  }
  return DONE();
}
