#include "common.h"
#include <memory>
#include <gflags/gflags.h>
#include "src/data_store/data_store.h"
#include "src/data_store/column.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/proto/tree.pb.h"
DECLARE_int32(num_threads);
using namespace gbdt; using namespace std;
static vector<vector<float>> X; static vector<vector<string>> Z; static vector<unique_ptr<Column>> own;
static DataStore* ds;
static bool goes_left(const Split& s, int i) {
  int k = s.feature()[1] - '0';
  if (s.feature()[0] == 'x') {
    if (std::isnan(X[k][i])) return !s.float_split().missing_to_right_child();
    return ds->GetBucketizedFloatColumn(s.feature())->get_row_max(i) < s.float_split().threshold();
  }
  for (auto& c : s.cat_split().category()) if (c == Z[k][i]) return true;
  return false;
}
static double leaf(const TreeNode& t, int i) {
  return !t.has_left_child() ? t.score() : leaf(goes_left(t.split(), i) ? t.left_child() : t.right_child(), i);
}
static void mk(TreeNode* t, int depth) {
  t->set_score(rint_(-640, 640) / 64.0f);
  if (depth == 0 || chance(.2)) { if (chance(.2)) { t->mutable_split()->set_feature("x0"); t->mutable_split()->mutable_float_split(); } return; }
  int k = rint_(0, 1);
  auto* s = t->mutable_split();
  if (chance(.6)) { s->set_feature("x" + to_string(k)); s->mutable_float_split()->set_threshold(rint_(-1, 8) + .5f); s->mutable_float_split()->set_missing_to_right_child(chance(.5)); }
  else { s->set_feature("z" + to_string(k)); auto* c = s->mutable_cat_split(); for (int j = rint_(1, 4); j--;) c->add_category("c" + to_string(rint_(0, 7))); }
  mk(t->mutable_left_child(), depth - 1); mk(t->mutable_right_child(), depth - 1);
}
static int nodes(const TreeNode& t) { return t.has_left_child() ? 1 + nodes(t.left_child()) + nodes(t.right_child()) : 1; }
int main(int argc, char** argv) {
  INIT(argc, argv);
  vector<int> threads{1, 1, 2, 3, 4, 7};
  for (long it = 0, n = ITER(500, 6000); it < n; ++it) {
    int rows = chance(.1) ? rint_(1, 3) : chance(.9) ? rint_(4, 60) : rint_(300, 900);
    FLAGS_num_threads = pick(threads);
    X.assign(2, vector<float>(rows)); Z.assign(2, vector<string>(rows));
    for (auto& v : X) for (float& x : v) x = chance(.15) ? NAN : rint_(0, 9);
    for (auto& v : Z) for (auto& z : v) z = "c" + to_string(rint_(0, 5));
    DataStore store; ds = &store;
    for (int k = 0; k < 2; ++k) { store.Add(Column::CreateBucketizedFloatColumn("x" + to_string(k), X[k])); store.Add(Column::CreateStringColumn("z" + to_string(k), Z[k])); }
    Forest f; for (int k = rint_(0, 5); k--;) mk(f.add_tree(), rint_(0, 5));
    CASE("%d rows, %d threads, forest of %d trees: %.2500s", rows, FLAGS_num_threads, f.tree_size(), f.ShortDebugString().c_str());
    ComputeTreeScores cts(&store);
    vector<double> s(rows), want(rows); for (int i = 0; i < rows; ++i) want[i] = s[i] = rint_(-9, 9);
    for (auto& t : f.tree()) {
      double c = chance(.5) ? 0 : rint_(-64, 64) / 16.0;
      if (c == 0 && chance(.5)) cts.AddTreeScores(t, &s); else cts.AddTreeScores(t, c, &s);
      for (int i = 0; i < rows; ++i) want[i] += leaf(t, i) + c;
      if (s.size() != want.size()) { FAIL("size", "%zu scores", s.size()); break; }
      for (int i = 0; i < rows; ++i) if (!close_(s[i], want[i], 1e-9, 1e-9)) { FAIL("row", "row %d has %.9g, expected %.9g", i, s[i], want[i]); break; }
    }
    vector<double> all(rint_(0, 40), 3.5);
    Status st = EvaluateForest(&store, f, &all);
    if (!st.ok() || (int)all.size() != rows) { FAIL("eval", "status or size %zu", all.size()); continue; }
    for (int i = 0; i < rows; ++i) { double w = 0; for (auto& t : f.tree()) w += leaf(t, i); if (!close_(all[i], w, 1e-9, 1e-9)) { FAIL("eval", "row %d has %.9g, expected %.9g", i, all[i], w); break; } }
  }
  return DONE();
}
