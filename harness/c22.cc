#include "common.h"
#include <fstream>
#include <sys/stat.h>
#include "src/data_store/data_store.h"
#include "src/data_store/column.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
using namespace gbdt; using namespace std;
static double leaf(const TreeNode& t, const vector<float>& x, int i) {
  if (!t.has_left_child()) return t.score();
  bool left = std::isnan(x[i]) ? !t.split().float_split().missing_to_right_child() : x[i] < t.split().float_split().threshold();
  return leaf(left ? t.left_child() : t.right_child(), x, i);
}
static void mk(TreeNode* t, int depth) {
  if (depth == 0 || chance(.2)) { t->set_score(rint_(-64, 64) / 16.0f); return; }
  t->mutable_split()->set_feature("x");
  auto* f = t->mutable_split()->mutable_float_split(); f->set_threshold(rint_(0, 8) + .5f); f->set_missing_to_right_child(chance(.5));
  mk(t->mutable_left_child(), depth - 1); mk(t->mutable_right_child(), depth - 1);
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  const char* sc = getenv("VERIF_SCRATCH");
  string base = string(sc ? sc : "/tmp") + "/c22out";
  mkdir(base.c_str(), 0755);
  for (long it = 0, n = ITER(4000, 60000); it < n; ++it) {
    Config c; int e = chance(.2) ? 0 : chance(.1) ? -rint_(1, 5) : chance(.1) ? rint_(100, 2000000000) : rint_(1, 12), size = chance(.1) ? rint_(500, 3000) : rint_(0, 40);
    if (e) c.set_eval_interval(e);
    CASE("eval_interval %d forest size %d", e, size);
    list<int> t = GetTestPoints(c, size);
    vector<int> v(t.begin(), t.end()), want;
    if (e <= 0) want.push_back(size);
    else { for (long p = size; p > 0; p -= e) want.insert(want.begin(), p); }
    if (v != want) { string s; for (int x : v) s += to_string(x) + " "; FAIL("points", "got %.500s", s.c_str()); }
  }
  for (long it = 0, n = ITER(150, 1500); it < n; ++it) {
    int rows = chance(.1) ? 1 : rint_(1, 25), size = chance(.05) ? 0 : rint_(1, 9);
    vector<float> x(rows); for (float& v : x) v = chance(.2) ? NAN : rint_(0, 9);
    DataStore ds; ds.Add(Column::CreateBucketizedFloatColumn("x", x));
    Forest f; for (int k = 0; k < size; ++k) mk(f.add_tree(), 3);
    list<int> pts; for (int k = rint_(0, 6); k--;) pts.push_back(chance(.15) ? rint_(-2, 0) : rint_(1, size + 2));
    if (chance(.4)) pts.sort();
    string ps; for (int p : pts) ps += to_string(p) + " ";
    CASE("%d rows, forest of %d trees, test points %s", rows, size, ps.c_str());
    string dir = base + "/" + to_string(it);
    Status st = EvaluateForest(&ds, f, pts, dir);
    if (!st.ok()) { FAIL("status", "error"); continue; }
    set<int> req(pts.begin(), pts.end());
    for (int p = -3; p <= size + 3; ++p) {
      ifstream in(dir + "/forest." + to_string(p) + ".score");
      bool want = req.count(p) && p >= 1 && p <= size;
      if (bool(in) != want) { FAIL("files", "score file of %d %s", p, want ? "is missing" : "was written"); continue; }
      if (!want) continue;
      vector<double> got; string tok; while (in >> tok) got.push_back(strtod(tok.c_str(), 0));
      if ((int)got.size() != rows) { FAIL("rows", "%zu scores for %d rows in the file of %d", got.size(), rows, p); continue; }
      for (int i = 0; i < rows; ++i) {
        double s = 0; for (int k = 0; k < p; ++k) s += leaf(f.tree(k), x, i);
        if (!close_(got[i], s, 1e-5, 1e-9)) { FAIL("scores", "row %d in the file of %d has %g, expected %g", i, p, got[i], s); break; }
      }
    }
    vector<double> all; all.assign(rint_(0, 30), 7);
    st = EvaluateForest(&ds, f, &all);
    if (!st.ok() || (int)all.size() != rows) { FAIL("all", "size %zu", all.size()); continue; }
    for (int i = 0; i < rows; ++i) { double s = 0; for (int k = 0; k < size; ++k) s += leaf(f.tree(k), x, i); if (!close_(all[i], s, 1e-9, 1e-9)) { FAIL("all", "row %d has %g, expected %g", i, all[i], s); break; } }
  }
  return DONE();
}
