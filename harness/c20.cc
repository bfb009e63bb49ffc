#include "common.h"
#include "src/gbdt_algo/gbdt_algo.cc"
#include <google/protobuf/util/message_differencer.h>
using namespace gbdt; using namespace std;
static void rnd_tree(TreeNode* t, int depth) {
  t->set_score(chance(.1) ? 0 : rint_(-100, 100) / 7.0f);
  if (chance(.8)) {
    auto* s = t->mutable_split();
    s->set_feature("f" + to_string(rint_(0, 9))); s->set_gain(rint_(0, 99) / 3.0);
    if (chance(.5)) { s->mutable_float_split()->set_threshold(rint_(-9, 9)); s->mutable_float_split()->set_missing_to_right_child(chance(.5)); }
    else { auto* c = s->mutable_cat_split(); for (int k = rint_(0, 3); k--;) c->add_category("c" + to_string(k)); for (int k = rint_(0, 4); k--;) c->add_internal_categorical_index(rint_(0, 9)); }
  }
  if (depth > 0 && chance(.85)) { rnd_tree(t->mutable_left_child(), depth - 1); if (chance(.95)) rnd_tree(t->mutable_right_child(), depth - 1); }
}
static void shrink(TreeNode* t, float s) {
  t->set_score(t->score() * s);
  if (t->has_left_child()) shrink(t->mutable_left_child(), s);
  if (t->has_right_child()) shrink(t->mutable_right_child(), s);
}
static void clean(TreeNode* t) {
  if (!t->has_left_child()) t->clear_split();
  else if (t->has_split() && t->split().has_cat_split()) t->mutable_split()->mutable_cat_split()->clear_internal_categorical_index();
  if (t->has_left_child()) clean(t->mutable_left_child());
  if (t->has_right_child()) clean(t->mutable_right_child());
}
int main(int argc, char** argv) {
  INIT(argc, argv);
  for (long it = 0, n = ITER(3000, 60000); it < n; ++it) {
    Forest f;
    for (int k = chance(.1) ? 0 : rint_(1, 4); k--;) { if (chance(.05)) { TreeNode* t = f.add_tree(); for (int d = rint_(10, 60); d--;) { rnd_tree(t, 0); t = chance(.5) ? t->mutable_left_child() : (rnd_tree(t->mutable_left_child(), 0), t->mutable_right_child()); } } else rnd_tree(f.add_tree(), rint_(0, 5)); }
    f.set_meta_info("meta");
    string txt = f.ShortDebugString();
    if (f.tree_size()) {
      float s = chance(.2) ? 1 : chance(.1) ? 0 : rint_(1, 99) / 100.0f;
      CASE("shrinkage %g tree %.2500s", s, f.tree(0).ShortDebugString().c_str());
      TreeNode a = f.tree(0), b = a;
      ApplyShrinkage(&a, s); shrink(&b, s);
      if (a.SerializeAsString() != b.SerializeAsString()) FAIL("shrinkage", "got %.1500s", a.ShortDebugString().c_str());
    }
    CASE("forest %.3000s", txt.c_str());
    Forest g = f;
    ClearInternalFields(&f);
    for (auto& t : *g.mutable_tree()) clean(&t);
    if (!google::protobuf::util::MessageDifferencer::Equals(f, g)) FAIL("cleanup", "got %.2000s", f.ShortDebugString().c_str());
  }
  return DONE();
}
