SEEDS = [
dict(id="c15-longer-vector", prop="C15", inc=["src/base/base.h", "src/loss_func/gradient_data.h", "src/loss_func/loss_func_pointwise.h", "src/loss_func/loss_func_math.h"],
 edits=[("src/loss_func/loss_func_pointwise.cc", "if (gradient_data_vec->size() != f.size()) {", "if (gradient_data_vec->size() < f.size()) {")],
 needs="a gradient vector that is reused from a larger data set",
 breaks="the gradient vector keeps stale entries beyond the last row",
 demo="""int main() {
  Pointwise p(ComputeMSE);
  vector<float> y = {1, 2, 3};
  if (!p.Init(3, [](int) { return 1.0; }, [&](int i) { return y[i]; }, nullptr).ok()) return 1;
  vector<GradientData> g(7, GradientData(100, 100)); double c; vector<double> f(3, 0.0);
  p.ComputeFunctionalGradientsAndHessians(f, &c, &g, nullptr);
  EXPECT(g.size() == 3);
  return 0;
}
"""),
dict(id="c19-two-constants", prop="C19", inc=["src/gbdt_algo/gbdt_algo.cc"],
 edits=[("src/gbdt_algo/gbdt_algo.cc", "constant_tree->set_score(constant_tree->score() + tree.score());", "constant_tree->set_score(tree.score());")],
 needs="a base forest with two single-node trees",
 breaks="the constant of the continued forest is that of the last constant tree instead of the sum",
 demo="""class Store : public DataStore {};
int main() {
  Store ds;
  if (!ds.Add(Column::CreateBucketizedFloatColumn("x", vector<float>{1, 2})).ok()) return 1;
  Forest base; base.add_tree()->set_score(1.5); base.add_tree()->set_score(2.25);
  Forest f; f.add_tree();
  ComputeTreeScores cts(&ds);
  vector<double> s(2, 0.0);
  InitializeWithBaseForest(&base, cts, &f, &s);
  EXPECT(f.tree_size() == 1); EXPECT(s[0] == 3.75); EXPECT(f.tree(0).score() == 3.75f);
  return 0;
}
"""),
dict(id="c07-width-boundary", prop="C07", inc=["src/data_store/column.h"],
 edits=[("src/data_store/column.cc", """  } else if (max_int() <= kMaxUInt16) {
    col_16_ = ConvertIntVector<uint16>(col_32_);""", """  } else if (max_int() <= kMaxUInt16 + 1) {
    col_16_ = ConvertIntVector<uint16>(col_32_);""")],
 needs="exactly 65536 different strings (65537 categories with the missing one)",
 breaks="the last string reads back as missing",
 demo="""int main() {
  vector<string> v; for (int i = 0; i < 65536; ++i) v.push_back("s" + to_string(i));
  StringColumn c("s"); c.Add(&v); c.Finalize();
  for (int i = 0; i < 65536; ++i) EXPECT(c.get_row_string(i) == v[i]);
  return 0;
}
"""),
dict(id="c05-infinity-later", prop="C05", inc=["src/data_store/column.h"],
 edits=[("src/data_store/column.cc", "uint bucket_id = it != bucket_map.end() ? it->second : max_bucket_id;", "uint bucket_id = it != bucket_map.end() ? it->second : 0;")],
 needs="buckets built from a first batch without infinity, then a batch that contains infinity",
 breaks="infinity is encoded as a missing value",
 demo="""int main() {
  vector<float> a; for (int i = 0; i < 500; ++i) a.push_back(i % 7);
  vector<float> b = {1, INFINITY};
  BucketizedFloatColumn c("f", 4); c.Add(&a); c.Add(&b); c.Finalize();
  EXPECT(c.col()[501] == c.max_int() - 1); EXPECT(!c.col().missing(501));
  return 0;
}
"""),
dict(id="c21-missing-leaf-split", prop="C21", inc=["src/gbdt_algo/utils.h", "src/proto/tree.pb.h"],
 edits=[("src/gbdt_algo/utils.cc", """  if (tree.has_right_child()) {
    CollectAllFeatures(tree.right_child(), feature_names);""", """  if (tree.has_right_child() && tree.right_child().has_left_child()) {
    CollectAllFeatures(tree.right_child(), feature_names);""")],
 needs="a right child without children that carries a split",
 breaks="the feature of a split stored at a right leaf is not collected",
 demo="""int main() {
  Forest f; auto* t = f.add_tree();
  t->mutable_split()->set_feature("a"); t->mutable_left_child()->set_score(1); t->mutable_right_child()->set_score(2);
  t->mutable_right_child()->mutable_split()->set_feature("b");
  auto s = CollectAllFeatures(f);
  EXPECT(s.size() == 2);
  return 0;
}
"""),
]
