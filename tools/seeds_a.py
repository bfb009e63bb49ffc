SEEDS = [
dict(id="c01-unknown-category", prop="C01", inc=["src/data_store/column.h", "src/gbdt_algo/split_algo.h", "src/proto/tree.pb.h"],
 edits=[("src/gbdt_algo/split_algo.cc", """      uint cat_index;
      if (feature->get_cat_index(cat, &cat_index)) {
        categories.insert(cat_index);
      }
""", """      uint cat_index = 0;
      feature->get_cat_index(cat, &cat_index);
      categories.insert(cat_index);
""")],
 needs="a split by category names that names a category the data does not have, and rows with a missing value",
 breaks="rows with a missing value are routed left although the split does not name the missing category",
 demo="""int main() {
  auto col = Column::CreateStringColumn("f", vector<string>{"a", "__missing__", "b", "__missing__", "a"});
  Split s; s.mutable_cat_split()->add_category("a"); s.mutable_cat_split()->add_category("zebra");
  vector<uint> rows = {0, 1, 2, 3, 4};
  auto p = Partition(col.get(), s, VectorSlice<uint>(rows));
  EXPECT(p.first.size() == 2); EXPECT(p.second.size() == 3);
  for (uint r : p.first) EXPECT(r == 0 || r == 4);
  return 0;
}
"""),
dict(id="c03-fewer-rows-than-groups", prop="C03", inc=["src/base/base.h", "src/utils/subsampling.h"],
 edits=[("src/utils/subsampling.cc", """  vector<uint> group_sizes(num_groups);
  for""", """  if (num_samples > 0 && num_samples < num_groups) {
    num_groups = num_samples;
  }
  vector<uint> group_sizes(num_groups);
  for""")],
 needs="fewer rows than groups (but at least one row)",
 breaks="fewer groups than asked for are returned",
 demo="""int main() {
  auto s = Subsampling::DivideSamples(3, 5);
  EXPECT(s.size() == 5);
  EXPECT(Subsampling::DivideSamples(0, 5).size() == 5);
  return 0;
}
"""),
dict(id="c11-threshold-in-bucket", prop="C11", inc=["src/data_store/column.h", "src/gbdt_algo/split_algo.h", "src/proto/tree.pb.h", "src/proto/config.pb.h"],
 edits=[("src/gbdt_algo/split_algo.cc", "float right_limit =feature.get_bucket_min(", "float right_limit =feature.get_bucket_max(")],
 needs="a right-hand bucket that holds several different values (more values than buckets)",
 breaks="the threshold lies inside the bucket right of the cut, so unseen data with the values of that bucket is routed left",
 demo="""int main() {
  vector<float> v; for (int i = 0; i < 40; ++i) v.push_back(i);
  unique_ptr<BucketizedFloatColumn> col(new BucketizedFloatColumn("f", 4));
  col->Add(&v); col->Finalize();
  vector<GradientData> g; for (int i = 0; i < 40; ++i) g.push_back(GradientData(i < 20 ? 5 : -5, 1));
  vector<uint> rows; for (int i = 0; i < 40; ++i) rows.push_back(i);
  Config c; c.set_min_hessian(0);
  Split s; GradientData total(0, 40);
  EXPECT(FindBestSplit(col.get(), [](int) { return 1.0; }, &g, VectorSlice<uint>(rows), c, total, &s));
  float t = s.float_split().threshold();
  for (int i = 0; i < 40; ++i)
    if (!(col->get_row_max(i) < t)) EXPECT(t <= col->get_row_min(i));
  return 0;
}
"""),
dict(id="c14-huber-boundary", prop="C14", inc=["src/base/base.h", "src/loss_func/loss_func_math.h"],
 edits=[("src/loss_func/loss_func_math.cc", "return make_tuple(0.5 - e, y, 0);", "return make_tuple(0.5 - e, y, y * (y > 0));")],
 needs="a positive target and a negative margin",
 breaks="the hessian of the huberized hinge loss is 1 on its linear part",
 demo="""int main() {
  EXPECT(get<2>(ComputeHuberizedHinge(1, -2)) == 0);
  EXPECT(get<2>(ComputeHuberizedHinge(-1, 2)) == 0);
  return 0;
}
"""),
]
