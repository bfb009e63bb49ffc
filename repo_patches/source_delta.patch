From ae27111d86f5fe049314aed680eaee04a1f773a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:03 +0000
Subject: [PATCH 01/16] fix: keep the logistic loss finite for large negative
 margins

---
 src/loss_func/loss_func_math.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..cbfe30c 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,8 +26,13 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
-  return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  // exp(-|margin|) does not overflow, unlike exp(-margin) for large negative margins.
+  double margin = y * f;
+  double e = exp(-fabs(margin));
+  if (margin >= 0) {
+    return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  }
+  return make_tuple(log(1 + e) - margin, y / (1 + e), e / ((1 + e) * (1 + e)));
 };
 
 tuple<double, double, double> ComputeHuberizedHinge(double y, double f) {
-- 
2.43.0


From 75fb85e8d6d296157bfdf3a9ba7711679111d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 02/16] fix: delete encoded columns through a virtual
 destructor

---
 src/data_store/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index f99e583..4627be2 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -70,6 +70,7 @@ class IntegerizedColumn : public Column {
   // An interface to access integer vector of different bits.
   class IntegerCol {
    public:
+    virtual ~IntegerCol() {}
     virtual uint operator [] (uint) const = 0;
     inline bool missing(uint i) const {
       return (*this)[i] == 0;
-- 
2.43.0


From 72a5b4a378bc77fdfe3795cb2ccff0b482258203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 03/16] fix: keep histogram buckets whose gradients cancel

---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..b90c814 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From aea22915aa97735e4c65bca20ebd3dc8fea4b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 04/16] fix: split thresholds separate neighboring floats and
 do not overflow

---
 src/gbdt_algo/split_algo.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b90c814..abbd4e8 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -223,12 +223,15 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   float left_limit = feature.get_bucket_max(histogram.value(split_point.left_point));
   float right_limit =feature.get_bucket_min(histogram.value(split_point.left_point + 1));
+  // The midpoint of two neighboring floats can round to the left one, which would then be routed
+  // to the right.
+  float middle = 0.5 * (static_cast<double>(left_limit) + right_limit);
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
   split->mutable_float_split()->set_threshold(
       isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+      (left_limit < middle ? middle : right_limit));
   return true;
 }
 
-- 
2.43.0


From 0fdecc132291ef79c863d47e96414285383392b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 05/16] fix: no division by zero when the frequent values use
 up the buckets

---
 src/data_store/column.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..d001ac6 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -286,8 +286,8 @@ void BucketizedFloatColumn::BuildBuckets() {
     }
   }
   // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  const int left_over_buckets = num_buckets_ - static_cast<int>(bucket_maxs_.size());
+  uint left_over_capacity = left_over_buckets > 0 ? max(1, left_over / left_over_buckets) : 1;
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From 62840d6450501a46d850601634991a276d164b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 06/16] fix: keep bucket bounds ascending when the data
 contains infinity

---
 src/data_store/column.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d001ac6..d046c01 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -290,7 +290,10 @@ void BucketizedFloatColumn::BuildBuckets() {
   uint left_over_capacity = left_over_buckets > 0 ? max(1, left_over / left_over_buckets) : 1;
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
-  bucket_maxs_.push_back(numeric_limits<float>::max());
+  // Infinity is above the largest float, so that the bounds stay in ascending order.
+  if (!(bucket_maxs_.back() >= numeric_limits<float>::max())) {
+    bucket_maxs_.push_back(numeric_limits<float>::max());
+  }
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
     bucket_map_[bucket_maxs_[i]] = i;
-- 
2.43.0


From 4258d0b6972d8fb6c048531548c5efe22395d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:56 +0000
Subject: [PATCH 07/16] fix: no integer overflow for very large bucket counts

---
 src/data_store/column.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d046c01..134482d 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -232,7 +232,7 @@ void BucketizedFloatColumn::Add(const vector<float>* raw_floats) {
     for (const float v : *raw_floats) {
       buffer_.push_back(v);
     }
-    if (buffer_.size() > 100 * num_buckets_) {
+    if (buffer_.size() > 100ul * num_buckets_) {
       BuildBuckets();
     }
   } else {
-- 
2.43.0


From 9492f400aabc6c20e2348b86cf052a89343e35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:46 +0000
Subject: [PATCH 08/16] fix: size the discount table before writing to it

---
 src/loss_func/loss_func_lambdamart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_lambdamart.cc b/src/loss_func/loss_func_lambdamart.cc
index c37406a..994f077 100644
--- a/src/loss_func/loss_func_lambdamart.cc
+++ b/src/loss_func/loss_func_lambdamart.cc
@@ -40,7 +40,7 @@ LambdaMART::LambdaMART(const Config& config)
   if (config.lambdamart_dcg_base() > 0) {
     dcg_base_ = config.lambdamart_dcg_base();
   }
-  precomputed_discounts_.reserve(kNumPrecomputedDiscounts);
+  precomputed_discounts_.resize(kNumPrecomputedDiscounts);
   for (int i = 0; i < kNumPrecomputedDiscounts; ++i) {
     precomputed_discounts_[i] = discount(i, dcg_base_);
   }
-- 
2.43.0


From 5bb90efc6d2bc97860527d82ce9363a591e67a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:17 +0000
Subject: [PATCH 09/16] fix: write the scores of every test point in whatever
 order they are given

---
 src/gbdt_algo/evaluation.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..69abd03 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -58,7 +58,12 @@ Status EvaluateForest(DataStore* data_store,
                       const Forest& forest,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
+  // The trees are added one by one, so visit the test points in ascending order.
   auto test_points = test_points_arg;
+  test_points.sort();
+  while (!test_points.empty() && test_points.front() <= 0) {
+    test_points.pop_front();
+  }
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From d48589f59b4b96ba221bb841b09460c43f3b3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 10/16] fix: refuse sampling rates that are not a number

---
 src/gbdt_algo/utils.cc              | 8 ++++----
 src/loss_func/loss_func_pairwise.cc | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..7efd9c0 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -212,14 +212,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..8be7011 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -57,7 +57,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
-- 
2.43.0


From 38ad13d8cc90371cf849dcd20d31c8c5ac00b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 11/16] fix: no division by zero in the feature importance

---
 src/gbdt_algo/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 7efd9c0..7989c83 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -98,7 +98,7 @@ vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest) {
          return x.second > y.second;
        });
   // Normalize feature importance map.
-  if (feature_importance.size() > 0) {
+  if (feature_importance.size() > 0 && feature_importance[0].second > 0) {
     double max_importance = feature_importance[0].second;
     for (auto& p : feature_importance) {
       p.second /= max_importance;
-- 
2.43.0


From c0561b34cb4a826f9963c11d859ccc0430845585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 12/16] fix: sample no pairs when no group has any

---
 src/loss_func/loss_func_pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 8be7011..906398c 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  // Without any pair there is nothing to sample (and 0 / 0 is not a number).
+  if (num_total_pairs == 0) return 0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
-- 
2.43.0


From 617078f959d952920184138611fc864244514295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 13/16] fix: rows whose group name is missing form a group

---
 src/loss_func/loss_func_pairwise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 906398c..480653b 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -71,11 +71,12 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     groups.resize(1);
     groups[0] = Subsampling::CreateAllSamples(num_rows);
   } else {
-    groups.resize(group_column->max_int() - 1);
+    // Category 0 holds the rows without a group name.
+    groups.resize(group_column->max_int());
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
-      groups[group_id - 1].emplace_back(i);
+      groups[group_id].emplace_back(i);
     }
   }
 
-- 
2.43.0


From 0e2469d4c3efa6e123119c59c0d1f092e26d699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:08 +0000
Subject: [PATCH 14/16] fix: give every pair sampling task a random generator
 of its own

---
 src/loss_func/loss_func_pairwise.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 480653b..bfa192b 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -113,11 +113,16 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // The shared generator is not thread safe: give every slice a generator of its own.
+  vector<std::mt19937> generators(slices_.size());
+  for (auto& generator : generators) {
+    generator.seed((*Subsampling::get_generator())());
+  }
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
-      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
+      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j],
+                    generator=&generators[j]]() {
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
             if (rerank_) group.Rerank(f);
-- 
2.43.0


From 3fc3e29af8b71f4e2646e201272a9121d4ed62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:08 +0000
Subject: [PATCH 15/16] fix: no integer overflow when very many pairs are
 sampled

---
 src/loss_func/loss_func_pairwise.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index bfa192b..8c668d5 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -134,7 +134,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
             double weight_rescaling_factor = equal_group_weight_ ?
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
-            for (int i = 0; i < num_sample_pairs; ++i) {
+            for (uint64 i = 0; i < num_sample_pairs; ++i) {
               auto p = group.SamplePair(generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
-- 
2.43.0


From 465cb648437d77e39f06c7cb2fcc0b74ec2e65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:04 +0000
Subject: [PATCH 16/16] fix: DataStore::Add refuses a differing row count also
 when the store's columns have no rows

---
 src/data_store/data_store.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
-- 
2.43.0

