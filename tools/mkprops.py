#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Routing rows through a split",
     "Routing a set of rows through a split returns two groups that together hold every given row exactly once and no other row. A row is in the left group exactly when the split says so: for a numeric split, the row's value is missing and the split sends missing values left, or the largest value of the row's bucket is below the threshold; for a categorical split, the row's category belongs to the split's category set. Nothing but the order of the given rows is changed, and a feature of another kind sends every row right.",
     ["inputs"], "every column, every split (also with missing values, empty row sets, unknown categories) and every sequence of rows",
     "The tests route a handful of rows of two fixed columns; the swap-based in-place partition could lose or misplace rows for other sequences.",
     ["src/gbdt_algo/split_algo.cc", "src/utils/vector_slice.h"],
     [("Partition (float, string, dispatch)", "src/gbdt_algo/split_algo.cc"), ("VectorSlice", "src/utils/vector_slice.h")])
prop("C02", "A prediction is the sum of one leaf score per tree, per row",
     "Adding one tree's contribution to a score vector raises each row's score by the given constant plus the score of the one leaf its feature values route it to, exactly once per row. The prediction of a forest is, for every row, the sum over all its trees of that contribution, independent of what the output vector held before. Neither depends on the number of threads or on how they are scheduled.",
     ["inputs", "configurations", "schedules"], "every tree shape, data set, forest, constant, thread count and schedule",
     "Tests score one three-leaf tree over a few rows; loss or double counting of rows needs other sizes, thread counts or tree shapes.",
     ["src/gbdt_algo/compute_tree_scores.cc", "src/gbdt_algo/evaluation.cc", "src/utils/subsampling.cc"],
     [("AddSampleTreeScores", "src/gbdt_algo/compute_tree_scores.cc"), ("ComputeTreeScores::AddTreeScores", "src/gbdt_algo/compute_tree_scores.cc"), ("EvaluateForest", "src/gbdt_algo/evaluation.cc")])
prop("C03", "Work division covers every row exactly once",
     "Dividing a number of rows, or a sequence of rows, into a positive number of groups returns exactly that many consecutive groups which follow one another without gap or overlap, start at the first and end at the last row, and differ in size by at most one. The full sample of n rows is exactly 0..n-1 in order. Copying a row sequence into a vector keeps every row in order.",
     ["inputs"], "every row count (also 0 and fewer rows than groups) and every positive group count",
     "Tests use 4 rows in 3 groups and one or two others; a boundary error needs other remainders.",
     ["src/utils/subsampling.cc", "src/utils/utils.cc"],
     [("DivideSamplesHelper, DivideSamples", "src/utils/subsampling.cc"), ("CreateAllSamples", "src/utils/subsampling.cc"), ("VectorSliceToVector", "src/utils/utils.cc")])
prop("C04", "Row and feature subsampling",
     "A random subsample of n items is strictly increasing (so without duplicates) and all its elements are below n. A rate of at least 1 always selects every item and a rate of 0 or less selects none, whatever the random source yields. Whether an item is selected depends on one fresh random draw per item.",
     ["inputs", "histories"], "every n, every rate, every state of the random generator",
     "Tests check one seed's sample size within a tolerance.",
     ["src/utils/subsampling.cc"], [("UniformSubsample", "src/utils/subsampling.cc")])
prop("C05", "Bucketized numeric columns encode every value faithfully",
     "After building a bucketized numeric column from any batches of values, row i stands for the i-th value given: a missing value (NaN) is in the reserved bucket 0 and any other value is in a bucket from 1 up that contains it - the bucket's lower bound is at most the value, and the value is at most its upper bound unless it exceeds every bucket's upper bound, in which case it is in the last bucket. Smaller values never land in higher buckets than larger values, and the stored bucket number is never altered by the chosen storage width.",
     ["inputs", "histories"], "every sequence of float batches incl. NaN, infinities and duplicates; every bucket count; 8-, 16- and 32-bit storage",
     "Tests try a few small arrays and one large random one; width boundaries and unusual values are not reached.",
     ["src/data_store/column.cc", "src/data_store/column.h"],
     [("AddBucketizedVecHelper, AddBucketizedVec, Add, Finalize", "src/data_store/column.cc")],
     state=[dict(name="bucket_maxs_/bucket_mins_/bucket_map_", meaning="bucket bounds and lookup", where="src/data_store/column.h")])
prop("C06", "Bucket boundaries are well formed for every data set",
     "Building the buckets of a numeric column never crashes or fails, for any values and any positive bucket count. The bucket upper bounds after the reserved missing bucket are in ascending order, and the last is at least the largest finite float. When the data has few enough distinct values that each deserves its own bucket, each distinct value is a bucket bound.",
     ["inputs", "configurations"], "every multiset of floats and every positive bucket count",
     "Tests use one bucket count and small arrays, so the leftover-capacity arithmetic is hardly exercised.",
     ["src/data_store/column.cc"], [("BuildBuckets, UniformBinning", "src/data_store/column.cc")])
prop("C07", "String columns decode to exactly the strings that were added",
     "After adding any batches of strings and finalizing, row i of a string column reads back the i-th string given and its row count is the number of strings given. Equal strings always get the same category number and different strings different ones; number 0 belongs to the reserved missing marker, the others are dense and in order of first appearance, and looking up a string finds its number exactly if it occurs. This holds whichever integer width the column is stored with.",
     ["inputs", "histories"], "every sequence of string batches and every number of distinct strings (8-, 16-, 32-bit storage)",
     "Tests use a few short arrays and one with many strings; width boundaries and batch sequences are sampled only.",
     ["src/data_store/column.cc", "src/data_store/column.h"],
     [("StringColumn::Add, Finalize, get_row_string, get_cat_index", "src/data_store/column.cc")])
prop("C08", "A data store is a consistent table",
     "Every column of a data store has the same number of rows, which is the row count it reports, and the column count it reports is the number of columns it holds. Adding a column whose name exists, or whose row count differs from a non-empty store's, is refused with an error and leaves the store unchanged; otherwise exactly that column is added. Looking up a name returns the column stored under it, typed look-ups return it only if it has that type and nothing otherwise, and removing a name removes that column only.",
     ["inputs", "histories"], "every sequence of adds, removals and look-ups",
     "Tests use one store with one column of each type.",
     ["src/data_store/data_store.cc"], [("Add, GetColumn, typed getters, RemoveColumnIfExists, num_rows, num_cols", "src/data_store/data_store.cc")],
     state=[dict(name="column_map_", meaning="name to column", where="src/data_store/data_store.h")])
prop("C09", "The chosen split point is an admissible optimum of the scanned candidates",
     "Scanning a feature's histogram returns a split point with a positive gain exactly when some candidate cut of the ordered non-empty buckets has more hessian than the configured minimum on both sides and a gain above the configured minimum gain and the numeric tolerance. The reported gain is the gain (left energy plus right energy minus total energy) of the reported cut and missing-value placement, that candidate is admissible, and no admissible candidate has a larger gain. Missing values are moved to the right only for numeric features.",
     ["inputs", "configurations"], "every histogram, total, and configuration of regularisation, minimum hessian and minimum gain",
     "Tests compare a few fixed histograms with precomputed results.",
     ["src/gbdt_algo/split_algo.cc"], [("FindBestSplitPoint", "src/gbdt_algo/split_algo.cc")])
prop("C10", "Histograms are exact weighted sums",
     "The histogram of a feature over a set of rows holds, for every bucket or category, the weighted sum of gradients and of hessians of exactly those rows. The list of non-empty buckets is in ascending order without duplicates and contains every bucket that holds any gradient or hessian. Sorting a categorical histogram by node score permutes that list, into ascending score order, and changes no sum.",
     ["inputs"], "every column, weight function, gradient vector and row set",
     "Tests look at one or two small histograms through the split they produce.",
     ["src/gbdt_algo/split_algo.cc", "src/gbdt_algo/split_algo.h"], [("Histogram::ComputeHistograms, SortOnNodeScore", "src/gbdt_algo/split_algo.cc")])
prop("C11", "The returned split routes rows the way it was scored",
     "When the search returns a numeric split, its threshold lies above the upper bound of every bucket counted on the left and not above the lower bound of any non-empty bucket counted on the right, so routing by it reproduces the scored grouping, with missing values on the side they were scored on. When it returns a categorical split, its category set is exactly one of the two scored groups of categories, the one that is not larger. The gain stored in the split is the scored gain.",
     ["inputs"], "every feature, gradient vector, row set and configuration",
     "Tests use well-separated small values, where a rounded midpoint or a wrong set boundary cannot show.",
     ["src/gbdt_algo/split_algo.cc"], [("FindBestFloatSplit, FindBestStringSplit, FindBestSplit", "src/gbdt_algo/split_algo.cc")])
prop("C12", "Tree growth is best-first, bounded and scored by its rows",
     "A fitted tree has at most the configured number of leaves (or one, if that is smaller), every internal node has exactly two children and a split, and every node's score is the regularised Newton score of the rows routed to it. Growth always expands the leaf with the largest gain and stops only at the leaf limit or when no leaf has a split of positive gain. The feature chosen for a node is the sampled feature with the largest gain, and its split is labelled with that feature's name and, for categorical splits, with the names of its categories.",
     ["inputs", "configurations"], "every data set, gradient vector, feature set and configuration",
     "Tests fit one small tree.",
     ["src/gbdt_algo/tree_algo.cc"], [("FitTreeToGradients, FindBestFeatureAndSplit, ComputeWeightedSum", "src/gbdt_algo/tree_algo.cc")])
prop("C13", "Newton arithmetic on gradient pairs",
     "Adding, subtracting, accumulating and scaling gradient/hessian pairs acts componentwise. The energy of a pair is the squared gradient divided by hessian plus regularisation, its score is the gradient divided by the same, and both are 0 when that divisor is 0. Adding loss records adds loss, gradient and hessian componentwise.",
     ["inputs"], "all real operands", "Not tested directly.",
     ["src/loss_func/gradient_data.h"], [("GradientData, LossFuncData", "src/loss_func/gradient_data.h")])
prop("C14", "Loss formulas: value, negative gradient and hessian",
     "For every target and current score, squared error, logistic, huberized hinge and squared hinge loss return the documented loss, its negative derivative with respect to the score and its (generalised) second derivative, up to rounding; for the two squared losses gradient and hessian are both halved. Targets of the three classification losses are 1 or -1. Hessians and losses are never negative. The logistic loss stays finite, with a gradient between 0 and the target, for every finite score and a target of 1 or -1.",
     ["inputs"], "every pair of finite reals", "Tests evaluate a few points.",
     ["src/loss_func/loss_func_math.cc"], [("ComputeMSE, ComputeLogLoss, ComputeHuberizedHinge, ComputeSquaredHinge", "src/loss_func/loss_func_math.cc")])
prop("C15", "Pointwise gradients are those of every row",
     "After computing pointwise gradients, every row holds the negative gradient and hessian of the loss at its target and at its current score plus the constant of the last Newton step, whatever the gradient vector held before. The returned constant is the sum of at most ten Newton steps, each the weighted gradient sum divided by the weighted hessian sum (0 if that is 0), stopping at the first step of at most 1e-4. The result does not depend on the thread count.",
     ["inputs", "configurations", "schedules"], "every target, weight, score vector, loss and thread count",
     "Tests use 3-4 rows per loss.",
     ["src/loss_func/loss_func_pointwise.cc"], [("Pointwise::Init, ComputeFunctionalGradientsAndHessians", "src/loss_func/loss_func_pointwise.cc")])
prop("C16", "Pair sampling in a group hits exactly the ordered pairs",
     "A group's number of pairs is the number of row pairs with different targets. The map from a drawn index below that number to a pair yields, for every index, two positions in the group whose first row has the strictly larger target, and different indices yield different pairs. Rank updates give every row its position when sorted by descending score, which is a permutation.",
     ["inputs"], "every group of rows, targets (also all equal), scores and drawn index",
     "Tests draw random pairs from one small group.",
     ["src/loss_func/group.cc", "src/loss_func/group.h"], [("Group::Group, SamplePair, Rerank", "src/loss_func/group.cc")])
prop("C17", "Pairwise gradients are balanced and stay inside groups",
     "After computing pairwise gradients, the gradients of all rows sum to zero, and only rows of groups with at least two distinct targets can be non-zero. Every sampled pair comes from one group, has the larger target first, adds its weighted gradient to one row and subtracts it from the other, and adds the same hessian to both. The constant is 0, earlier contents of the gradient vector do not matter and nothing outside the score range is accessed, also when no pair exists.",
     ["inputs", "configurations", "histories"], "every target, weight, group column (also with missing group names), score vector, loss and random draw",
     "Tests use one group of a few rows.",
     ["src/loss_func/loss_func_pairwise.cc", "src/loss_func/group.cc"], [("Pairwise::Init, ComputeFunctionalGradientsAndHessians", "src/loss_func/loss_func_pairwise.cc")])
prop("C18", "Unusable configurations and targets are rejected",
     "Training is refused with an error exactly when the number of trees or leaves is not positive or a sampling rate is not a number in (0, 1]. The logistic and huberized hinge losses refuse targets other than +1 and -1, wherever they occur, and accept all others; pairwise losses refuse a non-positive pair sampling rate. An unknown loss name creates no loss.",
     ["inputs", "configurations"], "every configuration and every target vector",
     "Tests try a few invalid values.",
     ["src/gbdt_algo/utils.cc", "src/loss_func/loss_func_logloss.cc", "src/loss_func/loss_func_huberized_hinge.cc", "src/loss_func/loss_func_pairwise.cc", "src/loss_func/loss_func_factory.cc"],
     [("CheckConfig", "src/gbdt_algo/utils.cc"), ("LogLoss::Init, HuberizedHinge::Init", "src/loss_func"), ("CreateLossFunc", "src/loss_func/loss_func_factory.cc")])
prop("C19", "The boosted model is the constant plus base trees plus one tree per round",
     "A successful training run returns a forest whose first tree is a single constant node, followed by the non-constant trees of the base forest in order, followed by exactly one shrunken tree per configured round. The constant is the sum of the base forest's constant trees and all per-round constants, so that the forest's prediction equals the score the next round's gradients were computed from. A non-finite constant stops training with an error.",
     ["inputs", "configurations", "histories"], "every data set, loss, configuration and base forest",
     "Tests train one small forest with and without a base forest.",
     ["src/gbdt_algo/gbdt_algo.cc"], [("TrainGBDT, InitializeWithBaseForest", "src/gbdt_algo/gbdt_algo.cc")])
prop("C20", "Shrinkage and clean-up rewrite a tree without changing its meaning",
     "Shrinking a tree multiplies every node's score by the shrinkage and changes nothing else. Cleaning up a forest removes the splits of leaves and the internal category numbers of all splits, at every depth and in every tree, and changes nothing else.",
     ["inputs"], "every tree and forest of any depth", "Covered only through one trained forest.",
     ["src/gbdt_algo/gbdt_algo.cc"], [("ApplyShrinkage, ClearInternalFields", "src/gbdt_algo/gbdt_algo.cc")])
prop("C21", "Feature importance and feature collection",
     "Feature importance lists exactly the features used by internal nodes, each once, in descending order, with its total split gain divided by the largest total (left as it is when the largest total is not positive), and never a value that is not a number for finite gains. The features collected from a forest are exactly the features named by the splits of any of its nodes.",
     ["inputs"], "every forest", "Tests use one forest of three small trees.",
     ["src/gbdt_algo/utils.cc"], [("ComputeFeatureImportance, CollectAllFeatures", "src/gbdt_algo/utils.cc")])
prop("C22", "Checkpoints of an evaluation",
     "The checkpoints computed for a forest are ascending, end at the forest's size and step by the evaluation interval down to the smallest positive value, or are just the forest's size without an interval. An evaluation writes one score file per requested checkpoint between 1 and the forest's size, in whatever order they are requested, and each holds, per row in order, the sum of exactly that many first trees, printed to at least six significant digits.",
     ["inputs", "configurations"], "every interval, forest size and list of checkpoints", "Tests use one interval.",
     ["src/gbdt_algo/utils.cc", "src/gbdt_algo/evaluation.cc"], [("GetTestPoints", "src/gbdt_algo/utils.cc"), ("EvaluateForest, WriteScoreFile", "src/gbdt_algo/evaluation.cc")])
prop("C23", "TSV files are loaded cell by cell or rejected",
     "Loading TSV files gives, for every requested column, the cells under its header in row order across all files, as strings, or as numbers with the recognised missing markers as missing. A requested column missing from the header, a row with too few cells or an invalid number in a requested numeric column gives an error status rather than a shorter or shifted column. No memory error occurs, also when a column is requested twice.",
     ["inputs", "configurations"], "every set of TSV files and every column request", "Tests load two small files.",
     ["src/data_store/tsv_data_store.cc", "src/data_store/tsv_block.cc"], [("TSVBlock::ReadTSV", "src/data_store/tsv_block.cc"), ("TSVDataStore::SetupColumns, LoadTSVs, ProcessBlock, Finalize", "src/data_store/tsv_data_store.cc")])
prop("C24", "Flat files are loaded once and correctly",
     "A column is loaded from the first directory that has its file, according to the file's declared type, with comment lines skipped, one row per remaining line and unparsable numbers read as missing. A column already handed out stays valid and is returned again by later look-ups of the same name, also when several threads ask for it at the same time. A missing file, an unknown type or a different row count gives no column and leaves the store as it was.",
     ["inputs", "histories", "schedules"], "every directory list, file content and interleaving of look-ups", "Tests load three small files from one thread.",
     ["src/data_store/flatfiles_data_store.cc"], [("GetColumn, LoadColumn, LoadFloatColumn, LoadStringColumn", "src/data_store/flatfiles_data_store.cc")])
prop("C25", "Text helpers",
     "Splitting a non-empty text at a non-empty separator and joining the parts with it gives the text back, and no part contains the separator. A text has a prefix or suffix exactly if it starts or ends with it, without reading outside either text, also when it is the shorter one. Numeric conversion succeeds exactly if the whole non-empty text is consumed by the number, and trimming removes exactly the white space at the ends.",
     ["inputs"], "every pair of texts", "Tests try a few strings.",
     ["src/utils/utils.cc", "src/utils/utils.h", "src/utils/utils_inl.h"], [("SplitStringUsing, HasPrefix, HasSuffix, StringCast", "src/utils/utils.cc"), ("JoinStrings", "src/utils/utils_inl.h")])
prop("C26", "The Python surface raises instead of failing silently",
     "Every operation of the Python surface that fails, whatever kind of error it is, raises an exception instead of returning silently. Indexing a column outside 0..n-1 raises an index error, inside it returns that row's value. Predicting, training or listing with an empty data store raises or returns an empty result, and never crashes.",
     ["inputs", "histories"], "every status code, index and data store state", "The Python layer has no C++ tests.",
     ["src/python/gbdt_py_base.cc", "src/python/column_py.cc", "src/python/datastore_py.cc", "src/python/forest_py.cc", "src/python/train_gbdt_py.cc"],
     [("ThrowException", "src/python/gbdt_py_base.cc"), ("get", "src/python/column_py.cc")])
prop("C27", "Parallel sections are race free and schedule independent",
     "In every parallel section - loading features, weighted sums, split search, scoring, loss gradients, column building - no task writes what another task or the enqueuing thread may access at the same time. Nothing a task refers to goes out of scope before the task ends. Training and prediction with the same seed and data therefore give the same result for every schedule.",
     ["schedules", "configurations"], "every interleaving, every thread count", "Tests run each section under whatever schedule occurs.",
     ["src/gbdt_algo/tree_algo.cc", "src/gbdt_algo/compute_tree_scores.cc", "src/gbdt_algo/utils.cc", "src/loss_func/loss_func_pointwise.cc", "src/loss_func/loss_func_pairwise.cc", "src/data_store/tsv_data_store.cc"],
     [("tasks given to ThreadPool::Enqueue", "src")])
prop("C28", "The thread pool runs every task exactly once before it is destroyed",
     "Every task enqueued in a thread pool with at least one thread is executed exactly once, and destroying the pool returns only after all of them have ended. A pool without tasks shuts down without blocking. No task is started while holding the pool's lock, so tasks may enqueue tasks.",
     ["schedules", "histories"], "every number of threads and tasks, every interleaving", "No test of its own.",
     ["src/utils/threadpool.cc"], [("Enqueue, Invoke, ShutDown", "src/utils/threadpool.cc")])
prop("C29", "LambdaMART pair weights are DCG differences",
     "The weight of a pair is the target difference times the absolute difference of the two rows' rank discounts, with discount log(base) / log(base + rank), base 2 unless a positive base is configured. Weights are never negative, and a rank beyond any precomputed table gets the same formula.",
     ["inputs", "configurations"], "every group, rank and base above 1", "The one test of this loss never passes here.",
     ["src/loss_func/loss_func_lambdamart.cc"], [("LambdaMART::LambdaMART, PairWeightingFunc, discount", "src/loss_func/loss_func_lambdamart.cc")])
prop("C30", "Model JSON round trip",
     "Writing a forest as JSON and reading it back gives the same forest. Text that is not a JSON forest gives an error status.",
     ["inputs"], "every forest and every text", "Tests round-trip one message.",
     ["src/utils/json_utils.cc"], [("ToJson, FromJson", "src/utils/json_utils.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
