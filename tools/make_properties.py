"""Writes ../properties.jsonl (kept as a script only because one-line JSON is hard to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                     observe_at=list(observe), hook_needed=None)))


W = "wildwood/"
prop("C01", "Predictions are valid probabilities, labels and in-range targets",
     "For every fitted classifier and every admissible input, predict_proba returns one finite row per sample, in the "
     "order of classes_, with entries in [0, 1] summing to one, and predict returns the class of the largest one. For "
     "every fitted regressor, predict returns finite values between the smallest and the largest training target. "
     "Missing values, unknown categories and values far outside the training range are admissible.",
     ["inputs", "configurations"],
     "any data set (numerical, categorical, missing, constant, tied columns), any parameter setting including tiny or "
     "huge step and dirichlet, any weights that leave every tree some in-bag weight, any prediction input (targets whose "
     "squared sums are representable in single precision)",
     "Tests check accuracy thresholds and shapes on iris-like data with default steps; validity must hold for every "
     "data set, step, dirichlet and prediction row, and breaks only in extreme numeric regimes or for unusual rows.",
     [W + "forest.py", W + "_tree.py", W + "_node.py"],
     [("predict_proba / predict accumulate and normalise", "wildwood/forest.py:ForestClassifier.predict_proba"),
      ("convex combination along the path", "wildwood/_tree.py:tree_classifier_predict_proba, tree_regressor_predict"),
      ("dirichlet-smoothed node frequencies", "wildwood/_node.py:compute_node_classifier_context")],
     [("y_pred", "prediction of each node", "wildwood/_tree.py")],
     ["ForestClassifier.predict_proba", "ForestClassifier.predict", "ForestRegressor.predict"])

prop("C02", "A forest prediction is the mean of its trees, each counted exactly once",
     "predict_proba (and the regressor's predict) equals the average of the predictions of the individual trees, every "
     "tree counted exactly once; with one-versus-rest, class k's score is the sum of the positive-class probabilities "
     "of the trees of class k, normalised over classes (uniform when all scores vanish). This holds whatever n_jobs, "
     "the order in which tree predictions complete, and the number of threads predicting concurrently with the same "
     "forest.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the threads that predict trees and accumulate their outputs, every n_jobs, every number of "
     "trees, concurrent callers with different inputs",
     "Tests run predictions with one schedule; a lost update or a shared buffer shows only when two accumulations or "
     "two callers overlap.",
     [W + "forest.py", W + "tree.py"],
     [("accumulation under a lock", "wildwood/forest.py:_accumulate_prediction"),
      ("per-call buffers and lock", "wildwood/forest.py:_predict_helper"),
      ("per-tree outputs", "wildwood/forest.py:predict_proba_trees, predict_trees, apply")],
     [("all_proba", "shared accumulator of one call", "wildwood/forest.py")],
     ["predict_proba", "predict", "predict_proba_trees", "predict_trees", "apply"])

prop("C03", "An integer random_state determines the forest completely",
     "Two forests built with the same data, parameters and integer random_state consist of identical trees: the same "
     "bags, bitwise identical leaves and per-tree predictions, and equal forest predictions (up to the order of "
     "additions), whatever n_jobs, verbosity, thread scheduling, process, memory contents, global random number "
     "generator state, or earlier fits and predictions on the same object. Different values of random_state give "
     "different bootstraps.",
     ["schedules", "histories", "configurations"],
     "every schedule of the tree-growing threads, every n_jobs, every process, every history of unrelated calls and "
     "fits before the fit under consideration",
     "Tests compare at most two fits made in the same process with one n_jobs; they cannot cover schedules, memory "
     "contents or histories.",
     [W + "forest.py", W + "tree.py", W + "_tree.py", W + "_utils.py", W + "preprocessing/encoder.py"],
     [("seeds drawn once per tree", "wildwood/forest.py:_generate_random_states"),
      ("generator seeded per tree in the growing thread", "wildwood/_tree.py:_TreeClassifier.__init__"),
      ("order of trees preserved by the parallel map", "wildwood/forest.py:fit")],
     [("_random_states_bootstrap, _random_states_trees", "seed of each tree", "wildwood/forest.py")],
     ["fit", "predict_proba", "predict", "apply"])

prop("C04", "Each tree is trained on a bootstrap sample and validated on the rest",
     "In each tree the in-bag and out-of-bag rows are disjoint, both non-empty and together all the rows; the in-bag "
     "multiplicities are positive integers that sum to the number of rows and multiply the row's weight, while "
     "out-of-bag rows keep their weight. Multiplicities follow uniform sampling with replacement, independently "
     "across trees (one-versus-rest trees of the same rank share their sample across classes).",
     ["inputs", "configurations"],
     "every sample size from 2 rows, every random_state, every weighting, every tree of every forest",
     "Tests never inspect the bags of fitted trees; degenerate draws (no out-of-bag row), weight bookkeeping and the "
     "distribution only show over many sizes and seeds.",
     [W + "forest.py", W + "tree.py"],
     [("bootstrap with redraw when nothing is out of bag", "wildwood/forest.py:_generate_train_valid_samples"),
      ("multiplicities folded in a private copy of the weights", "wildwood/forest.py:_parallel_build_trees")],
     [("_train_indices, _valid_indices", "in-bag and out-of-bag rows", "wildwood/tree.py"),
      ("sample_weights", "weight times multiplicity", "wildwood/_tree_context.py")],
     ["trees after fit"])

prop("C05", "Every row follows one path: growth, apply and predict agree",
     "Each tree is a proper binary tree in which the two children of a node partition its in-bag and out-of-bag rows "
     "according to the node's split (numerical: bin at most the threshold goes left; categorical: bin in the node's "
     "set goes left, everything else, unknown categories and missing values included, goes right). apply returns, for "
     "any row, the leaf reached by these rules, it is the leaf the row was counted in during growth, and predict uses "
     "that same leaf and its ancestors.",
     ["inputs", "configurations"],
     "every data set, split type, category set, tree size and prediction row",
     "Tests check apply on few rows; agreement of three separate traversals over bit-packed columns must hold for "
     "every bin width, category set and tree size.",
     [W + "_split.py", W + "_tree.py", W + "_grow.py", W + "forest.py"],
     [("split_indices partitions the rows", "wildwood/_split.py:split_indices"),
      ("category set membership", "wildwood/_split.py:compute_bin_partition, is_bin_in_partition"),
      ("prediction-time traversal", "wildwood/_tree.py:find_leaf, tree_apply"),
      ("node storage and resizing", "wildwood/_tree.py:add_node_tree, resize_tree, resize_tree_bin_partitions")],
     [("nodes, bin_partitions", "tree storage", "wildwood/_tree.py"),
      ("partition_train, partition_valid", "rows of each node, contiguous", "wildwood/_tree_context.py")],
     ["apply", "get_nodes", "predict with aggregation=False"])

prop("C06", "Tree growth obeys its limits and stops only for a reason",
     "No node lies deeper than max_depth; every split node has at least min_samples_split in-bag rows, every child at "
     "least min_samples_leaf, and with aggregation the same holds for out-of-bag rows; pure nodes other than the root are not split; a "
     "node is a leaf only if it reached such a limit, is pure, or no split of the features it considered is "
     "admissible. Each node considers max_features distinct features, drawn uniformly and afresh at every node "
     "(\"auto\" and \"sqrt\": square root, \"log2\": base-2 logarithm, a fraction of the features, each rounded down and at least one; "
     "None: all).",
     ["inputs", "configurations"],
     "every combination of limits, data set and seed; all nodes of all trees",
     "Tests check setters and a depth or two; limits interact with out-of-bag counts at every node and the feature "
     "draw is a distribution.",
     [W + "_grow.py", W + "_split.py", W + "_node.py", W + "_utils.py", W + "forest.py"],
     [("leaf decision", "wildwood/_grow.py:grow"),
      ("minimum leaf sizes in the split scan", "wildwood/_split.py:try_feature_order_for_classifier_split"),
      ("feature sampling", "wildwood/_utils.py:sample_without_replacement"),
      ("max_features / max_depth translation", "wildwood/forest.py:_get_max_features_, _get_max_depth_")],
     [], ["get_nodes", "trees after fit"])

prop("C07", "Each split minimises the impurity among the candidate splits",
     "The split of a node has, up to single-precision rounding, the smallest weighted impurity (gini, entropy or mse, "
     "on the weighted in-bag rows) among all admissible splits of the features it considered, so at most n_features - "
     "max_features features offer a strictly better one. Numerical candidates are all bin thresholds; for binary "
     "classification and regression the categorical candidates are as good as any subset of the categories; with "
     "several classes they are the prefixes of the categories sorted by the frequency of one class (all classes with "
     "cat_split_strategy=\"all\", one drawn uniformly with \"random\").",
     ["inputs", "configurations"],
     "every node of every tree over all data sets, weights, criteria, strategies and limits",
     "Tests compare scores of whole forests; a suboptimal scan (skipped last bin, stale state between features, wrong "
     "order) still gives a good forest.",
     [W + "_split.py", W + "_impurity.py", W + "_node.py"],
     [("scan over ordered bins", "wildwood/_split.py:find_best_split_classifier_along_feature, "
       "find_best_split_regressor_along_feature"),
      ("impurities", "wildwood/_impurity.py"),
      ("histograms", "wildwood/_node.py:compute_node_classifier_context, compute_node_regressor_context")],
     [], ["get_nodes", "trees after fit"])

prop("C08", "Node predictions and out-of-bag losses are the defined statistics",
     "The prediction of every node is the dirichlet-smoothed weighted class frequency (classification) or the weighted "
     "mean target (regression) of the in-bag rows it contains, and with aggregation its validation loss is the "
     "weighted log-loss (squared error) of that prediction over the out-of-bag rows it contains. Row and class weights "
     "enter both exactly as documented, and the node counts reported by get_nodes are those of these rows.",
     ["inputs", "configurations"],
     "every node of every tree over all data sets, weights, dirichlet values, one-versus-rest or multinomial",
     "Tests never recompute node statistics; errors in weights or smoothing only shift probabilities slightly.",
     [W + "_node.py", W + "_grow.py", W + "forest.py"],
     [("node statistics", "wildwood/_node.py:compute_node_classifier_context, compute_node_regressor_context"),
      ("recomputation after a change of dirichlet", "wildwood/_grow.py:recompute_node_predictions"),
      ("class weights folded in sample weights", "wildwood/forest.py:fit")],
     [("y_pred, loss_valid, n_samples_*, w_samples_*", "node statistics", "wildwood/_node.py")],
     ["get_nodes", "predict with aggregation=False"])

prop("C09", "Aggregation computes the exact weighted average over all prunings",
     "With aggregation, the prediction of a tree for a row equals the average, over all prunings of the tree, of the "
     "pruned tree's prediction with weights proportional to prior times exp(-step * out-of-bag loss), where the prior "
     "is the branching prior 2^-(number of nodes that are not leaves of the full tree); it lies between the smallest "
     "and largest node prediction on the row's path for any size of the losses. Without aggregation it is the leaf's "
     "prediction.",
     ["inputs", "configurations"],
     "every tree, step and magnitude of losses (from negligible to far beyond the range of exp), every row",
     "The number of prunings is exponential and tests never compare with the definition; rounding failures need large "
     "losses.",
     [W + "_grow.py", W + "_tree.py", W + "_utils.py"],
     [("context tree weighting, bottom-up", "wildwood/_grow.py:compute_tree_weights"),
      ("recursion along the path", "wildwood/_tree.py:tree_classifier_predict_proba, tree_regressor_predict"),
      ("log of the mean of exponentials", "wildwood/_utils.py:log_sum_2_exp")],
     [("log_weight_tree", "log of the aggregated weight of the subtree", "wildwood/_node.py")],
     ["predict_proba_trees", "predict_trees", "weighted depth"])

prop("C10", "Changing step or dirichlet after fit equals refitting with the new value",
     "After any sequence of changes of step and dirichlet on a fitted forest (interleaved with predictions, copies and "
     "pickling), the predictions equal, up to single-precision rounding, those of a forest fitted from scratch with "
     "the final values; going back to the original values restores the original predictions. A refused change leaves "
     "the forest as it was.",
     ["histories", "configurations"],
     "every sequence of parameter changes and calls, classification (multinomial, one-versus-rest) and regression, "
     "with and without aggregation",
     "Tests change each parameter once on one data set.",
     [W + "forest.py", W + "tree.py", W + "_grow.py"],
     [("setters", "wildwood/forest.py:ForestBase.step, ForestClassifier.dirichlet"),
      ("propagation to trees", "wildwood/tree.py:TreeBase.step, TreeClassifier.dirichlet"),
      ("recomputation", "wildwood/_grow.py:recompute_node_predictions, compute_tree_weights")],
     [], ["predict_proba", "predict", "get_params"])

prop("C11", "Saving, copying and lightening a forest preserve its behaviour",
     "A forest restored by pickle or joblib (in the same or a fresh process), copied by deepcopy, or lightened, before "
     "or after any of the others, predicts bitwise what the original predicts on every input, with the same classes, "
     "parameters and leaves; later parameter changes act on it as on the original and never affect the other copy; fitting one again leaves every copy, shallow ones included, as it was.",
     ["histories", "inputs", "configurations"],
     "every chain of save/load/copy/lighten/parameter change, every data set and configuration, same or fresh process",
     "Tests pickle one forest once in the same process and compare default predictions.",
     [W + "tree.py", W + "forest.py"],
     [("explicit (de)serialisation of compiled objects", "wildwood/tree.py:serialize, unserialize"),
      ("truncation of buffers", "wildwood/tree.py:TreeBase.lighten")],
     [], ["pickle.dumps/loads", "copy.deepcopy", "lighten", "predict_proba", "apply"])

prop("C12", "Binning is order preserving, complete and consistent between fit and predict",
     "A numerical column is mapped to at most max_bins bins by a non-decreasing function of the value that separates "
     "all distinct training values when there are at most max_bins of them and otherwise balances the bins; a "
     "categorical column is mapped one-to-one on its training categories; missing values and unknown categories share "
     "one extra bin, different from all others. A column is categorical as declared, or, when undeclared, by its dtype "
     "and number of distinct values; the same value always gets the same bin. inverse_transform gives back the category, "
     "or an interval that contains the value.",
     ["inputs", "configurations"],
     "every column content, dtype and container, every max_bins, every prediction batch",
     "Tests check selected columns; ties, boundary category counts (127/128, 255/256), values equal to thresholds and "
     "missing values only at prediction are unbounded in number.",
     [W + "preprocessing/encoder.py", W + "preprocessing/_binning.py", W + "preprocessing/_checks.py"],
     [("thresholds", "wildwood/preprocessing/_binning.py:_find_binning_thresholds"),
      ("binary search", "wildwood/preprocessing/_binning.py:_bin_continuous_column"),
      ("column types", "wildwood/preprocessing/_checks.py"),
      ("categories and the extra bin", "wildwood/preprocessing/encoder.py:Encoder.fit, transform")],
     [("binning_thresholds_, categories_, n_bins_no_missing_values_", "learned encoding",
       "wildwood/preprocessing/encoder.py")],
     ["Encoder.fit", "Encoder.transform"])

prop("C13", "The bit-packed feature matrix stores every value exactly",
     "Whatever the number of rows and the per-column maximum, reading back any cell or the whole matrix from the "
     "bit-packed representation gives exactly the bins that were written, columns do not affect each other, and each "
     "value takes the smallest sufficient number of bits. This holds for all unsigned integers up to 64 bits and any "
     "memory layout.",
     ["inputs"],
     "all shapes, all column maxima (in particular around powers of two and word boundaries), all dtypes and layouts",
     "Tests use a handful of shapes and maxima; boundary conditions depend on rows modulo values-per-word for each "
     "width.",
     [W + "preprocessing/features_bitarray.py"],
     [("packing", "wildwood/preprocessing/features_bitarray.py:_features_bitarray_fill_column"),
      ("unpacking", "wildwood/preprocessing/features_bitarray.py:get_value_from_column"),
      ("widths and offsets", "wildwood/preprocessing/features_bitarray.py:FeaturesBitArray.__init__")],
     [("bitarray, offsets, n_bits", "packed words", "wildwood/preprocessing/features_bitarray.py")],
     ["array_to_bitarray", "features_bitarray_to_array", "get_value", "Encoder.transform"])

prop("C14", "Results depend on values only, not on batch, layout or container",
     "The prediction and the leaf of a row do not depend on the other rows of the batch, their order or number. Fitting "
     "or predicting gives the same result when the same values come as another memory layout, numeric dtype, index or "
     "container (array or DataFrame with the same declared column types), and when categorical features are declared "
     "at construction or in fit, as indices or as a mask.",
     ["inputs", "configurations"],
     "all batches, permutations, layouts, dtypes and containers of the same values",
     "Tests never compare two presentations of the same data beyond one or two fixed pairs.",
     [W + "preprocessing/encoder.py", W + "preprocessing/_checks.py", W + "forest.py", W + "_tree.py"],
     [("column-wise encoding", "wildwood/preprocessing/encoder.py:Encoder.transform"),
      ("declared types", "wildwood/preprocessing/_checks.py:get_is_categorical")],
     [], ["predict_proba", "predict", "apply"])

prop("C15", "Labels, class weights and sample weights mean what they say",
     "classes_ are the sorted distinct labels and renaming labels in the same order changes nothing but the names; no "
     "sample_weight equals unit weights; class_weight=\"balanced\" equals the corresponding sample weights; targets of "
     "rows with zero weight are irrelevant; the dtype or container of labels and weights is irrelevant. One-versus-rest "
     "scores are those of the binary forests of each class against the rest.",
     ["inputs", "configurations"],
     "all label sets, weightings, numbers of classes and configurations",
     "Tests check that options run and reach some accuracy, not these equivalences.",
     [W + "forest.py"],
     [("label encoding", "wildwood/forest.py:ForestClassifier._encode_y"),
      ("weights", "wildwood/forest.py:ForestBase.fit")],
     [], ["classes_", "predict_proba", "predict"])

prop("C16", "Caller data is never modified and refused calls change nothing",
     "fit and all prediction methods leave X, y, sample_weight and categorical_features exactly as they were, and work "
     "on read-only data. Invalid parameter values, wrong shapes, unsupported types and, with handle_unknown=\"error\", "
     "unknown categories are refused with an exception, after which the parameters and the predictions of the forest "
     "are what they were before the call; so does a fit interrupted by an exception at any point. Changing the arrays "
     "passed to fit, or those returned by the forest, afterwards does not change the forest.",
     ["inputs", "histories"],
     "every argument content, layout and dtype; every sequence of refused and accepted calls",
     "Tests check some refused values on unfitted forests, never aliasing nor the state after a refusal.",
     [W + "forest.py", W + "preprocessing/encoder.py", W + "preprocessing/_checks.py"],
     [("setters", "wildwood/forest.py"), ("input checks", "wildwood/preprocessing/_checks.py:check_X"),
      ("private copies of the weights", "wildwood/forest.py:_parallel_build_trees")],
     [], ["fit", "predict", "setters"])

prop("C17", "No out-of-bounds access and no dependence on uninitialised memory",
     "On every admissible input the compiled code only accesses elements inside its arrays, and its results do not "
     "depend on the contents of freshly allocated memory. This includes trees, stacks and category tables that outgrow "
     "their initial capacity, single-class targets, constant columns, missing values seen only at prediction, and "
     "unknown categories.",
     ["inputs", "configurations"],
     "every input and configuration of fit, predict, apply, parameter changes and serialisation",
     "Bounds checking is off in production and an out-of-bounds read usually returns a plausible value, so tests pass.",
     [W + "_node.py", W + "_split.py", W + "_grow.py", W + "_tree.py", W + "preprocessing/features_bitarray.py"],
     [("buffers sized by the number of bins, classes and features", "wildwood/_node.py, wildwood/_split.py"),
      ("growing arrays", "wildwood/_utils.py:resize, wildwood/_tree.py:resize_tree, resize_tree_bin_partitions, "
       "wildwood/_grow.py:push_record")],
     [], ["fit", "predict_proba", "predict", "apply", "step/dirichlet setters"])

prop("C18", "Data sets keep every row once, learn encodings on training rows only",
     "Dataset.extract puts every row of the raw data in exactly one of the training and test parts, with its own label, "
     "in the requested proportion (with the class proportions kept for classification), the same parts for the same "
     "random_state. Every cell is the raw value of its row encoded as documented (one-hot, ordinal, standardised, or "
     "left alone), with encodings learnt on the training rows only, so that categories seen only in the test part are "
     "encoded as unknown. The descriptions (columns_, n_features_, n_classes_, classes_, categorical_features_, ...) match the arrays "
     "returned, df_raw is not modified, and options changed between calls act from the next call on; signals and "
     "make_regression follow their formulas.",
     ["inputs", "configurations", "histories"],
     "every data frame with declared continuous (finite) and categorical (no missing value) columns in any order, every option, split and "
     "random_state, any sequence of extractions; the bundled data sets",
     "Tests check shapes and a few statistics of some bundled data sets; a row in both parts, a shifted label or an encoder "
     "fitted on the test rows leaves them unchanged.",
     [W + "datasets/dataset.py", W + "datasets/loaders.py", W + "datasets/signals.py"],
     [("splitting and encoding", "wildwood/datasets/dataset.py:Dataset.extract"),
      ("bundled data", "wildwood/datasets/loaders.py"),
      ("simulated data", "wildwood/datasets/signals.py:get_signal, make_regression")],
     [("df_raw, transformer", "raw data and fitted encoders", "wildwood/datasets/dataset.py")],
     ["Dataset.extract", "load_*", "get_signal", "make_regression"])

prop("C19", "What a forest reports about its trees is what they are",
     "The nodes reported by get_nodes are a proper binary tree that, walked by itself, leads every row to the leaf given by "
     "apply and reproduces the tree predictions (log_weight_tree being the aggregation weights for the reported losses and "
     "the current step), before and after prediction, parameter changes and lightening. The reported sample counts, weights, "
     "index ranges and impurities (root excepted) are those of the rows in the node; path_leaf lists the splits on the way of "
     "each row, get_depth, get_actual_depth and get_n_leaves agree with the nodes, and plot_tree draws this tree.",
     ["inputs", "configurations", "histories"],
     "every fitted forest, tree and row, at any point of a history of predictions, parameter changes and lightening",
     "Tests only look at a few columns of one tree; a frame that is stale, shifted or belongs to another tree is still a valid "
     "frame.",
     [W + "_tree.py", W + "tree.py", W + "plot.py", W + "_node.py"],
     [("reported nodes and paths", "wildwood/_tree.py:get_nodes, path_leaf"),
      ("depth and number of leaves", "wildwood/tree.py:get_depth, get_n_leaves"),
      ("drawing", "wildwood/plot.py:plot_tree")],
     [], ["get_nodes", "path_leaf", "apply", "get_depth", "get_n_leaves", "plot_tree"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p) + "\n")
print(len(P))
