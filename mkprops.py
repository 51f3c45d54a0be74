"""Writes properties.jsonl (kept as a script for readability)."""
import json
B = "wildwood/preprocessing/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p("P01", "Packed feature storage is lossless",
  "Any matrix of bin numbers written to the packed storage reads back identically, "
  "element by element and as a whole array, whatever the number of rows, the number of "
  "columns, each column's maximum value and the order in which columns are written.",
  ["inputs"], "all column maxima (bit widths 1..32), all values within them, row counts "
  "around every word boundary",
  "tests round-trip a few random arrays; a wrong shift or mask only shows for some "
  "(bit width, row count modulo values per word) pairs and only for values that set the "
  "affected bits",
  [B + "features_bitarray.py"],
  [("bit packing of columns into 64-bit words", B + "features_bitarray.py"),
   ("masked extraction", B + "features_bitarray.py:get_value_from_column")],
  ["FeaturesBitArray", "get_value", "features_bitarray_to_array", "array_to_bitarray"])
p("P02", "Continuous columns are binned in an order-preserving, complete way",
  "The learned thresholds are non-decreasing, at most the allowed number of bins is used, "
  "missing entries are ignored, and when a column has no more distinct values than bins "
  "every distinct value gets its own bin, otherwise the thresholds are the requested "
  "quantiles. A value is always put in the bin whose index is the number of thresholds "
  "strictly below it, and a missing value always goes to a bin of its own after all "
  "regular bins.",
  ["inputs"], "all columns of bounded length with any real values, ties and any pattern "
  "of missing values; any number of bins",
  "tests bin a few fixed columns; ties, values equal to a threshold and rare missing "
  "patterns are where binary searches and quantile code go wrong",
  [B + "_binning.py", B + "encoder.py"],
  [("threshold learning", B + "_binning.py:_find_binning_thresholds"),
   ("binary search per value", B + "_binning.py:_bin_continuous_column"),
   ("missing-value bin allocation", B + "encoder.py:transform")],
  ["Encoder.fit", "Encoder.transform"])
p("P03", "Categorical encoding is injective and treats missing and unknown apart",
  "Within a fitted categorical column, equal categories always get equal codes and "
  "different categories different codes, and missing entries share one code used by no "
  "category. A category not seen at fit time is either rejected with an error or encoded "
  "exactly like a missing entry, according to the chosen option, and it never disturbs "
  "the codes of other entries.",
  ["inputs"], "all fit/transform column pairs of bounded length over any categories, "
  "with any pattern of missing and unknown entries, as data frames or arrays",
  "tests use a handful of columns; the interplay of missing, unknown and packed bit "
  "width (one code too many overflows into neighbours) needs specific combinations",
  [B + "encoder.py", B + "_checks.py"],
  [("category codes and extra bin", B + "encoder.py:transform")],
  ["Encoder.fit", "Encoder.transform"])
p("P04", "Columns are treated as categorical exactly when declared or inferred so",
  "Columns declared categorical (by index list or boolean mask, to the constructor or to "
  "fit) are treated as categorical and numeric columns declared otherwise as numerical; "
  "with no declaration a numeric column is categorical exactly when it has at most the "
  "documented number of distinct values. Malformed declarations are rejected with an "
  "error.",
  ["inputs", "configurations"], "all declarations over bounded numbers of features, all "
  "numeric columns of bounded length",
  "tests try a few declarations; boundary counts and constructor-versus-fit paths are "
  "not all sampled",
  [B + "_checks.py", B + "encoder.py", "wildwood/forest.py"],
  [("declaration to mask", B + "_checks.py:get_is_categorical"),
   ("inference per column", B + "_checks.py:is_series_categorical, get_array_dtypes")],
  ["ForestBase.fit", "Encoder.fit"])
p("P05", "Samples are routed identically at training and at prediction",
  "In every fitted tree the training and validation samples of a split node are exactly "
  "divided between its two children, each sample going left exactly when its bin "
  "satisfies the node's recorded condition (threshold or category subset). Passing the "
  "same samples to prediction reaches the very leaf that holds them.",
  ["inputs"], "all small data sets (bins, labels, weights), continuous and categorical "
  "columns, all split conditions including category subsets of any size",
  "tests compare accuracy or a few trees; a routing error on an edge value or a single "
  "category is invisible in scores",
  ["wildwood/_split.py", "wildwood/_tree.py", "wildwood/_grow.py"],
  [("partition of sample indices", "wildwood/_split.py:split_indices"),
   ("leaf search", "wildwood/_tree.py:find_leaf"),
   ("subset membership", "wildwood/_split.py:is_bin_in_partition")],
  ["Tree.fit", "Tree.apply"])
p("P06", "Fitted trees are well-formed and respect the size limits",
  "Every fitted tree is a proper binary tree rooted at node 0 whose parent and child "
  "links and depths agree, whose nodes' sample ranges split into their children's, and "
  "which never exceeds the maximum depth. No split is made in a node with fewer samples "
  "than the split minimum, every child holds at least the leaf minimum of training "
  "samples (and of validation samples when aggregation is on), and pure nodes other than "
  "the root are leaves.",
  ["inputs", "configurations"], "all small data sets and all settings of depth, split "
  "and leaf minimums, with and without aggregation",
  "tests check limits on a few data sets; off-by-one errors in limits, in particular on "
  "the validation side, need specific counts",
  ["wildwood/_grow.py", "wildwood/_split.py", "wildwood/_tree.py"],
  [("growing loop", "wildwood/_grow.py:grow"),
   ("admissibility of splits", "wildwood/_split.py"),
   ("node insertion", "wildwood/_tree.py:add_node_tree")],
  ["Tree.get_nodes"])
p("P07", "Every node records the exact prediction and validation loss of its samples",
  "Each node's prediction is the smoothed weighted class frequency (classification) or "
  "the weighted mean label (regression) of its training samples, its counts and total "
  "weights are those of its samples, and its loss is the weighted sum over its "
  "validation samples of the log loss or squared error of that prediction.",
  ["inputs"], "all small data sets with arbitrary real weights, labels and smoothing",
  "tests check a few numbers; wrong weights or a stale accumulator show only with "
  "non-uniform weights, several features or particular orders",
  ["wildwood/_node.py", "wildwood/_grow.py"],
  [("per-node statistics", "wildwood/_node.py:compute_node_classifier_context, "
    "compute_node_regressor_context")],
  ["Tree.get_nodes"])
p("P08", "The chosen split is the best admissible one",
  "A node that may be split is split whenever some admissible threshold (or, for "
  "categorical columns, admissible cut of the categories ordered by their class rate or "
  "by the documented strategy) exists on a candidate feature, and the chosen one has the "
  "largest impurity decrease among all of them. The recorded child statistics and "
  "impurities are those of the two sides.",
  ["inputs"], "all bin statistics of bounded size with arbitrary real weights and "
  "labels, all leaf minimums, criteria and category strategies",
  "tests exercise whole forests; a skipped or non-optimal candidate changes trees "
  "slightly and no test notices",
  ["wildwood/_split.py", "wildwood/_impurity.py", "wildwood/_node.py"],
  [("search along a feature", "wildwood/_split.py"),
   ("criteria", "wildwood/_impurity.py")],
  ["find_node_split", "Tree.get_nodes"])
p("P09", "Tree predictions are the exact exponential-weights average over prunings",
  "With aggregation on, a tree's prediction for a sample equals the average, over all "
  "prunings of the tree, of the pruned leaf's prediction, weighted by two to the minus "
  "the pruning's complexity times the exponential of minus the step times its total "
  "validation loss; with aggregation off it is the prediction of the full tree's leaf.",
  ["inputs"], "all tree shapes up to a bounded size, arbitrary node predictions, losses "
  "and step",
  "no test computes the sum over prunings; an error in one weight leaves plausible "
  "probabilities",
  ["wildwood/_grow.py", "wildwood/_tree.py", "wildwood/_utils.py"],
  [("bottom-up tree weights", "wildwood/_grow.py:compute_tree_weights"),
   ("top-down averaging", "wildwood/_tree.py:tree_classifier_predict_proba, "
    "tree_regressor_predict"),
   ("stable log-sum", "wildwood/_utils.py:log_sum_2_exp")],
  ["Tree.predict_proba", "Tree.predict"])
p("P10", "Forest outputs are proper averages of its trees' predictions",
  "Predicted class probabilities of a forest are the plain mean of its trees' "
  "probabilities (in one-versus-rest mode, each class's positive probabilities summed "
  "over its own trees and normalised, uniform if all vanish); they are non-negative and "
  "sum to one, and the predicted label is the class of largest probability. Regression "
  "forests predict the mean of their trees, within the range spanned by them.",
  ["inputs", "configurations"], "arbitrary tree predictions, numbers of trees, classes "
  "and samples up to bounds, both multiclass modes",
  "tests look at scores; a wrong divisor, column or normalisation on rare rows keeps "
  "scores plausible",
  ["wildwood/forest.py"],
  [("accumulation and normalisation", "wildwood/forest.py:predict_proba, predict")],
  ["ForestClassifier.predict_proba", "ForestClassifier.predict",
   "ForestRegressor.predict"])
p("P11", "Changing step or smoothing after fitting equals refitting with it",
  "After a fit, setting the step or the smoothing parameter to a new value gives node "
  "predictions, losses and weights, hence predictions, identical to those of the same "
  "tree grown with that value from the start, whatever sequence of changes was made.",
  ["inputs", "histories"], "arbitrary small trees, data and weights; any sequence of up "
  "to two changes",
  "tests compare one change on one data set with tolerance",
  ["wildwood/tree.py", "wildwood/forest.py", "wildwood/_grow.py"],
  [("recomputation", "wildwood/_grow.py:recompute_node_predictions, "
    "compute_tree_weights"), ("setters", "wildwood/tree.py, wildwood/forest.py")],
  ["step and dirichlet setters"])
p("P12", "Saving and reloading a fitted model changes nothing",
  "A fitted tree or forest, serialised and restored (also after having been lightened), "
  "has the same nodes, predictions, leaves, encoder and data, answers every prediction "
  "identically, and reacts identically to later parameter changes (as far as lightening "
  "leaves the data they need).",
  ["inputs", "histories"], "arbitrary contents of fitted trees and contexts",
  "tests round-trip two forests and compare predictions on few rows; a field dropped or "
  "swapped in the state only matters to later operations",
  ["wildwood/tree.py", "wildwood/forest.py"],
  [("state dictionaries", "wildwood/tree.py:serialize, unserialize")],
  ["pickle", "Tree.lighten"])
p("P13", "Bootstrap splits data into disjoint in-bag and out-of-bag samples",
  "For every tree the in-bag and out-of-bag samples are disjoint, both non-empty, and "
  "together all samples; in-bag weights are the user's weights times the number of times "
  "the sample was drawn and out-of-bag weights are the user's. The user's data, labels "
  "and weights are never modified.",
  ["inputs", "schedules"], "all draws of bounded size, all weights, all tree orders",
  "tests check one seed; a lost multiplicity or shared buffer needs repeated draws or "
  "several trees",
  ["wildwood/forest.py"],
  [("bootstrap", "wildwood/forest.py:_generate_train_valid_samples, "
    "_parallel_build_trees")],
  ["ForestBase.fit"])
p("P14", "Each split draws the requested number of distinct features, uniformly",
  "At every node the candidate features are exactly the configured number of distinct "
  "features, every such subset can occur and all are equally likely, and with no "
  "subsampling all features are candidates.",
  ["inputs", "schedules"], "all sequences of random draws for bounded numbers of features",
  "tests see a few draws; a feature that can never be drawn or drawn twice is invisible",
  ["wildwood/_utils.py", "wildwood/_node.py"],
  [("sampling without replacement", "wildwood/_utils.py:sample_without_replacement"),
   ("use per node", "wildwood/_node.py")],
  ["Tree.fit"])
p("P15", "A fixed random state fixes the forest",
  "All randomness of a fit derives from the forest's random state: the same state gives "
  "the same tree and bootstrap seeds, encoder subsample and draws, independently of "
  "earlier fits, global generators and number of jobs. Different trees that vote for "
  "the same class get independently drawn seeds.",
  ["configurations", "histories", "schedules"], "all seeds, numbers of trees and "
  "classes up to bounds, both multiclass modes",
  "tests compare two runs of one configuration",
  ["wildwood/forest.py", "wildwood/_tree.py", B + "encoder.py"],
  [("seed generation", "wildwood/forest.py:_generate_random_states"),
   ("per-tree seeding", "wildwood/_tree.py")],
  ["ForestBase.fit"])
p("P16", "Results do not depend on the order in which trees run",
  "Fitting and predicting with any number of jobs gives the same forest and the same "
  "outputs for every order and interleaving of the per-tree tasks, each tree's result "
  "landing in its own place and no update being lost.",
  ["schedules"], "all orders and all interleavings (at locks, array writes and calls) of up to three tree tasks",
  "tests run one schedule; lost updates and misplaced results need a particular one",
  ["wildwood/forest.py"],
  [("lock around shared output", "wildwood/forest.py:_accumulate_prediction, "
    "_get_tree_prediction, _parallel_tree_apply, _compute_weighted_depth")],
  ["predict", "predict_proba", "predict_proba_trees", "apply"])
p("P17", "Hyper-parameters are validated and resolved as documented",
  "Every invalid hyper-parameter value is rejected with an error and leaves the previous "
  "value in force, every valid one is accepted and reported back, and the number of "
  "candidate features is resolved to the documented value between one and the number of "
  "features. Parameters that cannot change after fitting are refused then, and the trees "
  "and the encoder are made with the values in force.",
  ["inputs", "configurations"], "all integer and real values of each parameter, all "
  "numbers of features up to a bound",
  "tests try a few bad values per parameter",
  ["wildwood/forest.py", B + "encoder.py"],
  [("property setters", "wildwood/forest.py"),
   ("resolution", "wildwood/forest.py:_get_max_features_")],
  ["ForestClassifier", "ForestRegressor", "Encoder"])
p("P18", "Labels and weights reach the trees unchanged in meaning",
  "Predictions are expressed in the user's labels, the k-th probability column being the "
  "k-th sorted label; in one-versus-rest mode the trees of a class are trained on that "
  "class against the others. Each sample's training weight is the user's weight times, "
  "when balancing is asked, the number of samples over the number of classes times its "
  "class count (of the binary problem in one-versus-rest mode).",
  ["inputs", "configurations"], "all label assignments and weights of bounded size",
  "tests use a couple of data sets with contiguous integer labels",
  ["wildwood/forest.py"],
  [("label encoding and class weights", "wildwood/forest.py:fit, _encode_y")],
  ["ForestClassifier.fit", "ForestClassifier.predict"])
p("P19", "Per-tree outputs agree with the trees",
  "The leaf indices, per-tree probabilities and weighted depths returned by a forest are, "
  "for each tree and sample, those of that tree: leaf indices designate leaves, the mean "
  "of per-tree probabilities is the forest's, and a weighted depth is the same "
  "exponential-weights average as predictions, taken over node depths.",
  ["inputs"], "all small trees, losses, steps and samples",
  "tests only check shapes",
  ["wildwood/forest.py", "wildwood/_tree.py"],
  [("per-tree outputs", "wildwood/_tree.py:tree_apply, tree_regressor_weighted_depth")],
  ["apply", "predict_proba_trees"])
p("P20", "Growing storage never loses or corrupts tree content",
  "However many nodes and category subsets a tree gets, each stored node, prediction and "
  "subset keeps the values it was given, at the index it was given, through every "
  "enlargement of the underlying storage, and pending nodes are each processed once.",
  ["histories"], "all insertion sequences up to a bound from any capacity",
  "default capacities are large, so tests rarely trigger an enlargement",
  ["wildwood/_tree.py", "wildwood/_grow.py", "wildwood/_utils.py"],
  [("resizing", "wildwood/_utils.py:resize, wildwood/_tree.py:resize_tree"),
   ("pending-node stack", "wildwood/_grow.py:push_record")],
  ["Tree.get_nodes"])
p("P21", "Impurity criteria are the textbook quantities",
  "Gini, entropy and variance of a node and of two children equal their definitions for "
  "the given weighted sums, are never negative and vanish exactly for pure nodes, and "
  "the split score orders splits exactly as the decrease of weighted impurity does.",
  ["inputs"], "all weighted class sums and label moments",
  "tests compare a few numbers",
  ["wildwood/_impurity.py"],
  [("criteria", "wildwood/_impurity.py")],
  ["gini_node", "gini_childs", "entropy_node", "entropy_childs", "mse_node",
   "information_gain"])
p("P22", "A sample's encoding and prediction do not depend on its batch",
  "Transforming or predicting a batch gives, for each row, the result obtained for that "
  "row alone or in any other batch, whatever missing, unknown or extreme values the "
  "other rows hold.",
  ["inputs"], "all fit columns and all batches of bounded size, missing and unknown "
  "entries included",
  "tests never compare batches",
  [B + "encoder.py", "wildwood/_tree.py"],
  [("per-batch packed layout", B + "encoder.py:transform")],
  ["Encoder.transform", "predict"])
p("P23", "Bundled data set loaders deliver what they describe",
  "The bundled data sets are returned with the documented columns, types and targets.",
  ["configurations"], "all loaders",
  "the loaders read files shipped with the package; nothing is quantified over inputs",
  ["wildwood/datasets/loaders.py", "wildwood/datasets/dataset.py"],
  [("loaders", "wildwood/datasets/loaders.py")], ["load_*"])
p("P24", "Exported node tables and decision paths describe the tree",
  "The node table returned for a tree has one row per node holding that node's recorded "
  "links, counts, weights, losses, split condition and prediction; the depth and number "
  "of leaves reported are those of its nodes. The decision path returned for a sample "
  "lists in order exactly the split nodes it passes from the root to the leaf prediction "
  "reaches, with each node's condition and the side taken.",
  ["inputs"], "all trees up to a number of leaves with any recorded contents, all samples",
  "no test compares a table or a path with its tree",
  ["wildwood/_tree.py", "wildwood/tree.py", "wildwood/forest.py"],
  [("tables", "wildwood/_tree.py:get_nodes"), ("paths", "wildwood/_tree.py:path_leaf")],
  ["get_nodes", "path_leaf", "get_depth", "get_n_leaves"])
p("P25", "Decoding an encoded table gives back what encoding kept",
  "Decoding an encoded table returns each known category exactly, turns missing and "
  "unknown entries into missing ones, and for a number the interval between two "
  "consecutive thresholds that contains it; the encoded table is left as it was.",
  ["inputs"], "all columns of bounded size, missing and unknown entries included",
  "tests decode one table",
  [B + "encoder.py"],
  [("decoding", B + "encoder.py:inverse_transform")],
  ["Encoder.inverse_transform"])
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
