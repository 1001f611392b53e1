#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

GB="src/gradientbooster.rs"; TR="src/tree.rs"; SP="src/splitter.rs"; UT="src/utils.rs"; HI="src/histogram.rs"; NO="src/node.rs"; BI="src/binning.rs"
PY="py-forust/forust/__init__.py"; PL="py-forust/src/lib.rs"
PT="the existing tests check one or two datasets (Titanic, synthetic) under a handful of parameter sets"

SA="src/sampler.rs"
prop("C01","Every tree node's cover and weight are those of the records routed to it",
 "For every training set of finite values and every parameter setting, when each training record is routed through a fitted tree by the published rule (missing -> missing child, value < threshold -> left child, otherwise right child), the cover stored in every node equals the sum of the objective's hessians of the records that reach it, taken at the prediction of the trees before. Every node's weight equals learning_rate times the regularised optimum of its records' gradient and hessian sums: -G/(H+l2), with the L1 term soft-thresholding G, max_delta_step clipping the result, and the bounds of any monotone constraint above it applied; a missing child takes the weight its missing_node_treatment prescribes. The recorded gain of a split is the resulting reduction in the regularised second-order loss of the node.",
 ["inputs","configurations"],"all training matrices (ties, missing values, any number of distinct values against any nbins), targets, sample weights, all regularisation / missing / growth settings, and every boosting round",
 PT+"; they compare a few node values on the first tree and cannot see a wrong histogram, partition or subtraction that only some tie/missing pattern or depth triggers",
 [GB,TR,SP,HI,NO,UT,BI,"src/objective.rs"],
 [("histogram construction and parent-minus-child subtraction",HI),("in-place partition of record indices",UT+": pivot_on_split, pivot_on_split_exclude_missing"),("weight formula",UT+": weight, constrained_weight"),("binning",BI)],
 ["trees[].nodes[] of a fitted booster"])
prop("C02","Tree growth is greedy-optimal and stops only when nothing admissible improves",
 "At every split node, no other admissible split (any feature, any distinct training value as threshold when the feature has at most nbins + 1 distinct values, its quantiles otherwise, either direction for missing values in binary trees) reduces the node's regularised loss by more than the one chosen. A node is left unsplit only if a configured limit (max_depth, max_leaves, min_leaf_weight, terminated missing branch) forbids it or no admissible split has a gain above gamma. With depth-wise growth, when max_leaves stops the growth, no node is split while a splittable node closer to the root is left as a leaf; with loss-guided growth, no node is split while a splittable open node whose own weight reduces the loss more is left as a leaf.",
 ["inputs","configurations"],"all training matrices, targets and weights, both missing-value modes, all combinations of regularisation parameters and both grow policies",
 PT+"; no test recomputes the best split independently",
 [SP,TR,HI,"src/grower.rs",UT],
 [("split search over histogram bins",SP+": best_split, best_feature_split, evaluate_split"),("growth loop",TR+": fit"),("node queue","src/grower.rs")],
 ["trees[].nodes[] of a fitted booster"])
prop("C03","Fitted trees respect every structural limit and are well formed",
 "Every tree of every fitted model has depth at most max_depth and at most max(1, max_leaves) leaves, in binary and in missing-branch trees alike; every left and right child has cover at least min_leaf_weight, every split's gain exceeds gamma, and no weight exceeds learning_rate*max_delta_step in magnitude when that limit is set. Every tree is a rooted tree in which a node's number is its position, every child index is valid, each non-root node has exactly one parent with depth one less, missing values have exactly one destination, and a split node's cover is the sum of its children's covers. For finite data every threshold is finite and an observed non-missing training value of the split feature, and the model has exactly `iterations` trees unless early stopping ended training.",
 ["inputs","configurations"],"all training data and all combinations of max_depth, max_leaves, min_leaf_weight, gamma, max_delta_step, grow policy, missing mode",
 "tests check max_leaves for one binary setting; the limits interact (ternary splits add two leaves, missing leaves are not queued)",
 [TR,SP,"src/grower.rs",NO],
 [("leaf accounting and depth check",TR+": fit"),("leaves added per split",SP+": new_leaves_added"),("min_leaf_weight / gamma checks",SP)],
 ["trees[].nodes[]"])
prop("C04","Monotone constraints hold globally on the prediction function",
 "If a feature is declared positive (negative), then for every fixed assignment of the other features, including missing ones, the model's prediction never decreases (increases) as that feature moves through all non-missing values. This holds for every training set, for any mixture of constrained and unconstrained features, in both missing-value modes and with every other parameter, and training never aborts because of the constraints.",
 ["inputs","configurations"],"all training data x constraint maps (positive, negative, explicit unconstrained, absent per feature) x missing modes and treatments x regularisation; all pairs of evaluation points",
 "tests sort one dataset by one feature with every feature constrained and check partial dependence there",
 [SP,UT,"src/constraints.rs"],
 [("bounds passed down the tree and clamping of child weights",UT+": constrained_weight"),("rejection of violating splits",UT+": cull_gain"),("midpoint bounds",SP+": best_feature_split")],
 ["predict"])
prop("C05","Missing-value options decide exactly where missing records go and what they get",
 "With create_missing_branch every split has three distinct children and all records missing the split feature go to the missing child, which is a leaf whenever allow_missing_splits is off, the split feature is in terminate_missing_features, or no training record (of positive weight) reaches it. Its weight is, by treatment: None - its own records' optimum (the parent's weight if it has none); AssignToParent - exactly the parent's weight; AverageNodeWeight - the cover-weighted mean of its left and right siblings; AverageLeafWeight - leaf missing children and, recursively upward, their parents take the cover-weighted mean of the children. Without create_missing_branch missing records join the left or the right child, and with allow_missing_splits off both children of every split also hold at least min_leaf_weight of non-missing training cover.",
 ["inputs","configurations"],"all missing patterns in training data x {branch, impute} x allow_missing_splits x terminate sets x treatments x prediction rows with any subset of features missing",
 "tests cover one dataset per option and mostly compare aggregate behaviour",
 [SP,UT,NO,TR],
 [("missing branch splitter",SP+": MissingBranchSplitter"),("imputing splitter",SP+": MissingImputerSplitter"),("post-processing of missing weights",SP+": update_average_missing_nodes")],
 ["trees[].nodes[]","predict"])
prop("C06","force_children_to_bound_parent keeps each parent's weight within its children's",
 "With force_children_to_bound_parent and create_missing_branch set (and a treatment other than AverageLeafWeight), at every split of every tree the parent's weight lies between the weights of its left and right children: if it would not, the child whose own optimum is nearer to the parent's weight is moved exactly onto it and the other keeps its optimum, and otherwise both keep theirs. Training completes without aborting for every training set and for every combination with monotone constraints, L1, L2, max_delta_step and gamma.",
 ["inputs","configurations"],"all training data x constraint maps x regularisation x treatments",
 "one Titanic test with a single configuration",
 [SP,UT],
 [("bound_to_parent",UT+": bound_to_parent"),("bounds assertions",SP+": evaluate_split")],
 ["trees[].nodes[]"])
prop("C07","Boosting minimises the stated objective: gradients, base score, loss descent",
 "For LogLoss the gradient and hessian of a record are w(p-y) and w p(1-p) with p the sigmoid of the current raw prediction, for SquaredLoss they are w(yhat-y) and w, at every round, so a model restricted to single-leaf trees follows the closed-form Newton iteration with step learning_rate. With initialize_base_score the base score is the constant that minimises the weighted loss (log-odds of the weighted mean, or the weighted mean), otherwise it is the configured base_score. For SquaredLoss without constraints, row sampling or missing branches and learning_rate at most 1, the weighted training loss never increases from one round to the next.",
 ["inputs","configurations"],"all targets, weights, base scores, learning rates, regularisation values and numbers of rounds",
 "tests compare against xgboost on one dataset",
 ["src/objective.rs",GB,UT],
 [("objective functions","src/objective.rs"),("boosting loop",GB+": fit_trees"),("summation",UT+": fast_f64_sum")],
 ["base_score","trees[].nodes[].weight_value","predict"])
prop("C08","Predictions are base score plus the leaf weights of exactly the selected trees",
 "For every model and every matrix, the prediction of a row is base_score plus the sum, over the trees in use, of the weight of the leaf reached by routing the row (missing -> missing child, value strictly below the threshold -> left, otherwise right), and the reported leaf indices are exactly those leaves, tree by tree and row by row. The trees in use are the first prediction_iteration ones, or all of them. The result for a row does not depend on the other rows, on their order or number, or on the parallel setting. A single tree's own predict methods obey the same rule.",
 ["inputs","configurations","programs"],"all tree shapes (binary, missing-branch, mixed), thresholds hit exactly, just below, +-infinity, signed zero, missing; all prefixes of the ensemble; all batch sizes and row orders",
 "tests compare predictions of one model against stored values or xgboost",
 [TR,NO,GB,"src/data.rs"],
 [("routing rule",NO+": get_child_idx"),("row traversal",TR+": predict_*"),("tree prefix",GB+": get_prediction_trees"),("matrix indexing","src/data.rs")],
 ["predict","predict_leaf_indices"])
prop("C09","Contributions add up to the prediction",
 "For every model and every row, including rows with missing values, the Weight, Average and Shapley contributions of all features plus the bias column sum to the row's prediction, and the ProbabilityChange contributions sum to the predicted probability. This holds for the currently selected number of trees, in binary and missing-branch trees, with and without parallelism.",
 ["inputs","configurations"],"all models (all small tree shapes with any covers, trained ensembles in every missing mode), all rows, every prefix of the ensemble",
 "tests check additivity on one dataset for a few methods and configurations",
 [GB,TR,"src/shapley.rs"],
 [("per-row contribution walks",TR),("tree shap","src/shapley.rs"),("bias handling",GB+": predict_contributions*")],
 ["predict_contributions","predict"])
prop("C10","Each contribution method returns the values it documents",
 "For every model and row, each method's per-feature values equal their definition: Weight - the change in node weight along the path; Average - the change in cover-weighted mean leaf weight; BranchDifference - chosen child minus the other non-missing child; MidpointDifference - chosen child minus the cover-weighted mean of both; ModeDifference - chosen child minus the child with the larger cover; ProbabilityChange - the change in probability given the trees before; in the difference methods a missing branch contributes zero and the bias is the base score. Shapley values equal the exact Shapley values, over all feature subsets, of the cover-weighted conditional expectation of the trees.",
 ["inputs","configurations"],"all small tree shapes x feature assignments (repeated features on a path included) x covers x weights x rows; all subsets of features in the reference",
 "tests compare Shapley with xgboost on one dataset and check the other methods only for shape or sums",
 [TR,"src/shapley.rs",GB],
 [("contribution walks",TR+": predict_contributions_row_*"),("path-dependent tree shap","src/shapley.rs: extend_path, unwind_path"),("mean leaf weights",TR+": distribute_leaf_weights")],
 ["predict_contributions"])
prop("C11","Partial dependence is the cover-weighted expectation of the model",
 "For every model, feature and value (including missing), the partial dependence is base_score plus, summed over the trees in use, the mean leaf weight when splits on that feature follow the value and every other split is averaged over its children in proportion to their covers. It does not depend on the parallel setting, and for a model that uses only that feature it equals the prediction at that value.",
 ["inputs","configurations"],"all small tree shapes, covers, features, values on/below/above thresholds and missing, all ensemble prefixes",
 "one test per behaviour on one dataset",
 ["src/partial_dependence.rs",GB],
 [("weighted recursion","src/partial_dependence.rs: tree_partial_dependence"),("summation over trees",GB+": value_partial_dependence")],
 ["value_partial_dependence"])
prop("C12","Feature importances equal their definitions",
 "For every model, importance reports exactly the features used in some split, with Weight the number of splits, TotalGain and TotalCover the sums of split gain and of split-node cover, and Gain and Cover those sums divided by the number of splits, over all trees and all nodes including those under missing branches. Normalised importances are the same values divided by their total, so they sum to one.",
 ["inputs","configurations"],"all small tree shapes and trained ensembles, all five methods, normalised or not",
 "tests compare with xgboost for one binary model",
 [GB,TR],
 [("node statistics",TR+": calc_feature_node_stats"),("aggregation and normalisation",GB+": calculate_feature_importance")],
 ["calculate_feature_importance"])
prop("C13","Results do not depend on threads, scheduling, logging or repetition",
 "Fitting twice on the same data with the same parameters and seed gives identical models, and the parallel setting, the number of threads, the order in which parallel tasks run or their results are combined, and log_iterations change nothing in the fitted trees, evaluation history, predictions, leaf indices, contributions or importances (partial dependence up to floating-point summation order). Different boosters in one process do not influence each other.",
 ["schedules","configurations","inputs"],"all task orders and work splittings of every parallel region up to a deviation bound, thread counts 1..n, all training modes and sampling methods",
 "tests run whatever schedule rayon happens to pick on the test machine",
 [GB,TR,HI],
 [("parallel iterators",HI+": HistogramMatrix::new; "+TR+": predict_parallel; "+GB),("seeded generator",GB+": fit_trees"),("sorted normalisation",GB+": calculate_feature_importance")],
 ["json_dump","predict*","value_partial_dependence"])
prop("C14","Saving and loading a model loses nothing",
 "For every model - any parameters, trees, metadata, evaluation history, early-stopping state and any floating-point values a fit can produce, non-finite ones included - writing it to JSON or to a file and loading it again succeeds and gives a model with the same parameters, trees and state. The loaded model's predictions, contributions, partial dependence and importances are bit-identical, saving it again yields the same document, and refitting it gives the same result as refitting the original.",
 ["inputs","configurations","histories"],"all parameter values and combinations, models before and after fit, missing sentinels, degenerate targets, NaN or infinite metric values, arbitrary metadata strings",
 "tests round-trip one or two well-behaved models",
 [GB,"src/data.rs",NO,TR],
 [("serde representation",GB+": json_dump, from_json, save_booster, load_booster"),("missing parser",GB+": parse_missing")],
 ["json_dump","from_json","save_booster","load_booster"])
prop("C15","A partially written or damaged model file is never loaded as a model",
 "If saving is interrupted after any number of bytes, or a shorter model overwrites a longer file without truncation, loading the file reports an error and never yields a model. Neither does a file in which a damaged byte leaves no UTF-8 text. Loading never aborts the process, whatever the file's content, and a missing or unreadable path is reported as an error.",
 ["crash_points","fault_sequences","inputs"],"every byte prefix of every saved model, every overwrite tail, every single structural token deleted",
 "no test loads a damaged file",
 [GB],
 [("strict JSON parsing of one document",GB+": from_json, load_booster")],
 ["load_booster","from_json"])
prop("C16","Models saved by older versions load with documented defaults",
 "A saved model in which any subset of the later-added settings is absent still loads, each absent setting takes its documented default, every present one keeps its value, and predictions change only through the settings that are absent. A model lacking any of the other settings or its trees is rejected with an error, except that absent monotone constraints mean none; without a stored prediction iteration all trees are used.",
 ["configurations","inputs"],"all 2^15 subsets of optional settings, each required setting removed, unknown extra settings present",
 "one stored old model is loaded in tests",
 [GB],
 [("serde defaults",GB+": #[serde(default = ...)]")],
 ["from_json"])
prop("C17","The outcome of fit depends only on parameters and data, not on past use",
 "After any history of fits, refits on other data, early-stopped fits, rejected fits, predictions, prediction-iteration changes, metadata insertions and save/load cycles, a successful fit yields the same trees, history, best iteration and predictions as the same fit on a fresh booster with the same parameters. A fit rejected with an error leaves the model exactly as it was, and predict-type calls never change the model.",
 ["histories"],"all operation sequences up to a depth bound over an alphabet of fits, rejected fits, queries, setters and round trips",
 "tests fit once, or refit once",
 [GB],
 [("reset on refit",GB+": reset, fit_trees"),("validation before mutation",GB+": fit")],
 ["json_dump","predict"])
prop("C18","Early stopping and evaluation history follow the metric exactly",
 "The evaluation history has one row per trained tree and one column per evaluation set, each entry being the chosen metric (if none, LogLoss for LogLoss and RootMeanSquaredLogError for SquaredLoss) of that set under the trees so far. With early stopping, the best iteration is the first one attaining the best value on the last evaluation set (NaN never beats a number), training stops exactly when early_stopping_rounds rounds passed since the best one without improvement or iterations are exhausted, and predictions use the trees up to the best iteration. Without early_stopping_rounds or evaluation data all trees are trained and used. Evaluating never changes the trees: they are the first ones of the same fit without evaluation data.",
 ["inputs","configurations","histories"],"all metric trajectories reachable from small training/evaluation sets, all early_stopping_rounds, 1-3 evaluation sets, all metrics and both objectives",
 "tests check that early stopping happened on one dataset",
 [GB,"src/metric.rs"],
 [("early stopping bookkeeping",GB+": fit_trees, update_best_iteration"),("comparison","src/metric.rs: is_comparison_better")],
 ["evaluation_history","best_iteration","predict"])
prop("C19","Evaluation metrics equal their definitions on every input",
 "For all labels, scores and weights: AUC is the weighted probability that a positive outscores a negative, ties counting one half, independent of record order; LogLoss is the weighted mean logistic loss of the raw scores, finite for every finite score; RootMeanSquaredError and RootMeanSquaredLogError are the weighted root mean squares of the differences and of the log1p differences. AUC is maximised, the others minimised.",
 ["inputs"],"all small label/score/weight vectors with ties, zero weights, large scores, every record order",
 "tests compare three or four fixed vectors",
 ["src/metric.rs"],
 [("metric functions","src/metric.rs")],
 ["evaluation_history","metric functions"])
prop("C20","A missing sentinel behaves exactly like NaN",
 "For every dataset, replacing NaN by any other sentinel value that does not otherwise occur, and declaring that value as `missing`, changes nothing: the same trees, predictions, leaf indices, contributions and partial dependence result, whether the sentinel lies below, inside or above the range of the data (0 and -0 are one value). If NaN occurs in data although the declared missing value is not NaN, the data are refused rather than treated as some value.",
 ["inputs","configurations"],"all missing patterns x sentinels below/inside/above the range x missing modes",
 "one test uses one sentinel on one dataset",
 [UT,BI,NO],
 [("missing test",UT+": is_missing, map_bin"),("binning",BI)],
 ["fit","predict*"])
prop("C21","Row and column sampling train each tree on exactly the sampled data",
 "With random sampling each tree's statistics are those of a subset of the training rows (all rows when subsample is 1 or more, each record with probability subsample, drawn anew for every tree); with GOSS each tree uses the floor(top_rate*n) rows of largest absolute gradient unscaled, plus other rows whose gradient and hessian are scaled by (1-top_rate)/other_rate. With colsample_bytree below 1 each tree splits on features from a single subset of floor(colsample_bytree*columns) features and is greedy-optimal on it. Rows left out still receive the tree's prediction before the next round, and the draw is determined by the seed.",
 ["inputs","configurations"],"all seeds in a range x rates x methods x rounds x small datasets with decodable weights",
 "tests fit with sampling and check almost nothing about what was sampled",
 ["src/sampler.rs",GB,TR,HI],
 [("samplers","src/sampler.rs"),("column subset",GB+": fit_trees"),("sampled histograms",HI+": HistogramMatrix::new")],
 ["trees[].nodes[]"])
prop("C22","Thresholds are the weighted quantiles of the data, and binning never misroutes",
 "If a feature has at most nbins + 1 distinct non-missing values, each of them (except the smallest) is available as a threshold; otherwise exactly the weighted quantiles at 0, 1/nbins, 2/nbins, ... are (up to rounding where a cumulative weight meets a quantile exactly), so at most nbins thresholds exist per feature. Thresholds are always observed values, and a training record is routed during training exactly as its raw value is routed at prediction time, for any nbins from 1 to the 16-bit limit, any ties, weights, negative or huge values up to 1e300.",
 ["inputs","configurations"],"all value multisets and weights up to a size bound, nbins sweeps around the number of distinct values and around 255/256/257, infinities excluded",
 "one binning test on one dataset with 50 bins",
 [BI,UT],
 [("cut selection",BI+": percentiles_or_value; "+UT+": percentiles"),("bin lookup",UT+": map_bin")],
 ["trees[].nodes[].split_value"])
prop("C23","Equivalent datasets give equivalent models",
 "Permuting the rows, replacing a record of integer weight k by k records of weight one, adding records of weight zero with already present values, or applying a strictly increasing transformation to a feature does not change the fitted function on the training records (when sums are exactly representable). Duplicating a whole feature column at the end leaves predictions unchanged. fit_unweighted gives the same model as fit with all weights one.",
 ["inputs"],"all small datasets with exactly representable statistics x all row permutations, weight vectors and transformations",
 "no test relates two fits on transformed data",
 [GB,TR,SP,HI,BI,UT],
 [("partitioning and histograms are order independent",HI+"; "+UT),("weights enter only through gradients and quantiles","src/objective.rs; "+BI)],
 ["predict"])
prop("C24","Invalid parameters and inputs are rejected, valid ones accepted",
 "Constructing a booster with a negative or NaN learning_rate, l1, l2, gamma, max_delta_step, min_leaf_weight, subsample, top_rate, other_rate or colsample_bytree is an error naming the parameter, and every non-negative value is accepted. Fitting with NaN in the target or NaN or negative values in the weights, at any position and in the training or any evaluation set, is an error, and data without such values never are rejected; NaN in the data is refused when the missing value is a number. Labels or weights of another length than their data, and evaluation sets with fewer columns than the training data, are refused; further columns of an evaluation set are ignored. A refused fit leaves a booster, fitted or not, as it was.",
 ["inputs","configurations"],"every parameter x boundary values; every position of every invalid value, alone or combined, in training and evaluation vectors",
 "tests cover a few parameters with one invalid value",
 [GB,UT,"src/errors.rs"],
 [("parameter validation",GB+": validate_parameters"),("vector validation",UT+": validate_*")],
 ["GradientBooster::new","fit"])
prop("C25","The Python estimator gives the crate's results for every way of passing the data",
 "In Python, the same values passed as a DataFrame or an array, in C or Fortran order, sliced or strided, as float64, float32, integer or boolean, give the same model and the same predictions, leaf indices, contributions, partial dependence and importances as the Rust crate, with results arranged by row and by tree or feature. Feature names in constraints, terminate_missing_features, partial dependence and importances refer to the column of that name whatever its position, and a constraint or terminated feature that no column has is refused; a frame whose columns differ in name or order from those of the last successful fit is refused.",
 ["inputs","configurations"],"all layouts x dtypes x containers x small matrices; all column orders and name-keyed options",
 "tests compare a few representations of one dataset",
 [PY,PL],
 [("input conversion",PY+": _convert_input_frame, _convert_input_array"),("name mapping",PY+": _standardize_*, _validate_features"),("array views",PL)],
 ["forust.GradientBooster"])
prop("C26","Python persistence and parameter handling are lossless",
 "Pickling and copying an estimator, save_booster/load_booster of a fitted one and scikit-learn clone/get_params/set_params preserve every parameter (single-precision ones to single precision, sample_method up to its spelling), and the first three also the fitted model, feature names, metadata and name-keyed options in Python; predictions are bit-identical afterwards, and refitting the restored estimator on the same data gives the same model as refitting the original. Parameters given to the estimator are the ones used by fit, and a fit that is refused changes neither the model nor what its feature names refer to.",
 ["configurations","histories"],"each parameter x each admissible value x {pickle, deepcopy, save/load, clone, set_params} x {unfitted, fitted on array, fitted on frame}, and chains of these operations",
 "tests pickle and save one model with default-like parameters",
 [PY,PL],
 [("state handling",PY+": __getstate__, __setstate__, load_booster, get_params, set_params"),("parameter export",PL+": get_params")],
 ["forust.GradientBooster"])
prop("C27","Text, node-list and table exports describe exactly the fitted trees",
 "For every model the text dump, the node lists and the tree table contain every node of every tree exactly once, with the number, split feature, threshold, child links including the missing child, gain, cover and leaf weight of the fitted tree, and evaluating rows on the exported structure reproduces the model's predictions.",
 ["inputs","configurations"],"all small tree shapes incl. missing branches, trained models, fits on frames and arrays",
 "tests compare one table against xgboost",
 [TR,NO,PY],
 [("Display implementations",TR+"; "+NO),("node lists",PY+": get_node_lists, trees_to_dataframe")],
 ["text_dump","get_node_lists","trees_to_dataframe"])
prop("C28","Metadata serializers return exactly the value stored",
 "For every value of the supported types - integers, floats, strings of any Unicode characters, lists and string-keyed dictionaries of these, and numpy arrays of boolean, integer or floating dtype up to 64 bits and of any shape - serialising to a string, storing it in the model's metadata, saving and loading the model, and deserialising gives back an equal value of the same type; storing under a key again replaces its value.",
 ["inputs"],"all strings over an alphabet of special characters up to a length bound, numeric boundary values, all small shapes x dtypes",
 "tests use one value per serializer",
 ["py-forust/forust/serialize.py",PY,GB],
 [("serializers","py-forust/forust/serialize.py"),("metadata map",GB+": insert_metadata, get_metadata")],
 ["serialize/deserialize"])
prop("C29","A model imported from XGBoost predicts what XGBoost predicts",
 "For every XGBoost tree model with a squared-error or binary logistic objective - an estimator or a Booster, trained on a frame (numeric, integer or boolean columns) or an array, with or without missing values, at any depth, growth policy, base score and number of trees - _from_xgboost_model gives a forust model with the same trees, whose raw predictions, leaf indices, Shapley contributions and importances on every row of doubles, including rows exactly at a threshold (as single or as double precision) and with missing values, are XGBoost's own up to single-precision rounding, and leaves the XGBoost model unchanged. A tree whose node numbers have gaps (pruned) may be refused with an error instead, and no other.",
 ["inputs","configurations"],"all small training sets x objectives x growth methods x containers x model forms, structured sets x settings, rows at, below and above every threshold",
 "tests import two estimators trained on one frame",
 [PY],
 [("import",PY+": _from_xgboost_model, _xgboost_tree_to_nodes, Node._from_xgboost_node")],
 ["_from_xgboost_model","predict"])
prop("C30","Every setter and constructor argument sets the parameter it names, only that",
 "For every parameter of the Rust booster, every admissible value and any starting state (fresh, fitted, loaded, after other setters), the setter and the constructor argument give that parameter exactly that value and leave every other parameter and the fitted trees, base score, evaluation history, best iteration and metadata unchanged. Metric, objective-type, grow-policy, sampling and missing-node names parse to the thing they name, and every other string is refused.",
 ["configurations","histories"],"every setter x boundary values x starting states, all pairs of setters in both orders, all constructor arguments one and two at a time, all strings near the metric names",
 "tests use a few setters with the values needed for one fit",
 [GB,"src/metric.rs"],
 [("setters",GB+": set_*"),("constructor",GB+": new"),("names","src/metric.rs: from_str")],
 ["GradientBooster::new","set_*","Metric::from_str"])
prop("C31","Training completes on every accepted setting and every data set",
 "For every combination of parameters the constructor accepts (limits of zero or beyond the data, rates of zero or above one, infinite penalties, any missing-value mode, sampler and growth policy) and every data set - without rows, without columns, of one record, constant, all missing, of weights zero, of mixed magnitudes - fit terminates without aborting the process. It either returns a model with `iterations` trees (fewer only through early stopping), each a rooted tree that splits on existing features, which predicts one value per row and can be saved and loaded; or, only if nbins is 0, the target or weights do not have one entry per row, an evaluation set has fewer columns than the training data, or the input is invalid in the sense of C24, an error that leaves the booster as it was. An empty list of evaluation sets means no evaluation data.",
 ["inputs","configurations"],"all pairs of boundary settings of all parameters x degenerate data sets x missing modes x objectives; all data sets of a few records over missing/0/1 with weights zero and one; all size mismatches up to a bound",
 "tests use ordinary data and settings; an abort needs a boundary setting or a degenerate data set",
 [GB,TR,SP,BI,SA,UT],
 [("validation and training loop",GB+": fit, fit_trees"),("sampling",SA),("binning",BI+"; "+UT+": percentiles"),("growth",TR+": fit")],
 ["fit"])
prop("C32","The Python partial dependence table lists the promised values",
 "For every model, data set and feature, given by name or by position, partial_dependence returns one row per value in increasing order: all distinct non-missing values of the feature's column if samples is None, otherwise the given number of evenly spaced quantiles (linear interpolation) between the two percentile bounds, preceded by one row for the missing value exactly if exclude_missing is off; missing entries (NaN or the declared missing value) take no other part. The second column is the model's partial dependence of that feature at that value with the trees in use. A name refers to the column of that name in the data and to the feature of that name in the fit, wherever the column stands. The model is not changed.",
 ["inputs","configurations"],"all small columns over missing and tied values x sample counts x bounds x ways of passing the data and the feature x missing values x numbers of trees in use",
 "one test compares one table",
 [PY,"src/partial_dependence.rs"],
 [("table",PY+": partial_dependence"),("values","src/partial_dependence.rs")],
 ["partial_dependence"])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
