"""Writes properties.jsonl (run by hand after editing)."""
import json, os
CY = "acv_explainers/cyext_acv/cyext_acv.pyx"
NOPA = "acv_explainers/cyext_acv/cyext_acv_nopa.pyx"
CACHE = "acv_explainers/cyext_acv/cyext_acv_cache.pyx"
TREE = "acv_explainers/acv_tree.py"
BASE = "acv_explainers/base_tree.py"
AGB = "acv_explainers/base_agnostree.py"
ACX = "acv_explainers/acv_agnosticX.py"
UT = "acv_explainers/utils.py"
SDP = "acv_explainers/utils_sdp.py"
CR = "acv_explainers/utils_cr.py"
CRP = "acv_explainers/counterfactual_rules.py"
CEXT = "acv_explainers/cext_acv/acv_tree.h"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=hook, **({"state": state} if state else {}))))


p("T01", "Tree SHAP values are the exact Shapley values of the leaf-based game",
  "For every tree ensemble, background data set and explained row, the reported tree Shapley value of each feature equals, for every model output, the exact Shapley value of the cooperative game in which a coalition of known features is worth the sum over leaves of (leaf value) x (share of the background rows agreeing with the leaf on the known features that fall in the leaf), counting only leaves the explained row agrees with on the known features, and the empty coalition is worth the average over the background (a leaf no background row agrees with contributes 0). "
  "When groups of features are declared, the players are the groups and the remaining single features, and every member of a group carries the group's value; hence the values add up, over players, to the worth of all features minus the background average, and features the ensemble never uses get 0. "
  "This holds for the default, the sequential and the cached computation alike, and contributions of the trees add up.",
  ["programs", "inputs", "configurations"],
  "all tree ensembles, background data sets (including ones that leave leaves empty), explained rows (including rows lying exactly on split thresholds), numbers of outputs and partitions of the features into groups",
  "The tests compare the optimised kernels with another implementation by the same author on a handful of random rows of one or two trained models; they never compare with the Shapley definition, rarely use groups and never hit threshold points or empty leaves.",
  [TREE, CY, NOPA, CACHE, BASE],
  [("multi-game leaf decomposition of Shapley values", CY), ("sequential and cached twins", NOPA + ", " + CACHE), ("leaf boxes and per-leaf feature lists", BASE)],
  ["ACVTree.shap_values", "ACVTree.shap_values_nopa", "ACVTree.shap_values_cache", "ACVTree.shap_values_cache_nopa"])

p("T02", "Active Shapley values share the prediction among the active features only",
  "Given a row's active features and null features, the active Shapley values equal the exact Shapley values of the game whose players are the active features (or declared groups of active features) and in which every non-empty coalition is evaluated with the null features known as well, while the empty coalition is worth the background average; null features get 0 and the values add up to the worth of all features minus the background average. "
  "The per-row variant, given one active/null split per row, gives each row exactly what the common-split variant gives for that row's split, in the parallel and in the sequential computation. "
  "The splits derived from reported sufficient explanations list every feature exactly once, the explanation's own features as active and all others as null.",
  ["programs", "inputs", "configurations"],
  "all tree ensembles, backgrounds (including ones that leave leaves empty), rows, choices of active features per row, groups of active features",
  "No stable test exercises the active Shapley values against their definition, mixed splits inside one batch, groups, or backgrounds that miss a leaf.",
  [TREE, CY, NOPA, UT],
  [("shap_values_acv_leaves, shap_values_acv_leaves_adap", CY), ("get_active_null_coalition_list, get_null_coalition", UT)],
  ["ACVTree.shap_values_acv", "ACVTree.shap_values_acv_adap", "ACVTree.shap_values_acv_nopa", "ACVTree.shap_values_acv_adap_nopa", "get_null_coalition", "get_active_null_coalition_list"])

p("T03", "Tree Same Decision Probability follows its definition for every feature subset",
  "For every tree ensemble, background and row, the Same Decision Probability of a set of known features equals (a-d)/(u-d) (0 when u=d), where a, u and d are the ensemble's leaf-based conditional expectations of the predicted class's score (for regression: of the squared distance to the prediction, where each pair of trees is weighted by the product of the two trees' normalised leaf weights) given the known features over all background rows, over the background rows with the same decision, and over those with a different decision, with each tree's leaf weights normalised to one; it is 1 when all features are known and 0 when none is. "
  "For data declared categorical, conditioning is on background rows that coincide with the row on the known features, and the result is kept within [0, 1]. Whether u equals d is not claimed where rounding alone decides it. "
  "Each row and each background row belongs to exactly one leaf of each tree, also when a value equals a split threshold, and the sequential computation gives the same numbers.",
  ["programs", "inputs", "configurations"],
  "all classification and regression ensembles, backgrounds, rows (including threshold points), subsets of features, class counts and decision tolerances",
  "The tests evaluate one subset on random rows of one fitted model and compare with a reference written the same way, so shared mistakes and tie handling stay invisible.",
  [TREE, CY, NOPA],
  [("compute_sdp_clf, compute_sdp_reg and their _cat versions", CY), ("sequential twins", NOPA)],
  ["ACVTree.compute_sdp_clf", "ACVTree.compute_sdp_reg", "ACVTree.compute_sdp_clf_cat", "ACVTree.compute_sdp_reg_cat", "the _nopa versions"])

p("T04", "Conditional expectations of tree ensembles are the leaf-weighted averages",
  "For every tree ensemble, background and row, the conditional expectation given a set of known features equals, for every model output, the sum over all leaves the row agrees with on the known features of the leaf's value times the share of background rows agreeing with the leaf on the known features that fall in the leaf; for data declared categorical the share is taken among background rows that coincide with the row on the known features. "
  "With no known feature it is the average prediction over the background, and with all features known and every leaf populated it is the prediction itself. "
  "Each background row counts for exactly one leaf of each tree, also when a value equals a split threshold, and the sequential computation gives the same numbers.",
  ["programs", "inputs", "configurations"],
  "all tree ensembles, backgrounds, rows (including threshold points), subsets of known features, numbers of outputs",
  "Tests compare a single subset with a reference that has the same structure on random continuous rows, where threshold ties and empty leaves do not occur.",
  [TREE, CY, NOPA],
  [("compute_exp, compute_exp_cat", CY), ("compute_exp_nopa, compute_exp_cat_nopa", NOPA)],
  ["ACVTree.compute_exp", "ACVTree.compute_exp_cat", "ACVTree.compute_exp_nopa", "ACVTree.compute_exp_cat_nopa"])

p("T05", "Tree-based explanations are sufficient and of minimal size",
  "For every row, the explanation reported by the tree-based search has a Same Decision Probability equal to the one reported next to it, and reaching the requested level (the full set counts as 1); no admissible smaller set (down to the requested minimal size) reaches the level, and among admissible sets of its size none has a larger probability. "
  "Admissible sets are those composed of whole declared groups and remaining single features; a row for which no proper set within the size the search is told to stop at reaches the level is reported with all features or left unexplained. Beyond ten features the search covers the ten most used ones, and candidates are cut off at 2^15. "
  "The reported global importance of a feature is the share of rows whose sufficient explanation contains it, and a row's explanation does not depend on the other rows explained with it.",
  ["programs", "inputs", "configurations"],
  "all classification and regression ensembles, backgrounds, batches of rows, probability levels, minimal sizes, groups of features, early-stopping choices",
  "The tests only check that two implementations of the same greedy search agree on a few rows of one model.",
  [TREE, CY, NOPA],
  [("level-wise exhaustive subset search", CY), ("sequential twins", NOPA)],
  ["ACVTree.importance_sdp_clf", "ACVTree.importance_sdp_clf_search", "ACVTree.importance_sdp_reg", "ACVTree.importance_sdp_reg_cat", "the _nopa and parallel-tree versions"])

p("T06", "Swing values are the Shapley values of the sufficiency game",
  "For every classification ensemble, background and row, the reported swing value of each feature (or declared group) is the exact Shapley value of the game in which a coalition is worth 1 when its Same Decision Probability reaches the threshold and 0 otherwise. "
  "The reported gains and losses of a feature are the parts of that value earned by coalitions the feature makes sufficient, respectively insufficient, so they add up to it, and the reported coalition counts are the numbers of those coalitions. Every member of a group carries the group's value. "
  "The slow, the direct and the sequential computation give the same values.",
  ["programs", "inputs", "configurations"],
  "all classification ensembles, backgrounds, rows, thresholds, partitions of the features into groups",
  "No stable test compares swing values with their definition; agreement on random rows of one model cannot settle all games.",
  [TREE, CY, NOPA],
  [("swing_sv_clf_direct", CY), ("swing_sv_clf_direct_nopa", NOPA)],
  ["ACVTree.swing_sv_clf", "ACVTree.swing_sv_clf_slow", "ACVTree.swing_sv_clf_nopa"])

p("T07", "Batching, thread counts and caching never change a result",
  "Every estimator that answers row by row, applied to a batch of rows returns for each row exactly what it returns for that row alone, in whatever order and multiplicity the rows are given. "
  "The requested number of threads, the parallel or sequential flavour, and the use of precomputed caches do not change any reported number, nor does the memory layout in which the arrays are given. "
  "This covers Shapley, normalised Shapley, active Shapley, Same Decision Probability, conditional expectation, swing and sufficient-explanation computations.",
  ["programs", "inputs", "configurations", "schedules"],
  "all ensembles, backgrounds, batches (orders and repetitions of rows), thread counts, cache settings, feature groups",
  "Tests compare flavours on one batch of one model; they never permute or split batches, vary thread counts or reuse a cache with several trees of different width.",
  [TREE, CY, NOPA, CACHE, BASE, ACX],
  [("per-row private accumulators", CY), ("caches built at load time", CACHE)],
  ["ACVTree and ACXplainer estimators"])

p("T08", "Normalised estimators: weights of each tree add up to one, exact Shapley values",
  "The normalised conditional expectation of a row given a set of known features is, tree by tree, the average of the values of the leaves the row can reach, each leaf weighted by the share of the background rows agreeing with it on the known features that lie in it, the weights of a tree rescaled to add up to one (leaves with which no background row agrees have weight 0; a tree none of whose reachable leaves has weight contributes 0). "
  "The normalised Shapley values are the Shapley values of this expectation whenever every leaf of a tree tests the same players (features or declared groups); the Python reference computes them for every tree. Parallel, sequential, cached and uncached variants agree with it.",
  ["programs", "inputs", "configurations"],
  "all ensembles, backgrounds, rows, known features, feature groups, cache settings",
  "No test calls the normalised estimators; a wrong normaliser still gives plausible numbers.",
  [TREE, CY, NOPA, CACHE],
  [("compute_exp_normalized", CY), ("shap_values_leaves_normalized", CY), ("shap_values_leaves_normalized_cache", CACHE)],
  ["ACVTree.compute_exp_normalized", "ACVTree.shap_values_normalized", "ACVTree.shap_values_normalized_cache", "ACVTree.py_shap_values_notoptimized"])

p("M01", "The loaded ensemble is the trained model",
  "For every supported model (scikit-learn, XGBoost, LightGBM, dictionaries and lists of trees; Spark and CatBoost binary classifiers through their documented interfaces) the explainer's own prediction of a row (not offered for Spark models) equals the trained model's output for it (averaged value or class probabilities for bagged trees, raw score for boosted trees; rows given in the model's own input precision), including rows with missing values where the model supports them and rows lying exactly on thresholds; the loaded trees, asked singly, add up to it. "
  "The leaf regions it derives partition the feature space: every row lies in exactly one region per tree, namely that of the leaf the row is routed to, with the features recorded for a leaf being exactly those tested on its path. "
  "This holds for single trees, bagged and boosted ensembles with any number of outputs, trees of different sizes, and single-leaf trees.",
  ["programs", "inputs", "configurations"],
  "all tree structures, ensembles mixing trees of different sizes, numbers of classes, rows (including missing values and threshold points), supported libraries",
  "Tests fit one or two models per library and compare predictions on a random sample; they never enumerate structures, ties, missing values or leaf regions.",
  [BASE, CEXT, "acv_explainers/cext_acv/_cext.cc", AGB],
  [("model parsers and dense arrays", BASE), ("dense tree prediction", CEXT), ("get_partition", UT)],
  ["ACVTree(model, data)", "ACVTree.predict", "leaf regions through conditional expectations"])

p("A01", "Projected-forest estimates equal the average over projected cells",
  "For every forest, labelled background, row and set of known features, each tree selects the background rows that satisfy, on the known features, every split met when descending from the root along the row's side at splits on known features and along both sides at other splits; the Same Decision Probability is the average over trees of the share of selected rows with the row's label (or, for regression, with a value inside the row's interval, bounds included), a tree selecting no row contributing 0. "
  "The conditional expectation and the conditional distribution function are the averages over trees of the mean label and of the share of labels not above the row's value among selected rows. "
  "The estimates returned together with rules are the same numbers. A minimum cell size changes nothing for selections that hold at least that many rows.",
  ["programs", "inputs", "configurations"],
  "all forests (including unbalanced trees), labelled backgrounds, rows (including threshold points), subsets of known features, classification and regression, with no minimum cell size imposed",
  "The single stable rule test checks one fitted forest; no test compares the estimates with their definition, and none covers unbalanced trees or regression intervals.",
  [ACX, CY, AGB],
  [("level-wise projected descent", CY), ("forest arrays", AGB)],
  ["ACXplainer.compute_sdp_rf", "ACXplainer.compute_exp_rf", "ACXplainer.compute_cdf_rf", "ACXplainer.compute_sdp_rule", "ACXplainer.compute_sdp_maxrules"])

p("A02", "Forest-based search returns minimal-size, most probable explanations",
  "For every row, the explanation reported by the forest-based search reaches the requested probability level with exactly the probability reported next to it, unless all features are reported (with probability 1) or nothing examined reaches it, in which case the best set examined is reported; no admissible smaller set reaches the level and no admissible set of the same size has a larger probability. With early stopping, sizes beyond half the features are not examined. "
  "Admissible sets are unions of declared groups and remaining single features, of at least the requested minimal size (beyond ten features, of the ten most important ones). "
  "The reported global importance of a feature is the share of rows whose explanation reaches the level and contains it, and no row's explanation depends on the other rows.",
  ["programs", "inputs", "configurations"],
  "all forests, labelled backgrounds, batches of rows, probability levels, minimal sizes, feature groups, early stopping on or off",
  "No stable test checks minimality or the importance formula.",
  [ACX, CY],
  [("global_sdp_rf", CY), ("importance_sdp_rf", ACX)],
  ["ACXplainer.importance_sdp_rf"])

p("A03", "All minimal sufficient explanations are found, and importances count them",
  "For every row the reported family of sufficient explanations is exactly the set of non-empty admissible feature sets whose Same Decision Probability reaches the level and none of whose proper admissible subsets does, each listed once with its probability. "
  "The local explanatory importance of a feature is the share of a row's sufficient explanations that contain it, averaged over the rows that have at least one. "
  "The reported global frequencies are the shares of all listed explanations containing each feature.",
  ["programs", "inputs", "configurations"],
  "all forests, labelled backgrounds, batches of rows, probability levels, feature groups",
  "The tests of this functionality time out or check only that something is returned; completeness needs every subset of every input.",
  [ACX, CY],
  [("sufficient_expl_rf with superset pruning", CY), ("compute_local_sdp", ACX)],
  ["ACXplainer.sufficient_expl_rf", "ACXplainer.compute_local_sdp"])

p("A04", "Sufficient rules contain their row and only rows that keep the decision",
  "The rule attached to a row and a set of known features is a box over those features that contains the row, leaves every other feature unconstrained, and is the intersection of the projected cells the row falls in across trees; rows sharing that box share the reported probability. "
  "The enlarged rule still contains the row's own box, and when the row itself reaches the level, every background row that lies in it and that the forest relates to the row (its weight is not 0) has a probability reaching the requested level, whatever random choices the enlargement makes; unless the exact enlargement (algo2) is asked for, each of its bounds is the row's own or that of such a background row's box. "
  "The probabilities, boxes and weights reported for background rows are theirs by the same definitions, and the weights add up to the share of trees that select at least one row.",
  ["programs", "inputs", "schedules"],
  "all forests, labelled backgrounds, rows, sets of known features, probability levels, and all outcomes of the random choices made while enlarging a rule",
  "One fitted forest with one random seed is checked for output shape only.",
  [ACX, CY, UT],
  [("single_compute_sdp_rule", CY), ("rules_by_annealing, extend_partition", UT)],
  ["ACXplainer.compute_sdp_rule", "ACXplainer.compute_sdp_maxrules"])

p("A05", "Global rules report their true coverage and accuracy and predict accordingly",
  "After the global rules are fitted, every rule over at least one feature covers exactly the training rows inside its box (bounds included), and its reported coverage, accuracy and output are the share of covered rows, the share of covered rows with the rule's output and the majority label (for regression: mean and spread) among them. "
  "A prediction for a row is the output of the most accurate (regression: least spread) rule covering it among those meeting the coverage and accuracy requirements, rows covered by no such rule being reported as not covered instead of raising an error. "
  "Identical rules over identical features are kept once.",
  ["inputs", "configurations", "histories"],
  "all rule sets, training sets, rows to predict, coverage and accuracy requirements, classification and regression",
  "Not covered by any stable test.",
  [ACX, UT],
  [("compute_rules_metrics, unique_rules_s_star, global_rules_model", UT), ("fit_global_rules, predict_global_rules", ACX)],
  ["ACXplainer.fit_global_rules", "ACXplainer.predict_global_rules", "ACXplainer.predict_proba_global_rules"])

p("A06", "Divergent and conditional decision probabilities follow their definitions",
  "The divergent decision probability of a set of features is, for every forest, background and row, the average over trees of the share of projected-cell rows whose label differs (for regression: falls outside the row's interval); the target decision probability is the same average of the share meeting the target (same label, or inside the given bounds). "
  "When a box on the free features is imposed, splits on free features that the box decides are followed on the decided side only, and in the interventional form all sides are followed on the varied features while the others obey the box. "
  "The row weights returned with them are, per background row, the average over trees of the reciprocal size of the selections containing it, and reproduce the probabilities.",
  ["programs", "inputs", "configurations"],
  "all forests, labelled backgrounds, rows, feature subsets, boxes, intervals, classification and regression, with no minimum cell size imposed",
  "Not covered by any stable test.",
  [ACX, CY],
  [("ddp / cdp kernels and their cond / intv variants", CY)],
  ["ACXplainer.compute_ddp_*", "ACXplainer.compute_cdp_*"])

p("A07", "Divergent explanations are of minimal size and their statistics add up",
  "For every row the divergent (or target) explanation reported by the search is an admissible set of features to change whose decision probability, computed with the remaining features known, equals the reported one and reaches the level; no admissible smaller set does, and none of the same size has a larger probability. "
  "The family of counterfactual explanations lists exactly the inclusion-minimal admissible sets of known features whose divergent probability reaches the level, for every row of the batch including the first, each with its probability. "
  "The reported importances are the shares of rows, respectively listed explanations, containing each feature.",
  ["programs", "inputs", "configurations"],
  "all forests, labelled backgrounds, batches, levels, minimal sizes, feature groups, plain and interventional searches",
  "Not covered by any stable test.",
  [ACX, CY],
  [("global_ddp_rf, global_cdp_rf, global_ddp_intv, global_cdp_intv, sufficient_cxpl_rf", CY)],
  ["ACXplainer.importance_ddp_rf", "ACXplainer.importance_cdp_rf", "ACXplainer.importance_ddp_intv", "ACXplainer.importance_cdp_intv", "ACXplainer.sufficient_cxpl_rf"])

p("A08", "Counterfactual rules are valid boxes around counterfactual regions",
  "Every counterfactual rule generated for a row (or for the region of a sufficient rule) moves only the features declared changeable: the others keep the row's values (the region's bounds). On the changeable features it has the bounds of an enlargement of the box of a background row with the wanted target - one whose probability reaches the level, or one of the best when none does - by bounds of other such boxes, and the enlargement takes in no background row outside those boxes, whatever random choices are made. "
  "Regions are used if their share of background rows with the wanted target reaches the accuracy level (or the single best one is), rules are reported if their probability reaches the level (or the single best one is), each with its own true probability and weights; of rules contained in one another only the containing one, and of identical rules one, is kept. "
  "Sampling inside a rule returns rows that satisfy it, keep the unchanged features and take background values where the rule admits one; the reported accuracy and coverage of the sampling are the true shares. "
  "What show_local_counterfactuals and show_global_counterfactuals print is these rules: every bound that restricts something, the rule's probability and output, under the right row's number.",
  ["inputs", "programs", "schedules"],
  "all forests, backgrounds, rows, targets, levels, classification and regression, and outcomes of the random choices",
  "Not covered by any stable test.",
  [CR, CRP],
  [("rules_by_annealing, remove_in, remove_in_wsdp, return_counterfactuals, return_ge_counterfactuals, simulated_annealing", CR), ("the run_* methods of CR", CRP)],
  ["acv_explainers.utils_cr", "acv_explainers.counterfactual_rules.CR"])

p("G01", "Model-agnostic marginal probabilities and searches follow their definition",
  "For any model given only by its predictions, the marginal Same Decision Probability of a set of features is the share of background rows that, once their values on the set are replaced by the row's, receive the row's own decision (for regression: a prediction within the tolerance). "
  "The search reports for every row a smallest admissible set reaching the level with its probability (largest among its size), the global importances are the shares of rows whose explanation contains each feature, and a set of all features has probability 1. "
  "Neither the model, the explained rows nor the background are modified.",
  ["programs", "inputs", "configurations"],
  "all decision functions over the feature grid, backgrounds, rows, subsets, levels, groups and tolerances",
  "Not covered by any stable test.",
  [TREE, SDP, UT],
  [("msdp, msdp_reg, importance_msdp_*_search", SDP)],
  ["ACVTree.compute_msdp_clf", "ACVTree.compute_msdp_reg", "ACVTree.importance_msdp_clf", "ACVTree.importance_msdp_reg", "ACXplainer.compute_msdp_clf", "ACXplainer.importance_msdp_clf_search"])

p("H01", "Explanations depend only on the current model and arguments, not on history",
  "After any sequence of fitting, refitting, predicting and explaining, an explainer answers a query exactly as a freshly created explainer fitted on the latest training data (and the latest global rules) does, given the same random draws; in particular a refit replaces everything learnt before, and an operation refused with an error changes nothing. "
  "No query changes the arrays passed to it, the background data, or the answer to a later query, and repeating a query repeats the answer; explainers alive at the same time, or copied by pickle or deepcopy, answer each by its own history. "
  "Before fitting, and with arguments that do not fit together (too few sets or targets) or hold missing values, the agnostic explainer's queries are refused with an error rather than answered.",
  ["histories"],
  "all sequences of fit, global-rule fit and query operations up to the explored length, over several training sets",
  "Each test runs one fixed order of operations on one object.",
  [ACX, TREE, AGB],
  [("lazy forest construction on first query", ACX), ("global rules attributes", ACX)],
  ["ACXplainer", "ACVTree"])

p("F01", "The agnostic explainer explains exactly the forest it was asked to fit",
  "Fitting the agnostic explainer grows the random forest that its constructor parameters, training data, targets and sample weights describe: its predictions and class probabilities are those of an independently constructed forest with the same parameters and random draws, for every row including rows on and next to thresholds. "
  "Every explanation (decision probabilities, expectations, rules) computed without further arguments is that of this forest's own cells, targets and default prediction intervals.",
  ["inputs", "configurations"],
  "all training sets, targets (class names, real targets), sample weights, forest parameters, and rows",
  "One data set and one set of parameters, and the tests only compare the explainer with itself.",
  [ACX, AGB],
  [("construction, fit and conversion of the forest", ACX + ", " + AGB)],
  ["ACXplainer.fit", "ACXplainer.predict", "ACXplainer.predict_proba", "ACXplainer.compute_sdp_rf", "ACXplainer.compute_exp_rf", "ACXplainer.compute_sdp_rule"])

p("R01", "The forest estimators of the tree explainer follow their definition",
  "For a forest loaded in the tree explainer, the estimated Same Decision Probability, expectation, distribution function and quantiles of a row given known features are those of the background rows that share, tree by tree, the row's side of every split on a known feature, trees averaged; in regression a background target counts as the same decision if its squared deviation from the row's target is at most the level of variation (or if it lies in the given interval). "
  "The explanation searches over these probabilities report minimal sets with their true, largest probability, list exactly the inclusion-minimal sufficient sets, and report importances that are the shares of explanations containing each feature. "
  "This holds with default parameters too, and for the estimators written in Python.",
  ["programs", "inputs", "configurations"],
  "all forests, labelled backgrounds, rows, sets of known features, levels of variation, groups, levels and minimal sizes",
  "Not covered by any stable test.",
  [TREE, CY, "acv_explainers/utils_exp.py"],
  [("projected cell traversal", CY), ("Python estimators", "acv_explainers/utils_exp.py")],
  ["ACVTree.compute_sdp_rf", "ACVTree.compute_exp_rf", "ACVTree.compute_cdf_rf", "ACVTree.compute_quantile_rf", "ACVTree.importance_sdp_rf", "ACVTree.sufficient_expl_rf"])

p("W01", "The web application shows the explainer's own answers",
  "Compiling the web application saves the explainer and the data so that, loaded again, they answer and read exactly as the originals. Whatever sequence of choices the user makes, the page on sufficient explanations offers exactly the observations of the sample and shows, for the chosen observation and level, exactly its sufficient explanations with their probabilities, as local importance of a feature the share of these explanations containing it (in decreasing order, at most seven features), the observation's values with exactly the features of the chosen explanation highlighted and its probability, and the bounds of that explanation's rule; on demand an enlarged rule that contains it, with its true coverage and accuracy on the training rows. "
  "The Shapley page shows for the chosen observation (among the first hundred) a waterfall whose arrows are the Shapley values of the explained forest (leaf values averaged over the training rows; the second class for classifiers) in decreasing magnitude, labelled with the features and their values, leading from the mean prediction over the test rows to that mean plus the sum of the values; features beyond the limit are summed up in one arrow.",
  ["programs", "inputs", "configurations", "histories"],
  "all fitted explainers, training and test data (arrays, frames, series, any number of test rows), all sequences of choices of observation, sample size, level, explanation, maximal rule and page",
  "No test touches the application; its pages need a running browser session.",
  ["acv_app/app.py", "acv_app/sdp_app.py", "acv_app/sv_app.py", "acv_app/plots.py", AGB],
  [("write_pg", "acv_app/sdp_app.py"), ("write_pg", "acv_app/sv_app.py"), ("waterfall", "acv_app/plots.py")],
  ["acv_app.compile_ACXplainers", "acv_app.compile_acv", "acv_app.run_webapp"])

p("P01", "The estimators written in Python follow the same definitions",
  "The Shapley values, active Shapley values, conditional expectations and Same Decision Probabilities computed by the explainer's Python estimators, which serve as the reference of the native ones, are those of the definitions: the leaf-based game and its active variant with groups of features as players, the leaf-based and the exact-match expectation, and the ratio of expected leaf values among all, same-decision and other background rows (in regression: of second moments over pairs of leaves), clipped to [0, 1]. "
  "A row on a split threshold belongs to the lower side only, and a leaf without background rows contributes nothing. "
  "Knowing all features gives probability 1, knowing none 0.",
  ["programs", "inputs", "configurations"],
  "all tree ensembles, backgrounds (including ones that leave leaves empty), rows (including rows on split thresholds), sets of known features and groups of features",
  "They are only compared with the native estimators on a few random rows of one model.",
  [TREE, "acv_explainers/py_acv.py", "acv_explainers/utils_exp.py", SDP],
  [("multi-game decomposition in Python", "acv_explainers/py_acv.py")],
  ["ACVTree.py_shap_values", "ACVTree.py_shap_valuesv2", "ACVTree.py_shap_values_acv", "ACVTree.py_compute_exp", "ACVTree.py_compute_sdp_clf", "ACVTree.py_compute_sdp_reg"])

p("S01", "Parallel estimators give the sequential result under every thread schedule",
  "For every assignment of loop iterations to threads and every order in which threads run them, each parallel estimator returns the numbers its sequential execution returns. "
  "No two iterations that may run at the same time access the same memory with at least one write. "
  "This holds for all Shapley, Same Decision Probability, expectation, rule and search kernels.",
  ["schedules"],
  "all schedules of the parallel loops (iteration-to-thread assignments, iteration orders, preemptions between memory accesses of different iterations) on a set of small inputs that reaches every kernel",
  "The tests run each kernel under whichever schedule the machine happens to choose.",
  [CY, CACHE],
  [("prange with per-iteration accumulators", CY)],
  ["all parallel kernels of the native modules"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
