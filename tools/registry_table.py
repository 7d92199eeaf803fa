NOT = {}
STATE = "one state = one (ensemble, labelled background, row, feature set, parameters); the reference model computes the value of every state of the bounded space and the implementation is run on each of them"

r("T01", "t_shap", STATE + "; a state is non-trivial when the ensemble has at least one split",
  "all trees of depth<=2 over 3 features, ensembles of 2-4 trees of mixed widths, caterpillars of 4 features, 1-2 outputs, all partitions into groups, 4-8 backgrounds, grid rows incl. ties",
  "as quick with every ensemble pair, all depth-3 trees without repetition, more backgrounds",
  "Exhaustive over the stated bounded space: every reported Shapley value is compared with the definition (sum over all coalitions). Trusts the reference in t_shap.py and PyPy.")
r("T02", "t_shap", STATE, "as T01, with every split into active and null features, mixed splits within a batch, groups",
  "as quick with every ensemble pair and more backgrounds",
  "Exhaustive over the stated bounded space against the definition of the restricted game. Trusts the reference in t_shap.py.")
r("T03", "t_sdp", STATE, "trees of depth<=2 over 3 features, ensembles up to 4 trees, caterpillars, all subsets, hard/soft/3-class leaves, 4-8 backgrounds, grid rows incl. ties",
  "every ensemble pair, every hard labelling of small trees, depth 3",
  "Exhaustive over the stated bounded space against the definition. u=d decided by rounding is not claimed (counted as undecided).")
r("T04", "t_sdp", STATE, "as T03, 1-3 outputs", "as T03", "Exhaustive over the stated bounded space against the definition.")
r("A01", "t_forest", STATE, "forests of up to 3 trees of depth<=2 (and unbalanced ones) over 3 features, labelled backgrounds, all subsets, classification and regression intervals",
  "more forests, depth 3, more backgrounds", "Exhaustive over the stated bounded space against the definition of projected cells.")
r("A06", "t_forest", STATE, "as A01, for divergent, conditional and interventional probabilities, with rules variants", "as A01", "Exhaustive over the stated bounded space against the definitions.")
r("A02", "t_forest", STATE, "as A01; levels 0.5, 0.8, 0.999, minimal sizes, groups, stop on/off; batches of all rows", "as A01",
  "Every admissible set of every row is evaluated by the reference; minimality, optimality and importances are decided. Levels within 1e-9 of a non-exact probability are skipped.")
r("A03", "t_forest", STATE, "as A02", "as A02", "As A02: the family of minimal sufficient sets of every state is enumerated by the reference and must be reported exactly.")
r("A07", "t_forest", STATE, "as A02, for divergent and target searches", "as A02", "As A02.")
r("T05", "t_tsearch", STATE, "trees of depth<=2 over 3 features, pairs, triples, caterpillars of 4; all groupings listed; levels 0.5, 0.8, 0.999; minimal 0-2; stop on/off; 11-12 feature searches; classification, regression, categorical regression",
  "every tree and pair, depth-3 trees", "Every admissible set of every row is evaluated by the reference; minimality, optimality, reported probability and importances are decided. Rows for which rounding decides are skipped and counted.")
r("T06", "t_swing", STATE, "trees of depth<=2 over 3 features, all pairs of 8 part trees, a triple, caterpillars of 4 features, groups, thresholds 0.5/0.75/0.9, grid rows incl. ties, 3-5 backgrounds",
  "more labellings, depth-3 trees, every caterpillar", "Every coalition of every row is evaluated by the reference; values, gains, losses and coalition counts are compared for the direct, sequential and slow computation.")
r("M01", "t_models", "one state = one (trained or hand-made model, row, incl. rows with missing values); the implementation loads each model and is run on every row",
  "every tree of depth<=3 on 1 feature and depth<=2 on 2 features (thresholds -0.5, 0.1, 0.5) and a quarter of depth<=2 on 3, ensembles of 2-6 trees, in 8 model families (scikit-learn trees/forests/boosting/histogram boosting/isolation, XGBoost, LightGBM, dictionaries), all default directions, rows on, just above and below thresholds and missing",
  "all of them, all labellings of a training set for XGBoost with pruning",
  "Every model of the bounded space is loaded by the implementation and compared with the library's own prediction and leaf on every row of a grid. Trusts the libraries installed.")
r("G01", "t_msdp", "one state = one (model given by its prediction table, background, row, feature set, parameters)",
  "all 2- and 3-class prediction tables on the 2x2 grid, 2-class tables on 2x2x2 (up to symmetry), samples by stride of 3x3, 3-class 2x2x2 and 2x2x2x2 tables, 4 backgrounds, all subsets, groups, levels, minimal sizes, stop on/off, numeric types",
  "all tables of the 3x3 and 2x2x2 grids, denser strides of the others",
  "Every admissible set of every row is evaluated by the reference; probabilities, minimality, optimality and importances are decided; arrays are compared before and after.")
r("A05", "t_global", "one state = one (labelled data set, rule list, requirement, row)",
  "1 and 2 features, all labellings of 3-5 point data sets (0/1, three labels, -1/1, real values), all lists of 1-4 boxes over a small grid by stride, incl. near-identical and uncovered boxes, every combination of required coverage and accuracy taken from the rules, rows on, in and outside the boxes; rules computed from forests",
  "all lists of two boxes, all labellings",
  "Coverage, accuracy, spread, output and mean label of every rule and the answer of every row are compared with the definition.")
r("T07", "t_batch", "one state = one (ensemble, background, groups, operation, row within a batch, thread count)",
  "6 mixed-width tree ensembles and a quarter of the projected forests, every operation of both explainers, every batch of 1-3 rows (all orders and repetitions) over 3 rows, thread counts 1/2/5/10, parallel, sequential and cached flavours",
  "all combinations, batches of up to 4 rows, thread counts 1-16, all projected forests",
  "The answer of every row in every batch is compared with its answer alone and with the other flavours. Thread schedules themselves are decided by S01; here the machine's schedules are taken.", omp=4, workers=6)
r("T08", "t_norm", "one state = one (ensemble, background, row, known features) or (ensemble, background, groups, row)",
  "every tree of depth <=2 over 3 features, one- and two-feature families, oblivious and mixed pairs, 4-feature trees; 5-30 backgrounds; every set of known features; every grouping for which all leaves of a tree test the same players",
  "all backgrounds of up to 3 rows, all pairs",
  "Conditional expectations are compared leaf by leaf (one-hot values) with the rescaled weights; Shapley values with the sum over all coalitions of that game.")
r("H01", "t_hist", "one state = one position in a history: (latest fit, latest rule fit, operations already done, operation)",
  "all histories of 3 operations ending in a query over 3 fits (different widths and labels), 2 rule fits, about 22 queries and 3 refused operations, and of 4 operations starting with two different fits; all pairs of 31 tree queries on 6 explainers",
  "all histories of 4 operations, histories of 5 starting with two fits, all triples of tree queries",
  "Every answer is compared with a new object's, bit for bit; arguments and earlier results are compared after each history.")
r("A04", "t_rules", "one state = one (forest, background, row, known features) or one run of the enlargement under one sequence of random choices",
  "forests of up to 4 trees of depth<=3 over 2-3 features, all rows of a grid incl. thresholds, all non-empty sets of known features, 2-3 backgrounds; for rows with something to enlarge: all choice sequences of a one-step annealing (up to 700 each) and all sequences within one deviation of three policies for longer ones",
  "all forests, up to 6000 sequences each, two deviations",
  "Rules, probabilities and weights are compared with the definition; every explored outcome of the random enlargement is checked. Runs cut at the bound are counted.")
r("A08", "t_cr", "one state = one (forest, background, row, target, level) or one list of rules; one schedule = one sequence of random choices of the enlargement or of the sampling",
  "forests over 1-3 features with thresholds that two decimals do not hold, backgrounds of 16-32 rows, every third row of a grid, 3 pairs of levels, classification targets and regression intervals; for 5 rows each: all choice sequences of a one-step enlargement within the bound (60) and one deviation of longer ones; whole local and regional runs; all lists of 1-3 boxes; sampling from 49 rules, 3 rows, 5 sets",
  "all rows, up to 400 sequences each, more forests",
  "Regions, rules, probabilities, weights, accuracies and sampled rows are compared with the definition for every explored sequence of choices. Runs cut at the bound are counted.")
r("S01", "t_sched", "one state = one iteration handed to one thread; one transition = one call of an operation under one schedule",
  "all operations with parallel loops over 8 small tree ensembles and 12 forests, 3 rows; every order of 3 iterations and every assignment to 2 or 3 threads (loops of 2, 3 and 4 iterations; five orders for longer loops); every memory access recorded",
  "more ensembles, batches of 2-4 rows, every order of 4 iterations and every assignment to 2, 3 or 4 threads",
  "Real code under a controlled scheduler: results equal the sequential ones and no two threads access the same memory unordered, so that every interleaving of the explored orders gives the same result.", build=dict(variant="sched"))
r("F01", "t_fit", "one state = one (training set, parameters, row, known features)",
  "training sets on grids of 1-4 features with 4-32 rows, all binary labellings of the 4-point grids and strides of the others, 2-3 classes and real targets, 9 sets of forest parameters, sample weights (none, integer, real), values beyond single precision; rows on and one unit beside every threshold",
  "all labellings, every set of parameters",
  "Every training set is fitted by the implementation and by an independently constructed forest with the same parameters; predictions, leaves, rules and probabilities are compared. Trusts skranger for growing the forest.")

r("R01", "t_treerf", "one state = one (forest, background, row, known features) or one (forest, background, labels, row, parameters) of a search",
  "forests of up to 4 trees of depth<=3 over 1-3 features, caterpillars of 4, 11-feature forests, grown scikit-learn forests; rows on and beside thresholds, all sets of known features, 3-5 backgrounds, levels of variation 0, 0.25, 1, 4 and the default, groups, levels, minimal sizes, stop on/off",
  "all forests, more labellings and backgrounds", "Estimates, quantiles, explanations and importances of the tree explainer are compared with the definition on projected cells.")

r("P01", "t_pyref", "one state = one (ensemble, background, row, known features or groups)",
  "a third of the trees of depth<=2 over 3 features, trees over 1 and 2, pairs and a triple, caterpillars of 4; rows on and beside thresholds, 3-4 backgrounds incl. ones that leave leaves empty, all sets of known features, active sets and several groupings",
  "every tree and pair, more backgrounds", "The estimators written in Python are run on every row and compared with the definitions.")

r("W01", "t_app", "one state = one page shown after one sequence of choices (data, observation, level, explanation, boxes ticked, page)",
  "7 data sets (2-9 features, classes and real targets, values that decimals do not hold), test sets of 1, 3, 7 and all rows, given as arrays, frames or series; every observation, 3 levels, every explanation, with and without the maximal rule; strides of all sequences of 3 interactions; waterfalls of all vectors over 4 values for up to 3 features and longer ones with grouping",
  "all sequences of 3 interactions", "Streamlit and pandas' Styler (not installed) are replaced by stand-ins that record what is shown; everything shown is compared with the answers of the explainer before it was saved and with the definition of the Shapley values.")
