"""Writes properties.jsonl (kept as a script because one-line JSON is hard to edit)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "Leaves always partition covariate space",
  "After any sequence of grow and prune changes, made by a caller or accepted by either tree sampler, every training row and every finite covariate row belongs to exactly one leaf of a tree. A node holds exactly the rows that meet all split rules above it (at or below the split value goes left, above it goes right), and a training row asked about as new data is in the same nodes as during training. Splits made by the samplers never leave a side without training rows.",
  ["histories", "inputs"], "every covariate matrix of finite values (ties, constant columns, adjacent floats, any scale), every history of grows, prunes and sampler steps, every finite query row",
  "tests split hand written columns of up to six values once or twice; the claim is over all histories and all query points",
  ["bartpy/data.py", "bartpy/split.py", "bartpy/splitcondition.py", "bartpy/node.py", "bartpy/tree.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py"],
  [("row masks narrowed by each split", "bartpy/data.py CovariateMatrix.update_mask"), ("combined interval per variable", "bartpy/splitcondition.py CombinedCondition"), ("choice of non-degenerate split values", "bartpy/data.py random_splittable_value")],
  ["Split.condition()", "Split.condition(X)", "Tree.leaf_nodes"],
  [("mask", "rows not in the node", "bartpy/data.py"), ("combined condition", "interval of every variable", "bartpy/splitcondition.py")])

p("C02", "What a node reports about its rows equals recomputation",
  "At any point in any history of splits, prunes and target updates, and whatever was asked before, what a node reports about its rows (row count, target sum, column values, largest value of a column, which columns can still be split, whether a column has duplicates, how common a value is) equals what is computed directly from those rows. Applying a split rule gives a result that depends only on the rule and the data it is applied to, not on where the rule was used before.",
  ["histories", "inputs"], "every data set, every history of split / prune / target update, every order in which the cached figures are asked for",
  "tests check a fresh node or one update; stale or wrongly inherited caches only show for particular orders of queries and mutations",
  ["bartpy/data.py", "bartpy/node.py", "bartpy/splitcondition.py", "bartpy/tree.py"],
  [("caches carried from parent to child", "bartpy/data.py Data.__add__"), ("row count and sum of the right child by subtraction", "bartpy/node.py split_node"), ("invalidating on target update", "bartpy/data.py Target.update_y")],
  ["node.data.X", "node.data.y.summed_y()"],
  [("summed y cache", "sum of the target over the node", "bartpy/data.py Target"), ("splittable / unique column caches", "per column flags", "bartpy/data.py CovariateMatrix")])

p("C03", "Tree bookkeeping stays one consistent binary tree",
  "After any sequence of mutations the tree's list of nodes, its parent-child links, depths, and its lists of leaf, decision, splittable and prunable nodes all describe one and the same binary tree, and pruning what was just grown restores the earlier tree. Growing a decision node, pruning a leaf, or pruning a node whose children are not both leaves is rejected with a TypeError and changes nothing. Proposing a mutation or judging it without applying it leaves the tree and its predictions as they were.",
  ["histories", "inputs"], "every history of valid and invalid mutations and unapplied proposals on every data set",
  "tests apply one grow or prune to a fixed five node tree whose nodes share the same rows",
  ["bartpy/tree.py", "bartpy/node.py", "bartpy/mutation.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py"],
  [("relinking of parents", "bartpy/tree.py mutate"), ("type checks of mutations", "bartpy/mutation.py"), ("depth bookkeeping", "bartpy/node.py split_node")],
  ["Tree.nodes", "Tree.leaf_nodes", "Tree.decision_nodes", "Tree.splittable_leaf_nodes", "Tree.prunable_decision_nodes", "node.left_child", "node.depth"])

p("C04", "Mutations are proposed with the documented probabilities",
  "When both are possible a grow or a prune is proposed with the configured probabilities, otherwise the possible one is proposed, and a tree that allows neither is left alone. A grow picks uniformly among the leaves that can be split, then uniformly among the variables not constant in that leaf, then a value held by a row of the leaf other than the largest, in proportion to the rows holding it. A prune picks uniformly among the nodes with two leaf children.",
  ["inputs", "configurations"], "every tree and data set, every pair of grow/prune probabilities",
  "the tests check the types of single proposals; frequencies conditional on the tree are out of their reach",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/data.py", "bartpy/samplers/scalar.py"],
  [("choice of method, node, variable, value", "bartpy/samplers/unconstrainedtree/proposer.py"), ("random_splittable_value", "bartpy/data.py"), ("cached draws of the method", "bartpy/samplers/scalar.py DiscreteSampler")],
  ["UniformMutationProposer.propose", "get_tree_sampler(...).step"])

p("C05", "The judged ratio is the exact Metropolis-Hastings ratio of BART",
  "For every tree, data set and setting, the log ratio by which the default sampler judges a grow or prune equals the log of posterior(mutated tree) times the probability of proposing the way back over posterior(current tree) times the probability of proposing the change. The posterior is that of BART: a node at depth d splits with probability alpha (1 + d)^-beta, the rule is drawn as proposed (a rule at a value between those of the node's rows, as in initialized trees, counts as the rule at the next lower one of them), leaf values have a Normal(0, sigma_mu^2) prior that is integrated out, and the tree's target has Normal noise of the current sigma. The ratios of a change and of its undoing cancel exactly. The oblivious sampler judges each of its simultaneous changes by the same likelihood ratio, and its ratios of a change and of its undoing cancel too.",
  ["inputs", "configurations"], "every tree reachable by mutations, data with ties and unsplittable leaves, all alpha, beta, k, number of trees, sigma and proposal probabilities",
  "no test evaluates any ratio",
  ["bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/treemutation.py", "bartpy/model.py", "bartpy/data.py"],
  [("likelihood, prior and transition parts", "bartpy/samplers/unconstrainedtree/likihoodratio.py"), ("prior scale of leaf values", "bartpy/model.py sigma_m")],
  ["log_probability_ratio(model, tree, mutation)"])

p("C06", "Proposals are accepted with probability min(1, ratio)",
  "Whatever ratio a proposal is judged to have, a tree sampler accepts it with probability min(1, ratio), i.e. exactly when a uniform(0, 1) draw is below the ratio. An accepted mutation is applied to the tree in full and returned; a rejected one leaves the tree, its links and its predictions untouched and None is returned.",
  ["inputs", "schedules"], "every log ratio from -inf to inf, every draw, both tree samplers, every tree",
  "no test runs a sampler",
  ["bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/samplers/scalar.py"],
  [("comparison of draw and ratio", "UnconstrainedTreeMutationSampler.sample"), ("applying the mutation", "UnconstrainedTreeMutationSampler.step")],
  ["sampler.step(model, tree)"])

p("C07", "Leaf values are drawn from their exact conditional posterior",
  "Given the rest of the model, a leaf value is drawn from the Normal distribution whose mean and variance are those of the conjugate posterior: a Normal(0, sigma_mu^2) prior with sigma_mu = 0.5 / (k sqrt(number of trees)) combined with the current targets of the leaf's rows under the current noise sigma. The drawn value becomes the leaf's prediction, and successive draws are independent.",
  ["inputs", "configurations"], "every leaf size and target, k, number of trees and sigma",
  "no test draws a leaf value",
  ["bartpy/samplers/leafnode.py", "bartpy/model.py", "bartpy/samplers/scalar.py"],
  [("posterior mean and variance", "bartpy/samplers/leafnode.py LeafNodeSampler.sample"), ("sigma_m", "bartpy/model.py")],
  ["LeafNodeSampler.step(model, node)", "node.current_value"])

p("C08", "Sigma is drawn from its exact conditional posterior",
  "Given the trees, the noise variance is drawn from the inverse gamma distribution with shape a + n/2 and scale b + half the sum of squared residuals of the normalized target, and the drawn standard deviation becomes the model's sigma. Reported in original units it is the drawn value times the range of the training target.",
  ["inputs", "configurations"], "every residual vector, prior shape and scale, number of rows and target range",
  "no test draws sigma",
  ["bartpy/samplers/sigma.py", "bartpy/sigma.py", "bartpy/model.py"],
  [("posterior shape and scale", "bartpy/samplers/sigma.py"), ("rescaling", "bartpy/sigma.py current_unnormalized_value")],
  ["SigmaSampler.step(model, sigma)", "Sigma.current_value", "Sigma.current_unnormalized_value"])

p("C09", "A sweep updates every tree once against the others' residuals",
  "In every sampling sweep each tree is mutated exactly once, and at that moment its target is the data minus the current predictions of all the other trees; then each leaf of the possibly mutated tree is redrawn exactly once against that same target; sigma is redrawn exactly once after all trees, against the residuals of the full current model. This stays true over any number of sweeps, whatever mutations are accepted and whichever values are drawn.",
  ["histories", "configurations"], "every number of trees and sweeps, every history of accepted mutations and drawn values",
  "no test runs a sweep; a residual that is stale by one update looks plausible",
  ["bartpy/samplers/schedule.py", "bartpy/samplers/modelsampler.py", "bartpy/model.py", "bartpy/tree.py"],
  [("order of steps", "bartpy/samplers/schedule.py"), ("running prediction", "bartpy/model.py refreshed_trees"), ("prediction cache of a tree", "bartpy/tree.py predict")],
  ["SampleSchedule.steps", "ModelSampler.step", "Model.residuals"],
  [("_prediction", "running sum of tree predictions", "bartpy/model.py"), ("cache_up_to_date", "whether a tree's prediction is current", "bartpy/tree.py")])

p("C10", "Sampling converges to the exact BART posterior",
  "Sampling sweeps leave the posterior of the sum-of-trees model under the configured priors unchanged: a chain whose trees, leaf values and sigma are distributed by the posterior stays distributed by it after any number of sweeps, for one tree and for several, for small and large data. On problems small enough to compute the posterior exactly, the averages over the samples of a fit (of the fitted function, of sigma, and of the number of splits) agree with it.",
  ["inputs", "configurations", "histories"], "every data set, prior setting and state of the chain",
  "no test samples; the stationary distribution is a property of the whole sampler, not of any one call",
  ["bartpy/samplers/modelsampler.py", "bartpy/samplers/schedule.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/sigma.py", "bartpy/model.py"],
  [("the whole Gibbs sweep", "bartpy/samplers/modelsampler.py")],
  ["ModelSampler.step", "ModelSampler.samples", "SklearnModel.fit"])

p("C11", "Predictions are the mean over samples of the sum of trees",
  "A prediction for a row is the average over the retained samples of the sum over that sample's trees of the value of the leaf the row falls into, mapped back to the units of the training target. In-sample and out-of-sample predictions for the training rows agree, stored prediction samples match the stored models, and a row's prediction does not depend on which other rows are predicted with it, on row order, or on whether an array or a DataFrame is passed.",
  ["inputs", "configurations"], "every training set, parameter setting and query matrix of finite values",
  "no test fits or predicts with the estimator",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/tree.py", "bartpy/splitcondition.py", "bartpy/data.py"],
  [("averaging and unnormalizing", "bartpy/sklearnmodel.py predict"), ("sum of trees", "bartpy/model.py predict"), ("leaf lookup", "bartpy/tree.py")],
  ["SklearnModel.predict", "SklearnModel.fit_predict", "SklearnModel.prediction_samples", "Model.predict", "Tree.predict"])

p("C12", "Target scaling is invertible and fits are affine equivariant",
  "Normalizing maps the target linearly onto [-0.5, 0.5] and unnormalizing inverts it for every value. Fitting on a target moved by a constant and multiplied by a positive constant, with the same random state, gives predictions and noise estimates moved and multiplied in the same way, whatever numeric type the target has, and whether it is an array or a Series.",
  ["inputs"], "every finite target vector including constant ones, integer types, large offsets and tiny ranges",
  "one test normalizes 1..5",
  ["bartpy/data.py", "bartpy/sklearnmodel.py", "bartpy/sigma.py"],
  [("normalize_y / unnormalize_y", "bartpy/data.py Target"), ("use in prediction", "bartpy/sklearnmodel.py")],
  ["make_bartpy_data(...).y", "SklearnModel.predict", "Sigma.current_unnormalized_value"])

p("C13", "Only the order of covariate values matters",
  "With the same random state, replacing a covariate by any strictly increasing transformation of it leaves the fitted values unchanged, and so does adding covariates that are constant. A covariate that is constant on the training rows is never used in a split.",
  ["inputs"], "every covariate matrix and strictly increasing transformation of each column",
  "a relation between two whole fits, which no test makes",
  ["bartpy/data.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/splitcondition.py"],
  [("splits at observed values", "bartpy/data.py random_splittable_value"), ("exclusion of constant columns", "bartpy/data.py splittable_variables")],
  ["SklearnModel.fit / predict", "model_samples"])

p("C14", "Exactly the requested share of post burn-in samples is kept",
  "Each chain runs the burn-in sweeps and then the sampling sweeps, and keeps an evenly spaced share `thin` of the sampling sweeps and none of the burn-in. Kept models, acceptance rates and in-sample predictions of a sweep stay aligned, what was not asked to be stored is not, chains are joined in order, and the acceptance rate of a sweep is the share of trees whose mutation was accepted in it.",
  ["configurations", "histories"], "every number of samples, burn-in, chains, trees and every thinning share in (0, 1]",
  "no test runs a chain",
  ["bartpy/samplers/modelsampler.py", "bartpy/sklearnmodel.py", "bartpy/trace.py"],
  [("thinning", "bartpy/samplers/modelsampler.py samples"), ("combining chains", "bartpy/sklearnmodel.py _combine_chains")],
  ["ModelSampler.samples", "SklearnModel.model_samples", "SklearnModel.acceptance_trace", "SklearnModel.prediction_samples"])

p("C15", "Stored samples are detached, complete snapshots",
  "A stored sample keeps the structure, split rules, leaf values, depths, sigma and prior parameters the model had when it was stored, forever: further sampling, refitting or pickling does not change it, and its parent-child links stay within the sample. Changing a stored sample does not affect the model still being sampled.",
  ["histories"], "every point of every sampling history at which a sample is taken, and everything done afterwards",
  "aliasing only shows when sampling continues after the copy; no test copies a tree",
  ["bartpy/tree.py", "bartpy/node.py", "bartpy/model.py", "bartpy/trace.py"],
  [("deep_copy_tree / deep_copy_node / deep_copy_model", "bartpy/tree.py, bartpy/node.py, bartpy/model.py")],
  ["SklearnModel.model_samples", "deep_copy_model", "Tree.nodes of a stored model"])

p("C16", "Chains are independent however they are run",
  "The chains of a fit, and the models of a batch run, are sampled from their own trees, sigma and random draws, whether they run one after another, in threads or in other processes, and whatever was sampled before in the same process. No two chains share state or replay each other's draws.",
  ["schedules", "histories", "configurations"], "every number of chains, way of running them, interleaving of their set-up, and earlier use of the process",
  "needs several chains and earlier draws in the process; no test runs even one chain",
  ["bartpy/sklearnmodel.py", "bartpy/samplers/scalar.py", "bartpy/runner.py", "bartpy/model.py"],
  [("own model per chain", "bartpy/sklearnmodel.py run_chain / _construct_model"), ("caches of random draws", "bartpy/samplers/scalar.py")],
  ["SklearnModel.fit with n_chains, n_jobs", "SklearnModel.extract"])

p("C17", "The estimator behaves as sklearn tools expect",
  "Parameters set in the constructor or through set_params are the ones used by the next fit, and clone gives an unfitted estimator with the same parameters that fits identically from the same random state. Fitting never changes the caller's covariates or target, later changes to those arrays do not change the fitted model, refitting forgets earlier fits, and fitting one estimator does not change another. Cross validation, grid search and pipelines run on it.",
  ["inputs", "configurations", "histories"], "every parameter, every history of fit / refit / clone / set_params on every data set",
  "no test constructs the estimator",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/data.py"],
  [("constructor and set_params", "bartpy/sklearnmodel.py"), ("copies of the data", "bartpy/sklearnmodel.py _convert_covariates_to_data, bartpy/model.py")],
  ["SklearnModel.get_params / set_params / fit / predict", "sklearn.base.clone"])

p("C18", "Every finite training set can be fitted and predicted",
  "Fitting succeeds and all predictions are finite for every training set of finite numbers with at least one row and one column, including single rows, constant covariates, constant targets, duplicated rows and mixed column types, and for all grow and prune probabilities strictly between 0 and 1 that sum to one. An empty covariate matrix, and in-sample prediction without stored predictions, are rejected with a ValueError.",
  ["inputs", "configurations"], "every finite data set shape and content, both tree samplers, all valid parameters",
  "no test fits anything",
  ["bartpy/sklearnmodel.py", "bartpy/data.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py"],
  [("proposing when nothing can be changed", "proposer.py propose"), ("normalizing", "bartpy/data.py")],
  ["SklearnModel.fit / predict"])

p("C19", "Batch runs return for each data set its own model",
  "Running a model specification on a list of data sets returns, in order, one model per data set holding exactly the samples of the chains run on that data set, all of them, with predictions in the units of that data set's target. The specification passed in, and the data sets, are left unchanged, and so is a template when a model is built from extracted chains.",
  ["inputs", "configurations"], "every list of data sets (different sizes, widths and scales), number of chains and jobs",
  "no test uses the runner",
  ["bartpy/runner.py", "bartpy/sklearnmodel.py"],
  [("grouping of chains", "bartpy/runner.py convert_chains_models"), ("from_extract", "bartpy/sklearnmodel.py")],
  ["run_models", "SklearnModel.from_extract"])

p("C20", "Split proportions and feature selection report actual use",
  "The reported split proportion of a covariate is the share of all splits in the stored samples made on it, so proportions over all covariates sum to one when there is any split. A covariate is kept exactly when its proportion exceeds its threshold: a fixed one, the given quantile of its own null distribution (local), or the given quantile of the per-run maxima over covariates (global); support masks have one entry per covariate, in column order.",
  ["inputs", "configurations"], "every fitted model, null distribution, quantile in [0, 1] and number of covariates, including never used ones",
  "no test covers the diagnostics or selectors (one module could not even be imported)",
  ["bartpy/diagnostics/features.py", "bartpy/features/featureselection.py"],
  [("counting splits", "feature_split_proportions"), ("thresholds", "local_thresholds / global_thresholds / is_kept"), ("selectors", "bartpy/features/featureselection.py")],
  ["feature_split_proportions", "local_thresholds", "global_thresholds", "kept_features", "SelectSplitProportionThreshold", "SelectNullDistributionThreshold"])

p("C21", "Feature importance scores are out of sample",
  "The error of the original model and of every permuted model is measured only on rows the scored model was not trained on, against those rows' own targets, with every row held out once per round of folds. Permuted runs differ from the original data only by a permutation of the assessed column, there is one score per fold and permutation, and the caller's data and model are unchanged.",
  ["inputs", "configurations"], "every data set, column, number of folds and permutations, array or DataFrame",
  "no test covers it; scoring the wrong rows gives plausible numbers",
  ["bartpy/features/featureimportance.py", "bartpy/runner.py"],
  [("fold and permutation bookkeeping", "bartpy/features/featureimportance.py")],
  ["original_model_rmse", "null_rmse_distribution", "feature_importance"])

p("C22", "Residual models predict base model plus trees on its residuals",
  "A residual model's prediction is the base model's prediction plus that of trees fitted to the base model's training residuals, for new rows, for the training rows, and with no rows passed; its residuals are the target minus that prediction. Fitting does not train the base estimator object the caller passed in, and cloning keeps both the base model and the parameters of the trees.",
  ["inputs", "configurations"], "every base estimator and data set",
  "no test covers the extensions (one module could not even be imported)",
  ["bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py"],
  [("fit on residuals, add predictions", "bartpy/extensions/baseestimator.py, bartpy/extensions/ols.py")],
  ["ResidualBART.fit / predict / residuals", "OLS.fit / predict / residuals"])

p("C23", "Initialized trees reproduce the sklearn tree they come from",
  "A tree initialized from a fitted sklearn regression tree that has at least one split has the same structure and predicts for every row exactly what that sklearn tree predicts, in sample and for new rows. A model built with the tree initializer starts from valid trees, fitted in turn to what the earlier trees leave over and limited to the configured depth, and can be sampled from; without an initializer every tree starts as a single leaf predicting zero whose target is an equal share of the data.",
  ["inputs", "configurations"], "every data set, maximum depth and minimum split size",
  "one test (failing here because of a renamed sklearn loss) maps a single random tree of depth 2 on one column",
  ["bartpy/initializers/sklearntreeinitializer.py", "bartpy/initializers/initializer.py", "bartpy/model.py"],
  [("mapping of sklearn nodes", "bartpy/initializers/sklearntreeinitializer.py"), ("initialize_trees", "bartpy/model.py")],
  ["map_sklearn_tree_into_bartpy", "SklearnTreeInitializer.initialize_tree", "Model(...).trees"])

p("C24", "Diagnostics plot the stored samples truthfully",
  "The diagnostic plots show exactly what the fitted model holds: sigma and acceptance rate per stored sample, minimum, mean and maximum node depth per stored sample, residuals against fitted values and their quantiles, split proportions per covariate and thresholds with the passing and failing covariates, in sample order or column order.",
  ["inputs", "configurations"], "every fitted model",
  "no test draws a plot",
  ["bartpy/diagnostics/trees.py", "bartpy/diagnostics/sigma.py", "bartpy/diagnostics/sampling.py", "bartpy/diagnostics/residuals.py", "bartpy/diagnostics/features.py", "bartpy/diagnostics/diagnostics.py", "bartpy/plotting.py"],
  [("plot functions", "bartpy/diagnostics")],
  ["lines and points of the returned matplotlib axes"])

p("C25", "Errors of a fitted model are those of its predictions",
  "The residuals of a fitted model are target minus prediction row by row, for given data or for the training data when no target is given; squared errors are their squares, the summed error is the square root of their sum, and the score is the coefficient of determination of the predictions.",
  ["inputs"], "every fitted model and every evaluation set",
  "no test calls them",
  ["bartpy/sklearnmodel.py", "bartpy/model.py"],
  [("residuals, l2_error, rmse", "bartpy/sklearnmodel.py"), ("residuals, unnormalized_residuals", "bartpy/model.py")],
  ["SklearnModel.residuals / l2_error / rmse / score", "Model.residuals / unnormalized_residuals"])

p("C26", "Cached random draws are fresh draws of the stated distribution",
  "However many values are taken and whatever the cache size, the scalar samplers return independent draws of the standard normal, of the uniform on [0, 1), or of the given values with the given probabilities. A draw is never handed out twice, and copies of a sampler do not repeat its draws.",
  ["histories", "configurations"], "every cache size, number of draws, set of values and probabilities, and copies made at any point",
  "the tests never exhaust a cache",
  ["bartpy/samplers/scalar.py"],
  [("cache refill", "bartpy/samplers/scalar.py")],
  ["NormalScalarSampler.sample", "UniformScalarSampler.sample", "DiscreteSampler.sample"])

p("C27", "Chains in threads stay independent under every interleaving",
  "When the chains of a fit run in threads of one process, no interleaving of their steps makes a chain fail, hands one random draw to two chains, or lets a chain sample a model, tree or sigma that is not its own; each chain's stored predictions still match its stored trees.",
  ["schedules"], "every interleaving of two or more chains sampling in threads of one process",
  "no test uses threads",
  ["bartpy/samplers/scalar.py", "bartpy/sklearnmodel.py"],
  [("caches of random draws shared by the chains of one estimator", "bartpy/samplers/scalar.py")],
  ["SklearnModel.fit under joblib's threading backend"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
