"""C20: split proportions and feature selection report actual use"""
import numpy as np
import pandas as pd

from harness.core import Sub, Violation, close, fresh, need, same, st
from harness.fitted import estimator, read_sample, settings_strategy, split_variables
from harness.gens import mostly, arrays, dataset, index, seeds

from bartpy.diagnostics.features import (feature_split_proportions, global_thresholds, is_kept, kept_features, local_thresholds,
                                         null_feature_split_proportions_distribution, partition_into_passed_and_failed_features)
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel


def counted(model):
    used = [v for s in model.model_samples for t in read_sample(s) for v in split_variables(t)]
    total = float(len(used))
    return {v: used.count(v) / total for v in sorted(set(used))}, len(used)


# ---- proportions of a fitted model
fits = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 5), constant_ok=False),
    "s": settings_strategy,
    "columns": st.lists(st.integers(0, 8), unique=True, max_size=9),
})
BUSHY = {"data": {"big": {"n": 300, "kinds": ["distinct", "distinct", "grid", "binary", "sorted"], "seed": 4}}, "columns": [4, 0, 7],
         "s": {"n_trees": 1, "n_chains": 1, "n_samples": 3, "n_burn": 500, "thin": 1., "alpha": 0.999, "beta": 0.001, "sigma_a": 3000., "sigma_b": 0.001, "sampler": "grow", "seed": 5}}


def run_proportions(case):
    s = dict(case["s"])
    fresh(s["seed"])
    X, y = arrays(case["data"])
    model = estimator(s).fit(X, y)
    expected, total = counted(model)
    found = feature_split_proportions(model)
    same(sorted(int(k) for k in found), sorted(expected), "covariates reported")
    for k, v in found.items():
        close(v, expected[int(k)], "split proportion of covariate {}".format(k), rtol=1e-12)
    if total:
        close(sum(found.values()), 1., "sum of the proportions", rtol=1e-9)
    p = X.shape[1]
    everything = feature_split_proportions(model, list(range(p)))
    same([int(k) for k in everything], list(range(p)), "covariates asked for")
    for k, v in everything.items():
        close(v, expected.get(int(k), 0.), "split proportion of covariate {}".format(k), rtol=1e-12)
    if case["columns"]:
        some = feature_split_proportions(model, list(case["columns"]))
        same(sorted(int(k) for k in some), sorted(case["columns"]), "covariates asked for")
        for k, v in some.items():
            close(v, expected.get(int(k), 0.), "split proportion of covariate {}".format(k), rtol=1e-12)
    return ["nontrivial"] if len(expected) >= 2 or (total and p == 1) else []


# ---- thresholds
share = st.one_of(st.integers(0, 20).map(lambda v: v / 20.), st.integers(0, 1000).map(lambda v: v / 1000.))


@st.composite
def null_cases(draw):
    p = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(10, 14)))
    runs = draw(mostly(st.integers(1, 12), st.sampled_from([101, 150, 250, 1001]), 8))
    keys = draw(st.permutations(list(range(p))))
    if runs <= 12:
        null = [[k, draw(st.lists(share, min_size=runs, max_size=runs))] for k in keys]
    else:
        rng = np.random.RandomState(draw(seeds))
        null = [[k, (rng.randint(0, 1000, size=runs) / 1000.).tolist()] for k in keys]
    order = draw(st.permutations(list(range(p))))
    return {"null": null, "percentile": draw(st.one_of(share, st.sampled_from([0., 1., 0.95, 0.5]))),
            "proportions": [[k, draw(share)] for k in order], "tie": draw(st.booleans())}


def quantile(values, q):
    """Linear interpolation between the order statistics"""
    v = sorted(values)
    at = q * (len(v) - 1)
    low = int(np.floor(at))
    high = min(low + 1, len(v) - 1)
    return v[low] + (at - low) * (v[high] - v[low])


def run_thresholds(case):
    null = {k: list(v) for k, v in case["null"]}
    proportions = {k: v for k, v in case["proportions"]}
    q = case["percentile"]
    local = local_thresholds(null, q)
    everywhere = global_thresholds(null, q)
    same(sorted(local), sorted(null), "covariates with a local threshold")
    same(sorted(everywhere), sorted(null), "covariates with a global threshold")
    runs = len(case["null"][0][1])
    for k in null:
        close(local[k], quantile(null[k], q), "local threshold of covariate {}".format(k), rtol=1e-9, atol=1e-12)
        close(everywhere[k], quantile([max(null[j][r] for j in null) for r in range(runs)], q), "global threshold", rtol=1e-9, atol=1e-12)
    need(null == {k: list(v) for k, v in case["null"]}, "the null distribution was changed")
    for thresholds in (local, everywhere):
        if case["tie"]:
            some = sorted(proportions)[0]
            proportions[some] = float(thresholds[some])
        expected = [proportions[k] > thresholds[k] for k in sorted(proportions)]
        same([bool(v) for v in is_kept(dict(proportions), thresholds)], expected, "covariates kept")
        same([int(k) for k in kept_features(dict(proportions), thresholds)], [k for k, e in zip(sorted(proportions), expected) if e], "list of covariates kept")
        passed, failed = partition_into_passed_and_failed_features(dict(proportions), thresholds)
        same(dict(passed), {k: v for k, v in proportions.items() if v > thresholds[k]}, "covariates passing")
        same(dict(failed), {k: v for k, v in proportions.items() if not v > thresholds[k]}, "covariates failing")
    return ["nontrivial"] if len(null) >= 2 and runs >= 2 and 0 < q < 1 else []


# ---- selectors
class Watch(Sampler):
    """Delegates, and remembers the data of every model it is used on (also when copied)"""

    def __init__(self, inner):
        self.inner, self.seen, self.alive = inner, {}, []

    def __deepcopy__(self, memo):
        return self

    def sample(self, model, tree):
        return self.inner.sample(model, tree)

    def step(self, model, tree):
        if id(model) not in self.seen:
            self.alive.append(model)
            self.seen[id(model)] = (np.array(model.data.X.values, dtype=float), np.array(model.data.y.unnormalized_y, dtype=float), len(model.trees))
        return self.inner.step(model, tree)

    def runs(self):
        return [self.seen[id(m)] for m in self.alive]


selections = st.fixed_dictionaries({
    "data": st.one_of(dataset(n=(3, 12), p=(1, 5), constant_ok=False, big=False), dataset(n=(3, 12), p=(1, 5), constant_ok=False, big=False), dataset(n=(6, 12), p=(8, 13), constant_ok=False, big=False)),
    "kind": st.sampled_from(["fixed", "local", "global", "null"]),
    "percentile": st.sampled_from([0., 0.1, 0.2, 0.5, 0.9, 0.95, 1.]),
    "permutations": mostly(st.integers(1, 4), st.integers(5, 30), 6),
    "n_trees": st.integers(1, 4),
    "more_trees": st.sampled_from([None, 1, 3]),
    "n_chains": st.sampled_from([1, 1, 2]),
    "n_samples": st.sampled_from([1, 1, 1, 2, 6]),
    "frame": st.booleans(),
    "series": st.sampled_from([False, False, True]),
    "again": st.booleans(),
    "seed": seeds,
})


def check_null(null, runs, models, X, y, n_permutations, n_chains, n_trees, what):
    p = X.shape[1]
    same(sorted(int(k) for k in null), list(range(p)), "{}: covariates".format(what))
    need(all(len(v) == n_permutations for v in null.values()), "{}: {} values per covariate for {} permutations", what, [len(v) for v in null.values()], n_permutations)
    for r in range(n_permutations):
        total = sum(null[k][r] for k in null)
        need(abs(total - 1.) < 1e-9 or total == 0., "{}: proportions of run {} sum to {}", what, r, total)
    same(len(runs), n_permutations * n_chains, "{}: chains run".format(what))
    for Xr, yr, trees in runs:
        close(Xr, X, "{}: covariates of a run".format(what), rtol=0, atol=0)
        close(np.sort(yr), np.sort(y), "{}: permuted target of a run".format(what), rtol=1e-9, atol=1e-9 * np.abs(y).max())
        same(trees, n_trees, "{}: trees of a run".format(what))
    if len(set(y.tolist())) >= 8 and n_permutations >= 3:
        need(any(np.abs(yr - y).max() > 1e-6 * np.abs(y).max() for _, yr, _ in runs), "{}: the target is never permuted", what)
        permuted = [runs[r * n_chains][1] for r in range(n_permutations)]
        repeats = sum(1 for r, yr in enumerate(permuted) if any(np.abs(yr - other).max() <= 1e-9 * np.abs(y).max() for other in permuted[:r]))
        need(repeats < 3, "{}: {} of {} permutations repeat an earlier one", what, repeats, n_permutations)
    if len(models) == n_permutations:  # one sample of one chain each, which is the state the chain ended in
        for r, m in enumerate(models):
            used = [v for t in read_sample(m) for v in split_variables(t)]
            for k in null:
                close(null[k][r], used.count(int(k)) / float(len(used)) if used else 0., "{}: proportion of covariate {} in run {}".format(what, k, r), rtol=1e-12)


def run_selection(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    p = X.shape[1]
    Xc = pd.DataFrame(X, columns=["f{}".format((7 * i + 5) % 17) for i in range(p)]) if case["frame"] else X.copy()
    yc = pd.Series(y.copy(), index=np.arange(len(y))[::-1]) if case.get("series") else y.copy()
    watch = Watch(get_tree_sampler(0.7, 0.3))
    model = SklearnModel(n_trees=case["n_trees"], n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=4, thin=1., alpha=0.95, beta=0.3, n_jobs=1, tree_sampler=watch)
    q, m = case["percentile"], case["permutations"]
    single = case["n_chains"] == 1 and case["n_samples"] == 1
    if case["kind"] == "null":
        null = null_feature_split_proportions_distribution(model, Xc, yc, m)
        check_null(null, watch.runs(), watch.alive if single else [], X, y, m, case["n_chains"], case["n_trees"], "null distribution")
        need(model.model_samples is None, "the model passed in was fitted")
        close(np.asarray(Xc, dtype=float), X, "the caller's covariates", rtol=0, atol=0)
        close(yc, y, "the caller's target", rtol=0, atol=0)
        return ["nontrivial"]
    n_trees = case["n_trees"]
    if case["kind"] == "fixed":
        selector = SelectSplitProportionThreshold(model, percentile=q)
    else:
        selector = SelectNullDistributionThreshold(model, percentile=q, method=case["kind"], n_permutations=m, n_trees=case["more_trees"])
        n_trees = case["more_trees"] or n_trees
    need(selector.fit(Xc, yc) is selector, "fit does not return the selector")
    need(model.model_samples is None, "the caller's model was fitted")
    same(model.n_trees, case["n_trees"], "trees of the caller's model")
    close(np.asarray(Xc, dtype=float), X, "the caller's covariates", rtol=0, atol=0)
    close(yc, y, "the caller's target", rtol=0, atol=0)
    expected, total = counted(selector.model)
    runs = watch.runs()
    close(runs[0][1], y, "target the selector's model was fitted to", rtol=1e-9, atol=1e-9 * np.abs(y).max())
    need(all(len(s.trees) == n_trees for s in selector.model.model_samples), "the model used has other than {} trees", n_trees)
    if case["kind"] == "fixed":
        thresholds = {k: q for k in range(p)}
        same(len(runs), case["n_chains"], "chains run")
    else:
        null = selector.null_distribution
        check_null(null, runs[case["n_chains"]:], watch.alive[1:] if single else [], X, y, m, case["n_chains"], n_trees, "selector")
        if case["kind"] == "local":
            thresholds = {k: quantile(null[k], q) for k in range(p)}
        else:
            top = quantile([max(null[j][r] for j in null) for r in range(m)], q)
            thresholds = {k: top for k in range(p)}
        for k in range(p):
            close(selector.thresholds[k], thresholds[k], "{} threshold of covariate {}".format(case["kind"], k), rtol=1e-9, atol=1e-12)
        thresholds = {k: float(selector.thresholds[k]) for k in range(p)}
    mask = np.asarray(selector.get_support())
    same(list(mask.shape), [p], "shape of the support mask")
    for k in range(p):
        mine = expected.get(k, 0.)
        if abs(mine - thresholds[k]) > 1e-12 or mine == 0.:
            same(bool(mask[k]), mine > thresholds[k], "covariate {} with a proportion of {} and a threshold of {} is kept".format(k, mine, thresholds[k]))
    same([int(i) for i in selector.get_support(indices=True)], [int(i) for i in np.flatnonzero(mask)], "indices of the support")
    if mask.any():
        close(np.asarray(selector.transform(Xc), dtype=float), X[:, mask], "selected columns", rtol=0, atol=0)
    if case["again"]:  # on other data nothing of the first fit counts
        X2, y2 = X[::-1] * 2. + 1., np.cumsum(np.abs(y)) + np.arange(len(y)) * max(np.abs(y).max(), 1e-3)
        watch.seen, watch.alive = {}, []
        selector.fit(X2.copy(), y2.copy())
        runs, models = watch.runs(), watch.alive
        close(runs[0][0], X2, "covariates of a refitted selector's model", rtol=0, atol=0)
        close(runs[0][1], y2, "target of a refitted selector's model", rtol=1e-9, atol=1e-9 * np.abs(y2).max())
        expected, _ = counted(selector.model)
        if case["kind"] != "fixed":
            check_null(selector.null_distribution, runs[case["n_chains"]:], models[1:] if single else [], X2, y2, m, case["n_chains"], n_trees, "refitted selector")
            null = selector.null_distribution
            top = quantile([max(null[j][r] for j in null) for r in range(m)], q)
            for k in range(p):
                close(selector.thresholds[k], quantile(null[k], q) if case["kind"] == "local" else top, "threshold of covariate {} after refitting".format(k), rtol=1e-9, atol=1e-12)
            thresholds = {k: float(selector.thresholds[k]) for k in range(p)}
        mask = np.asarray(selector.get_support())
        for k in range(p):
            mine = expected.get(k, 0.)
            if abs(mine - thresholds[k]) > 1e-12 or mine == 0.:
                same(bool(mask[k]), mine > thresholds[k], "covariate {} with a proportion of {} and a threshold of {} is kept after refitting".format(k, mine, thresholds[k]))
    return ["nontrivial"] if p >= 2 and total else []


wrong = st.fixed_dictionaries({"method": st.text(max_size=8).filter(lambda v: v not in ("local", "global"))})


def run_wrong(case):
    try:
        SelectNullDistributionThreshold(SklearnModel(n_jobs=1), method=case["method"])
    except NotImplementedError:
        return ["nontrivial"]
    except Exception as e:
        raise Violation("method {!r}: {!r} instead of NotImplementedError".format(case["method"], e))
    raise Violation("method {!r} was accepted".format(case["method"]))


SUBS = [
    Sub("proportions", fits, run_proportions, 120, 1000,
        "fitted models; proportions against a count over the trees read independently; non-trivial = at least two covariates used, or the only one", examples=[BUSHY]),
    Sub("thresholds", null_cases(), run_thresholds, 300, 3000,
        "null distributions and proportions in any key order, with ties; non-trivial = several covariates and runs and an inner quantile"),
    Sub("selection", selections, run_selection, 80, 700,
        "selectors on generated data, watching which data every model is fitted to; non-trivial = several covariates and at least one split"),
    Sub("wrong", wrong, run_wrong, 20, 100, "unsupported methods are refused; all cases non-trivial"),
]
