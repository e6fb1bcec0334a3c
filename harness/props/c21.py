"""C21: feature importance scores are out of sample"""
import matplotlib
import numpy as np
import pandas as pd
from matplotlib import pyplot as plt

from harness.core import Sub, close, fresh, need, same, st
from harness.gens import index, mostly, seeds

from bartpy.features.featureimportance import feature_importance, null_rmse_distribution, original_model_rmse
from bartpy.sklearnmodel import SklearnModel

LOG = []


class Observed(SklearnModel):
    """Notes on which rows a model was trained and which it is asked to predict"""

    def predict(self, X=None):
        out = SklearnModel.predict(self, X)
        LOG.append({"train_X": np.array(self.data.X.values, dtype=float), "train_y": np.array(self.data.y.unnormalized_y, dtype=float),
                    "X": np.array(X, dtype=float), "out": np.array(out, dtype=float)})
        return out


cases = st.fixed_dictionaries({
    "n": mostly(st.integers(4, 14), mostly(st.integers(25, 40), st.integers(60, 130), 2), 4),
    "middle": st.lists(st.lists(st.integers(-3, 3), min_size=14, max_size=14), min_size=0, max_size=2).flatmap(lambda v: st.sampled_from([v] * 9 + [v * 6 + [[1, 2] * 7]])),
    "single": st.sampled_from([False] * 4 + [True]),
    "y": st.lists(st.integers(-50, 50), min_size=14, max_size=14, unique=True),
    "scale": st.sampled_from([1., 0.01, 500.]),
    "variable": index,
    "folds": mostly(st.integers(2, 4), st.integers(5, 12), 4),
    "permutations": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.just(10)),
    "n_trees": mostly(st.integers(1, 3), st.integers(4, 12), 7),
    "n_samples": st.integers(1, 3),
    "n_chains": st.integers(1, 2),
    "frame": st.booleans(),
    "series": st.sampled_from([None, None, None, "positions", "reversed", "labels"]),
    "what": st.sampled_from(["original", "null", "null", "both"]),
    "fitted": st.booleans(),
    "seed": seeds,
})


def ids_of(X, ids, p, variable):
    """Rows are numbered in the first and in the last column; one of them is not the one assessed"""
    column = p - 1 if variable == 0 else 0
    lookup = {v: i for i, v in enumerate(ids[:, column])}
    need(all(v in lookup for v in X[:, column]), "rows that are none of the caller's: covariates other than the assessed one were changed")
    return [lookup[v] for v in X[:, column]]


def check_entry(e, X, y, variable, permuted, what):
    p = X.shape[1]
    if p == 1 and permuted:  # rows can be told by their target only
        train = [int(np.argmin(np.abs(y - v))) for v in e["train_y"]]
        need(len(set(train)) == len(train), "{}: a row was used twice in training", what)
        close(e["train_y"], y[train], "{}: targets trained on".format(what), rtol=1e-9, atol=1e-9 * np.abs(y).max())
        values = np.concatenate([e["train_X"][:, 0], e["X"][:, 0]])
        close(np.sort(values), np.sort(X[:, 0]), "{}: values of the assessed covariate".format(what), rtol=0, atol=0)
        test = sorted(set(range(len(y))) - set(train))
        same(len(e["X"]), len(test), "{}: rows scored".format(what))
        return test, None, bool(np.array_equal(e["train_X"][:, 0], X[train, 0]))
    train, test = ids_of(e["train_X"], X, p, variable), ids_of(e["X"], X, p, variable)
    need(len(set(train)) == len(train), "{}: a row was used twice in training", what)
    need(len(set(test)) == len(test), "{}: a row was scored twice by one model", what)
    need(not set(train) & set(test), "{}: rows {} were both trained on and scored", what, sorted(set(train) & set(test)))
    same(sorted(train + test), list(range(len(y))), "{}: rows trained on or scored".format(what))
    close(e["train_y"], y[train], "{}: targets trained on".format(what), rtol=1e-9, atol=1e-9 * np.abs(y).max())
    together = np.zeros_like(X)
    together[train] = e["train_X"]
    together[test] = e["X"]
    for j in range(p):
        if j != variable or not permuted:
            close(together[:, j], X[:, j], "{}: covariate {}".format(what, j), rtol=0, atol=0)
    close(np.sort(together[:, variable]), np.sort(X[:, variable]), "{}: values of the assessed covariate".format(what), rtol=0, atol=0)
    return test, float(np.sqrt(np.sum((y[test] - e["out"]) ** 2))), bool(np.array_equal(together[:, variable], X[:, variable]))


def run(case):
    fresh(case["seed"])
    n = case["n"]
    columns = [np.arange(n) + 0.1 + 1e-9] + [np.resize(np.array(c, dtype=float), n) for c in case["middle"]] + [1000. - 3. * np.arange(n)]
    X = np.array(columns).T.copy()
    if case["single"]:
        X = X[:, :1].copy()
    y = (np.array(case["y"], dtype=float)[np.arange(n) % 14] + 0.37 * (np.arange(n) // 14)) * case["scale"]
    p = X.shape[1]
    variable = case["variable"] % p
    folds, permutations = min(case["folds"], n), case["permutations"]
    Xc = pd.DataFrame(X.copy(), columns=["x{}".format(9 - i) for i in range(p)]) if case["frame"] else X.copy()
    yc = y.copy()
    if case["series"]:  # whose index says nothing about rows
        yc = pd.Series(yc, index={"positions": np.arange(n), "reversed": np.arange(n)[::-1], "labels": ["r{}".format(i) for i in range(n)]}[case["series"]])
    model = Observed(n_trees=case["n_trees"], n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=2, thin=1., n_jobs=1)
    if case["fitted"]:
        model.fit(X[:3].copy(), np.array([1., 2., 4.]))
        before = np.array(SklearnModel.predict(model, X))
    del LOG[:]
    original = null = None
    if case["what"] == "original":
        original = original_model_rmse(model, Xc, yc, folds)
    elif case["what"] == "null":
        null = null_rmse_distribution(model, Xc, yc, variable, folds, permutations)
    else:
        original, null = feature_importance(model, Xc, yc, variable, folds, permutations)
        plt.close("all")
    log = []
    for e in LOG:  # asking the same thing twice in a row is as good as once
        if not log or any(not np.array_equal(log[-1][k], e[k]) for k in e):
            log.append(e)
    if original is not None:
        same(len(original), folds, "scores of the original model")
        need(len(log) >= folds, "{} predictions for {} scores", len(log), folds)
        entries, log = log[:folds], log[folds:]
        checked = [check_entry(e, X, y, variable, False, "original model") for e in entries]
        same(sorted(i for test, _, _ in checked for i in test), list(range(n)), "rows held out over all folds")
        close(np.sort(original), np.sort([c[1] for c in checked]), "scores of the original model", rtol=1e-9, atol=1e-12 * np.abs(y).max())
    if null is not None:
        same(len(null), folds * permutations, "scores of the null distribution")
        same(len(log), folds * permutations, "predictions for the null distribution")
        checked = [check_entry(e, X, y, variable, True, "permuted model") for e in log]
        same(sorted(i for test, _, _ in checked for i in test), sorted(list(range(n)) * permutations), "rows held out over all folds and permutations")
        if p > 1:
            close(np.sort(null), np.sort([c[1] for c in checked]), "scores of the null distribution", rtol=1e-9, atol=1e-12 * np.abs(y).max())
        if len(set(X[:, variable])) >= 7 and len(checked) >= 4:
            need(not all(c[2] for c in checked), "the assessed covariate was never permuted")
    close(np.asarray(Xc, dtype=float), X, "the caller's covariates", rtol=0, atol=0)
    close(yc, y, "the caller's target", rtol=0, atol=0)
    if case["fitted"]:
        close(SklearnModel.predict(model, X), before, "predictions of the caller's model", rtol=0, atol=0)
    else:
        need(model.model_samples is None, "the caller's model was fitted")
    return ["nontrivial"] if null is not None or folds > 2 else []


SUBS = [
    Sub("importance", cases, run, 110, 1000,
        "generated data with numbered rows, any column assessed, folds and permutations; each model's training rows and scored rows are observed where it predicts; non-trivial = a null distribution, or more than two folds"),
]
ASSUMPTIONS = ["scores are the square root of the summed squared errors, as documented by SklearnModel.rmse"]
