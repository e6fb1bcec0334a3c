"""C22: residual models predict base model plus trees on its residuals"""
import numpy as np
import pandas as pd
import statsmodels.api as sm
from sklearn.base import BaseEstimator, RegressorMixin, clone
from sklearn.dummy import DummyRegressor
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.neighbors import KNeighborsRegressor
from sklearn.tree import DecisionTreeRegressor

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, evaluate_sample, expected_prediction, read_sample
from harness.gens import mostly, seeds

from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS


class Strange(BaseEstimator, RegressorMixin):
    """A base model that is far off, so that nothing cancels"""

    def __init__(self, a=1.):
        self.a = a

    def fit(self, X, y):
        self.level_ = float(np.mean(y))
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        return self.a * X.sum(axis=1) ** 2 - 3. * self.level_


BASES = {"linear": lambda a: LinearRegression(fit_intercept=a > 1), "ridge": lambda a: Ridge(alpha=a), "dummy": lambda a: DummyRegressor(),
         "neighbours": lambda a: KNeighborsRegressor(n_neighbors=1 + int(a > 1)), "tree": lambda a: DecisionTreeRegressor(max_depth=1, random_state=0),
         "strange": lambda a: Strange(a), "none": lambda a: None}

parameters = st.fixed_dictionaries({
    "n_trees": mostly(st.integers(1, 3), st.integers(4, 12), 9),
    "n_chains": st.integers(1, 2),
    "n_samples": st.integers(1, 5),
    "n_burn": st.integers(0, 5),
    "thin": st.sampled_from([1., 0.5]),
    "alpha": st.sampled_from([0.95, 0.5]),
    "beta": st.sampled_from([0.2, 2.]),
    "sigma_a": st.sampled_from([0.001, 2.]),
    "sigma_b": st.sampled_from([0.001, 0.5]),
    "store_in_sample_predictions": st.booleans(),
    "store_acceptance_trace": st.booleans(),
})

cases = st.fixed_dictionaries({
    "n": mostly(st.integers(4, 12), st.integers(13, 130), 7),
    "p": mostly(st.integers(1, 3), st.integers(4, 14), 9),
    "X": st.lists(st.integers(-8, 8), min_size=36, max_size=36),
    "y": st.lists(st.integers(-20, 20), min_size=12, max_size=12),
    "unit": st.sampled_from([[1., 0.], [100., 5000.], [0.01, 0.]]),
    "kind": st.sampled_from(["residual", "residual", "ols"]),
    "base": st.sampled_from(sorted(BASES)), "a": st.sampled_from([0.5, 2.]),
    "words": parameters,
    "frame": st.booleans(),
    "series": st.sampled_from([False, False, True]),
    "at_once": st.sampled_from([False, False, True]),
    "extra": st.lists(st.lists(st.integers(-9, 9), min_size=3, max_size=3), min_size=1, max_size=4),
    "then": st.sampled_from(["nothing", "clone", "refit", "set_params", "set_base"]),
    "seed": seeds,
})


def fitted_names(e):
    return sorted(k for k in vars(e) if k.endswith("_") and not k.startswith("_"))


def check(model, base, X, y, Q, wrap, stored, what):
    base_Q, base_X = np.asarray(base.predict(wrap(Q)), dtype=float), np.asarray(base.predict(wrap(X)), dtype=float)
    left = y - base_X
    unit = max(np.abs(y).max(), np.abs(base_Q).max(), np.abs(base_X).max(), 1e-12)
    tight = dict(rtol=1e-7, atol=1e-8 * unit)
    trees_Q, trees_X = expected_prediction(model, Q, left), expected_prediction(model, X, left)
    close(np.asarray(model.predict(wrap(Q))), base_Q + trees_Q, "{}: prediction of new rows".format(what), **tight)
    close(np.asarray(model.predict(wrap(X))), base_X + trees_X, "{}: prediction of the training rows".format(what), **tight)
    close(np.asarray(model.predict()), base_X + trees_X, "{}: in sample prediction".format(what), **tight)
    close(np.asarray(model.predict(wrap(Q[:1]))), (base_Q + trees_Q)[:1], "{}: prediction of one row".format(what), **tight)
    S = X[::-1] + 0.  # as many rows as there were in training, but others
    again = wrap(S)
    for change in (0., 0.37):
        S = S + change
        if isinstance(again, pd.DataFrame):
            again = wrap(S)
        else:
            again[:] = S
        close(np.asarray(model.predict(again)), np.asarray(base.predict(wrap(S)), dtype=float) + expected_prediction(model, S, left),
              "{}: prediction of as many rows as in training".format(what), rtol=1e-7, atol=1e-8 * max(unit, np.abs(np.asarray(base.predict(wrap(S)))).max()))
    reversed_unit = max(unit, np.abs(np.asarray(base.predict(wrap(X[::-1])))).max())
    close(np.asarray(model.residuals(wrap(X[::-1]))), y - np.asarray(base.predict(wrap(X[::-1])), dtype=float) - expected_prediction(model, X[::-1], left),
          "{}: residuals of other rows against the training target".format(what), rtol=1e-7, atol=1e-8 * reversed_unit)
    expected = y - base_X - trees_X
    close(np.asarray(model.residuals()), expected, "{}: residuals".format(what), **tight)
    close(np.asarray(model.residuals(wrap(X))), expected, "{}: residuals of the training rows".format(what), **tight)
    close(np.asarray(model.residuals(wrap(X), y)), expected, "{}: residuals against the target".format(what), **tight)
    other = np.arange(len(Q)) * unit
    close(np.asarray(model.residuals(wrap(Q), other)), other - base_Q - trees_Q, "{}: residuals of new rows".format(what), rtol=1e-7, atol=1e-8 * unit * len(Q))
    close(np.asarray(model.l2_error(wrap(X), y)), expected ** 2, "{}: squared errors".format(what), rtol=1e-6, atol=1e-8 * unit ** 2)
    close(float(model.rmse(wrap(X), y)), float(np.sqrt(np.sum(expected ** 2))), "{}: summed error".format(what), rtol=1e-6, atol=1e-8 * unit)
    if stored:
        for stored_prediction, sample in zip(model.prediction_samples, model.model_samples):
            close(stored_prediction, evaluate_sample(read_sample(sample), X), "{}: stored prediction of the trees".format(what), rtol=1e-8, atol=1e-9)


def reference_base(case, X, y, wrap):
    if case["kind"] == "ols":
        return sm.OLS(y, wrap(X)).fit()
    base = BASES[case["base"]](case["a"])
    return (LinearRegression() if base is None else base).fit(wrap(X), y)


def run(case):
    fresh(case["seed"])
    n, p = case["n"], case["p"]
    X = np.array(case["X"], dtype=float)
    X = (X[:n * p] if n * p <= 36 else np.random.RandomState(case["seed"]).permutation(np.resize(X, n * p))).reshape(n, p)
    X[:, 0] += np.arange(n) * 0.01  # no two rows are the same
    y = (np.array(case["y"], dtype=float)[np.arange(n) % 12] + 0.3 * (np.arange(n) // 12)) * case["unit"][0] + case["unit"][1]
    Q = np.concatenate([np.array([(e * 5)[:p] for e in case["extra"]], dtype=float), X + 0.37])
    names = ["c{}".format(9 - i) for i in range(p)]
    wrap = (lambda v: pd.DataFrame(v, columns=names)) if case["frame"] else (lambda v: np.array(v))
    words = dict(case["words"], n_jobs=1)
    if case["kind"] == "ols":
        model, given = OLS(stat_model=sm.OLS, **words), None
    else:
        given = BASES[case["base"]](case["a"])
        model = ResidualBART(base_estimator=given, **words)
    if given is not None:
        before, params = fitted_names(given), given.get_params()
    Xc, yc = wrap(X), y.copy()
    if case.get("series") and case["kind"] != "ols":  # whose index says nothing about rows
        yc = pd.Series(yc, index=np.arange(n)[::-1])
    at_once = None
    if case.get("at_once"):
        at_once = np.array(model.fit_predict(Xc, yc), dtype=float)
    else:
        need(model.fit(Xc, yc) is model, "fit does not return the estimator")
    close(np.asarray(Xc, dtype=float), X, "the caller's covariates", rtol=0, atol=0)
    close(yc, y, "the caller's target", rtol=0, atol=0)
    for sample in model.model_samples:
        same(len(sample.trees), words["n_trees"], "trees of a sample")
        close(float(sample.alpha), words["alpha"], "alpha")
        close(float(sample.sigma.beta), words["sigma_b"], "prior scale of sigma")
    base = reference_base(case, X, y, wrap)
    if not case["frame"] and case["base"] != "neighbours":  # (which keeps the caller's arrays itself)
        Xc[:] = -77.  # the caller's arrays are free to be used for something else
        yc[:] = -77.
    check(model, base, X, y, Q, wrap, words["store_in_sample_predictions"], case["kind"])
    if at_once is not None:
        close(at_once, np.asarray(model.predict(wrap(X))), "prediction made along with the fit", rtol=1e-7, atol=1e-8 * max(np.abs(y).max(), 1e-12))
    if given is not None:
        same(fitted_names(given), before, "fitted attributes of the caller's base estimator")
        same(given.get_params(), params, "parameters of the caller's base estimator")
    if case["then"] == "clone":
        other = clone(model)
        for k, v in words.items():
            same(other.get_params(deep=False).get(k), v, "parameter {} of a clone".format(k))
        need(other.model_samples is None, "a clone is already fitted")
        if case["kind"] == "ols":
            need(other.stat_model is sm.OLS, "a clone lost its base model")
        elif given is not None:
            need(type(other.base_estimator) is type(given), "a clone has another base estimator")
            same(other.base_estimator.get_params(), params, "parameters of the base estimator of a clone")
        other.fit(wrap(X), y.copy())
        check(other, base, X, y, Q, wrap, words["store_in_sample_predictions"], "clone")
    elif case["then"] == "refit":
        y2 = y[::-1] * 2. + 1. * case["unit"][0]
        X2 = X[:, ::-1].copy()
        model.fit(wrap(X2), y2.copy())
        check(model, reference_base(case, X2, y2, wrap), X2, y2, Q, wrap, words["store_in_sample_predictions"], "refitted")
    elif case["then"] == "set_params":
        model.set_params(n_trees=4, alpha=0.7)
        model.fit(wrap(X), y.copy())
        need(all(len(s.trees) == 4 and abs(s.alpha - 0.7) < 1e-12 for s in model.model_samples), "parameters set were not used")
        check(model, base, X, y, Q, wrap, words["store_in_sample_predictions"], "after set_params")
    elif case["then"] == "set_base" and case["kind"] != "ols":
        swapped = Strange(a=0.1)
        model.set_params(base_estimator=swapped)
        model.fit(wrap(X), y.copy())
        same(fitted_names(swapped), [], "fitted attributes of a base estimator set later")
        check(model, Strange(a=0.1).fit(X, y), X, y, Q, wrap, words["store_in_sample_predictions"], "after setting the base estimator")
    return ["nontrivial"] if any(count_splits(t) for s in model.model_samples for t in read_sample(s)) else []


SUBS = [
    Sub("models", cases, run, 140, 1200,
        "ResidualBART over seven base estimators and OLS over statsmodels, arrays and frames, then cloned, refitted or changed; predictions against an independently fitted base model plus the trees read from the samples; non-trivial = the trees have splits"),
]
