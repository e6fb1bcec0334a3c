"""C17: the estimator behaves as sklearn tools expect"""
import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_val_score
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, depths, read_sample
from harness.gens import arrays, dataset, seeds

from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

parameters = st.fixed_dictionaries({
    "n_trees": st.integers(1, 4),
    "n_chains": st.integers(1, 3),
    "n_samples": st.integers(1, 6),
    "n_burn": st.integers(0, 5),
    "thin": st.sampled_from([1., 0.5, 0.2, 0.07]),
    "alpha": st.sampled_from([0.95, 0.6, 0.3, 0.999, 0.02]),
    "beta": st.sampled_from([0.1, 1., 2., 0., 7.]),
    "sigma_a": st.sampled_from([0.001, 2., 50., 3000.]),
    "sigma_b": st.sampled_from([0.001, 0.5, 100., 1e-9, 1e5]),
    "store_in_sample_predictions": st.booleans(),
    "store_acceptance_trace": st.booleans(),
    "sampler": st.sampled_from(["default", "never", "grow", "oblivious"]),
    "initializer": st.sampled_from([None, None, None, 1, 2]),
})


class Never(Sampler):
    """A tree sampler that never changes a tree"""

    def sample(self, model, tree):
        return None

    def step(self, model, tree):
        return None


def keywords(p):
    made = {k: v for k, v in p.items() if k not in ("sampler", "initializer")}
    made["n_jobs"] = 1
    if p["sampler"] == "never":
        made["tree_sampler"] = Never()
    elif p["sampler"] == "grow":
        made["tree_sampler"] = get_tree_sampler(0.9, 0.1)
    elif p["sampler"] == "oblivious":
        made["tree_sampler"] = oblivious_sampler(0.5, 0.5)
    elif p["sampler"] == "default":
        made["tree_sampler"] = get_tree_sampler(0.5, 0.5)
    if p["initializer"] is not None:
        made["initializer"] = SklearnTreeInitializer(max_depth=p["initializer"])
    return made


def summary(model, X):
    out = {"prediction": np.asarray(model.predict(X), dtype=float), "trees": [read_sample(s) for s in model.model_samples],
           "sigma": [float(s.sigma.current_value()) for s in model.model_samples]}
    if model.store_in_sample_predictions:
        out["in sample"] = np.asarray(model.predict(), dtype=float)
    if model.store_acceptance_trace:
        out["acceptance"] = [dict(a) for a in model.acceptance_trace]
    return out


def same_fit(a, b, what):
    for key in b:
        if key in ("prediction", "in sample"):
            close(a[key], b[key], "{}: {}".format(what, key), rtol=1e-9, atol=1e-12)
        else:
            need(a[key] == b[key], "{}: {} differ", what, key)


def check_used(model, p, X):
    """What can be seen of every parameter in the fitted model"""
    per_chain = len(model.extract[0]["model"])
    same(len(model.extract), p["n_chains"], "chains run")
    same(len(model.model_samples), p["n_chains"] * per_chain, "samples")
    share = p["n_samples"] * p["thin"]
    need(max(1, np.floor(share + 1e-9)) <= per_chain <= max(1, np.ceil(share - 1e-9)), "{} samples per chain of {} at a share of {}", per_chain, p["n_samples"], p["thin"])
    for s in model.model_samples:
        same(len(s.trees), p["n_trees"], "trees of a sample")
        close(float(s.alpha), p["alpha"], "alpha of a sample")
        close(float(s.beta), p["beta"], "beta of a sample")
        close(float(s.sigma.alpha), p["sigma_a"], "prior shape of sigma")
        close(float(s.sigma.beta), p["sigma_b"], "prior scale of sigma")
        if p["sampler"] == "never":
            limit = 0 if p["initializer"] is None else p["initializer"]
            need(all(max(depths(t)) <= limit for t in read_sample(s)), "a tree changed although the tree sampler never changes one")
    same(len(model.prediction_samples) > 0, p["store_in_sample_predictions"], "in sample predictions stored")
    same(len(model.acceptance_trace) > 0, p["store_acceptance_trace"], "acceptance trace stored")


setting = st.fixed_dictionaries({
    "data": dataset(n=(3, 10), p=(1, 3), constant_ok=False, big=False),
    "p": parameters, "q": parameters,
    "how": st.sampled_from(["set_params", "set_params one by one", "clone", "clone of fitted", "set_params after fit"]),
    "seed": seeds,
})


def run_setting(case):
    X, y = arrays(case["data"])
    p, q = case["p"], case["q"]
    fresh(case["seed"])
    wanted = keywords(p)
    reference = SklearnModel(**wanted)
    got = reference.get_params(deep=False)
    for key, value in wanted.items():
        need(got.get(key) is value or got.get(key) == value, "get_params gives {} = {} instead of {}", key, got.get(key), value)
    fresh(case["seed"])
    reference.fit(X.copy(), y.copy())
    check_used(reference, p, X)
    expected = summary(reference, X)

    fresh(case["seed"])
    if case["how"] == "set_params":
        other = SklearnModel(**keywords(q))
        need(other.set_params(**keywords(dict(p))) is other, "set_params does not return the estimator")
        if p["initializer"] is None:
            other.set_params(initializer=None)
    elif case["how"] == "set_params one by one":
        other = SklearnModel(**keywords(q))
        for key, value in dict({"initializer": None}, **keywords(p)).items():
            other.set_params(**{key: value})
    elif case["how"] == "set_params after fit":
        other = SklearnModel(**keywords(q)).fit(X[::-1].copy(), y.copy())
        other.set_params(**dict({"initializer": None}, **keywords(p)))
    elif case["how"] == "clone":
        other = clone(SklearnModel(**keywords(p)))
    else:
        other = clone(reference)
        need(other.model_samples is None or len(other.model_samples) == 0, "a clone is already fitted")
    for key, value in wanted.items():
        if key not in ("tree_sampler", "initializer"):
            same(other.get_params(deep=False).get(key), value, "parameter {} after {}".format(key, case["how"]))
    fresh(case["seed"])
    other.fit(X.copy(), y.copy())
    check_used(other, p, X)
    same_fit(summary(other, X), expected, "fit after " + case["how"])
    same_fit(summary(reference, X), expected, "earlier fit of another estimator")
    return ["nontrivial"] if any(count_splits(t) for ts in expected["trees"] for t in ts) and case["how"] != "clone" else []


# ---- data stay the caller's
FORMS = ["array", "fortran", "strided", "readonly", "frame", "named", "int", "view"]
isolated = st.fixed_dictionaries({
    "data": dataset(n=(2, 10), p=(1, 3), constant_ok=False),
    "n_trees": st.integers(1, 3), "n_samples": st.integers(1, 4), "n_chains": st.integers(1, 2),
    "form": st.sampled_from(FORMS),
    "target": st.sampled_from(["array", "int", "float32", "readonly", "strided"]),
    "store": st.booleans(),
    "initializer": st.booleans(),
    "seed": seeds,
})


def in_form(X, form):
    if form == "fortran":
        return np.asfortranarray(X)
    if form == "strided":
        big = np.zeros((len(X) * 2, X.shape[1] * 2))
        big[::2, ::2] = X
        return big[::2, ::2]
    if form == "readonly":
        X = X.copy()
        X.flags.writeable = False
        return X
    if form == "frame":
        return pd.DataFrame(X.copy())
    if form == "named":
        return pd.DataFrame(X.copy(), columns=["c{}".format(9 - i) for i in range(X.shape[1])], index=np.arange(len(X))[::-1] * 3)
    if form == "int":
        return np.round(X).astype(np.int64)
    return X.copy()


def target_in_form(y, form):
    if form == "int":
        y = np.round(y).astype(np.int64)
        if y.min() == y.max():
            y[0] += 3
        return y
    if form == "float32":
        return y.astype(np.float32)
    if form == "readonly":
        y = y.copy()
        y.flags.writeable = False
        return y
    if form == "strided":
        big = np.zeros(len(y) * 3)
        big[::3] = y
        return big[::3]
    return y.copy()


def values_of(x):
    return np.array(x.values if isinstance(x, pd.DataFrame) else x, dtype=float)


def scribble(x):
    if isinstance(x, pd.DataFrame):
        x.iloc[:, :] = -77
    else:
        if not x.flags.writeable:
            x.flags.writeable = True
        x[...] = -77


def run_isolated(case):
    fresh(case["seed"])
    X0, y0 = arrays(case["data"])
    X, y = in_form(X0, case["form"]), target_in_form(y0, case["target"])
    X_before, y_before = values_of(X), values_of(y)
    frame_before = X.copy(deep=True) if isinstance(X, pd.DataFrame) else None
    model = SklearnModel(n_trees=case["n_trees"], n_samples=case["n_samples"], n_chains=case["n_chains"], n_burn=2, thin=1., n_jobs=1,
                         store_in_sample_predictions=case["store"], initializer=SklearnTreeInitializer(max_depth=2) if case["initializer"] else None)
    need(model.fit(X, y) is model, "fit does not return the estimator")
    Q = X_before + 0.25
    first = {"out of sample": model.predict(Q), "training rows": model.predict(X), "residuals": model.residuals(X, y)}
    model.rmse(X, y)
    model.l2_error(X, y)
    model.score(X, y)
    if case["store"]:
        first["in sample"] = model.predict()
        first["own residuals"] = model.residuals()
    first = {k: np.array(v, dtype=float) for k, v in first.items()}
    close(values_of(X), X_before, "covariates of the caller after fitting", rtol=0, atol=0)
    close(values_of(y), y_before, "target of the caller after fitting", rtol=0, atol=0)
    if frame_before is not None:
        need(X.equals(frame_before), "the caller's frame changed")
    scribble(X)
    scribble(y)
    close(model.predict(Q), first["out of sample"], "predictions after the caller's arrays changed", rtol=0, atol=0)
    close(model.predict(X_before), first["training rows"], "predictions of the training rows after the caller's arrays changed", rtol=0, atol=0)
    if case["store"]:
        close(model.predict(), first["in sample"], "in sample predictions after the caller's arrays changed", rtol=0, atol=0)
        close(model.residuals(), first["own residuals"], "residuals after the caller's arrays changed", rtol=0, atol=0)
    close(np.asarray(model.data.X.values, dtype=float), X_before, "training covariates kept by the model after the caller's arrays changed", rtol=0, atol=0)
    close(np.asarray(model.data.y.unnormalized_y, dtype=float), y_before, "training target kept by the model after the caller's arrays changed",
          rtol=1e-9, atol=1e-9 * np.abs(y_before).max())
    close(model.residuals(X_before), np.asarray(first["residuals"]), "residuals against the training target after the caller's arrays changed", rtol=1e-12, atol=1e-12 * np.abs(y_before).max())
    return ["nontrivial"]


# ---- refitting and other estimators
again = st.fixed_dictionaries({
    "first": dataset(n=(2, 10), p=(1, 3), constant_ok=False, big=False),
    "second": dataset(n=(2, 10), p=(1, 3), constant_ok=False, big=False),
    "p": parameters, "q": parameters,
    "seed": seeds, "between": seeds,
})


def run_again(case):
    XA, yA = arrays(case["first"])
    XB, yB = arrays(case["second"])
    p = dict(case["p"], store_in_sample_predictions=True)

    def made(p):  # leave the sampler to its default where possible: it is shared between estimators
        words = keywords(p)
        if p["sampler"] == "default":
            del words["tree_sampler"]
        return words
    if p["sampler"] not in ("never", "default"):
        p["sampler"] = "default"
    fresh(case["seed"])
    reference = SklearnModel(**made(p)).fit(XB.copy(), yB.copy())
    expected = summary(reference, XB)
    fresh(case["between"])
    model = SklearnModel(**made(p)).fit(XA.copy(), yA.copy())
    kept = summary(model, XA)
    XS = XB.copy()  # asked about before and after, as one object
    if XS.shape[1] == XA.shape[1]:
        close(model.predict(XS), SklearnModel.predict(model, XB.copy()), "prediction of equal rows", rtol=0, atol=0)
    else:
        XS = XB
    bystander = SklearnModel(**made(case["q"])).fit(XB.copy(), yB.copy())
    kept_bystander = summary(bystander, XB)
    same_fit(summary(model, XA), kept, "an estimator after another was fitted")
    samples = [read_sample(s) for s in model.model_samples]
    if XS is not XB:
        model.predict(XS)
    fresh(case["seed"])
    model.fit(XS, yB.copy())
    same_fit(summary(model, XS), expected, "a second fit")
    same_fit(summary(model, XB.copy()), expected, "a second fit, asked with a copy")
    same(len(model.prediction_samples[0]), len(yB), "rows of the stored predictions after refitting")
    close(model.residuals(), yB - np.asarray(model.predict()), "residuals after refitting", rtol=1e-9, atol=1e-9 * max(1., np.abs(yB).max()))
    same_fit(summary(bystander, XB), kept_bystander, "an estimator after another was refitted")
    need(samples == kept["trees"], "stored samples changed")
    return ["nontrivial"] if X_differ(XA, XB) else []


def X_differ(a, b):
    return a.shape != b.shape or not np.array_equal(a, b)


# ---- sklearn's own tools
tools = st.fixed_dictionaries({
    "data": dataset(n=(6, 14), p=(1, 3), constant_ok=False, big=False),
    "folds": st.integers(2, 3),
    "what": st.sampled_from(["cross_val_score", "cross_val_predict", "grid", "pipeline"]),
    "p": parameters,
    "grid": st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True),
    "frame": st.booleans(),
    "seed": seeds,
})


def run_tools(case):
    X, y = arrays(case["data"])
    if case["frame"]:
        X = pd.DataFrame(X, columns=["v{}".format(i) for i in range(X.shape[1])])
    rows = (lambda i: X.iloc[i]) if case["frame"] else (lambda i: X[i])
    fresh(case["seed"])
    words = keywords(case["p"])
    model = SklearnModel(**words)
    cv = KFold(case["folds"])
    fresh(case["seed"])
    if case["what"] == "cross_val_score":
        scores = cross_val_score(model, X, y, cv=cv, error_score="raise")
        fresh(case["seed"])
        expected = []
        for train, test in cv.split(X):
            m = clone(model).fit(rows(train), y[train])
            residual = y[test] - m.predict(rows(test))
            total = np.sum((y[test] - y[test].mean()) ** 2)
            expected.append(1. - np.sum(residual ** 2) / total if total > 0 else np.nan)
        ok = [i for i, e in enumerate(expected) if np.isfinite(e)]
        close(np.asarray(scores)[ok], np.array(expected)[ok], "cross validated scores", rtol=1e-8, atol=1e-8)
    elif case["what"] == "cross_val_predict":
        predicted = cross_val_predict(model, X, y, cv=cv)
        fresh(case["seed"])
        expected = np.zeros(len(y))
        for train, test in cv.split(X):
            expected[test] = clone(model).fit(rows(train), y[train]).predict(rows(test))
        close(predicted, expected, "cross validated predictions", rtol=1e-9, atol=1e-10)
    elif case["what"] == "grid":
        search = GridSearchCV(model, {"n_trees": case["grid"]}, cv=cv, error_score="raise", scoring="neg_mean_squared_error")
        search.fit(X, y)
        best = search.best_params_["n_trees"]
        need(best in case["grid"], "best value {} is not in the grid", best)
        same(search.best_estimator_.get_params()["n_trees"], best, "number of trees of the best estimator")
        need(all(len(s.trees) == best for s in search.best_estimator_.model_samples), "the best estimator was fitted with other parameters than reported")
        need(np.all(np.isfinite(search.predict(X))), "predictions of a grid search")
    else:
        pipe = make_pipeline(StandardScaler(), model)
        pipe.fit(X, y)
        predicted = pipe.predict(X)
        fresh(case["seed"])
        scaled = StandardScaler().fit(X)
        expected = clone(model).fit(scaled.transform(X), y).predict(scaled.transform(X))
        close(predicted, expected, "predictions of a pipeline", rtol=1e-9, atol=1e-10)
        pipe.set_params(sklearnmodel__n_trees=case["grid"][0])
        pipe.fit(X, y)
        need(all(len(s.trees) == case["grid"][0] for s in pipe[-1].model_samples), "a parameter set through a pipeline was not used")
    if case["what"] != "pipeline":
        need(model.model_samples is None or len(model.model_samples) == 0, "{} trained the estimator it was given", case["what"])
    return ["nontrivial"]


SUBS = [
    Sub("setting", setting, run_setting, 80, 700,
        "two generated parameter sets; the second arrives through set_params, clone or after an earlier fit; what every parameter does is looked up in the fitted model and the fit must equal that of a directly constructed estimator; non-trivial = something was split and parameters did not come from a plain clone"),
    Sub("isolated", isolated, run_isolated, 80, 700,
        "generated data in many layouts (frames, strided, read only, integer), overwritten after fitting; all cases non-trivial"),
    Sub("again", again, run_again, 60, 500,
        "fit on one data set, fit others, refit on a second: equal to a new estimator; non-trivial = the data sets differ"),
    Sub("tools", tools, run_tools, 50, 400,
        "cross validation, grid search and pipelines against loops written out; all cases non-trivial"),
]
ASSUMPTIONS = ["fits are compared from the same numpy random state and with the library's caches of random draws as after import"]
