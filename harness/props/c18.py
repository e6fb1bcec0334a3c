"""C18: every finite training set can be fitted and predicted"""
import numpy as np
import pandas as pd

from harness.core import Sub, Violation, fresh, need, same, st
from harness.fitted import count_splits, read_sample
from harness.gens import COLUMN_KINDS, column, seeds

from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

X_SCALES = [1., 1., 1e-300, 1e-12, 1e12, 1e200]
Y_SCALES = [1., 1., 1e-200, 1e-9, 1e9, 1e120]
OFFSETS = [0., 0., 1., 1e6, -1e8]


@st.composite
def training_sets(draw):
    if draw(st.integers(0, 19)) == 0:
        # many rows, all but one the same
        n = draw(st.sampled_from([300, 2500]))
        at = draw(st.sampled_from([0, n - 1, n // 2]))
        return {"lonely": [n, at, draw(st.sampled_from([-1., 1.]))], "columns": [], "y": [], "y_scale": 1., "y_offset": 0., "y_type": "float", "repeat": 1, "form": "array"}
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7, 10, 25]))
    p = draw(st.integers(1, 5))
    kinds = COLUMN_KINDS + ["dup"]
    columns = []
    for j in range(p):
        kind = draw(st.sampled_from(kinds))
        if kind == "dup" and columns:
            values = list(columns[draw(st.integers(0, len(columns) - 1))]["values"])
        else:
            values = draw(column(n))
        columns.append({"values": values, "scale": draw(st.sampled_from(X_SCALES)),
                        "type": draw(st.sampled_from(["float", "float", "float32", "int", "bool", "uint8"]))})
    y = draw(st.lists(st.integers(-30, 30), min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        y = [y[0]] * n
    repeat = draw(st.sampled_from([1, 1, 1, 2, 5]))
    return {"columns": columns, "y": y, "y_scale": draw(st.sampled_from(Y_SCALES)), "y_offset": draw(st.sampled_from(OFFSETS)),
            "y_type": draw(st.sampled_from(["float", "float", "float32", "int", "uint8", "bool", "series"])),
            "repeat": repeat, "form": draw(st.sampled_from(["array", "array", "frame"]))}


def build(t):
    if "lonely" in t:
        n, at, value = t["lonely"]
        X, y = np.zeros((n, 1)), np.arange(n) % 7.
        X[at, 0] = value
        return X, y
    n = len(t["y"]) * t["repeat"]
    made = []
    for c in t["columns"]:
        v = np.tile(np.array(c["values"], dtype=float), t["repeat"])
        if c["type"] == "float":
            v = v * c["scale"]
        elif c["type"] == "float32":
            v = np.clip(v, -1e30, 1e30).astype(np.float32)
        elif c["type"] == "int":
            v = np.round(np.clip(v, -1e9, 1e9)).astype(np.int64)
        elif c["type"] == "uint8":
            v = (np.abs(v) % 250).astype(np.uint8)
        else:
            v = v > np.median(v)
        made.append(v)
    if t["form"] == "frame":
        X = pd.DataFrame({"v{}".format(j): v for j, v in enumerate(made)})
    else:
        X = np.array([np.asarray(v, dtype=float) for v in made]).T.copy()
    y = np.tile(np.array(t["y"], dtype=float), t["repeat"])
    kind = t["y_type"]
    if kind in ("float", "series"):
        y = y * t["y_scale"] + t["y_offset"] * t["y_scale"]
        if kind == "series":
            y = pd.Series(y, index=np.arange(n)[::-1] + 4)
    elif kind == "float32":
        y = y.astype(np.float32)
    elif kind == "int":
        y = y.astype(np.int64)
    elif kind == "uint8":
        y = (np.abs(y) * 4 + 100).astype(np.uint8)
    else:
        y = y > 0
    return X, y


fits = st.fixed_dictionaries({
    "t": training_sets(),
    "n_trees": st.sampled_from([1, 1, 2, 3, 8]),
    "n_chains": st.integers(1, 2),
    "n_samples": st.integers(1, 12),
    "n_burn": st.integers(0, 12),
    "thin": st.sampled_from([1., 0.5, 0.1]),
    "p_grow": st.sampled_from([0.5, 0.5, 0.001, 0.999, 0.05, 0.95, 0.3]),
    "oblivious": st.booleans(),
    "alpha": st.sampled_from([0.95, 0.999999, 0.5]),
    "beta": st.sampled_from([0.01, 1., 2., 5.]),
    "sigma": st.sampled_from([[0.001, 0.001], [3., 0.1], [100., 100.]]),
    "store": st.booleans(),
    "start": st.sampled_from([None] * 4 + [1, 4]),
    "seed": seeds,
})


def numbers(prediction, n, what):
    prediction = np.asarray(prediction, dtype=float)
    same(list(prediction.shape), [n], "{}: shape".format(what))
    need(bool(np.all(np.isfinite(prediction))), "{}: {} are not all finite", what, prediction)
    return prediction


def run_fits(case):
    fresh(case["seed"])
    X, y = build(case["t"])
    n = len(y)
    make = oblivious_sampler if case["oblivious"] else get_tree_sampler
    start = None
    if case.get("start") and np.abs(np.asarray(X, dtype=float)).max() < 1e38:  # sklearn's trees work in single precision
        start = SklearnTreeInitializer(max_depth=case["start"])
    model = SklearnModel(initializer=start, n_trees=case["n_trees"], n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=case["n_burn"], thin=case["thin"],
                         alpha=case["alpha"], beta=case["beta"], sigma_a=case["sigma"][0], sigma_b=case["sigma"][1],
                         tree_sampler=make(case["p_grow"], 1. - case["p_grow"]), store_in_sample_predictions=case["store"], n_jobs=1)
    model.fit(X, y)
    values = np.asarray(X, dtype=float)
    numbers(model.predict(X), n, "predictions of the training rows")
    with np.errstate(all="ignore"):
        Q = np.concatenate([values * 2., np.zeros_like(values), np.full_like(values, 1e300), np.full_like(values, -1e300), values[::-1]])
    numbers(model.predict(Q), len(Q), "predictions")
    numbers(model.predict(pd.DataFrame(Q[:1])), 1, "prediction of one row")
    numbers(model.residuals(X, np.asarray(y, dtype=float)), n, "residuals")
    if case["store"]:
        numbers(model.predict(), n, "in sample predictions")
    else:
        rejected(lambda: model.predict(), "in sample prediction without stored predictions")
    for s in model.model_samples:
        sigma = float(s.sigma.current_value())
        need(np.isfinite(sigma) and sigma > 0, "sigma of {}", sigma)
    target = np.asarray(y, dtype=float)
    trivial = n > 2 and target.min() < target.max() and any(count_splits(t) for s in model.model_samples for t in read_sample(s))
    edge = n <= 2 or target.min() == target.max() or case["p_grow"] in (0.001, 0.999) or any(v.min() == v.max() for v in values.T) or case["t"]["repeat"] > 1
    return ["nontrivial"] * (1 if edge or trivial else 0) + (["edge"] if edge else [])


def rejected(f, what):
    try:
        f()
    except ValueError:
        return
    except Exception as e:
        raise Violation("{}: {!r} instead of a ValueError".format(what, e))
    raise Violation("{}: accepted instead of raising a ValueError".format(what))


wrong = st.fixed_dictionaries({
    "what": st.sampled_from(["no rows", "no columns", "nothing", "not stored"]),
    "frame": st.booleans(),
    "n": st.integers(1, 5), "p": st.integers(1, 4),
    "fitted": st.booleans(),
    "store": st.booleans(),
    "n_chains": st.integers(1, 2),
    "seed": seeds,
})


def run_wrong(case):
    fresh(case["seed"])
    model = SklearnModel(n_trees=2, n_chains=case["n_chains"], n_samples=3, n_burn=1, thin=1., n_jobs=1, store_in_sample_predictions=case["store"])
    n, p = case["n"], case["p"]
    X, y = np.arange(n * p, dtype=float).reshape(n, p), np.arange(n, dtype=float)
    wrap = pd.DataFrame if case["frame"] else (lambda v: v)
    if case["what"] == "not stored":
        model = SklearnModel(n_trees=2, n_chains=case["n_chains"], n_samples=3, n_burn=1, thin=1., n_jobs=1, store_in_sample_predictions=False)
        model.fit(wrap(X), y)
        rejected(lambda: model.predict(), "in sample prediction without stored predictions")
        rejected(lambda: model.predict(None), "in sample prediction without stored predictions")
        rejected(lambda: model.residuals(), "in sample residuals without stored predictions")
        numbers(model.predict(wrap(X)), n, "predictions after a rejected call")
        numbers(model.fit_predict(wrap(X), y), n, "predictions of the training rows")
        return ["nontrivial"]
    if case["fitted"]:
        model.fit(wrap(X), y)
        before = model.predict(X)
    shape = {"no rows": (0, p), "no columns": (n, 0), "nothing": (0, 0)}[case["what"]]
    rejected(lambda: model.fit(wrap(np.zeros(shape)), np.zeros(shape[0])), "an empty covariate matrix of shape {}".format(shape))
    rejected(lambda: model.fit_predict(wrap(np.zeros(shape)), np.zeros(shape[0])), "an empty covariate matrix of shape {}".format(shape))
    if case["fitted"]:
        need(np.array_equal(model.predict(X), before), "a rejected fit changed the fitted model")
    return ["nontrivial"]


SUBS = [
    Sub("fits", fits, run_fits, 500, 3000,
        "training sets of 1 to 125 rows with constant, duplicated and extreme columns, mixed types and constant targets, both samplers, lopsided probabilities; non-trivial = an edge of the domain (at most two rows, constants, duplicates, lopsided probabilities) or a fit with splits", timeout=60,
        examples=[{"t": {"lonely": [3000, 5, -1.], "columns": [], "y": [], "y_scale": 1., "y_offset": 0., "y_type": "float", "repeat": 1, "form": "array"}, "n_trees": 3, "n_chains": 1, "n_samples": 3, "n_burn": 3,
                   "thin": 1., "p_grow": 0.5, "oblivious": o, "alpha": 0.95, "beta": 2., "sigma": [3., 0.1], "store": True, "seed": 8} for o in (False, True)]),
    Sub("wrong", wrong, run_wrong, 60, 400, "empty matrices and in-sample prediction without stored predictions; all cases non-trivial"),
]
ASSUMPTIONS = ["covariates and targets are finite and the range of the target does not overflow"]
