"""C25: errors of a fitted model are those of its predictions"""
import numpy as np
import pandas as pd
from sklearn.metrics import r2_score

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, estimator, evaluate_sample, expected_prediction, read_sample, settings_strategy
from harness.gens import arrays, dataset, index, query_points, seeds

from bartpy.data import make_bartpy_data
from bartpy.model import Model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma

cases = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), constant_ok=False),
    "s": settings_strategy,
    "stored": st.booleans(),
    "form": st.sampled_from(["array", "frame", "series"]),
    "other": st.lists(st.integers(-30, 30), min_size=5, max_size=20),
    "extra": st.lists(st.lists(index, min_size=3, max_size=3), max_size=4),
})


def run(case):
    s = dict(case["s"])
    fresh(s["seed"])
    X, y = arrays(case["data"])
    model = estimator(s, store_in_sample_predictions=case["stored"])
    model.fit(X.copy(), y.copy())
    wrap = pd.DataFrame if case["form"] != "array" else (lambda v: np.array(v))
    target = (lambda v: pd.Series(v, index=np.arange(len(v)) * 2 + 7)) if case["form"] == "series" else (lambda v: np.array(v))
    unit = max(np.abs(y).max(), 1e-300)
    tight = dict(rtol=1e-8, atol=1e-9 * unit)

    def sets():
        yield X, y
        Q = query_points(X, case["extra"])
        yield Q, np.resize(np.array(case["other"], dtype=float), len(Q)) * unit / 10.
        yield Q[:1], np.array([3. * unit])
        yield X[::-1], y
    for Q, t in sets():
        f = expected_prediction(model, Q, y)
        expected = t - f
        close(np.asarray(model.residuals(wrap(Q), target(t))), expected, "residuals", **tight)
        close(np.asarray(model.l2_error(wrap(Q), target(t))), expected ** 2, "squared errors", rtol=1e-7, atol=1e-8 * unit ** 2)
        total = float(np.sum(expected ** 2))
        close(float(model.rmse(wrap(Q), target(t))), np.sqrt(total), "summed error", rtol=1e-7, atol=1e-8 * unit)
        if len(t) > 1 and t.min() < t.max():
            spread = float(np.sum((t - t.mean()) ** 2))
            close(float(model.score(wrap(Q), target(t))), 1. - total / spread, "score", rtol=1e-6, atol=1e-6 * max(1., total / spread))
    # whatever type the target is of
    f = expected_prediction(model, X, y)
    for kind in ("int8", "uint8", "float16", "float32", "int64", "bool"):
        t = np.resize(np.abs(np.array(case["other"])) if kind == "uint8" else np.array(case["other"]), len(y)).astype(kind)
        expected = t.astype(float) - f
        close(np.asarray(model.residuals(wrap(X), target(t)), dtype=float), expected, "residuals of a target of type {}".format(kind), rtol=1e-8, atol=1e-9 * max(unit, 30.))
        close(np.asarray(model.l2_error(wrap(X), target(t)), dtype=float), expected ** 2, "squared errors of a target of type {}".format(kind), rtol=1e-7, atol=1e-8 * max(unit, 30.) ** 2)
        close(float(model.rmse(wrap(X), target(t))), np.sqrt(float(np.sum(expected ** 2))), "summed error of a target of type {}".format(kind), rtol=1e-7, atol=1e-8 * max(unit, 30.))
    own = y - f
    close(np.asarray(model.residuals(wrap(X))), own, "residuals of the training rows", **tight)
    close(np.asarray(model.l2_error(wrap(X))), own ** 2, "squared errors of the training rows", rtol=1e-7, atol=1e-8 * unit ** 2)
    if len(X) > 1:  # as many rows as there were in training, but other ones
        for Q in (X[::-1], np.roll(X, 1, axis=0), np.tile(X[:1], (len(X), 1))):
            mine = y - expected_prediction(model, Q, y)
            close(np.asarray(model.residuals(wrap(Q))), mine, "residuals of other rows against the training target", **tight)
            close(np.asarray(model.l2_error(wrap(Q))), mine ** 2, "squared errors of other rows against the training target", rtol=1e-7, atol=1e-8 * unit ** 2)
    # the score is sklearn's, also for weighted rows and constant targets
    f = np.asarray(model.predict(X), dtype=float)
    weights = np.resize(np.abs(np.array(case["other"], dtype=float)) + 0.5, len(y))
    level = max(1., float(np.sum((y - f) ** 2)) / max(float(np.sum((y - y.mean()) ** 2)), 1e-300))
    if len(y) > 1:
        close(float(model.score(wrap(X), target(y), sample_weight=weights)), r2_score(y, f, sample_weight=weights), "weighted score", rtol=1e-6, atol=1e-6 * level)
        flat = np.full(len(y), 5. * unit)
        if np.abs(flat - f).max() > 1e-6 * unit:
            close(float(model.score(wrap(X), target(flat))), r2_score(flat, f), "score of a constant target")
    if case["stored"]:
        close(np.asarray(model.residuals()), own, "in sample residuals", **tight)
        close(np.asarray(model.l2_error()), own ** 2, "in sample squared errors", rtol=1e-7, atol=1e-8 * unit ** 2)
        other = np.resize(np.array(case["other"], dtype=float), len(y))
        close(np.asarray(model.residuals(None, other)), other - expected_prediction(model, X, y), "residuals of given targets", rtol=1e-8, atol=1e-9 * max(unit, 30.))
    return ["nontrivial"] if any(count_splits(t) for x in model.model_samples for t in read_sample(x)) else []


# ---- of a model being sampled
live = st.fixed_dictionaries({
    "data": dataset(n=(1, 12), p=(1, 3)),
    "n_trees": st.integers(1, 4),
    "sweeps": st.integers(0, 6),
    "seed": seeds,
})


def run_live(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    data = make_bartpy_data(X.copy(), y.copy(), normalize=True)
    model = Model(data, Sigma(0.5, 0.1, data.y.normalizing_scale), n_trees=case["n_trees"], initializer=None)
    sampler = ModelSampler(SampleSchedule(get_tree_sampler(0.7, 0.3), LeafNodeSampler(), SigmaSampler()))
    lo, hi = y.min(), y.max()
    scale = hi - lo
    unit = max(np.abs(y).max(), 1e-300)
    # (for a constant target any fixed normalized value will do)
    normal = (y - lo) / scale - 0.5 if scale > 0 else np.array(model.data.y.values, dtype=float)
    for sweep in range(case["sweeps"] + 1):
        if sweep:
            sampler.samples(model, 1, 0, 1., False, False)
        f = evaluate_sample(read_sample(model), X)
        close(model.predict(), f, "prediction of a model being sampled", rtol=1e-8, atol=1e-9)
        close(model.predict(X), f, "prediction of the training rows as new data", rtol=1e-8, atol=1e-9)
        close(model.residuals(), normal - f, "normalized residuals", rtol=1e-8, atol=1e-9)
        if scale > 0:
            close(model.unnormalized_residuals(), (normal - f) * scale, "residuals in units of the target", rtol=1e-7, atol=1e-9 * unit + 1e-9 * scale)
    return ["nontrivial"] if case["sweeps"] >= 2 and len(y) > 1 else []


SUBS = [
    Sub("errors", cases, run, 130, 1100,
        "fitted models and evaluation sets in several forms; every error recomputed from predictions read off the stored trees; non-trivial = the trees have splits"),
    Sub("live", live, run_live, 120, 1000,
        "residuals of a model between sweeps; non-trivial = at least two sweeps on at least two rows"),
]
ASSUMPTIONS = ["rmse is the square root of the sum of squared errors, as its documentation says"]
