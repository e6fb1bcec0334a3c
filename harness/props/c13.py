"""C13: only the order of covariate values matters"""
import numpy as np
import pandas as pd

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, estimator, read_sample, settings_strategy, split_variables
from harness.gens import arrays, dataset, index, seeds

KINDS = ["distinct", "grid", "binary", "skew", "onediff", "wide"]
monotone = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 4), kinds=KINDS + ["const"], constant_ok=False),
    "settings": settings_strategy,
    "start": st.lists(st.integers(-10 ** 6, 10 ** 6), min_size=6, max_size=6),
    "gaps": st.lists(st.sampled_from([1e-3, 1., 0.5, 17., 1e4, 0.1, 2. ** -30, 1e8, 1e16, 1e120]), min_size=5, max_size=12),
    "which": st.lists(st.booleans(), min_size=6, max_size=6),
    "extra": st.lists(st.lists(index, min_size=4, max_size=4), min_size=1, max_size=5),
})


def transform(case, X):
    """For every chosen column new values in the same order; returns them and the map"""
    maps = []
    for j in range(X.shape[1]):
        values = sorted(set(X[:, j].tolist()))
        if not case["which"][j % 6]:
            maps.append({v: v for v in values})
            continue
        if case["start"][(j + 1) % 6] % 3 == 0:
            # as close together as numbers can be
            at, m = float(case["start"][j % 6]) / 1000., {}
            for v in values:
                m[v] = at
                at = float(np.nextafter(at, np.inf))
            maps.append(m)
            continue
        at, m = float(case["start"][j % 6]) / 1000., {}
        for n, v in enumerate(values):
            m[v] = at
            step = case["gaps"][(n + j) % len(case["gaps"])]
            at = max(at + step, float(np.nextafter(at, np.inf)))
        maps.append(m)
    return maps


def mapped(X, maps):
    return np.array([[maps[j][v] for j, v in enumerate(row)] for row in X.tolist()], dtype=float)


def fit(case, X, y):
    fresh(case["settings"]["seed"])
    return estimator(case["settings"], store_in_sample_predictions=True).fit(X.copy(), y.copy())


def run_monotone(case):
    X, y = arrays(case["data"])
    maps = transform(case, X)
    Z = mapped(X, maps)
    a, b = fit(case, X, y), fit(case, Z, y)
    span = float(y.max() - y.min()) + abs(y).max() * 1e-9
    close(b.predict(), a.predict(), "in sample prediction after a monotone transformation", rtol=1e-9, atol=1e-9 * span)
    close(b.predict(Z), a.predict(X), "prediction of the training rows after a monotone transformation", rtol=1e-9, atol=1e-9 * span)
    Q = np.array([[X[e[j % 4] % len(X), j] for j in range(X.shape[1])] for e in case["extra"]])
    close(b.predict(mapped(Q, maps)), a.predict(Q), "prediction of rows made of training values after a monotone transformation", rtol=1e-9, atol=1e-9 * span)
    close([float(s.sigma.current_value()) for s in b.model_samples], [float(s.sigma.current_value()) for s in a.model_samples],
          "sigma after a monotone transformation", rtol=1e-9, atol=0)
    used = set(v for s in a.model_samples for t in read_sample(s) for v in split_variables(t))
    changed = {j for j in range(X.shape[1]) if not np.array_equal(X[:, j], Z[:, j])}
    return ["nontrivial"] if used & changed else []


constants = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), kinds=KINDS, constant_ok=False),
    "settings": settings_strategy,
    "insert": st.lists(st.tuples(index, st.sampled_from([0., 1., -3.5, 1e9, -1e-9])), min_size=1, max_size=3),
})


def run_constants(case):
    X, y = arrays(case["data"])
    columns = [(X[:, j], False) for j in range(X.shape[1])]
    for where, value in case["insert"]:
        columns.insert(where % (len(columns) + 1), (np.full(len(X), value), True))
    Z = np.array([c for c, _ in columns]).T.copy()
    constant = {j for j in range(Z.shape[1]) if np.all(Z[:, j] == Z[0, j])}
    a, b = fit(case, X, y), fit(case, Z, y)
    for s in b.model_samples:
        for t in read_sample(s):
            need(not (set(split_variables(t)) & constant), "a constant covariate was split on")
    span = float(y.max() - y.min()) + abs(y).max() * 1e-9
    close(b.predict(), a.predict(), "in sample prediction after adding constant covariates", rtol=1e-9, atol=1e-9 * span)
    close(b.predict(Z), a.predict(X), "prediction after adding constant covariates", rtol=1e-9, atol=1e-9 * span)
    W = Z.copy()
    for j in constant:
        W[:, j] += 10.
    close(b.predict(W), a.predict(X), "prediction for other values of covariates that were constant", rtol=1e-9, atol=1e-9 * span)
    return ["nontrivial"] if any(count_splits(t) for s in a.model_samples for t in read_sample(s)) else []


SUBS = [
    Sub("monotone", monotone, run_monotone, 130, 900,
        "pairs of fits from the same random state on covariates and on strictly increasing images of them; non-trivial = a transformed covariate is used in a split"),
    Sub("constants", constants, run_constants, 130, 900,
        "pairs of fits from the same random state with and without constant covariates at generated places; non-trivial = some split was made",
        examples=[{"data": {"X": [[0.], [1.], [2.], [5.]], "y": [0., 1., 5., 9.]}, "insert": [[0, 1.], [2, -3.5]],
                   "settings": {"n_trees": 3, "n_chains": 2, "n_samples": 6, "n_burn": 6, "thin": 1., "alpha": .99, "beta": .2, "sigma_a": 3., "sigma_b": .3, "sampler": "default", "seed": 2}}]),
]
ASSUMPTIONS = ["same random state: numpy's generator seeded alike and the library's cached draws as after import"]
