"""C12: target scaling is invertible and fits are affine equivariant"""
import numpy as np
import pandas as pd

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, estimator, read_sample, settings_strategy
from harness.gens import arrays, dataset, index, seeds

from bartpy.data import make_bartpy_data

DTYPES = ["float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8"]

scaling = st.fixed_dictionaries({
    "y": st.lists(st.integers(-10 ** 6, 10 ** 6), min_size=1, max_size=12),
    "scale": st.sampled_from([1., 1e-6, 1e6, 0.37, 2. ** -20, 1e-15, 1e-30, 1e25]),
    "offset": st.sampled_from([0., 0., 1., -1e6, 1e3]),
    "values": st.lists(st.integers(-3000, 3000).map(lambda v: v / 1000.), min_size=1, max_size=8),
})


def run_scaling(case):
    fresh(0)
    y = np.array(case["y"], dtype=float) * case["scale"] + case["offset"]
    X = np.arange(len(y), dtype=float).reshape(-1, 1)
    data = make_bartpy_data(X, y.copy(), normalize=True)
    lo, hi = float(y.min()), float(y.max())
    span = hi - lo
    normal = np.asarray(data.y.values)
    need(np.all(np.isfinite(normal)), "the normalized target is not finite")
    need(normal.min() >= -0.5 - 1e-12 and normal.max() <= 0.5 + 1e-12, "the normalized target leaves [-0.5, 0.5]: {}", normal.tolist())
    tolerance = 1e-14 * (abs(lo) + abs(hi)) + 1e-14 * span
    if span > 0:
        close([normal[y.argmin()], normal[y.argmax()]], [-0.5, 0.5], "ends of the normalized target", rtol=0, atol=1e-12)
        close(normal, (y - lo) / span - 0.5, "normalized target", rtol=0, atol=1e-14)
    close(data.y.unnormalized_y, y, "target after a round trip", rtol=0, atol=tolerance)
    close(data.y.unnormalize_y(normal), y, "unnormalized target", rtol=0, atol=tolerance)
    v = np.array(case["values"])
    close(data.y.unnormalize_y(v), lo + (v + 0.5) * span, "unnormalized values", rtol=0, atol=10 * tolerance)
    close(data.y.normalizing_scale, span, "scale of the target", rtol=1e-12)
    again = make_bartpy_data(X, y.copy(), normalize=False)
    close(again.y.values, y, "target that is not to be normalized", rtol=0, atol=0)
    return ["nontrivial"] if len(set(y.tolist())) >= 3 else []


affine = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), kinds=["distinct", "grid", "binary", "skew", "onediff", "const"], constant_ok=False),
    "settings": settings_strategy,
    "a": st.sampled_from([2., 0.5, 1024., 3., 0.1, 1e-4, 777.7, 1., 1e-12, 1e12]),
    "b": st.sampled_from([0., 1., -5., 1000., 0.1, -1e5]),
})


def fit(case, X, y):
    fresh(case["settings"]["seed"])
    model = estimator(case["settings"], store_in_sample_predictions=True)
    return model.fit(X.copy(), y)


def results(model, X):
    return (np.asarray(model.predict(X)), np.asarray(model.predict()), np.array([float(s.sigma.current_unnormalized_value()) for s in model.model_samples]),
            np.array([float(s.sigma.current_value()) for s in model.model_samples]), np.asarray(model.prediction_samples))


def grid_values(y):
    """Targets of at most 8 bit precision, so that every numeric type can hold them"""
    lo, hi = y.min(), y.max()
    return np.round((y - lo) / (hi - lo) * 120.) if hi > lo else np.zeros(len(y))


def run_affine(case):
    X, y = arrays(case["data"])
    y = grid_values(y)
    a, b = case["a"], case["b"]
    b = float(np.clip(b, -1e4 * a, 1e4 * a))  # beyond that the offset costs the target its precision
    base = results(fit(case, X, y), X)
    moved = results(fit(case, X, y * a + b), X)
    size = a * 120. + abs(b)
    close(moved[0], base[0] * a + b, "prediction after moving the target", rtol=0, atol=1e-7 * size)
    close(moved[1], base[1] * a + b, "in sample prediction after moving the target", rtol=0, atol=1e-7 * size)
    close(moved[2], base[2] * a, "sigma after moving the target", rtol=1e-6, atol=0)
    close(moved[3], base[3], "normalized sigma after moving the target", rtol=1e-6, atol=0)
    close(moved[4], base[4], "normalized prediction samples after moving the target", rtol=0, atol=1e-7)
    return ["nontrivial"] if len(set(y.tolist())) >= 2 and (a != 1 or b != 0) else []


types = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), kinds=["distinct", "grid", "binary", "skew", "onediff", "const"], constant_ok=False),
    "settings": settings_strategy,
    "dtype": st.sampled_from(DTYPES),
    "shift": st.sampled_from([0, 0, -100, -60, 7]),
    "layout": st.sampled_from(["plain", "reversed", "strided", "series"]),
})


def run_types(case):
    X, y = arrays(case["data"])
    y = grid_values(y)
    if case["dtype"] == "int8":
        # the whole range of the type, the difference of its ends does not fit into it
        y = np.where(y == y.max(), 127., np.where(y == y.min(), -128., y + case["shift"] if case["shift"] in (-100, -60) else y))
    elif case["dtype"] == "uint8":
        y = y * 2
    else:
        y = y + case["shift"]
    typed = y.astype(case["dtype"])
    need(np.array_equal(typed.astype(float), y), "generator made a target the type cannot hold")
    if case["layout"] == "reversed":
        typed = typed[::-1].copy()[::-1]
    elif case["layout"] == "strided":
        typed = np.repeat(typed, 2)[::2]
    elif case["layout"] == "series":  # positions count, not labels
        typed = pd.Series(typed, index=(np.arange(len(typed)) * 5 + 3) % (len(typed) + 1))
    base = results(fit(case, X, y.copy()), X)
    other = results(fit(case, X, typed), X)
    for i, what in enumerate(["prediction", "in sample prediction", "sigma", "normalized sigma", "prediction samples"]):
        close(other[i], base[i], "{} for a target of type {}".format(what, case["dtype"]), rtol=1e-6, atol=1e-6)
    return ["nontrivial"] if case["dtype"] != "float64" or case["layout"] == "series" else []


SUBS = [
    Sub("scaling", scaling, run_scaling, 600, 5000,
        "generated targets (scales, offsets, constant ones, single rows) and normalized values to map back; non-trivial = at least three distinct targets"),
    Sub("affine", affine, run_affine, 130, 900,
        "pairs of fits from the same random state on a target and on its affine image; non-trivial = the target is not constant and really moved"),
    Sub("types", types, run_types, 110, 700,
        "pairs of fits from the same random state on a target as float and as another numeric type or memory layout; non-trivial = another type",
        examples=[{"data": {"X": [[0.], [1.], [2.], [3.]], "y": [0., 30., 60., 120.]}, "dtype": "int8", "shift": 0, "layout": "plain",
                   "settings": {"n_trees": 2, "n_chains": 1, "n_samples": 5, "n_burn": 5, "thin": 1., "alpha": .99, "beta": .2, "sigma_a": 3., "sigma_b": .3, "sampler": "default", "seed": 2}}]),
]
ASSUMPTIONS = ["same random state: numpy's generator seeded alike and the library's cached draws as after import"]
