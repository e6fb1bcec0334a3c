"""C11: predictions are the mean over samples of the sum of trees"""
import numpy as np
import pandas as pd

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, estimator, evaluate, evaluate_sample, expected_prediction, read_sample, read_tree, root_of, settings_strategy, to_units
from harness.gens import arrays, dataset, index, query_points, seeds

fits = st.fixed_dictionaries({
    "data": dataset(n=(2, 14), p=(1, 4)),
    "settings": settings_strategy,
    "extra": st.lists(st.lists(index, min_size=1, max_size=4), min_size=1, max_size=4),
    "order": seeds,
    "many": st.sampled_from([0] * 6 + [129, 257, 501, 1001, 1025, 2001, 5003, 20011]),
    "store": st.booleans(),
    "frame": st.sampled_from(["none", "train", "mixed"]),
    "how": st.sampled_from(["fit", "fit", "fit_predict", "series"]),
})


def run_fit(case):
    X, y = arrays(case["data"])
    Q = query_points(X, case["extra"])
    fresh(case["settings"]["seed"])
    model = estimator(case["settings"], store_in_sample_predictions=case["store"])
    train = X.copy()
    if case["frame"] == "train":
        # names in no particular order
        train = pd.DataFrame(train, columns=["c{}".format((7 * j + 5) % 17) for j in range(X.shape[1])])
    elif case["frame"] == "mixed":
        train = pd.DataFrame(train)
        whole = [j for j in range(X.shape[1]) if np.all(X[:, j] == np.round(X[:, j])) and np.abs(X[:, j]).max() < 2 ** 30]
        for j in whole[::2]:
            train[j] = train[j].astype(int)
    at_once = None
    if case.get("how") == "fit_predict":
        at_once = model.fit_predict(train, y.copy())
    elif case.get("how") == "series":  # whose index says nothing about rows
        model.fit(train, pd.Series(y.copy(), index=np.arange(len(y))[::-1]))
    else:
        model.fit(train, y.copy())
    for sample in model.model_samples:
        close([float(sample.alpha), float(sample.beta), len(sample.trees)], [model.alpha, model.beta, model.n_trees], "depth prior and trees of a sample", rtol=1e-12)
    span = float(y.max() - y.min()) + abs(y).max() * 1e-6 + 1e-12
    tolerance = 1e-9 * span

    reads = [read_sample(s) for s in model.model_samples]
    expected = to_units(np.mean([evaluate_sample(r, Q) for r in reads], axis=0), y)
    got = model.predict(Q)
    close(got, expected, "prediction for new rows", rtol=1e-10, atol=tolerance)
    in_expected = to_units(np.mean([evaluate_sample(r, X) for r in reads], axis=0), y)
    close(model.predict(X), in_expected, "prediction for the training rows passed as new rows", rtol=1e-10, atol=tolerance)
    if at_once is not None:
        close(at_once, in_expected, "prediction made along with the fit", rtol=1e-10, atol=tolerance)
    if case["store"]:
        close(model.predict(), in_expected, "in sample prediction", rtol=1e-10, atol=tolerance)
        stored = np.asarray(model.prediction_samples)
        same(list(stored.shape), [len(reads), len(X)], "shape of the stored prediction samples")
        for i, r in enumerate(reads):
            close(stored[i], evaluate_sample(r, X), "stored prediction sample {}".format(i), rtol=1e-9, atol=1e-10)
    # every sample and tree on its own
    for s, r in zip(model.model_samples, reads):
        close(s.predict(Q), evaluate_sample(r, Q), "prediction of one stored sample", rtol=1e-9, atol=1e-10)
        for t, rt in zip(s.trees, r):
            close(t.predict(Q), evaluate(rt, Q), "prediction of one stored tree", rtol=0, atol=0)
    # rows do not depend on one another
    order = np.random.RandomState(case["order"]).permutation(len(Q))
    close(model.predict(Q[order]), expected[order], "prediction of reordered rows", rtol=1e-10, atol=tolerance)
    some = order[:max(1, len(order) // 3)]
    close(model.predict(Q[some]), expected[some], "prediction of a part of the rows", rtol=1e-10, atol=tolerance)
    for i in order[:3]:
        close(model.predict(Q[i:i + 1]), expected[i:i + 1], "prediction of a single row", rtol=1e-10, atol=tolerance)
    close(model.predict(np.concatenate([Q, Q])), np.concatenate([expected, expected]), "prediction of rows given twice", rtol=1e-10, atol=tolerance)
    if case.get("many"):
        picked = np.random.RandomState(case["order"]).randint(len(Q), size=case["many"])
        close(model.predict(Q[picked]), expected[picked], "prediction of many rows", rtol=1e-10, atol=tolerance)
        close(model.predict(pd.DataFrame(Q[picked])), expected[picked], "prediction of a DataFrame of many rows", rtol=1e-10, atol=tolerance)
    # containers
    close(model.predict(pd.DataFrame(Q)), expected, "prediction for a DataFrame", rtol=1e-10, atol=tolerance)
    close(model.predict(pd.DataFrame(Q[order], index=order + 5, columns=[("x{}" if case["order"] % 2 else "{}").format(99 - j) for j in range(Q.shape[1])])), expected[order],
          "prediction for a DataFrame with an index and names", rtol=1e-10, atol=tolerance)
    close(model.predict(pd.DataFrame(Q, columns=list(range(Q.shape[1]))[::-1], index=[3] * len(Q))), expected, "prediction for a DataFrame with repeated index and numbers as names",
          rtol=1e-10, atol=tolerance)
    close(model.predict(np.asfortranarray(Q)), expected, "prediction for an array in column order", rtol=1e-10, atol=tolerance)
    whole = np.round(np.clip(X, -1e6, 1e6)).astype(int)
    close(model.predict(whole), to_units(np.mean([evaluate_sample(r, whole.astype(float)) for r in reads], axis=0), y),
          "prediction for integer covariates", rtol=1e-10, atol=tolerance)
    # as many rows as in training, also in an array used before
    again = X.copy()
    for S in (X, X[::-1], np.roll(X, 1, axis=0), (X[::-1] + X) / 2.):
        again[:] = S
        close(model.predict(again), to_units(np.mean([evaluate_sample(r, S) for r in reads], axis=0), y),
              "prediction of as many rows as in training", rtol=1e-10, atol=tolerance)
    # predicting changes nothing
    close(model.predict(Q), got, "prediction asked for again", rtol=0, atol=0)
    splits = sum(count_splits(t) for r in reads for t in r)
    labels = []
    if splits >= 1 and len(reads) >= 2:
        labels.append("nontrivial")
    if splits >= 10:
        labels.append("ten splits or more")
    return labels


SUBS = [
    Sub("fits", fits, run_fit, 220, 1500,
        "generated data and settings (trees, chains, samples, thinning, both samplers); stored samples read independently; non-trivial = at least two samples and one split",
        examples=[{"data": {"X": [[0.], [1.], [2.]], "y": [0., 1., 5.]}, "settings": {"n_trees": 2, "n_chains": 2, "n_samples": 5, "n_burn": 5, "thin": 1., "alpha": .99, "beta": .2, "sigma_a": 3., "sigma_b": .3, "sampler": "default", "seed": 2},
                   "extra": [[0]], "order": 1, "store": True, "frame": "none", "many": 70001},
                  {"data": {"X": [[0.], [1.], [2.], [4.]], "y": [0., 1., 5., 2.]}, "settings": {"n_trees": 1, "n_chains": 2, "n_samples": 1300, "n_burn": 0, "thin": 1., "alpha": .95, "beta": 1., "sigma_a": 3., "sigma_b": .3, "sampler": "default", "seed": 5},
                   "extra": [[1]], "order": 1, "store": True, "frame": "none", "many": 0, "how": "fit_predict"}]),
]
ASSUMPTIONS = ["covariates are finite"]
