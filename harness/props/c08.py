"""C08: sigma is drawn from its exact conditional posterior"""
import numpy as np
from scipy import stats as ss

from harness.core import Sub, close, fresh, need, same, st
from harness.drive import Driven
from harness.gens import arrays, dataset, index, mostly, seeds, staircase
from harness.stats import successive_independent, uniform_sample

from bartpy.data import make_bartpy_data
from bartpy.model import Model
from bartpy.node import LeafNode
from bartpy.samplers.sigma import SigmaSampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.split import Split
from bartpy.tree import Tree

posterior = st.fixed_dictionaries({
    "data": mostly(dataset(n=(1, 14), p=(1, 3), constant_ok=False), staircase(rows=(41, 131), columns=(1, 2), kinds=["distinct"]), 4),
    "a": st.sampled_from([0.001, 1., 3., 20., 200.]),
    "b": st.sampled_from([0.001, 0.5, 2., 10., 1e-6, 1e-9, 1e4, 1e8]),
    "trees": mostly(st.lists(st.lists(st.tuples(index, index, index), max_size=4), min_size=1, max_size=4),
                    st.lists(st.lists(st.tuples(index, index, index), max_size=2), min_size=8, max_size=30), 6),
    "values": st.lists(st.integers(-8, 8), min_size=6, max_size=6),
    "perfect": st.sampled_from([False, False, True]),
    "start": st.sampled_from([1., 0.1, 25.]),
    "scaling": st.sampled_from([1., 7.5, 0.01, 0., 1e5]),
    "seed": seeds,
    "draws": st.sampled_from([1500] * 9 + [30000]),
})


def run_posterior(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    data = make_bartpy_data(X.copy(), y.copy(), normalize=True)
    lo, hi = y.min(), y.max()
    normal = np.zeros(len(y)) if lo == hi else (y - lo) / (hi - lo) - 0.5
    trees, fitted = [], np.zeros(len(y))
    for t, grows in enumerate(case["trees"]):
        d = Driven(X, normal, tree=Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=True)))]))
        for i, j, k in grows:
            d.grow(i, j, k)
        for n, r in enumerate(d.leaves()):
            value = case["values"][(t + n) % 6] / 16.
            r.lib.set_value(value)
            fitted[r.rows] += value
        d.tree.update_y(normal / len(case["trees"]))  # as during sampling: a tree's own target is not the model's
        trees.append(d.tree)
    sigma = Sigma(case["a"], case["b"], case["scaling"])
    sigma.set_value(case["start"])
    model = Model(data, sigma, trees=trees)
    if case.get("perfect"):
        # one tree that fits almost perfectly: sigma becomes tiny
        d = Driven(X, normal, tree=Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=True)))]))
        while len(d.leaves()) < 16 and d.grow(0, 0, 0):
            pass
        fitted = np.zeros(len(y))
        for r in d.leaves():
            value = float(np.mean(normal[r.rows])) + case["values"][0] / 1e5
            r.lib.set_value(value)
            fitted[r.rows] = value
        trees = [d.tree]
        model = Model(data, sigma, trees=trees)
    residual = normal - fitted
    shape, rate = case["a"] + len(y) / 2., case["b"] + 0.5 * float(np.sum(residual ** 2))
    sampler = SigmaSampler()
    draws = []
    for _ in range(case["draws"]):
        value = float(sampler.step(model, sigma))
        draws.append(value)
    close(sigma.current_value(), draws[-1], "sigma after a draw", rtol=0, atol=0)
    close(model.sigma.current_value(), draws[-1], "sigma of the model after a draw", rtol=0, atol=0)
    close(sigma.current_unnormalized_value(), draws[-1] * case["scaling"], "sigma in original units", rtol=1e-12)
    draws = np.array(draws)
    need(np.all(draws > 0), "sigma is not positive")
    u = ss.gamma.cdf(draws ** -2., shape, scale=1. / rate)
    uniform_sample(u, "draws of sigma (shape {}, rate {})".format(shape, rate))
    successive_independent(u, "draws of sigma")
    # the model changes: the next draws follow what it predicts now
    moved = 0
    fitted = np.zeros(len(y))
    for tree in model.trees:
        for leaf in tree.leaf_nodes:
            leaf.set_value(float(leaf.current_value) + [0.25, -0.5, 1.][moved % 3])
            moved += 1
            fitted[np.asarray(leaf.split.condition()).astype(bool)] += leaf.current_value
    for tree in model.trees:
        tree.update_y(normal / len(model.trees))
    rate = case["b"] + 0.5 * float(np.sum((normal - fitted) ** 2))
    later = np.array([float(sampler.step(model, sigma)) for _ in range(case["draws"] // 3)])
    uniform_sample(ss.gamma.cdf(later ** -2., shape, scale=1. / rate), "draws of sigma after the model changed")
    labels = []
    if np.any(fitted != 0) and len(y) >= 2:
        labels.append("nontrivial")
    labels.append("n = 1" if len(y) == 1 else "n > 1")
    return labels


units = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), constant_ok=False),
    "a": st.sampled_from([0.001, 3.]), "b": st.sampled_from([0.001, 2.]),
    "seed": seeds, "n_trees": st.integers(1, 3),
})


def run_units(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    model = SklearnModel(n_trees=case["n_trees"], n_chains=1, n_samples=3, n_burn=2, thin=1., sigma_a=case["a"], sigma_b=case["b"], n_jobs=1)
    model.fit(X.copy(), y.copy())
    spread = float(y.max() - y.min())
    for sample in model.model_samples:
        close(sample.sigma.current_unnormalized_value(), float(sample.sigma.current_value()) * spread, "sigma in original units", rtol=1e-9)
        close([sample.sigma.alpha, sample.sigma.beta], [case["a"], case["b"]], "prior of sigma", rtol=0, atol=0)
    return ["nontrivial"] if spread != 1. and spread > 0 else []


SUBS = [
    Sub("posterior", posterior, run_posterior, 200, 300,
        "generated data, trees with values, prior parameters and starting points; 1500 draws (30000 in one case of ten) each through the exact inverse gamma distribution function; non-trivial = the trees predict something other than zero",
        examples=[{"data": {"X": [[0.], [1.], [2.]], "y": [0., 1., 5.]}, "a": 3., "b": 2., "trees": [[[0, 0, 0]], []], "values": [8, -8, 4, 2, 1, 0], "start": 1., "scaling": 7.5, "seed": 1, "draws": 20000}]),
    Sub("units", units, run_units, 250, 500,
        "fits of generated data: reported sigma against the target's range; non-trivial = the range is not 1"),
]
