"""C07: leaf values are drawn from their exact conditional posterior"""
import math

import numpy as np
from scipy import stats as ss

from harness.core import Sub, close, fresh, need, same, st
from harness.drive import Driven
from harness.gens import mostly, staircase, arrays, dataset, index, seeds
from harness.stats import successive_independent, uncorrelated, uniform_sample

from bartpy.data import make_bartpy_data
from bartpy.model import Model
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.tree import Tree

common = {
    "data": mostly(dataset(n=(1, 14), p=(1, 3)), staircase(rows=(30, 60), columns=(1, 2, 5)), 8),
    "y_scale": st.sampled_from([0.3, 0.01, 5., 0.3, 200.]),
    "ops": st.lists(st.tuples(st.sampled_from(["grow", "grow", "grow", "prune", "y", "grow", "deep"]), index, index, index), max_size=7),
    "k": st.sampled_from([2., 1., 3.5, 0.5, 12., 0.04]),
    "sigma": st.sampled_from([1., 0.05, 0.3, 4., 0.002, 70.]),
    "n_trees": st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([51, 101, 202])),
    "seed": seeds,
}
settings = st.fixed_dictionaries({k: common[k] for k in ("k", "sigma", "n_trees")})
exact = st.fixed_dictionaries(dict(common, then=st.lists(settings, max_size=2), z=st.integers(-400, 400).map(lambda v: v / 100.), presort=st.booleans()))


class Fixed(object):
    def __init__(self, z):
        self.z, self.calls = z, 0

    def sample(self):
        self.calls += 1
        return self.z


def setup(case):
    X, y = arrays(case["data"])
    y = (y - np.median(y)) / (np.abs(y).max() + 1e-9) * case["y_scale"] + 0.1 * case["y_scale"]
    d = Driven(X, y)
    for op, i, j, k in case["ops"]:
        if op == "grow":
            d.grow(i, j, k)
        elif op == "prune":
            d.prune(i)
        elif op == "deep":
            d.deepen(1 + i % 30, j, k % 2 == 0)
        else:
            d.update_y(np.roll(d.y, i) * (1 + j % 2) - 0.01 * k)
    return d, model_of(d, case)


def model_of(d, case):
    X, y = d.X, d.y
    sigma = Sigma(1., 1., 1.)
    sigma.set_value(case["sigma"])
    # the number of trees is what the model was made of, however it was made
    if case["n_trees"] % 2:
        others = [Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=False)))]) for _ in range(case["n_trees"] - 1)]
        model = Model(d.tree.nodes[0].data, sigma, trees=[d.tree] + others, k=case["k"])
    else:
        model = Model(make_bartpy_data(X.copy(), y.copy(), normalize=False), sigma, n_trees=case["n_trees"], k=case["k"], initializer=None)
    return model


def posterior(case, d, ref):
    sigma_mu = 0.5 / (case["k"] * math.sqrt(case["n_trees"]))
    n, total = int(ref.rows.sum()), float(np.sum(d.y[ref.rows]))
    precision = 1. / sigma_mu ** 2 + n / case["sigma"] ** 2
    return (total / case["sigma"] ** 2) / precision, math.sqrt(1. / precision)


def run_exact(case):
    fresh(case["seed"])
    d, model = setup(case)
    scalar = Fixed(case["z"])
    sampler = LeafNodeSampler(scalar_sampler=scalar)
    sampler_draws = draw_leaves(case, d, model, sampler, scalar)
    current = case
    for other in case.get("then", []):
        # the same sampler, now for another model and another state of it
        other = dict(case, **other)
        if other["n_trees"] == current["n_trees"] and other["k"] == current["k"]:
            model.sigma.set_value(other["sigma"])
        else:
            model = model_of(d, other)
        current = other
        sampler_draws += draw_leaves(other, d, model, sampler, scalar)
    d.update_y(d.y)
    expected = np.zeros(len(d.X))
    for r in d.leaves():
        expected[r.rows] = r.lib.current_value
    close(d.tree.predict(), expected, "prediction of the tree after its leaves were drawn", rtol=0, atol=0)
    labels = ["nontrivial"] if sampler_draws and len(d.leaves()) >= 2 else []
    if not sampler_draws:
        labels.append("draw taken elsewhere")
    return labels


def draw_leaves(case, d, model, sampler, scalar):
    sampler_draws = 0
    for n, ref in enumerate(d.leaves()):
        mean, sd = posterior(case, d, ref)
        scalar.z, scalar.calls = case["z"], 0
        value = sampler.step(model, ref.lib)
        close(ref.lib.current_value, float(value), "value of the leaf after its draw", rtol=0, atol=0)
        close(ref.lib.predict(), float(value), "prediction of the leaf after its draw", rtol=0, atol=0)
        if scalar.calls == 0:
            continue
        sampler_draws += 1
        scalar.z = 0.
        middle = float(sampler.sample(model, ref.lib))
        scale = abs(mean) + sd
        close(middle, mean, "mean of a leaf value", rtol=0, atol=1e-9 * scale)
        close(abs(float(value) - mean), abs(case["z"]) * sd, "spread of a leaf value", rtol=0, atol=1e-8 * scale)
        scalar.z = -case["z"]
        mirrored = float(sampler.sample(model, ref.lib))
        close(mirrored + float(value), 2 * mean, "symmetry of a leaf value", rtol=0, atol=1e-8 * scale)
    return sampler_draws


drawn = st.fixed_dictionaries(dict(common, draws=st.just(1500)))


def run_drawn(case):
    fresh(case["seed"])
    d, model = setup(case)
    sampler = LeafNodeSampler()
    leaves = d.leaves()
    rounds = max(case["draws"] // len(leaves), 200)
    zs = np.zeros((rounds, len(leaves)))
    moments = [posterior(case, d, r) for r in leaves]
    for t in range(rounds):
        for n, r in enumerate(leaves):
            value = float(sampler.step(model, r.lib))
            need(r.lib.current_value == value, "the drawn value is not the value of the leaf")
            zs[t, n] = (value - moments[n][0]) / moments[n][1]
    u = ss.norm.cdf(zs)
    uniform_sample(u.ravel(), "values drawn for leaves")
    successive_independent(u.ravel(), "values drawn one after another")
    for n in range(len(leaves)):
        uniform_sample(u[:, n], "values drawn for one leaf")
        successive_independent(u[:, n], "values drawn for one leaf")
    for n in range(1, len(leaves)):
        uncorrelated(u[:, 0], u[:, n], "values drawn for two leaves")
    need(len(set(zs.ravel().tolist())) > 0.98 * zs.size, "values are drawn repeatedly")
    return ["nontrivial"] if len(leaves) >= 2 else []


SUBS = [
    Sub("exact", exact, run_exact, 700, 5000,
        "generated leaves, target histories, sigma, k and tree counts with a scripted normal draw: mean and spread exactly; non-trivial = the scripted draw was used in a tree of at least two leaves"),
    Sub("drawn", drawn, run_drawn, 40, 200,
        "1500 draws with the sampler's own random numbers, standardized by the exact posterior; non-trivial = at least two leaves"),
]
