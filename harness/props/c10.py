"""C10: sampling converges to the exact BART posterior"""
import itertools
import math
from operator import gt, le

import numpy as np
from scipy import stats as ss

from harness.drive import splittable_columns
from harness.core import Sub, Violation, fresh, need, st
from harness.gens import mostly, seeds
from harness.oracle import Abstract, all_trees, log_tree_prior
from harness.stats import batch_z

from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.data import make_bartpy_data
from bartpy.model import Model
from bartpy.mutation import GrowMutation
from bartpy.node import split_node
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.splitcondition import SplitCondition
from bartpy.trace import TraceLogger
from bartpy.tree import mutate


class Untouched(Sampler):
    """Sigma that stays as it is"""

    def step(self, model, sigma):
        return sigma.current_value()


def patterns(shape):
    if shape == "line3":
        return [[0.], [1.], [2.]]
    if shape == "line4":
        return [[0.], [1.], [3.], [10.]]
    return [[0., 0.], [0., 1.], [1., 0.], [1., 1.]]


class Posterior(object):
    """The exact posterior over ordered trees, leaf values and sigma: expectations and independent draws"""

    def __init__(self, X, y, m, alpha, beta, k, sigma=None, a=None, b=None):
        self.X, self.y, self.m, self.sigma, self.a, self.b = X, y, m, sigma, a, b
        self.trees = all_trees(X)
        prior = [log_tree_prior(t, X, alpha, beta) for t in self.trees]
        n = len(y)
        self.members = [np.array([leaf.rows for leaf in t.leaves()], dtype=float).T for t in self.trees]  # rows x leaves
        self.splits = [len(t.walk()) // 2 for t in self.trees]
        self.sigma_mu2 = (0.5 / (k * math.sqrt(m))) ** 2
        if sigma is not None:
            self.grid, log_w = np.array([2 * math.log(sigma)]), np.array([0.])
        else:
            self.grid = np.linspace(-9., 6., 400)  # of log sigma^2
            log_w = -a * self.grid - b * np.exp(-self.grid)
        s2 = np.exp(self.grid)
        self.combos = list(itertools.combinations_with_replacement(range(len(self.trees)), m))
        weights, self.parts = [], []
        for combo in self.combos:
            multiplicity = math.factorial(m)
            for c in set(combo):
                multiplicity //= math.factorial(combo.count(c))
            K = self.sigma_mu2 * sum(self.members[c] @ self.members[c].T for c in combo)
            lam, V = np.linalg.eigh(K)
            lam = np.maximum(lam, 0.)
            z = V.T @ y
            total = lam[:, None] + s2[None, :]                                   # n x grid
            log_lik = -0.5 * (np.log(total) + (z ** 2)[:, None] / total).sum(axis=0)
            mean = V @ ((lam[:, None] / total) * z[:, None])                     # n x grid
            var = (V ** 2) @ (lam[:, None] - lam[:, None] ** 2 / total)
            weights.append(log_lik + log_w + sum(prior[c] for c in combo) + math.log(multiplicity))
            self.parts.append((mean, mean ** 2 + var, sum(self.splits[c] for c in combo)))
        weights = np.array(weights)
        w = np.exp(weights - weights.max())
        self.w = w / w.sum()

    def expectations(self):
        w, parts, out = self.w, self.parts, {}
        for i in range(len(self.y)):
            out["f{}".format(i)] = sum(float(wi @ p[0][i]) for wi, p in zip(w, parts))
            out["f{} squared".format(i)] = sum(float(wi @ p[1][i]) for wi, p in zip(w, parts))
        out.update(self.split_probabilities())
        if self.sigma is None:
            marginal = w.sum(axis=0)
            out["log sigma"] = float(marginal @ (self.grid / 2))
            out["log sigma squared"] = float(marginal @ ((self.grid / 2) ** 2))
        return out

    def split_probabilities(self):
        most = max(p[2] for p in self.parts)
        return {"{} splits".format(s): sum(float(wi.sum()) for wi, p in zip(self.w, self.parts) if p[2] == s) for s in range(most + 1)}

    def draw(self, rng, size):
        """Independent draws: lists of tree indices, of leaf values (per tree, in the order of its leaves) and sigma"""
        cells = rng.choice(self.w.size, size=size, p=self.w.ravel())
        for cell in cells:
            which, g = divmod(int(cell), self.w.shape[1])
            order = [self.combos[which][i] for i in rng.permutation(self.m)]
            step = 0. if self.sigma is not None else self.grid[1] - self.grid[0]
            s2 = math.exp(self.grid[g] + step * rng.uniform(-0.5, 0.5))
            Z = np.hstack([self.members[c] for c in order])
            precision = Z.T @ Z / s2 + np.eye(Z.shape[1]) / self.sigma_mu2
            L = np.linalg.cholesky(precision)
            mean = np.linalg.solve(precision, Z.T @ self.y / s2)
            values = mean + np.linalg.solve(L.T, rng.standard_normal(Z.shape[1]))
            f = Z @ values
            if self.sigma is None:  # once more from its conditional, which takes the grid out of it
                s2 = 1. / rng.gamma(self.a + len(self.y) / 2., 1. / (self.b + 0.5 * float(np.sum((self.y - f) ** 2))))
            parts, at = [], 0
            for c in order:
                parts.append(values[at:at + self.members[c].shape[1]])
                at += self.members[c].shape[1]
            yield order, parts, math.sqrt(s2)


def plant(tree, abstract, values):
    """Give a single leaf of the library the shape of an enumerated tree and the values of its leaves"""
    values = iter(values)

    def descend(node, target):
        if target.is_leaf:
            node.set_value(float(next(values)))
            return
        variable, value = target.rule
        updated = split_node(node, (SplitCondition(variable, value, le), SplitCondition(variable, value, gt)))
        mutate(tree, GrowMutation(node, updated))
        descend(updated.left_child, target.left)
        descend(updated.right_child, target.right)

    descend(tree.nodes[0], abstract)


situation = st.fixed_dictionaries({
    "shape": st.sampled_from(["line3", "square", "line4"]),
    "copies": st.lists(st.integers(1, 3), min_size=4, max_size=4),
    "y": st.lists(st.integers(-8, 8), min_size=12, max_size=12),
    "n_trees": st.sampled_from([1, 2, 1, 2, 3]),
    "alpha": st.sampled_from([0.95, 0.5, 0.8]),
    "beta": st.sampled_from([1., 2., 0.5]),
    "k": st.sampled_from([2., 1., 5.]),
    "sigma": st.sampled_from([None, 0.25, 0.5]),
    "a": st.sampled_from([4., 2.]),
    "b": st.sampled_from([0.4, 1.]),
    "probs": st.sampled_from([[0.5, 0.5], [0.3, 0.7], [0.7, 0.3]]),
    "seed": seeds,
    "sweeps": st.sampled_from([1, 2, 5, 15]),
    "work": st.sampled_from([4000, 4000, 12000]),
})


def training_set(case):
    P = patterns(case["shape"])
    X = np.array([p for p, c in zip(P, case["copies"]) for _ in range(c)])
    y = np.array(case["y"][:len(X)], dtype=float)
    if y.min() == y.max():
        y[0] += 4.
    return X, y


def lean(tree):
    """Which children of the tree's root are split"""
    below = {id(c) for d in tree.decision_nodes for c in (d.left_child, d.right_child)}
    top = [d for d in tree.decision_nodes if id(d) not in below]
    return tuple(c.left_child is not None for d in top for c in (d.left_child, d.right_child))


def observe(model, levels, sigma_levels):
    """Yes or no questions about a state of the chain"""
    out = {}
    per_tree = [len(t.decision_nodes) for t in model.trees]
    total = sum(per_tree)
    for s in range(7):
        out["{} splits".format(s)] = total == s
    for j, t in enumerate(model.trees):
        for s in range(3):
            out["{} splits in tree {}".format(s, j)] = per_tree[j] == s
        out["tree {} leans {}".format(j, lean(t))] = True
        for d in t.decision_nodes:
            condition = d.most_recent_split_condition()
            out["tree {} splits {} at {} at depth {}".format(j, condition.splitting_variable, condition.splitting_value, d.depth)] = True
        p = np.asarray(t.predict(), dtype=float)
        out["tree {} has a larger first than last row".format(j)] = bool(p[0] > p[-1])
    f = np.asarray(model.predict(), dtype=float)
    for i, cuts in enumerate(levels):
        for c in cuts:
            out["f{} > {:.3f}".format(i, c)] = bool(f[i] > c)
    for c in sigma_levels:
        out["sigma > {:.3f}".format(c)] = bool(float(model.sigma.current_value()) > c)
    return out


def balanced(up, down, replicates, sweeps):
    asked = sorted(set(up) | set(down))
    for name in asked:
        u, d = up.get(name, 0), down.get(name, 0)
        p = 2. * ss.binom.cdf(min(u, d), u + d, 0.5)
        if p < 1e-10 / len(asked):
            raise Violation("of {} chains started in the exact posterior, {} turned to and {} away from '{}' in {} sweeps, which leaves the posterior (p = {:.1e})".format(
                replicates, u, d, name, sweeps, p))


def run_situation(case):
    fresh(case["seed"])
    X, y = training_set(case)
    normal = (y - y.min()) / (y.max() - y.min()) - 0.5
    m = case["n_trees"] if case["shape"] != "line4" else min(case["n_trees"], 2)
    target = Posterior(X, normal, m, case["alpha"], case["beta"], case["k"], case["sigma"], case["a"], case["b"])
    rng = np.random.default_rng([case["seed"], 10])
    noise = SigmaSampler() if case["sigma"] is None else Untouched()
    sampler = ModelSampler(SampleSchedule(get_tree_sampler(*case["probs"]), LeafNodeSampler(), noise))
    logger = TraceLogger()
    first = np.flatnonzero(np.r_[True, np.any(np.diff(X, axis=0) != 0, axis=1)])
    pilot = list(target.draw(rng, 200))
    fs = np.array([sum(target.members[c] @ v for c, v in zip(order, values)) for order, values, _ in pilot])
    levels = [np.quantile(fs[:, i], [0.1, 0.3, 0.5, 0.7, 0.9]) if i in first else [] for i in range(len(X))]
    sigma_levels = np.quantile([s for _, _, s in pilot], [0.1, 0.5, 0.9]) if case["sigma"] is None else []
    up, down = {}, {}
    replicates = int(case["work"] / (1. + 0.3 * m * case["sweeps"]))
    for order, values, sd in target.draw(rng, replicates):
        sigma = Sigma(case["a"], case["b"], 1.)
        sigma.set_value(sd)
        model = Model(make_bartpy_data(X.copy(), y.copy(), normalize=True), sigma, n_trees=m, alpha=case["alpha"], beta=case["beta"], k=case["k"], initializer=None)
        for t, c, v in zip(model.trees, order, values):
            plant(t, target.trees[c], v)
        before = observe(model, levels, sigma_levels)
        for _ in range(case["sweeps"]):
            sampler.step(model, logger)
        after = observe(model, levels, sigma_levels)
        for name in set(before) | set(after):
            was, now = before.get(name, False), after.get(name, False)
            if now and not was:
                up[name] = up.get(name, 0) + 1
            elif was and not now:
                down[name] = down.get(name, 0) + 1
    balanced(up, down, replicates, case["sweeps"])
    labels = ["{} trees".format(m), "sigma fixed" if case["sigma"] is not None else "sigma sampled", "{} sweeps".format(case["sweeps"])]
    if max(target.split_probabilities().values()) < 0.95:
        labels.append("nontrivial")
    return labels


joint = st.fixed_dictionaries({
    "columns": st.lists(st.sampled_from(["distinct", "ties", "binary", "skewed", "constant", "ties", "distinct"]), min_size=1, max_size=6),
    "rows": mostly(st.integers(4, 40), st.sampled_from([64, 100, 150, 300]), 4),
    "n_trees": mostly(st.integers(1, 4), st.sampled_from([6, 10, 16]), 4),
    "alpha": st.sampled_from([0.95, 0.5, 0.8]),
    "beta": st.sampled_from([1., 2., 0.5]),
    "k": st.sampled_from([2., 1., 3., 0.5]),
    "a": st.sampled_from([4., 2., 10.]),
    "b": st.sampled_from([0.1, 0.4, 1., 0.005]),
    "probs": st.sampled_from([[0.5, 0.5], [0.3, 0.7], [0.7, 0.3], [0.9, 0.1]]),
    "seed": seeds,
    "sweeps": st.sampled_from([1, 2, 4, 8]),
    "work": st.just(4000),
})


def covariates(case, rng):
    n, out = case["rows"], []
    for kind in case["columns"]:
        if kind == "distinct":
            out.append(rng.permutation(n) * 0.37 - 3.)
        elif kind == "ties":
            out.append(rng.integers(0, 5, n).astype(float))
        elif kind == "binary":
            out.append(rng.integers(0, 2, n).astype(float))
        elif kind == "skewed":
            out.append(np.where(rng.uniform(size=n) < 0.8, 0., rng.permutation(n) + 1.))
        else:
            out.append(np.full(n, 2.5))
    return np.array(out).T.copy()


def prior_tree(X, alpha, beta, rng, rows, depth=0):
    """A draw of the prior by recursion, and how likely it is to stay (leaves that cannot be split also count as having stopped)"""
    p = alpha * (1. + depth) ** (-beta)
    columns = splittable_columns(X, rows)
    if not columns:
        return Abstract(rows, depth), 1. - p
    if rng.uniform() >= p:
        return Abstract(rows, depth), 1.
    variable = columns[rng.integers(len(columns))]
    values = X[rows, variable]
    below = values[values < values.max()]
    value = float(below[rng.integers(len(below))])
    goes_left = X[:, variable] <= value
    left, kept_left = prior_tree(X, alpha, beta, rng, rows & goes_left, depth + 1)
    right, kept_right = prior_tree(X, alpha, beta, rng, rows & ~goes_left, depth + 1)
    return Abstract(rows, depth, (variable, value), left, right), kept_left * kept_right


def questions(model, X, y, case):
    """Yes or no questions about a state of the chain and its data, for any number of rows and trees"""
    out = {}
    trees = list(model.trees)
    counts = [len(t.decision_nodes) for t in trees]
    total, m = sum(counts), len(trees)
    for s in range(4):
        out["more than {} splits in all".format(s * m // 2)] = total > s * m // 2
    nodes = [d for t in trees for d in t.decision_nodes]
    depths = [int(l.depth) for t in trees for l in t.leaf_nodes]
    for d in (1, 2, 3):
        out["a leaf at depth {} or below".format(d + 1)] = max(depths) > d
    out["average depth above 1.5"] = sum(depths) > 1.5 * len(depths)
    for v in range(X.shape[1]):
        out["column {} is used".format(v)] = any(d.most_recent_split_condition().splitting_variable == v for d in nodes)
    for j in sorted({0, m // 2, m - 1}):
        out["tree {} is split".format(j)] = counts[j] > 0
        out["tree {} is split twice or more".format(j)] = counts[j] > 1
        p = np.asarray(trees[j].predict(), dtype=float)
        out["tree {} is above zero at the first row".format(j)] = bool(p[0] > 0)
    leans = [lean(t) for t in trees]
    for kind in ((False, True), (True, False), (True, True)):
        out["a tree whose root's children are split as {}".format(kind)] = kind in leans
    sizes = [int(np.sum(l.split.condition())) for t in trees for l in t.leaf_nodes]
    out["a leaf of one row"] = min(sizes) == 1
    out["a leaf of less than a quarter"] = min(sizes) * 4 < len(X)
    f = np.asarray(model.predict(), dtype=float)
    values = np.array([float(l.current_value) for t in trees for l in t.leaf_nodes])
    sigma_mu = 0.5 / (case["k"] * math.sqrt(m))
    for c in (0.3, 0.7, 1., 1.5):
        out["leaf values {} times as spread as the prior".format(c)] = bool(np.mean(values ** 2) > (c * sigma_mu) ** 2)
    for i in sorted({0, len(X) // 2, len(X) - 1}):
        for c in (-0.5, 0., 0.5):
            out["prediction {} above {}".format(i, c)] = bool(f[i] > c * 0.5 / case["k"])
    out["predictions agree with the target"] = bool(np.dot(f, y) > 0)
    sd = float(model.sigma.current_value())
    middle = math.sqrt(case["b"] / case["a"])
    for c in (0.6, 0.8, 1., 1.3, 2.):
        out["sigma above {} of its middle".format(c)] = sd > c * middle
    for c in (0.7, 1., 1.3):
        out["residuals {} of sigma".format(c)] = bool(np.mean((y - f) ** 2) > (c * sd) ** 2)
    return out


def run_joint(case):
    """Parameters of the prior and data given them: sweeps over the parameters given the data must keep the parameters distributed by the prior"""
    fresh(case["seed"])
    rng = np.random.default_rng([case["seed"], 11])
    X = covariates(case, rng)
    n, m = len(X), case["n_trees"]
    sigma_mu = 0.5 / (case["k"] * math.sqrt(m))
    sampler = ModelSampler(SampleSchedule(get_tree_sampler(*case["probs"]), LeafNodeSampler(), SigmaSampler()))
    logger = TraceLogger()
    up, down = {}, {}
    replicates = int(case["work"] / ((1. + m * (0.7 + 0.3 * case["sweeps"])) * (1. + n / 150.)))
    everything = np.ones(n, dtype=bool)
    moved = 0
    for _ in range(replicates):
        shapes = []
        while len(shapes) < m:
            shape, kept = prior_tree(X, case["alpha"], case["beta"], rng, everything)
            if rng.uniform() < kept:
                shapes.append(shape)
        values = [rng.normal(0., sigma_mu, len(shape.leaves())) for shape in shapes]
        f = np.zeros(n)
        for shape, v in zip(shapes, values):
            for leaf, x in zip(shape.leaves(), v):
                f[leaf.rows] += x
        sd = math.sqrt(1. / rng.gamma(case["a"], 1. / case["b"]))
        y = f + rng.normal(0., sd, n)
        sigma = Sigma(case["a"], case["b"], 1.)
        sigma.set_value(sd)
        model = Model(make_bartpy_data(X.copy(), y.copy(), normalize=False), sigma, n_trees=m, alpha=case["alpha"], beta=case["beta"], k=case["k"], initializer=None)
        for t, shape, v in zip(model.trees, shapes, values):
            plant(t, shape, v)
        before = questions(model, X, y, case)
        for _ in range(case["sweeps"]):
            sampler.step(model, logger)
        after = questions(model, X, y, case)
        for name in before:
            if after[name] and not before[name]:
                up[name] = up.get(name, 0) + 1
            elif before[name] and not after[name]:
                down[name] = down.get(name, 0) + 1
    balanced(up, down, replicates, case["sweeps"])
    return ["rows < 41" if n < 41 else "rows > 63", "trees < 5" if m < 5 else "trees > 5", "{} sweeps".format(case["sweeps"])] + (
        ["nontrivial"] if max(up.get(k, 0) + down.get(k, 0) for k in set(up) | set(down)) > 100 else [])


estimator = st.fixed_dictionaries({
    "shape": st.sampled_from(["line3", "square"]),
    "copies": st.lists(st.integers(1, 3), min_size=4, max_size=4),
    "y": st.lists(st.integers(-8, 8), min_size=12, max_size=12),
    "scale": st.sampled_from([[1., 0.], [250., 1000.]]),
    "n_trees": st.sampled_from([1, 2]),
    "alpha": st.sampled_from([0.95, 0.6]),
    "beta": st.sampled_from([1., 2.]),
    "noise": st.sampled_from([[4., 1.], [2., 0.6], [10., 2.]]),
    "probs": st.sampled_from([None, [0.3, 0.7]]),
    "start": st.sampled_from([None, 1, 2, 4]),
    "seed": seeds,
    "samples": st.just(1500),
    "chains": st.sampled_from([1, 2]),
})


def fit_averages(case, X, y, seed):
    """Series of what the posterior has expectations of, from one fit"""
    fresh(seed)
    kwargs = {} if case["probs"] is None else {"tree_sampler": get_tree_sampler(*case["probs"])}
    if case["start"] is not None:
        kwargs["initializer"] = SklearnTreeInitializer(max_depth=case["start"])
    model = SklearnModel(n_trees=case["n_trees"], n_chains=case["chains"], sigma_a=case["noise"][0], sigma_b=case["noise"][1], n_samples=case["samples"] // case["chains"], n_burn=100,
                         thin=1., alpha=case["alpha"], beta=case["beta"], store_in_sample_predictions=True, n_jobs=1, **kwargs)
    model.fit(X.copy(), y.copy())
    fs = np.asarray(model.prediction_samples)
    splits = np.array([sum(len(t.decision_nodes) for t in s.trees) for s in model.model_samples])
    log_sigma = np.log([float(s.sigma.current_value()) for s in model.model_samples])
    out = {"log sigma": log_sigma, "log sigma squared": log_sigma ** 2}
    for i in range(fs.shape[1]):
        out["f{}".format(i)] = fs[:, i]
        out["f{} squared".format(i)] = fs[:, i] ** 2
    for s in range(int(splits.max()) + 1):
        out["{} splits".format(s)] = (splits == s).astype(float)
    return out


def run_estimator(case):
    X, y = training_set(case)
    normal = (y - y.min()) / (y.max() - y.min()) - 0.5
    y = y * case["scale"][0] + case["scale"][1]
    expected = Posterior(X, normal, case["n_trees"], case["alpha"], case["beta"], 2., None, *case["noise"]).expectations()
    expected = {k: v for k, v in expected.items() if not (k.endswith("splits") and (v < 0.02 or v > 0.98))}
    series = fit_averages(case, X, y, case["seed"])
    suspects = {}
    for name, value in expected.items():
        z, mean, _ = batch_z(series.get(name, np.zeros(case["samples"])), value, batches=30)
        if abs(z) > ss.t.isf(1e-4, 29) and abs(mean - value) > 1e-9:
            suspects[name] = value
    if suspects:
        # successive samples are not independent and batches of them may not be: fits of their own are
        repeats = 24
        fits = [fit_averages(case, X, y, (case["seed"] + 7919 * (r + 1)) % 2 ** 31) for r in range(repeats)]
        for name, value in sorted(suspects.items()):
            means = np.array([float(np.mean(f[name])) if name in f else 0. for f in fits])
            t = (means.mean() - value) / max(means.std(ddof=1) / math.sqrt(repeats), 1e-12)
            if abs(t) > ss.t.isf(1e-9, repeats - 1):
                raise Violation("average of {} over {} fits of {} samples: {:.5f} +- {:.5f} where the exact posterior has {:.5f} (t = {:.1f})".format(
                    name, repeats, case["samples"], means.mean(), means.std(ddof=1) / math.sqrt(repeats), value, t))
    return ["nontrivial"] + (["looked at again"] if suspects else []) + (["trees initialized"] if case["start"] else [])


SUBS = [
    Sub("sampler", situation, run_situation, 12, 80,
        "generated problems (up to 12 rows, 1 to 3 trees, fixed or sampled sigma, priors, grow/prune probabilities): thousands of chains started in independent draws of the exact posterior (all trees enumerated, sigma on a grid) must still be distributed by it after 1 to 15 sweeps; non-trivial = no number of splits has 95% of the posterior"),
    Sub("joint", joint, run_joint, 40, 250,
        "larger generated problems (4 to 300 rows, 1 to 6 columns with ties, 1 to 16 trees): parameters drawn from the prior and data given them, so that the parameters are draws of the posterior of the data; after sweeps they must still be distributed as drawn; non-trivial = some question was answered differently by more than 100 chains"),
    Sub("estimator", estimator, run_estimator, 8, 40,
        "averages over samples stored by SklearnModel.fit against the exact expectations, confirmed over 24 independent fits before they are reported; every case counts"),
]
QUICK_SHARDS = 4
ASSUMPTIONS = ["sweeps: among independent chains that change their answer to a yes or no question as many must turn to it as away from it (exact binomial test at 1e-10 over all questions)",
               "fits: noise priors under which chains mix within 100 sweeps; 24 independent fits at 1e-9"]
