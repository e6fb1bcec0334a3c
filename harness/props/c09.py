"""C09: a sweep updates every tree once against the others' residuals"""
import numpy as np

from harness.core import Sub, Violation, close, fresh, need, same, st
from harness.drive import Driven
from harness.gens import mostly, arrays, dataset, index, seeds

from bartpy.data import make_bartpy_data
from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.model import Model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.trace import TraceLogger
from bartpy.split import Split
from bartpy.node import LeafNode
from bartpy.tree import Tree, mutate


def own_prediction(tree, n):
    out = np.zeros(n)
    for leaf in tree.leaf_nodes:
        out[np.asarray(leaf.split.condition()).astype(bool)] = leaf.current_value
    return out


class Watch(object):
    """Follows a sweep and compares every target with the others' residuals at that moment"""

    def __init__(self, model, y):
        self.model, self.y = model, y
        self.begin()

    def begin(self):
        self.trees, self.current, self.target, self.waiting, self.sigmas = [], None, None, [], 0

    def tolerance(self, expected):
        return 1e-9 * (1. + np.abs(expected).max()) + 1e-9 * sum(np.abs(own_prediction(t, len(self.y))).max() for t in self.model.trees)

    def check_target(self, node, what):
        close(node.data.y.values, self.target, "target of {}".format(what), rtol=0, atol=self.tolerance(self.target))
        rows = np.asarray(node.split.condition()).astype(bool)
        close(node.data.y.summed_y(), float(np.sum(self.target[rows])), "target sum of {}".format(what), rtol=0, atol=len(self.y) * self.tolerance(self.target))

    def tree_begins(self, model, tree):
        need(model is self.model, "a tree is sampled within another model")
        need(any(tree is t for t in self.model.trees), "a tree that is not in the model is sampled")
        need(not any(tree is t for t in self.trees), "a tree is mutated twice in one sweep")
        need(not self.waiting, "{} leaves of the previous tree were not drawn", len(self.waiting))
        need(self.sigmas == 0, "sigma was drawn before all trees")
        self.trees.append(tree)
        self.current = tree
        others = np.sum([own_prediction(t, len(self.y)) for t in self.model.trees if t is not tree], axis=0) if len(self.model.trees) > 1 else np.zeros(len(self.y))
        self.target = self.y - others
        for node in tree.nodes:
            self.check_target(node, "a tree at its turn")

    def tree_ends(self, tree):
        self.waiting = list(tree.leaf_nodes)
        for node in tree.nodes:
            self.check_target(node, "a tree after its mutation")

    def leaf_begins(self, model, leaf):
        need(model is self.model, "a leaf is drawn within another model")
        need(self.current is not None, "a leaf is drawn before any tree")
        need(any(leaf is l for l in self.current.leaf_nodes), "a leaf outside of the tree being sampled is drawn")
        need(any(leaf is l for l in self.waiting), "a leaf is drawn twice in one sweep")
        self.waiting = [l for l in self.waiting if l is not leaf]
        self.check_target(leaf, "a leaf at its draw")

    def sigma_begins(self, model, sigma):
        need(model is self.model and sigma is self.model.sigma, "sigma of another model is drawn")
        need(not self.waiting, "{} leaves were not drawn", len(self.waiting))
        same(len(self.trees), len(self.model.trees), "number of trees mutated before sigma is drawn")
        need(self.sigmas == 0, "sigma is drawn twice in one sweep")
        self.sigmas += 1
        expected = self.y - np.sum([own_prediction(t, len(self.y)) for t in self.model.trees], axis=0)
        close(model.residuals(), expected, "residuals when sigma is drawn", rtol=0, atol=self.tolerance(expected))

    def sweep_ends(self):
        same(self.sigmas, 1, "draws of sigma in a sweep")
        same(len(self.trees), len(self.model.trees), "trees mutated in a sweep")
        expected = np.sum([own_prediction(t, len(self.y)) for t in self.model.trees], axis=0)
        close(self.model.predict(), expected, "prediction of the model after a sweep", rtol=0, atol=self.tolerance(expected))


class WatchedTrees(Sampler):
    def __init__(self, watch, decide):
        self.watch, self.decide, self.accepted = watch, decide, 0

    def sample(self, model, tree):
        raise NotImplementedError()

    def step(self, model, tree):
        self.watch.tree_begins(model, tree)
        result = self.decide(model, tree)
        self.accepted += bool(result)
        self.watch.tree_ends(tree)
        return result


class WatchedLeaves(Sampler):
    def __init__(self, watch, draw):
        self.watch, self.draw, self.count = watch, draw, 0

    def step(self, model, leaf):
        self.watch.leaf_begins(model, leaf)
        self.count += 1
        return self.draw(model, leaf)


class WatchedSigma(Sampler):
    def __init__(self, watch, draw):
        self.watch, self.draw, self.count = watch, draw, 0

    def step(self, model, sigma):
        self.watch.sigma_begins(model, sigma)
        self.count += 1
        return self.draw(model, sigma)


situation = st.fixed_dictionaries({
    "start": st.sampled_from(["initial", "initial", "given"]),
    "data": dataset(n=(1, 12), p=(1, 3), kinds=["distinct", "grid", "binary", "skew", "const", "onediff"]),
    "normalize": st.booleans(),
    "n_trees": mostly(st.integers(1, 5), st.sampled_from([12, 24, 36]), 20),
    "kind": st.sampled_from(["scripted", "scripted", "default", "oblivious"]),
    "script": st.lists(st.sampled_from(["grow", "grow", "prune", "keep"]), min_size=4, max_size=24),
    "most": st.sampled_from([8, 8, 8, 60]),
    "values": st.lists(st.integers(-64, 64), min_size=3, max_size=17),
    "scale": st.sampled_from([1., 0.01, 100.]),
    "sweeps": st.integers(2, 7),
    "seed": seeds,
    "through": st.sampled_from(["step", "samples", "schedule"]),
})


def run_situation(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    data = make_bartpy_data(X.copy(), y.copy(), normalize=case["normalize"])
    if case["normalize"]:
        y = np.zeros(len(y)) if y.min() == y.max() else (y - y.min()) / (y.max() - y.min()) - 0.5
    sigma = Sigma(1., 1., 1.)
    if case.get("start") == "given":
        # trees that already predict something, handed in by the caller
        given = []
        for t in range(case["n_trees"]):
            d = Driven(X, y, tree=Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=False)))]))
            for g in range((case["values"][t % len(case["values"])] + 64) % 4):
                d.grow(g, t + g, t)
            for n, r in enumerate(d.leaves()):
                r.lib.set_value(case["values"][(t + n) % len(case["values"])] / 16. * case["scale"])
            given.append(d.tree)
        model = Model(data, sigma, trees=given)
    else:
        model = Model(data, sigma, n_trees=case["n_trees"], initializer=None)
    same(len(model.trees), case["n_trees"], "number of trees")
    watch = Watch(model, y)
    step, drawn = [0], [0]

    if case["kind"] == "scripted":
        def decide(m, tree):
            step[0] += 1
            what = case["script"][step[0] % len(case["script"])]
            try:
                if what == "grow" and len(tree.leaf_nodes) < case.get("most", 8):
                    mutation = uniformly_sample_grow_mutation(tree)
                elif what == "prune":
                    mutation = uniformly_sample_prune_mutation(tree)
                else:
                    return None
            except (NoSplittableVariableException, NoPrunableNodeException):
                return None
            mutate(tree, mutation)
            return mutation

        def draw(m, leaf):
            drawn[0] += 1
            value = case["values"][drawn[0] % len(case["values"])] / 32. * case["scale"]
            leaf.set_value(value)
            return value

        def draw_sigma(m, s):
            s.set_value(0.5)
            return 0.5
    else:
        real = get_tree_sampler(0.5, 0.5) if case["kind"] == "default" else oblivious_sampler(0.5, 0.5)
        leaves, sigmas = LeafNodeSampler(), SigmaSampler()
        decide, draw, draw_sigma = real.step, leaves.step, sigmas.step

    trees, nodes, noise = WatchedTrees(watch, decide), WatchedLeaves(watch, draw), WatchedSigma(watch, draw_sigma)
    schedule = SampleSchedule(trees, nodes, noise)
    sampler = ModelSampler(schedule)
    sweeps = case["sweeps"] if case["kind"] != "oblivious" else min(case["sweeps"], 4)
    sweeps = sweeps if case["n_trees"] <= 5 else min(sweeps, 3)

    if case["through"] == "step":
        for _ in range(sweeps):
            watch.begin()
            sampler.step(model, TraceLogger())
            watch.sweep_ends()
    elif case["through"] == "schedule":
        for _ in range(sweeps):
            watch.begin()
            for kind, run in schedule.steps(model):
                run()
            watch.sweep_ends()
    else:
        plain = noise.draw

        def then_start_over(m, s):
            result = plain(m, s)
            watch.sweep_ends()
            watch.begin()
            return result
        noise.draw = then_start_over
        burn = sweeps // 2
        sampler.samples(model, sweeps - burn, burn, thin=1., store_in_sample_predictions=True, store_acceptance=True)
        need(not watch.trees, "a sweep ended without a draw of sigma")
        same(noise.count, sweeps, "sweeps run")
    labels = [case["kind"], case["through"]]
    if trees.accepted >= 2 and case["n_trees"] >= 2:
        labels.append("nontrivial")
    return labels


SUBS = [
    Sub("sweeps", situation, run_situation, 500, 4000,
        "generated data, tree counts, scripted and real samplers over several sweeps, every target compared with the others' residuals at that moment; non-trivial = several trees and at least two mutations applied",
        examples=[{"start": "initial", "data": {"big": {"n": 90, "kinds": ["distinct", "distinct"], "seed": 4}}, "normalize": True, "n_trees": 2, "kind": "scripted",
                   "script": ["grow"], "most": 60, "values": [3, -7, 20, 64], "scale": 0.01, "sweeps": 70, "seed": 11, "through": "step"},
                  {"start": "initial", "data": {"X": [[0.], [1.], [2.], [4.]], "y": [0., 1., 5., 2.]}, "normalize": True, "n_trees": 2, "kind": "default",
                   "script": ["grow"], "most": 8, "values": [3, -7, 20], "scale": 1., "sweeps": 1100, "seed": 12, "through": "step"}]),
]
ASSUMPTIONS = ["samplers are handed in through SampleSchedule, as the library documents"]
