"""C06: proposals are accepted with probability min(1, ratio)"""
import math

import numpy as np

from harness.core import Sub, close, fresh, need, same, st
from harness.drive import Driven, check_structure
from harness.gens import mostly, staircase, arrays, dataset, index, seeds
from harness.stats import counts_match

from bartpy.model import Model
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as ObliviousSampler
from bartpy.samplers.treemutation import TreeMutationLikihoodRatio, TreeMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
from bartpy.sigma import Sigma


class Scripted(TreeMutationProposer):
    def __init__(self, proposal):
        self.proposal = proposal

    def propose(self, tree):
        return self.proposal


class Judge(TreeMutationLikihoodRatio):
    """Ratios by mutation"""

    def __init__(self, ratios):
        self.ratios = ratios

    def log_likihood_ratio(self, model, tree, mutation):
        return self.ratios[id(mutation)]

    def log_tree_ratio(self, model, tree, mutation):
        return 0.0

    def log_transition_ratio(self, tree, mutation):
        return 0.0


class Fixed(object):
    def __init__(self, u):
        self.u, self.calls = u, 0

    def sample(self):
        self.calls += 1
        return self.u


def state(d):
    nodes = sorted((id(x), id(x.left_child), id(x.right_child), int(x.depth)) for x in d.tree.nodes)
    return nodes, np.asarray(d.tree.predict()).tolist(), sorted((id(x), float(x.current_value)) for x in d.tree.leaf_nodes)


log_ratios = st.one_of(st.integers(-400, 400).map(lambda v: v / 50.), st.sampled_from([0.0, 1000., -1000., 745., -745., 1e-9, -1e-9]))
uniforms = st.one_of(st.integers(1, 9999).map(lambda v: v / 10000.), st.sampled_from([0.0, 1e-300, 1e-12, 1 - 1e-12]))

common = {
    "data": mostly(dataset(n=(3, 10), p=(1, 3), kinds=["distinct", "grid", "binary", "skew"], big=False), staircase(rows=(100, 160), columns=(1, 2, 4), kinds=["distinct"]), 5),
    "seed": seeds,
    "grows": mostly(st.lists(st.tuples(index, index, index), max_size=4), st.lists(st.tuples(index, index, index), min_size=30, max_size=70), 3),
    "kind": st.sampled_from(["grow", "prune"]),
    "pick": st.tuples(index, index, index),
    "oblivious": st.booleans(),
}
situation = st.fixed_dictionaries(dict(common, log_ratio=log_ratios, u=uniforms, shares=st.lists(st.integers(-100, 100), min_size=8, max_size=8), scale=st.sampled_from([1, 1, 100])))


def setup(case):
    X, y = arrays(case["data"])
    d = Driven(X, y)
    for i, j, k in case["grows"]:
        d.grow(i, j, k)
    for n, leaf in enumerate(d.tree.leaf_nodes):
        leaf.set_value(n + 0.5)
    d.update_y(d.y)
    model = Model(d.tree.nodes[0].data, Sigma(1., 1., 1.), trees=[d.tree])
    i, j, k = case["pick"]
    kind = case["kind"]
    if not d.prunable():
        kind = "grow"
    if kind == "grow" and not d.splittable():
        kind = "prune"
    chosen = d.splittable() if kind == "grow" else d.prunable()
    if not chosen:
        return d, model, [], kind
    if case["oblivious"]:
        refs = chosen
    else:
        refs = [chosen[i % len(chosen)]]
    mutations = [d.grow_mutation(r, j, k)[0] if kind == "grow" else d.prune_mutation(r) for r in refs]
    return d, model, mutations, kind


def sampler_for(case, mutations, ratios, scalar=None):
    kwargs = {} if scalar is None else {"scalar_sampler": scalar}
    if case["oblivious"]:
        return ObliviousSampler(Scripted(list(mutations)), Judge(ratios), **kwargs)
    return UnconstrainedTreeMutationSampler(Scripted(mutations[0]), Judge(ratios), **kwargs)


def spread(total, shares, n, scale=1):
    """Split a log ratio over the mutations of an oblivious proposal (in eighths, so that sums are exact)"""
    if n == 1:
        return [total]
    parts = [scale * shares[i % len(shares)] / 8. for i in range(n - 1)]
    return parts + [total - sum(parts)]


def run_decision(case):
    fresh(case["seed"])
    d, model, mutations, kind = setup(case)
    if not mutations:
        return []
    parts = spread(case["log_ratio"], case["shares"], len(mutations), case["scale"])
    total = float(np.sum(parts))
    log_u = math.log(case["u"]) if case["u"] > 0 else -math.inf
    if abs(log_u - total) < 1e-6 or (case["u"] == 0 and total < -700):
        return ["tie skipped"]
    ratios = {id(m): p for m, p in zip(mutations, parts)}
    scalar = Fixed(case["u"])
    sampler = sampler_for(case, mutations, ratios, scalar)
    before = state(d)
    result = sampler.step(model, d.tree)
    if scalar.calls == 0 and abs(total) < 700:
        return ["draw taken elsewhere"]
    if log_u < total:
        need(result is not None, "rejected although the draw {} is below the ratio exp({})", case["u"], total)
        returned = list(result) if case["oblivious"] else [result]
        same(sorted(id(m) for m in returned), sorted(id(m) for m in mutations), "mutations returned as accepted")
        for m in mutations:
            d.note(m)
        check_structure(d)
        expected = np.zeros(len(d.X))
        for r in d.leaves():
            expected[r.rows] = r.lib.current_value
        close(d.tree.predict(), expected, "prediction after an accepted mutation")
        return ["nontrivial", "accepted " + kind]
    need(result is None, "accepted although the draw {} is above the ratio exp({})", case["u"], total)
    same(state(d), before, "tree after a rejection")
    check_structure(d)
    return ["nontrivial", "rejected " + kind]


# ---- the same with the sampler's own draws
frequency = st.fixed_dictionaries(dict(common, log_ratio=st.sampled_from([-3., -1.5, -0.7, -0.2, -0.05, 0., 0.5, -5., 2.]),
                                       shares=st.lists(st.integers(-20, 20), min_size=8, max_size=8), draws=st.just(2500)))


def run_frequency(case):
    fresh(case["seed"])
    d, model, mutations, kind = setup(case)
    if not mutations:
        return []
    parts = spread(case["log_ratio"], case["shares"], len(mutations))
    sampler = sampler_for(case, mutations, {id(m): p for m, p in zip(mutations, parts)})
    p = min(1., math.exp(float(np.sum(parts))))
    before = state(d)
    counts = {True: 0, False: 0}
    for _ in range(case["draws"]):
        counts[sampler.sample(model, d.tree) is not None] += 1
    counts_match(counts, {k: v for k, v in [(True, 1. if p > 1 - 1e-12 else p), (False, 1. - p if p <= 1 - 1e-12 else 0.)] if v > 0},
                 "acceptance of a proposal of log ratio {}".format(case["log_ratio"]))
    same(state(d), before, "tree after judging without applying")
    return ["nontrivial"] if p < 1 else []


SUBS = [
    Sub("decision", situation, run_decision, 2000, 6000,
        "generated trees and proposals, log ratios from -1000 to 1000 and uniform draws including 0, both tree samplers; non-trivial = a decision was taken (not a tie) and its effect on the tree checked"),
    Sub("frequency", frequency, run_frequency, 200, 200,
        "2500 decisions with the sampler's own draws against the exact binomial; non-trivial = ratio below 1"),
]
ASSUMPTIONS = ["ratios within 1e-6 of the logged draw are skipped (ties), and a draw of exactly 0 against a ratio that underflows"]
