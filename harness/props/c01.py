"""C01: the leaves of a tree partition covariate space after any history of mutations"""
import numpy as np

from harness.core import Sub, fresh, need, st
from harness.drive import Driven, check_partition
from harness.gens import TREE_KINDS, staircase, vast, arrays, dataset, index, query_points, seeds

from bartpy.model import Model
from bartpy.samplers.oblivioustrees.proposer import grow_mutations, prune_mutations
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.data import make_bartpy_data
from bartpy.tree import mutate
from operator import gt, le

OPS = ["grow", "grow", "grow", "prune", "sgrow", "sgrow", "sprune", "ogrow", "oprune", "step", "step", "ostep", "y"]

history = st.fixed_dictionaries({
    "data": dataset(n=(1, 16), p=(1, 4), kinds=TREE_KINDS),
    "seed": seeds,
    "ops": st.lists(st.tuples(st.sampled_from(OPS), index, index, index), min_size=3, max_size=16),
    "extra": st.lists(st.lists(index, min_size=1, max_size=4), max_size=4),
    "sigma": st.sampled_from([0.01, 0.1, 1., 10.]),
})


def nonempty(d):
    for r in d.refs():
        need(r.rows.any(), "a split left no rows on one side")


def run_history(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    d = Driven(X, y)
    sigma = Sigma(1., 1., 1.)
    sigma.set_value(case["sigma"])
    model = Model(d.tree.nodes[0].data, sigma, trees=[d.tree])
    sampler, oblivious = get_tree_sampler(0.5, 0.5), oblivious_sampler(0.5, 0.5)
    Q = query_points(X, case["extra"])
    labels, applied, by_sampler, prunes = [], 0, 0, 0
    for op, i, j, k in case["ops"]:
        if op == "grow":
            applied += d.grow(i, j, k)
        elif op == "deep":
            applied += d.deepen(1 + i % 24, j, k % 2 == 0)
        elif op == "prune":
            done = d.prune(i)
            applied, prunes = applied + done, prunes + done
        elif op == "y":
            d.update_y(np.roll(d.y, i) * (1 + j % 3))
        else:
            mutations = []
            try:
                if op == "sgrow":
                    mutations = [uniformly_sample_grow_mutation(d.tree)]
                elif op == "sprune":
                    mutations = [uniformly_sample_prune_mutation(d.tree)]
                elif op == "ogrow" and len(d.leaves()) <= 12:
                    mutations = list(grow_mutations(d.tree))
                elif op == "oprune":
                    mutations = list(prune_mutations(d.tree))
            except NoSplittableVariableException:
                need(not d.splittable(), "no split was found although some leaf can be split")
            except NoPrunableNodeException:
                need(not d.prunable(), "nothing to prune was found although some node can be pruned")
            for m in mutations:
                mutate(d.tree, m)
            if op == "step":
                m = sampler.step(model, d.tree)
                mutations = [] if m is None else [m]
            elif op == "ostep" and len(d.leaves()) <= 12:
                mutations = oblivious.step(model, d.tree) or []
            for m in mutations:
                d.note(m)
                prunes += m.kind == "prune"
            by_sampler += len(mutations)
            applied += len(mutations)
        nonempty(d)
        check_partition(d, Q)
    if applied >= 2 and len(d.decisions()) >= 1:
        labels.append("nontrivial")
    if prunes:
        labels.append("with prune")
    if by_sampler:
        labels.append("sampler made")
    if max(r.depth for r in d.refs()) >= 3:
        labels.append("depth >= 3")
    labels.append("rows > 15" if len(X) > 15 else "rows <= 15")
    return labels


# ---- conditions on their own: a chain of conditions, in any order and with repeats
chain = st.fixed_dictionaries({
    "data": st.one_of(dataset(n=(4, 14), p=(1, 3), kinds=TREE_KINDS, big=False), staircase()),
    "conds": st.lists(st.tuples(index, index, st.booleans(), st.booleans()), min_size=3, max_size=24),
    "extra": st.lists(st.lists(index, min_size=1, max_size=4), max_size=4),
})


def run_chain(case):
    fresh(0)
    X, y = arrays(case["data"])
    split = Split(make_bartpy_data(X.copy(), y.copy(), normalize=False))
    Q = query_points(X, case["extra"])
    rows, members = np.ones(len(X), dtype=bool), np.ones(len(Q), dtype=bool)
    pool, tightened = [], 0
    for i, j, left, reuse in case["conds"]:
        if reuse and pool:
            condition = pool[i % len(pool)]
        else:
            v = i % X.shape[1]
            condition = SplitCondition(v, float(X[j % len(X), v]), le if left else gt)
            pool.append(condition)
        v, value, is_left = condition.splitting_variable, condition.splitting_value, condition.operator is le
        before = rows.sum()
        rows = rows & ((X[:, v] <= value) if is_left else (X[:, v] > value))
        members = members & ((Q[:, v] <= value) if is_left else (Q[:, v] > value))
        tightened += rows.sum() < before
        split = split + condition
        need(np.asarray(split.condition()).astype(bool).tolist() == rows.tolist(), "training rows of a chain of conditions differ from the rows meeting every condition")
        need(np.asarray(split.condition(Q)).astype(bool).tolist() == members.tolist(), "new rows of a chain of conditions differ from the rows meeting every condition")
        need(split.most_recent_split_condition() == condition, "most recent condition is not the last one applied")
    return ["nontrivial"] if tightened >= 2 else []


# ---- deep trees: long chains of rules, over one column or over many
deep = st.fixed_dictionaries({
    "data": staircase(),
    "seed": seeds,
    "ops": st.tuples(st.tuples(st.just("deep"), st.sampled_from([23, 14, 19]), index, index),
                     st.lists(st.tuples(st.sampled_from(["grow", "prune", "prune", "sgrow", "sprune", "step", "deep", "y"]), index, index, index), min_size=2, max_size=6))
    .map(lambda t: [t[0]] + t[1]),
    "extra": st.lists(st.lists(index, min_size=1, max_size=4), max_size=4),
    "sigma": st.sampled_from([0.01, 0.1, 1., 10.]),
})

vast_history = st.fixed_dictionaries({
    "data": vast(),
    "seed": seeds,
    "ops": st.lists(st.tuples(st.sampled_from(["grow", "grow", "sgrow", "step", "ogrow", "prune"]), index, index, index), min_size=2, max_size=4),
    "extra": st.just([]),
    "sigma": st.sampled_from([0.01, 1.]),
})

SUBS = [
    Sub("history", history, run_history, 1000, 4000,
        "generated data and mutation histories (case-chosen and sampler-chosen, both samplers); non-trivial = at least two mutations applied and the tree ends with a split",
        examples=[
            {"data": {"X": [[0.], [1.]], "y": [0., 1.]}, "seed": 1, "ops": [["ogrow", 0, 0, 0], ["ogrow", 0, 0, 0]], "extra": [], "sigma": 1.},
            {"data": {"X": [[0.], [1.], [1.]], "y": [0., 1., 2.]}, "seed": 1, "ops": [["ostep", 0, 0, 0]] * 8, "extra": [], "sigma": .1},
        ]),
    Sub("deep", deep, run_history, 200, 2000,
        "trees up to a depth of two dozen on 24 to 60 rows and up to 13 columns; non-trivial = at least two mutations applied and the tree ends with a split"),
    Sub("vast", vast_history, run_history, 8, 60,
        "the same on 1300 to 70000 rows, up to half a million new rows at once; non-trivial = at least two mutations applied and the tree ends with a split"),
    Sub("conditions", chain, run_chain, 900, 4000,
        "chains of split conditions with repeats and reused condition objects; non-trivial = at least two of them removed rows"),
]
ASSUMPTIONS = ["covariates are finite"]
