"""C03: the tree's book keeping stays one consistent binary tree"""
import numpy as np

from harness.core import Sub, Violation, close, fresh, need, same, st
from harness.drive import Driven, check_structure
from harness.gens import TREE_KINDS, staircase, arrays, dataset, index, seeds

from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.model import Model
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import LeafNode, split_node
from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio as ObliviousRatio
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer as ObliviousProposer
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.tree import mutate

OPS = ["grow", "grow", "grow", "prune", "undo", "propose", "opropose", "sample", "osample", "bad", "bad", "value", "value", "y", "step", "step", "ostep"]

history = st.fixed_dictionaries({
    "data": dataset(n=(3, 14), p=(1, 3), kinds=TREE_KINDS),
    "seed": seeds,
    "ops": st.lists(st.tuples(st.sampled_from(OPS), index, index, index), min_size=5, max_size=18),
    "sigma": st.sampled_from([0.05, 0.5, 5.]),
})


def photo(d):
    """Everything observable about the tree: nodes, links, depths, rules, values, predictions"""
    nodes = sorted((id(x), id(x.left_child), id(x.right_child), int(x.depth)) for x in d.tree.nodes)
    values = sorted((id(x), float(x.current_value)) for x in d.tree.leaf_nodes)
    rows = [np.asarray(r.lib.split.condition()).tolist() for r in d.refs()]
    return nodes, values, rows, np.asarray(d.tree.predict(), dtype=float).tolist(), np.asarray(d.tree.predict(d.X), dtype=float).tolist()


def unchanged(d, before, after_what):
    if photo(d) != before:
        raise Violation("{} changed the tree".format(after_what))


def predictions_match(d):
    expected = np.zeros(len(d.X))
    for r in d.leaves():
        expected[r.rows] = r.lib.current_value
    close(d.tree.predict(), expected, "in sample prediction of the tree", rtol=0, atol=0)
    close(d.tree.predict(d.X), expected, "prediction of the tree for its training rows", rtol=0, atol=0)


def rejected(make, what):
    try:
        make()
    except TypeError:
        return
    raise Violation("{} was not rejected".format(what))


def shape(ref):
    return (ref.depth, ref.rows.tolist(), ref.rule, None if ref.is_leaf else (shape(ref.left), shape(ref.right)))


def run_history(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    d = Driven(X, y)
    sigma = Sigma(1., 1., 1.)
    sigma.set_value(case["sigma"])
    model = Model(d.tree.nodes[0].data, sigma, trees=[d.tree])
    sampler, oblivious = get_tree_sampler(0.5, 0.5), oblivious_sampler(0.5, 0.5)
    labels, applied, kinds = [], 0, set()
    for op, i, j, k in case["ops"]:
        d.tree.predict()  # in sample predictions are always asked for before, so that a stale one shows
        if op == "grow":
            if len(d.leaves()) <= 20:
                applied += d.grow(i, j, k)
        elif op == "deep":
            applied += d.deepen(1 + i % 24, j, k % 2 == 0)
        elif op == "prune":
            applied += d.prune(i)
        elif op == "undo":
            if d.splittable():
                before = shape(d.root)
                ref = d.splittable()[i % len(d.splittable())]
                mutation, variable, value = d.grow_mutation(ref, j, k)
                mutate(d.tree, mutation)
                d.note_grow(ref, mutation.updated_node, variable, value)
                check_structure(d)
                back = d.prune_mutation(ref)
                mutate(d.tree, back)
                d.note_prune(ref, back.updated_node)
                same(shape(d.root), before, "tree after growing and pruning again")
                applied += 2
        elif op in ("propose", "opropose", "sample", "osample"):
            before = photo(d)
            try:
                if op == "propose":
                    m = UniformMutationProposer([0.5, 0.5]).propose(d.tree)
                    unchanged(d, before, "proposing a mutation")
                    UniformTreeMutationLikihoodRatio([0.5, 0.5]).log_probability_ratio(model, d.tree, m)
                    unchanged(d, before, "judging a mutation")
                elif op == "opropose" and len(d.leaves()) <= 20:
                    for m in ObliviousProposer(0.5, 0.5).propose(d.tree):
                        ObliviousRatio([0.5, 0.5]).log_probability_ratio(model, d.tree, m)
                elif op == "sample":
                    sampler.sample(model, d.tree)
                elif op == "osample" and len(d.leaves()) <= 20:
                    oblivious.sample(model, d.tree)
            except (NoSplittableVariableException, NoPrunableNodeException):
                need(not d.splittable() and not d.prunable(), "no mutation was found although one is possible")
            unchanged(d, before, "proposing and judging a mutation")
            kinds.add("proposed")
        elif op == "bad":
            before = photo(d)
            leaves, decisions = d.leaves(), d.decisions()
            leaf = leaves[i % len(leaves)].lib
            if decisions:
                decision = decisions[j % len(decisions)]
                other = decisions[k % len(decisions)].lib
                rejected(lambda: GrowMutation(decision.lib, other), "growing a decision node")
                if decision not in d.prunable():
                    rejected(lambda: PruneMutation(decision.lib, LeafNode(decision.lib.split, depth=decision.depth)),
                             "pruning a node whose children are not both leaves")
                    kinds.add("bad prune")
                kinds.add("bad grow")
            rejected(lambda: PruneMutation(leaf, LeafNode(leaf.split, depth=leaf.depth)), "pruning a leaf")
            unchanged(d, before, "a rejected mutation")
        elif op == "value":
            leaves = d.leaves()
            leaves[i % len(leaves)].lib.set_value((j - 30) / 8.)
            d.update_y(d.y)
        elif op == "y":
            d.update_y(np.roll(d.y, i))
        elif op == "step":
            m = sampler.step(model, d.tree)
            if m is not None:
                d.note(m)
                applied += 1
        elif op == "ostep" and len(d.leaves()) <= 20:
            for m in oblivious.step(model, d.tree) or []:
                d.note(m)
                applied += 1
        check_structure(d)
        predictions_match(d)
    if applied >= 2:
        labels.append("nontrivial")
    labels += sorted(kinds)
    if any(r.depth >= 3 for r in d.refs()):
        labels.append("depth >= 3")
    return labels


deep = st.fixed_dictionaries({
    "data": staircase(),
    "seed": seeds,
    "ops": st.tuples(st.tuples(st.just("deep"), st.sampled_from([23, 14, 19]), index, index), st.lists(st.tuples(st.sampled_from(OPS + ["deep"]), index, index, index), min_size=2, max_size=6))
    .map(lambda t: [t[0]] + t[1]),
    "sigma": st.sampled_from([0.05, 0.5, 5.]),
})

SUBS = [
    Sub("history", history, run_history, 1500, 5000,
        "generated data and histories of mutations, invalid mutations, unapplied proposals and value changes; non-trivial = at least two mutations applied",
        examples=[
            {"data": {"X": [[0.], [1.], [2.], [3.]], "y": [0., 1., 2., 3.]}, "seed": 3, "sigma": 1.,
             "ops": [["grow", 0, 0, 1], ["grow", 0, 0, 0], ["grow", 2, 0, 0], ["bad", 0, 0, 0], ["prune", 0, 0, 0], ["prune", 0, 0, 0], ["undo", 0, 0, 0]]},
        ]),
    Sub("deep", deep, run_history, 200, 2000,
        "the same for trees up to a depth of two dozen; non-trivial = at least two mutations applied"),
]
ASSUMPTIONS = ["covariates are finite", "leaf values change during sampling steps, i.e. between target updates"]
