"""C05: the judged ratio is the exact Metropolis-Hastings ratio of BART"""
import numpy as np

from harness.core import Sub, close, fresh, need, same, st
from harness.drive import Driven
from harness.gens import mostly, staircase, arrays, dataset, index, seeds
from harness.oracle import abstract, grow_at, log_marginal, log_ratio_grow, prune_at

from bartpy.data import make_bartpy_data
from bartpy.model import Model
from bartpy.mutation import PruneMutation
from bartpy.node import LeafNode
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as get_oblivious_tree_sampler
from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.tree import Tree, mutate

targets = st.lists(st.integers(-20, 20), min_size=4, max_size=4)
situation = st.fixed_dictionaries({
    "data": mostly(dataset(n=(2, 12), p=(1, 3), kinds=["distinct", "grid", "binary", "skew", "const", "onediff", "wide", "near"], big=False),
                      mostly(staircase(rows=(24, 80), columns=(1, 2, 12)), staircase(rows=(150, 400), columns=(1, 2)), 6), 7),
    "y_scale": st.sampled_from([0.02, 0.1, 1.]),
    "ops": st.lists(st.tuples(st.sampled_from(["grow", "grow", "grow", "prune", "y", "sgrow", "judge"] * 3 + ["bush"]), index, index, index), min_size=1, max_size=9),
    "final": st.tuples(st.sampled_from(["grow", "grow", "prune", "sgrow", "sprune"]), index, index, index),
    "alpha": mostly(st.sampled_from([0.95, 0.5, 0.8, 0.2, 0.999]), st.integers(1, 999).map(lambda v: v / 1000.), 3),
    "beta": mostly(st.sampled_from([2., 0.5, 1., 3., 0., 0.05]), st.integers(0, 1200).map(lambda v: v / 100.), 3),
    "k": st.sampled_from([2., 1., 3.5, 0.5, 0.1]),
    "sigma": st.sampled_from([1., 0.05, 0.2, 3., 0.004, 60.]),
    "n_trees": mostly(st.integers(1, 7), st.integers(8, 120), 12),
    "probs": mostly(st.sampled_from([[0.5, 0.5], [0.3, 0.7], [0.8, 0.2], [0.1, 0.9]]), st.integers(1, 999).map(lambda v: [v / 1000., 1. - v / 1000.]), 4),
    "via": st.sampled_from(["ratio", "sampler"]),
    "seed": seeds,
})


def run_situation(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    y = (y - y.mean()) / (np.abs(y).max() + 1e-9) * case["y_scale"]
    d = Driven(X, y)
    sigma = Sigma(1., 1., 1.)
    sigma.set_value(case["sigma"])
    others = [Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=False)))]) for _ in range(case["n_trees"] - 1)]
    model = Model(d.tree.nodes[0].data, sigma, trees=[d.tree] + others, alpha=case["alpha"], beta=case["beta"], k=case["k"])
    p_grow, p_prune = case["probs"]
    ratio = UniformTreeMutationLikihoodRatio([p_grow, p_prune]) if case["via"] == "ratio" else get_tree_sampler(p_grow, p_prune).likihood_ratio
    sigma_mu = 0.5 / (case["k"] * np.sqrt(case["n_trees"]))

    def oracle(before, after, rows, rule):
        return log_ratio_grow(before, after, X, d.y, rows, rule, p_grow, p_prune, case["sigma"], sigma_mu, case["alpha"], case["beta"])

    def judge(kind, i, j, k, apply):
        before = abstract(d.root)
        if kind in ("grow", "sgrow"):
            if not d.splittable():
                return False
            if kind == "grow":
                ref = d.splittable()[i % len(d.splittable())]
                mutation, variable, value = d.grow_mutation(ref, j, k)
            else:
                mutation = uniformly_sample_grow_mutation(d.tree)
                ref = d.ref_of(mutation.existing_node)
                c = mutation.updated_node.most_recent_split_condition()
                variable, value = int(c.splitting_variable), float(c.splitting_value)
            after = grow_at(before, X, ref.rows, ref.depth, (variable, value))
            expected = oracle(before, after, ref.rows, (variable, value))
        else:
            if not d.prunable():
                return False
            mutation = d.prune_mutation(d.prunable()[i % len(d.prunable())]) if kind == "prune" else uniformly_sample_prune_mutation(d.tree)
            ref = d.ref_of(mutation.existing_node)
            rule = ref.rule
            after = prune_at(before, ref.rows, ref.depth)
            expected = -oracle(after, before, ref.rows, rule)
        actual = float(ratio.log_probability_ratio(model, d.tree, mutation))
        tolerance = 1e-7 * (1. + abs(expected)) + 1e-12 * float(np.sum(np.abs(d.y))) ** 2 / case["sigma"] ** 2
        close(actual, expected, "log ratio of a {}".format(mutation.kind), rtol=0, atol=tolerance)
        if not apply:
            return True
        # and the way back
        rows, depth = ref.rows, ref.depth
        mutate(d.tree, mutation)
        if mutation.kind == "grow":
            d.note_grow(ref, mutation.updated_node, variable, value)
            back = d.prune_mutation(ref)
        else:
            d.note_prune(ref, mutation.updated_node)
            from bartpy.mutation import GrowMutation
            from bartpy.node import split_node
            from bartpy.splitcondition import SplitCondition
            from operator import gt, le
            back = GrowMutation(ref.lib, split_node(ref.lib, (SplitCondition(rule[0], rule[1], le), SplitCondition(rule[0], rule[1], gt))))
        close(float(ratio.log_probability_ratio(model, d.tree, back)), -actual, "log ratio of undoing a {}".format(mutation.kind), rtol=0, atol=tolerance)
        return True

    for op, i, j, k in case["ops"]:
        if op == "grow":
            d.grow(i, j, k)
        elif op == "bush":
            for m in range(10 + i % 40):
                if d.splittable():
                    d.grow(i + 7 * m, j + 3 * m, k + m)
        elif op == "sgrow" and d.splittable():
            judge("sgrow", i, j, k, True)
        elif op == "prune":
            d.prune(i)
        elif op == "judge":
            judge("grow" if i % 2 else "prune", i, j, k, False)
        elif op == "y":
            d.update_y(np.roll(d.y, i) * (1 - 2 * (j % 2)))
    size = len(d.refs())
    judged = judge(*(list(case["final"]) + [True]))
    labels = []
    if judged and size >= 3:
        labels.append("nontrivial")
    if judged:
        labels.append("judged " + case["final"][0].replace("sg", "g").replace("sp", "p"))
    if size >= 7:
        labels.append("seven nodes or more")
    if size >= 41:
        labels.append("forty nodes or more")
    return labels


# ---- the oblivious sampler: many nodes at once, each judged by the same likelihood
oblivious = st.fixed_dictionaries({
    "data": mostly(dataset(n=(2, 14), p=(1, 3), kinds=["distinct", "grid", "binary", "skew", "wide"], big=False), staircase(rows=(24, 80), columns=(1, 2)), 5),
    "y_scale": st.sampled_from([0.02, 0.1, 1.]),
    "ops": st.lists(st.tuples(st.sampled_from(["grow", "grow", "grow", "prune", "y"]), index, index, index), max_size=9),
    "kind": st.sampled_from(["grow", "grow", "prune"]),
    "j": index, "k": index,
    "alpha": st.sampled_from([0.95, 0.5, 0.8]),
    "beta": st.sampled_from([2., 0.5, 1.]),
    "k_": st.sampled_from([2., 1., 0.5]),
    "sigma": st.sampled_from([1., 0.05, 0.2, 3.]),
    "n_trees": st.integers(1, 5),
    "probs": st.sampled_from([[0.5, 0.5], [0.3, 0.7], [0.8, 0.2]]),
    "seed": seeds,
})


def run_oblivious(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    y = (y - y.mean()) / (np.abs(y).max() + 1e-9) * case["y_scale"]
    d = Driven(X, y)
    sigma = Sigma(1., 1., 1.)
    sigma.set_value(case["sigma"])
    others = [Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=False)))]) for _ in range(case["n_trees"] - 1)]
    model = Model(d.tree.nodes[0].data, sigma, trees=[d.tree] + others, alpha=case["alpha"], beta=case["beta"], k=case["k_"])
    ratio = get_oblivious_tree_sampler(*case["probs"]).likihood_ratio
    sigma_mu = 0.5 / (case["k_"] * np.sqrt(case["n_trees"]))
    for op, i, j, k in case["ops"]:
        if op == "grow":
            d.grow(i, j, k)
        elif op == "prune":
            d.prune(i)
        else:
            d.update_y(np.roll(d.y, i) * (1 - 2 * (j % 2)))

    def likelihood():
        return sum(log_marginal(d.y[r.rows], case["sigma"], sigma_mu) for r in d.leaves())
    refs = d.splittable() if case["kind"] == "grow" else d.prunable()
    if not refs:
        return []
    mutations = [d.grow_mutation(r, case["j"], case["k"])[0] if case["kind"] == "grow" else d.prune_mutation(r) for r in refs]
    judged = [float(ratio.log_likihood_ratio(model, d.tree, m)) for m in mutations]
    whole = [float(ratio.log_probability_ratio(model, d.tree, m)) for m in mutations]
    for ref, mutation, likely, all_of_it in zip(refs, mutations, judged, whole):
        before = likelihood()
        mutate(d.tree, mutation)
        d.note(mutation)
        expected = likelihood() - before
        tolerance = 1e-7 * (1. + abs(expected)) + 1e-12 * float(np.sum(np.abs(d.y))) ** 2 / case["sigma"] ** 2
        close(likely, expected, "likelihood part of the oblivious ratio of a {}".format(mutation.kind), rtol=0, atol=tolerance)
        if mutation.kind == "grow":
            back = float(ratio.log_probability_ratio(model, d.tree, PruneMutation(mutation.updated_node, mutation.existing_node)))
            close(back, -all_of_it, "oblivious ratio of undoing a grow", rtol=0, atol=tolerance)
    return ["nontrivial", "judged " + case["kind"]] if len(refs) > 1 else ["judged " + case["kind"]]


SUBS = [
    Sub("oblivious", oblivious, run_oblivious, 400, 2000,
        "simultaneous grows or prunes of the oblivious sampler: the likelihood part of every one against marginal likelihoods, and of undoing a grow; non-trivial = several nodes at once"),
    Sub("ratio", situation, run_situation, 2500, 6000,
        "generated data, trees, target histories and all prior settings; log ratio of a grow or prune and of its undoing against full posteriors and proposal probabilities of both trees; non-trivial = the judged tree has at least one split already"),
]
ASSUMPTIONS = ["oracle: multivariate normal marginal likelihood of all leaves of both trees, CGM prior with the rule probability used for proposals", "floating point tolerance 1e-7 relative"]
