"""C04: mutations are proposed with the documented probabilities"""
import numpy as np

from harness.core import Sub, Violation, fresh, need, same, st
from harness.drive import Driven, splittable_columns
from harness.gens import mostly, arrays, dataset, index, seeds
from harness.stats import counts_match

from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.model import Model
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer as ObliviousProposer
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma

PROBABILITIES = [[0.5, 0.5], [0.3, 0.7], [0.75, 0.25], [0.9, 0.1], [0.02, 0.98]]

situations = st.fixed_dictionaries({
    "data": dataset(n=(4, 11), p=(1, 3), kinds=["distinct", "distinct", "grid", "skew", "binary", "const", "onediff", "near"], big=False),
    "grows": st.lists(st.tuples(index, index, index), min_size=1, max_size=6),
    "probs": st.sampled_from(PROBABILITIES),
    "seed": seeds,
    "decoy": st.sampled_from(["none", "stump", "full"]),
    "via": st.sampled_from(["proposer", "sampler"]),
    "draws": st.just(1600),
})


def build(case):
    if "large" in case:
        X, y = arrays({"big": case["large"]})
    else:
        X, y = arrays(case["data"])
    d = Driven(X, y)
    for i, j, k in case["grows"]:
        d.grow(i, j, k)
    return d


def rule_probabilities(X, rows):
    out = {}
    columns = splittable_columns(X, rows)
    for c in columns:
        values = X[rows, c].tolist()
        top = max(values)
        below = [v for v in values if v != top]
        for v in set(below):
            out[(c, float(v))] = below.count(v) / len(below) / len(columns)
    return out


def expected_outcomes(d, probs):
    """Probability of every mutation of this tree"""
    splittable, prunable = d.splittable(), d.prunable()
    if splittable and prunable:
        grow, prune = probs[0] / sum(probs), probs[1] / sum(probs)
    else:
        grow, prune = (1., 0.) if splittable else (0., 1.)
    out = {}
    for r in splittable:
        for (c, v), p in rule_probabilities(d.X, r.rows).items():
            out[("grow", d.refs().index(r), c, v)] = grow * p / len(splittable)
    for r in prunable:
        out[("prune", d.refs().index(r), None, None)] = prune / len(prunable)
    return {k: p for k, p in out.items() if p > 0}


def describe(d, m):
    ref = d.ref_of(m.existing_node)
    if m.kind == "grow":
        c = m.updated_node.most_recent_split_condition()
        return ("grow", d.refs().index(ref), int(c.splitting_variable), float(c.splitting_value))
    return ("prune", d.refs().index(ref), None, None)


# ---- larger trees: several prunable nodes, leaves at many depths
large = st.fixed_dictionaries({
    "large": st.sampled_from([1, 2, 3, 12, 14]).flatmap(lambda p: st.fixed_dictionaries({
        "n": st.integers(24, 60), "kinds": st.lists(st.sampled_from(["distinct", "distinct", "grid", "binary", "const", "skew"]), min_size=p, max_size=p), "seed": seeds})),
    "grows": mostly(st.lists(st.tuples(index, index, index), min_size=6, max_size=14), st.just([]), 3),
    "probs": st.sampled_from(PROBABILITIES[:4]),
    "seed": seeds,
    "decoy": st.just("none"),
    "via": st.sampled_from(["proposer", "sampler"]),
    "draws": st.just(6000),
})


# ---- very many leaves, or very many rows in a leaf
many = st.one_of(
    st.fixed_dictionaries({
        "large": st.fixed_dictionaries({"n": st.integers(150, 260), "kinds": st.lists(st.sampled_from(["distinct", "distinct", "sorted", "grid"]), min_size=2, max_size=3), "seed": seeds}),
        "grows": st.tuples(st.integers(50, 110), seeds).map(lambda t: np.random.RandomState(t[1]).randint(64, size=(t[0], 3)).tolist()),
        "probs": st.sampled_from(PROBABILITIES[:4]), "seed": seeds, "decoy": st.just("none"), "via": st.sampled_from(["proposer", "sampler"]), "draws": st.just(6000)}),
    st.fixed_dictionaries({
        "large": st.fixed_dictionaries({"n": st.integers(1100, 2500), "kinds": st.lists(st.sampled_from(["distinct", "sorted", "late", "skew"]), min_size=1, max_size=3), "seed": seeds}),
        "grows": st.lists(st.tuples(index, index, index), max_size=2),
        "probs": st.sampled_from(PROBABILITIES[:4]), "seed": seeds, "decoy": st.just("none"), "via": st.sampled_from(["proposer", "sampler"]), "draws": st.just(6000)}))


def marginals(expected, counts, depth):
    """The parts of a choice on their own, where fewer outcomes make a sharper test"""
    values = {}
    for kind, node, variable, value in expected:
        values.setdefault((kind, node, variable), []).append(value)
    values = {k: sorted(v) for k, v in values.items() if k[0] == "grow"}

    def rank(o, top):
        if o[0] != "grow" or o[3] not in values.get(o[:3], ()):
            return o[0], None
        v = values[o[:3]]
        return o[0], min(len(v) - 1 - v.index(o[3]) if top else v.index(o[3]), 3)

    for name, key in [("kind", lambda o: o[0]), ("node", lambda o: o[:2]), ("variable in its leaf", lambda o: o[:3]),
                      ("half of the nodes", lambda o: (o[0], o[1] % 2)), ("depth", lambda o: (o[0], depth[o[1]])), ("variable", lambda o: (o[0], o[2])),
                      ("tenth of the nodes", lambda o: (o[0], o[1] * 10 // len(depth))), ("tenth of the values", lambda o: (o[0], values[o[:3]].index(o[3]) * 10 // len(values[o[:3]])) if o[0] == "grow" and o[3] in values.get(o[:3], ()) else (o[0], None)),
                      ("rank from the top", lambda o: rank(o, True)), ("rank from the bottom", lambda o: rank(o, False))]:
        e, c = {}, {}
        for o, p in expected.items():
            e[key(o)] = e.get(key(o), 0.) + p
        for o, n in counts.items():
            c[key(o)] = c.get(key(o), 0) + n
        yield name, c, {k: min(p, 1.) if p < 1 - 1e-12 else 1. for k, p in e.items()}


def run_situation(case):
    fresh(case["seed"])
    d = build(case)
    decoy = None
    if case["decoy"] == "stump":
        decoy = Driven(np.array([[0.], [1.], [2.]]), np.zeros(3))
    elif case["decoy"] == "full":
        decoy = Driven(np.array([[0.], [1.]]), np.zeros(2))
        decoy.grow(0, 0, 0)
    if case["via"] == "proposer":
        proposer = UniformMutationProposer(list(case["probs"]))
    else:
        proposer = get_tree_sampler(*case["probs"]).proposer
    if not d.splittable() and not d.prunable():
        try:
            proposer.propose(d.tree)
        except (NoSplittableVariableException, NoPrunableNodeException):
            return ["nothing possible"]
        raise Violation("a mutation was proposed for a tree that allows none")
    expected = expected_outcomes(d, case["probs"])
    counts, kinds = {}, []
    for _ in range(case["draws"]):
        if decoy is not None:
            proposer.propose(decoy.tree)
        outcome = describe(d, proposer.propose(d.tree))
        counts[outcome] = counts.get(outcome, 0) + 1
        kinds.append(outcome[0])
    counts_match(counts, {k: 1. if p > 1 - 1e-12 else p for k, p in expected.items()}, "mutations proposed")
    for name, c, e in marginals(expected, counts, [r.depth for r in d.refs()]):
        counts_match(c, e, "{} of the mutations proposed".format(name))
    if d.splittable() and d.prunable():
        pairs = {}
        for a, b in zip(kinds[::2], kinds[1::2]):
            pairs[(a, b)] = pairs.get((a, b), 0) + 1
        p = case["probs"][0] / sum(case["probs"])
        counts_match(pairs, {("grow", "grow"): p * p, ("grow", "prune"): p * (1 - p), ("prune", "grow"): p * (1 - p), ("prune", "prune"): (1 - p) ** 2},
                     "kinds of successive proposals")
    labels = ["grow and prune possible"] if d.splittable() and d.prunable() else []
    if len(expected) >= 3:
        labels.append("nontrivial")
    if len(d.prunable()) >= 2:
        labels.append("several prunable nodes")
    if len(d.prunable()) >= 4:
        labels.append("four prunable nodes or more")
    return labels


# ---- oblivious proposals: all leaves at once
def run_oblivious(case):
    fresh(case["seed"])
    d = build(case)
    if len(d.leaves()) > 9:
        case["draws"] = case["draws"] // 2
    proposer = ObliviousProposer(*case["probs"]) if case["via"] == "proposer" else oblivious_sampler(*case["probs"]).proposer
    splittable, prunable = d.splittable(), d.prunable()
    if not splittable and not prunable:
        return ["nothing possible"]
    grow = case["probs"][0] / sum(case["probs"]) if splittable and prunable else (1. if splittable else 0.)
    kinds, rules = {}, [{} for _ in splittable]
    for _ in range(case["draws"] // 4):
        mutations = list(proposer.propose(d.tree))
        kind = mutations[0].kind
        kinds[kind] = kinds.get(kind, 0) + 1
        nodes = [d.ref_of(m.existing_node) for m in mutations]
        need(all(m.kind == kind for m in mutations), "kinds are mixed in one proposal")
        target = splittable if kind == "grow" else prunable
        same(sorted(id(r) for r in nodes), sorted(id(r) for r in target), "nodes changed together")
        if kind == "grow":
            for m, r in zip(mutations, nodes):
                c = m.updated_node.most_recent_split_condition()
                rule = (int(c.splitting_variable), float(c.splitting_value))
                tally = rules[splittable.index(r)]
                tally[rule] = tally.get(rule, 0) + 1
    counts_match(kinds, {k: p for k, p in [("grow", grow), ("prune", 1. - grow)] if p > 0}, "kinds of oblivious proposals")
    for r, tally in zip(splittable, rules):
        if tally:
            e = rule_probabilities(d.X, r.rows)
            counts_match(tally, {k: 1. if p > 1 - 1e-12 else p for k, p in e.items()}, "rules of oblivious proposals")
            by_variable, ev = {}, {}
            for (c, v), n in tally.items():
                by_variable[c] = by_variable.get(c, 0) + n
            for (c, v), p in e.items():
                ev[c] = ev.get(c, 0.) + p
            counts_match(by_variable, {k: 1. if p > 1 - 1e-12 else p for k, p in ev.items()}, "variables of oblivious proposals")
    return ["nontrivial"] if splittable and prunable else []


# ---- trees that allow nothing are left alone
stuck = st.fixed_dictionaries({
    "n": st.integers(1, 6), "p": st.integers(1, 3), "value": st.integers(-3, 3), "seed": seeds,
    "probs": st.sampled_from(PROBABILITIES), "oblivious": st.booleans(), "steps": st.integers(1, 5),
})


def run_stuck(case):
    fresh(case["seed"])
    d = Driven(np.full((case["n"], case["p"]), float(case["value"])), np.arange(case["n"], dtype=float))
    d.tree.leaf_nodes[0].set_value(1.5)
    d.update_y(d.y)
    model = Model(d.tree.nodes[0].data, Sigma(1., 1., 1.), trees=[d.tree])
    sampler = (oblivious_sampler if case["oblivious"] else get_tree_sampler)(*case["probs"])
    for _ in range(case["steps"]):
        result = sampler.step(model, d.tree)
        need(not result, "a tree that can be neither grown nor pruned was mutated")
        need(len(d.tree.nodes) == 1 and d.tree.nodes[0] is d.root.lib, "a tree that can be neither grown nor pruned was changed")
        same(np.asarray(d.tree.predict()).tolist(), [1.5] * case["n"], "prediction of a tree that cannot change")
    return ["nontrivial"]


SUBS = [
    Sub("frequencies", situations, run_situation, 90, 250,
        "trees grown by the case on generated data, several grow/prune probabilities, 1600 proposals each against exact probabilities (interleaved with proposals for another tree); non-trivial = at least three possible mutations",
        examples=[
            {"data": {"X": [[0.], [0.], [1.], [2.], [2.], [3.]], "y": [0.] * 6}, "grows": [[0, 0, 1], [0, 0, 0]], "probs": [0.3, 0.7], "seed": 5, "decoy": "stump", "via": "proposer", "draws": 4000},
            {"data": {"X": [[0., 5.], [0., 6.], [1., 7.], [2., 7.], [2., 9.], [3., 9.]], "y": [0.] * 6}, "grows": [[0, 1, 1]], "probs": [0.9, 0.1], "seed": 6, "decoy": "full", "via": "sampler", "draws": 4000},
        ]),
    Sub("large", large, run_situation, 20, 60,
        "trees of seven to fifteen leaves on larger generated data, 6000 proposals each; non-trivial = at least three possible mutations",
        examples=[{"large": {"n": 40, "kinds": ["distinct", "distinct"], "seed": s}, "grows": [[0, 0, 20], [0, 1, 9], [1, 1, 9], [0, 0, 4], [1, 0, 4], [2, 0, 4], [3, 0, 4], [0, 1, 2], [0, 1, 1]],
                   "probs": p, "seed": s, "decoy": "none", "via": "sampler", "draws": 20000} for s, p in [(3, [0.5, 0.5])]]),
    Sub("many", many, run_situation, 4, 20,
        "trees of fifty leaves and more, and leaves of more than a thousand rows, 6000 proposals each; non-trivial = at least three possible mutations"),
    Sub("oblivious", situations, run_oblivious, 150, 200,
        "the same for the sampler that changes all leaves at once; non-trivial = both kinds possible"),
    Sub("oblivious large", large, run_oblivious, 15, 40,
        "the same on larger generated data; non-trivial = both kinds possible"),
    Sub("stuck", stuck, run_stuck, 60, 300,
        "constant covariates: nothing can be proposed; every case counts"),
]
ASSUMPTIONS = ["frequencies are compared by exact binomial and chi-square tests at 1e-10 per test"]
