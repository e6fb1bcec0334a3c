"""Small fitted estimators and an independent reading of their stored samples"""
import numpy as np

from harness.core import Violation, need, st
from harness.gens import seeds

from bartpy.node import DecisionNode, LeafNode
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

LARGE = {"trees": {"n_trees": 120, "n_samples": 2, "n_burn": 2, "n_chains": 1},
         "samples": {"n_samples": 131, "n_trees": 1, "n_burn": 3, "n_chains": 1, "thin": 1.},
         "chains": {"n_chains": 12, "n_samples": 2, "n_burn": 1, "thin": 1.},
         "thinned": {"n_samples": 90, "n_trees": 2, "n_chains": 2, "n_burn": 30, "thin": 0.34}}


def mostly_small(settings):
    """Now and then one of the numbers is large"""
    return st.tuples(settings, st.sampled_from([None] * 21 + ["trees", "samples", "chains", "thinned"])).map(lambda v: dict(v[0], **LARGE.get(v[1], {})))


settings_strategy = mostly_small(st.fixed_dictionaries({
    "n_trees": st.integers(1, 5),
    "n_chains": st.integers(1, 3),
    "n_samples": st.integers(1, 8),
    "n_burn": st.integers(0, 10),
    "thin": st.sampled_from([1., 0.5, 0.34, 0.1]),
    "alpha": st.sampled_from([0.95, 0.99, 0.7]),
    "beta": st.sampled_from([0.2, 1., 2.]),
    "sigma_a": st.sampled_from([0.001, 3.]),
    "sigma_b": st.sampled_from([0.001, 0.3]),
    "sampler": st.sampled_from(["default", "default", "grow", "oblivious"]),
    "seed": seeds,
}))


def tree_sampler(name):
    if name == "default":
        return {}
    if name == "grow":
        return {"tree_sampler": get_tree_sampler(0.8, 0.2)}
    return {"tree_sampler": oblivious_sampler(0.5, 0.5)}


def estimator(s, cls=SklearnModel, **more):
    kwargs = {k: v for k, v in s.items() if k not in ("seed", "sampler")}
    kwargs.update(tree_sampler(s.get("sampler", "default")))
    kwargs.update(n_jobs=1)
    kwargs.update(more)
    return cls(**kwargs)


def root_of(tree):
    """The one node that is nobody's child"""
    children = set()
    for node in tree.nodes:
        for child in (node.left_child, node.right_child):
            if child is not None:
                children.add(id(child))
    roots = [x for x in tree.nodes if id(x) not in children]
    need(len(roots) == 1, "a stored tree has {} roots", len(roots))
    return roots[0]


def read_tree(node, depth=0):
    """Nested tuples: ('leaf', value) or (variable, value, left, right)"""
    need(depth < 400, "links of a tree go round in circles")
    if isinstance(node, LeafNode):
        return ("leaf", float(node.current_value))
    need(isinstance(node, DecisionNode), "unknown node {}", type(node))
    c = node.most_recent_split_condition()
    return (int(c.splitting_variable), float(c.splitting_value), read_tree(node.left_child, depth + 1), read_tree(node.right_child, depth + 1))


def evaluate(read, Q):
    out = np.zeros(len(Q))

    def fill(r, rows):
        if r[0] == "leaf":
            out[rows] = r[1]
        else:
            left = Q[:, r[0]] <= r[1]
            fill(r[2], rows & left)
            fill(r[3], rows & ~left)
    fill(read, np.ones(len(Q), dtype=bool))
    return out


def read_sample(sample):
    return [read_tree(root_of(t)) for t in sample.trees]


def evaluate_sample(read, Q):
    return np.sum([evaluate(r, Q) for r in read], axis=0)


def count_splits(read):
    return 0 if read[0] == "leaf" else 1 + count_splits(read[2]) + count_splits(read[3])


def split_variables(read):
    return [] if read[0] == "leaf" else [read[0]] + split_variables(read[2]) + split_variables(read[3])


def depths(read, depth=0):
    return [depth] if read[0] == "leaf" else [depth] + depths(read[2], depth + 1) + depths(read[3], depth + 1)


def to_units(normal, y):
    y = np.asarray(y, dtype=float)
    return y.min() + (np.asarray(normal) + 0.5) * (y.max() - y.min())


def expected_prediction(model, Q, y):
    return to_units(np.mean([evaluate_sample(read_sample(s), Q) for s in model.model_samples], axis=0), y)
