"""C15: stored samples are detached, complete snapshots"""
import pickle
from copy import deepcopy

import numpy as np

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, estimator, evaluate_sample, read_tree, root_of, settings_strategy
from harness.gens import mostly, staircase, arrays, dataset, index, query_points, seeds

from bartpy.data import make_bartpy_data
from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.model import Model, deep_copy_model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.trace import TraceLogger
from bartpy.tree import mutate


def reading(model, Q):
    """Everything a sample is to keep"""
    trees = []
    for t in model.trees:
        root = root_of(t)
        trees.append((read_tree(root), sorted(int(x.depth) for x in t.nodes), node_depths(root)))
    return {
        "trees": trees,
        "sigma": float(model.sigma.current_value()),
        "unnormalized sigma": float(model.sigma.current_unnormalized_value()),
        "sigma prior": (float(model.sigma.alpha), float(model.sigma.beta)),
        "prior": (float(model.alpha), float(model.beta), float(model.k), int(model.n_trees), float(model.sigma_m)),
        "predictions": np.asarray(model.predict(Q), dtype=float).tolist(),
    }


def node_depths(node):
    if node.left_child is None:
        return int(node.depth)
    return (int(node.depth), node_depths(node.left_child), node_depths(node.right_child))


def true_depths(read, depth=0):
    return depth if read[0] == "leaf" else (depth, true_depths(read[2], depth + 1), true_depths(read[3], depth + 1))


def check_same(actual, expected, when):
    for key in expected:
        same(actual[key], expected[key], "{} of a stored sample {}".format(key, when))


def check_links(sample, live=None):
    for t in sample.trees:
        inside = {id(x) for x in t.nodes}
        root = root_of(t)
        reached = []

        def visit(node):
            reached.append(id(node))
            need(id(node) in inside, "a link of a stored tree leaves the sample")
            if node.left_child is not None:
                visit(node.left_child)
                visit(node.right_child)
        visit(root)
        same(len(reached), len(set(reached)), "nodes reached twice")
        same(sorted(reached), sorted(inside), "nodes reached by the links of a stored tree")
        same(node_depths(root), true_depths(read_tree(root)), "depths of a stored tree")
    if live is not None:
        mine = {id(x) for t in sample.trees for x in t.nodes}
        theirs = {id(x) for t in live.trees for x in t.nodes}
        need(not (mine & theirs), "a stored sample shares nodes with the model being sampled")
        need(sample.sigma is not live.sigma, "a stored sample shares sigma with the model being sampled")


history = st.fixed_dictionaries({
    "data": mostly(dataset(n=(2, 12), p=(1, 3), kinds=["distinct", "grid", "binary", "skew", "const", "onediff"]), staircase(rows=(60, 140), columns=(1, 2, 9)), 5),
    "n_trees": st.integers(1, 4),
    "sampler": st.sampled_from(["default", "grow", "oblivious"]),
    "alpha": st.sampled_from([0.95, 0.6]), "beta": st.sampled_from([0.3, 2.]), "k": st.sampled_from([2., 1., 4.]),
    "a": st.sampled_from([1., 5.]), "b": st.sampled_from([0.2, 2.]), "scaling": st.sampled_from([1., 8., 0.123456789123, 98765.4321987]),
    "ops": st.lists(st.tuples(st.sampled_from(["sweep", "sweep", "sweep", "snap", "snap", "grow", "grows", "prune", "value", "spoil", "pickle", "copy"]), index, index), min_size=4, max_size=14),
    "seed": seeds,
})


def run_history(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    Q = query_points(X, [])
    sigma = Sigma(case["a"], case["b"], case["scaling"])
    live = Model(make_bartpy_data(X.copy(), y.copy(), normalize=True), sigma, n_trees=case["n_trees"], alpha=case["alpha"], beta=case["beta"], k=case["k"], initializer=None)
    trees = oblivious_sampler(0.5, 0.5) if case["sampler"] == "oblivious" else get_tree_sampler(*([0.5, 0.5] if case["sampler"] == "default" else [0.8, 0.2]))
    sampler = ModelSampler(SampleSchedule(trees, LeafNodeSampler(), SigmaSampler()))
    logger = TraceLogger()
    snaps, splits, later = [], 0, 0
    for op, i, j in case["ops"]:
        if op == "sweep":
            sampler.step(live, logger)
            later += len(snaps)
        elif op == "snap":
            now = reading(live, Q)
            sample = deep_copy_model(live) if i % 2 else logger["Model"](live)
            same([sample.alpha, sample.beta, sample.k], [case["alpha"], case["beta"], case["k"]], "prior parameters of a sample")
            check_same(reading(sample, Q), now, "when stored")
            check_links(sample, live)
            same(reading(live, Q), now, "model being sampled, after storing a sample")
            snaps.append((sample, now))
            splits += sum(count_splits(t[0]) for t in now["trees"])
        elif op in ("grow", "prune"):
            t = live.trees[i % len(live.trees)]
            try:
                mutate(t, uniformly_sample_grow_mutation(t) if op == "grow" else uniformly_sample_prune_mutation(t))
                later += len(snaps)
            except (NoSplittableVariableException, NoPrunableNodeException):
                pass
        elif op == "grows":  # a tree of many nodes
            t = live.trees[i % len(live.trees)]
            for _ in range(1 + j * 2):
                if not t.splittable_leaf_nodes:
                    break
                mutate(t, uniformly_sample_grow_mutation(t))
            later += len(snaps)
        elif op == "value":
            t = live.trees[i % len(live.trees)]
            t.leaf_nodes[j % len(t.leaf_nodes)].set_value(1. + i)
            t.update_y(t.nodes[0].data.y.values)
            live.sigma.set_value(0.25 + j)
        elif op == "spoil" and snaps:
            at = i % len(snaps)
            sample, was = snaps[at]
            before = reading(live, Q)
            in_sample = np.asarray(live.predict()).tolist()
            t = sample.trees[j % len(sample.trees)]
            for leaf in t.leaf_nodes:
                leaf.set_value(123.5)
            sample.sigma.set_value(99.)
            same(reading(live, Q), before, "model being sampled, after a stored sample was changed")
            same(np.asarray(live.predict()).tolist(), in_sample, "in sample prediction of the model being sampled, after a stored sample was changed")
            del snaps[at]
        elif op == "pickle" and snaps:
            at = i % len(snaps)
            sample, was = snaps[at]
            back = pickle.loads(pickle.dumps(sample))
            check_same(reading(back, Q), was, "after pickling")
            check_links(back, live)
            snaps[at] = (back, was)
        elif op == "copy" and snaps:
            at = i % len(snaps)
            sample, was = snaps[at]
            back = deepcopy(sample)
            check_same(reading(back, Q), was, "after copying")
            check_links(back, sample)
            snaps.append((back, was))
        for sample, was in snaps:
            check_same(reading(sample, Q), was, "after '{}'".format(op))
            check_links(sample, live)
    labels = []
    if splits and later:
        labels.append("nontrivial")
    return labels


# ---- whole runs: what was stored equals the model at that sweep, read while it was sampled
runs = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), kinds=["distinct", "grid", "binary", "skew"]),
    "settings": settings_strategy,
    "again": st.booleans(),
})


def run_whole(case):
    X, y = arrays(case["data"])
    Q = query_points(X, [])
    s = case["settings"]
    fresh(s["seed"])
    model = estimator(s, store_in_sample_predictions=True)
    moments = []

    class Watching(TraceLogger):
        def __init__(self):
            super().__init__()
            plain = self.f_model_log

            def log(m):
                moments.append(reading(m, Q))
                return plain(m)
            self.f_model_log = log

    watched = Model(make_bartpy_data(X.copy(), y.copy(), normalize=True), Sigma(1., 1., 3.), n_trees=s["n_trees"], initializer=None)
    chain = ModelSampler(model.schedule, trace_logger_class=Watching).samples(watched, s["n_samples"], s["n_burn"], s["thin"])
    same(len(chain["model"]), len(moments), "samples stored")
    for sample, was in zip(chain["model"], moments):
        check_same(reading(sample, Q), was, "at the end of the run")
        check_links(sample, watched)

    model.fit(X.copy(), y.copy())
    samples = list(model.model_samples)
    before = [reading(x, Q) for x in samples]
    predicted = np.asarray(model.predict(Q))
    back = pickle.loads(pickle.dumps(model))
    same([reading(x, Q) for x in back.model_samples], before, "samples of a pickled estimator")
    close(back.predict(Q), predicted, "prediction of a pickled estimator", rtol=0, atol=0)
    close(back.predict(), model.predict(), "in sample prediction of a pickled estimator", rtol=0, atol=0)
    if case["again"]:
        model.fit(X[::-1].copy(), -y)
        need(not ({id(x) for x in model.model_samples} & {id(x) for x in samples}), "a refit kept samples")
    else:
        model.predict(X)
        for x in samples:
            check_links(x, model.model)
    same([reading(x, Q) for x in samples], before, "samples after more work with the estimator")
    same([reading(x, Q) for x in back.model_samples], before, "samples of a pickled estimator after more work with the original")
    for x in samples:
        check_links(x)
    return ["nontrivial"] if any(count_splits(t[0]) for b in before for t in b["trees"]) and len(samples) >= 2 else []


SUBS = [
    Sub("history", history, run_history, 260, 2000,
        "generated histories of sweeps, direct changes, snapshots, pickling, copying and spoiling of snapshots; all snapshots read again after every step; non-trivial = a stored tree with a split and sampling after it was stored"),
    Sub("runs", runs, run_whole, 90, 700,
        "generated runs and fits: what is stored equals what the model was at that sweep, also after refitting and pickling; non-trivial = at least two samples and one split"),
]
