"""C23: initialized trees reproduce the sklearn tree they come from"""
import numpy as np
from sklearn.ensemble import GradientBoostingRegressor
from sklearn.tree import DecisionTreeRegressor

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import count_splits, depths, evaluate, read_tree, root_of
from harness.gens import mostly, seeds

from bartpy.data import make_bartpy_data
from bartpy.initializers.initializer import Initializer
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer, map_sklearn_tree_into_bartpy
from bartpy.model import Model
from bartpy.node import DecisionNode, LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.split import Split
from bartpy.tree import Tree


@st.composite
def data(draw, least=2, most=24):
    """Covariates that single precision holds exactly, as sklearn's trees use it"""
    n, p = draw(st.integers(least, most)), draw(st.integers(1, 4))
    if draw(st.sampled_from([False] * 5 + [True])):
        rng = np.random.RandomState(draw(seeds))
        n, p = draw(mostly(st.integers(40, 240), st.integers(1100, 2300), 4)), draw(st.integers(1, 12))
        if draw(st.integers(0, 2)) == 0:  # rows that part from the rest one by one: deep trees
            n = draw(st.integers(20, 34))
            return {"X": [[i] for i in range(n)], "y": [3. ** i for i in range(n)], "x_unit": 1., "unit": draw(st.sampled_from([1., 0.01]))}
        return {"X": rng.randint(-200, 200, size=(n, p)).tolist(), "y": rng.randint(-500, 500, size=n).tolist(), "x_unit": draw(st.sampled_from([1., 0.25, 64.])), "unit": draw(st.sampled_from([1., 0.01, 300.]))}
    grid = draw(st.sampled_from([[0, 1], [-3, 3], [-40, 40]]))
    X = draw(st.lists(st.lists(st.integers(*grid), min_size=p, max_size=p), min_size=n, max_size=n))
    y = draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n))
    return {"X": X, "y": y, "x_unit": draw(st.sampled_from([1., 0.25, 64.])), "unit": draw(st.sampled_from([1., 0.01, 300.]))}


def build(d):
    X = np.array(d["X"], dtype=float) * d["x_unit"]
    return X, np.array(d["y"], dtype=float) * d["unit"]


def new_tree(X, y):
    tree = Tree([LeafNode(Split(make_bartpy_data(X.copy(), y.copy(), normalize=False)))])
    tree.update_y(y.copy())
    return tree


def read_sklearn(t, i=0):
    if t.children_left[i] == -1:
        return ("leaf", float(t.value[i].ravel()[0]))
    return (int(t.feature[i]), float(t.threshold[i]), read_sklearn(t, t.children_left[i]), read_sklearn(t, t.children_right[i]))


def check_valid(tree, X, y, what):
    """Rows, targets, depths and lists of every node agree with the rules of the tree"""
    root = root_of(tree)
    seen = []

    def visit(node, rows, depth):
        seen.append(node)
        same(int(node.depth), depth, "{}: depth of a node".format(what))
        need(np.array_equal(np.asarray(node.split.condition(), dtype=bool), rows), "{}: rows of a node", what)
        same(int(node.data.X.n_obsv), int(rows.sum()), "{}: number of rows of a node".format(what))
        close(float(node.data.y.summed_y()), float(y[rows].sum()), "{}: target sum of a node".format(what), rtol=1e-9, atol=1e-9 * max(np.abs(y).sum(), 1e-12))
        if isinstance(node, DecisionNode):
            c = node.most_recent_split_condition()
            left = X[:, int(c.splitting_variable)] <= float(c.splitting_value)
            visit(node.left_child, rows & left, depth + 1)
            visit(node.right_child, rows & ~left, depth + 1)
    visit(root, np.ones(len(X), dtype=bool), 0)
    ids = lambda nodes: sorted(id(v) for v in nodes)  # noqa: E731
    need(ids(tree.nodes) == ids(seen), "{}: list of nodes", what)
    need(ids(tree.leaf_nodes) == ids(v for v in seen if isinstance(v, LeafNode)), "{}: list of leaves", what)
    need(ids(tree.decision_nodes) == ids(v for v in seen if isinstance(v, DecisionNode)), "{}: list of decision nodes", what)
    need(ids(tree.prunable_decision_nodes) == ids(v for v in seen if isinstance(v, DecisionNode) and isinstance(v.left_child, LeafNode) and isinstance(v.right_child, LeafNode)),
         "{}: list of prunable nodes", what)


def queries(X):
    return np.concatenate([X, X + 0.125, X - 0.125, X * 2., -X])


mapped = st.fixed_dictionaries({
    "data": data(),
    "depth": mostly(st.integers(1, 5), st.sampled_from([6, 7, 8, 9, 10, 11, 12, 21, 26, 40]), 5),
    "least": st.integers(2, 5),
    "kind": st.sampled_from(["tree", "random", "boosted"]),
    "ask": st.booleans(),
    "seed": seeds,
})


def run_mapped(case):
    fresh(case["seed"])
    X, y = build(case["data"])
    if case["kind"] == "boosted":
        model = GradientBoostingRegressor(n_estimators=1, max_depth=case["depth"], min_samples_split=case["least"], random_state=0).fit(X, y).estimators_[0][0]
    else:
        model = DecisionTreeRegressor(max_depth=case["depth"], min_samples_split=case["least"], random_state=0, splitter="random" if case["kind"] == "random" else "best").fit(X, y)
    if model.tree_.node_count < 2:
        return []
    tree = new_tree(X, y)
    if case["ask"]:
        tree.predict()
    map_sklearn_tree_into_bartpy(tree, model.tree_)
    read = read_tree(root_of(tree))
    need(read == read_sklearn(model.tree_), "structure: {} instead of {}", read, read_sklearn(model.tree_))
    check_valid(tree, X, y, "mapped tree")
    unit = max(np.abs(y).max(), 1e-12)
    close(tree.predict(), model.predict(X), "in sample prediction", rtol=1e-12, atol=1e-12 * unit)
    Q = queries(X)
    close(tree.predict(Q), model.predict(Q), "prediction of new rows", rtol=1e-12, atol=1e-12 * unit)
    return ["nontrivial"] if count_splits(read) >= 2 else []


def check_reference(tree, X, y, depth, least, what, loss="squared_error"):
    """
    The tree is one that sklearn fits to this target
    Which one can depend on the order it looks at covariates in, so many orders are tried; where that still leaves a choice nothing is claimed
    """
    unit = max(np.abs(y).max(), 1e-12)
    found = tree.predict()
    seen = []
    for i in range(300):
        m = GradientBoostingRegressor(n_estimators=1, max_depth=depth, min_samples_split=least, loss=loss, random_state=i).fit(X, y).estimators_[0][0]
        if m.tree_.node_count == 1:
            if len(tree.nodes) == 1:
                return False
        elif m.tree_.node_count == len(tree.nodes) and np.allclose(m.predict(X), found, rtol=1e-6, atol=1e-6 * unit):
            return True
        seen.append((m.tree_.node_count, m.predict(X)))
    if all(s[0] == seen[0][0] and np.allclose(s[1], seen[0][1], rtol=1e-9, atol=1e-9 * unit) for s in seen):
        same(len(tree.nodes), seen[0][0], "{}: nodes of the tree sklearn fits".format(what))
        close(found, seen[0][1], "{}: prediction of the tree sklearn fits".format(what), rtol=1e-6, atol=1e-6 * unit)
    return False


def check_fitted(tree, X, y, depth, least, what):
    """The tree of a boosted model of one tree: leaf values are mean residuals from the overall mean"""
    read = read_tree(root_of(tree))
    unit = max(np.abs(y).max(), 1e-12)
    if count_splits(read):
        need(max(depths(read)) <= depth, "{}: depth {} with a limit of {}", what, max(depths(read)), depth)

        def visit(r, rows):
            need(rows.any(), "{}: a node without rows", what)
            if r[0] == "leaf":
                close(r[1], (y[rows] - y.mean()).mean(), "{}: leaf value".format(what), rtol=1e-6, atol=1e-6 * unit)
                return
            need(rows.sum() >= least, "{}: a node of {} rows was split with a minimum of {}", what, rows.sum(), least)
            left = X[:, r[0]] <= r[1]
            visit(r[2], rows & left)
            visit(r[3], rows & ~left)
        visit(read, np.ones(len(X), dtype=bool))
        close(tree.predict(), evaluate(read, X), "{}: in sample prediction".format(what), rtol=1e-12, atol=1e-12 * unit)
        Q = queries(X)
        close(tree.predict(Q), evaluate(read, Q), "{}: prediction of new rows".format(what), rtol=1e-12, atol=1e-12 * unit)
    else:
        # nothing worth splitting: no two rows that differ, or a constant target
        possible = len({tuple(r) for r in X.tolist()}) > 1 and y.max() - y.min() > max(1e-6 * unit, 1e-9) and len(y) >= least and depth >= 1
        if possible:
            same(GradientBoostingRegressor(n_estimators=1, max_depth=depth, min_samples_split=least).fit(X, y).estimators_[0][0].tree_.node_count, 1, "{}: nodes of a tree fitted to the same target".format(what))
    return read


initialized = st.fixed_dictionaries({
    "data": data(),
    "depth": mostly(st.integers(1, 4), st.sampled_from([5, 6, 7, 8, 9, 10, 11, 20, 27, 33]), 4),
    "least": st.integers(2, 6),
    "n_trees": st.integers(1, 4),
    "kind": st.sampled_from(["tree", "loss", "model", "model"]),
    "loss": st.sampled_from(["squared_error", "absolute_error", "huber"]),
    "words": st.booleans(),
    "sweeps": st.integers(1, 3),
    "seed": seeds,
})


def sampler():
    return ModelSampler(SampleSchedule(get_tree_sampler(0.5, 0.5), LeafNodeSampler(), SigmaSampler()))


def run_initialized(case):
    fresh(case["seed"])
    X, y = build(case["data"])
    start = SklearnTreeInitializer(max_depth=case["depth"], min_samples_split=case["least"])
    if case["kind"] == "loss":
        if case["words"]:  # the default: depth 4, squared error
            start, depth, least, loss = SklearnTreeInitializer(), 4, 2, "squared_error"
        else:
            depth, least, loss = case["depth"], case["least"], case["loss"]
            start = SklearnTreeInitializer(max_depth=depth, min_samples_split=least, loss=loss)
        tree = new_tree(X, y)
        start.initialize_tree(tree)
        check_valid(tree, X, y, "tree initialized for {}".format(loss))
        return ["nontrivial"] if check_reference(tree, X, y, depth, least, "tree initialized for {}".format(loss), loss) else []
    if case["kind"] == "tree":
        tree = new_tree(X, y)
        start.initialize_tree(tree)
        read = check_fitted(tree, X, y, case["depth"], case["least"], "initialized tree")
        check_valid(tree, X, y, "initialized tree")
        check_reference(tree, X, y, case["depth"], case["least"], "initialized tree")
        return ["nontrivial"] if count_splits(read) >= 2 else []
    shared = make_bartpy_data(X.copy(), y.copy(), normalize=True)
    normal = np.array(shared.y.values, dtype=float)
    model = Model(shared, Sigma(1., 1., 1.), n_trees=case["n_trees"], initializer=start)
    same(len(model.trees), case["n_trees"], "trees")
    left = normal.copy()
    splits = 0
    for i, tree in enumerate(model.trees):
        read = check_fitted(tree, X, left, case["depth"], case["least"], "tree {} of {}".format(i, case["n_trees"]))
        check_valid(tree, X, left, "tree {} of {}".format(i, case["n_trees"]))
        splits += count_splits(read)
        left = left - evaluate(read, X)
    close(model.predict(), normal - left, "prediction of the initialized model", rtol=1e-9, atol=1e-9)
    close(model.predict(queries(X)), np.sum([evaluate(read_tree(root_of(t)), queries(X)) for t in model.trees], axis=0), "prediction of new rows", rtol=1e-9, atol=1e-9)
    close(normal, np.array(shared.y.values, dtype=float), "the caller's data", rtol=0, atol=0)
    # and it can be sampled from
    chain = sampler().samples(model, case["sweeps"], 0, 1., True, True)
    same(len(chain["model"]), case["sweeps"], "samples of an initialized model")
    for prediction in chain["in_sample_predictions"]:
        need(np.all(np.isfinite(prediction)), "predictions of a model sampled after initialization")
    close(model.predict(), np.sum([evaluate(read_tree(root_of(t)), X) for t in model.trees], axis=0), "prediction after sampling", rtol=1e-9, atol=1e-9)
    return ["nontrivial"] if splits >= 2 and case["n_trees"] > 1 else []


plain = st.fixed_dictionaries({
    "data": data(least=1),
    "n_trees": mostly(st.integers(1, 6), st.integers(7, 220), 8),
    "kind": st.sampled_from(["none", "base", "estimator"]),
    "seed": seeds,
})


def run_plain(case):
    fresh(case["seed"])
    X, y = build(case["data"])
    shared = make_bartpy_data(X.copy(), y.copy(), normalize=True)
    normal = np.array(shared.y.values, dtype=float)
    model = Model(shared, Sigma(1., 1., 1.), n_trees=case["n_trees"], initializer=None)
    same(len(model.trees), case["n_trees"], "trees")
    same(len({id(t) for t in model.trees}), case["n_trees"], "different trees")
    for tree in model.trees:
        same(len(tree.nodes), 1, "nodes of a tree that was not initialized")
        need(isinstance(tree.nodes[0], LeafNode), "a tree that was not initialized is no leaf")
        close(tree.predict(), np.zeros(len(y)), "prediction of a tree that was not initialized", rtol=0, atol=1e-15)
        close(tree.nodes[0].data.y.values, normal / case["n_trees"], "target of a tree that was not initialized", rtol=1e-9, atol=1e-12)
        check_valid(tree, X, normal / case["n_trees"], "tree that was not initialized")
    if case["n_trees"] > 1:  # changing the target of one tree must not reach another
        model.trees[0].update_y(normal * 0. + 5.)
        close(model.trees[1].nodes[0].data.y.values, normal / case["n_trees"], "target of a tree after another's was changed", rtol=1e-9, atol=1e-12)
    trees = [new_tree(X, normal) for _ in range(3)]
    Initializer().initialize_trees(iter(trees))
    need(all(len(t.nodes) == 1 for t in trees), "the base initializer changed a tree")
    return ["nontrivial"] if case["n_trees"] > 1 and len(y) > 1 else []


fits = st.fixed_dictionaries({
    "data": data(least=3),
    "depth": st.integers(1, 3),
    "n_trees": st.integers(1, 3),
    "n_chains": st.integers(1, 2),
    "n_samples": st.integers(1, 3),
    "seed": seeds,
})


def run_fits(case):
    fresh(case["seed"])
    X, y = build(case["data"])
    model = SklearnModel(n_trees=case["n_trees"], n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=0, thin=1., n_jobs=1,
                         store_in_sample_predictions=True, initializer=SklearnTreeInitializer(max_depth=case["depth"]))
    model.fit(X.copy(), y.copy())
    limit = case["depth"] + case["n_samples"]
    for s in model.model_samples:
        for t in s.trees:
            need(max(depths(read_tree(root_of(t)))) <= limit, "a tree deeper than its start allows")
    need(np.all(np.isfinite(model.predict(X))), "predictions of an initialized fit")
    close(model.predict(X), model.predict(), "in sample prediction", rtol=1e-8, atol=1e-8 * max(np.abs(y).max(), 1e-12))
    return ["nontrivial"]


SUBS = [
    Sub("mapped", mapped, run_mapped, 400, 3000,
        "fitted sklearn trees mapped over: structure, values, row bookkeeping and predictions equal; non-trivial = at least two splits",
        examples=[{"data": {"X": [[i, i % 3] for i in range(45)], "y": [3. ** i for i in range(45)], "x_unit": 1., "unit": 1.}, "depth": 40, "least": 2, "kind": k, "ask": a, "seed": 1}
                  for k in ("tree", "random", "boosted") for a in (False, True)]),
    Sub("initialized", initialized, run_initialized, 250, 1500,
        "trees and models started from the initializer: every leaf value recomputed from the target the tree was to fit; non-trivial = at least two splits, for models also several trees"),
    Sub("plain", plain, run_plain, 100, 800, "models without initializer; non-trivial = several trees and rows"),
    Sub("fits", fits, run_fits, 40, 300, "fits with the initializer; all cases non-trivial"),
]
ASSUMPTIONS = ["covariates are exactly representable in single precision, which sklearn's trees compare in"]
