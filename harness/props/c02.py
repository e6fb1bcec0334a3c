"""C02: what a node reports about its rows equals recomputation from those rows"""
from operator import gt, le

import numpy as np

from harness.core import Sub, close, fresh, need, same, st
from harness.drive import Driven, Ref, check_statistics, splittable_columns
from harness.gens import TREE_KINDS, mostly, staircase, vast, arrays, dataset, index

from bartpy.data import make_bartpy_data
from bartpy.mutation import GrowMutation
from bartpy.node import LeafNode, split_node
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.tree import Tree, mutate

OPS = ["grow", "grow", "grow", "reuse", "reuse", "drop", "prune", "y", "y", "ask", "ask", "ask", "askall", "add", "half", "deep"]

history = st.fixed_dictionaries({
    "data": mostly(dataset(n=(3, 16), p=(1, 4), kinds=TREE_KINDS), staircase(rows=(12, 40), kinds=["distinct", "grid", "binary", "onediff", "near", "wide", "skew"]), 6),
    "normalize": st.booleans(),
    "ops": st.lists(st.tuples(st.sampled_from(OPS), index, index, index), min_size=5, max_size=20),
})


def ask(d, ref, what, column):
    """A single question to a node, so that questions come in every order"""
    node, rows, X = ref.lib, ref.rows, d.X[ref.rows]
    what = what % 9
    j = column % d.X.shape[1]
    values = X[:, j].tolist()
    if what == 0:
        same(int(node.data.X.n_obsv), int(rows.sum()), "row count of a node")
    elif what in (1, 2):
        close(node.data.y.summed_y(), float(np.sum(d.y[rows])), "target sum of a node", rtol=1e-9,
              atol=1e-9 * (float(np.sum(np.abs(d.y))) + 1e-12))
    elif what == 3:
        same([int(v) for v in node.data.X.splittable_variables()], splittable_columns(d.X, rows), "splittable variables of a node")
    elif what == 4:
        same(bool(node.data.X.is_at_least_one_splittable_variable()), len(splittable_columns(d.X, rows)) > 0, "whether a node can be split")
    elif what == 5:
        same(bool(node.data.X.is_column_unique(j)), len(set(values)) == len(values), "whether a column of a node is unique")
    elif what == 6:
        close(node.data.X.max_value_of_column(j), max(values), "largest value of a column", rtol=0, atol=0)
    elif what == 7:
        v = values[(d.X.shape[0] * 7 + j) % len(values)]
        close(node.data.X.proportion_of_value_in_variable(j, v), values.count(v) / len(values), "proportion of a value", rtol=1e-12)
        v = [float(d.X[0, j]), v + 0.5, float(d.X[:, j].max()) + 1.][len(values) % 3]
        close(node.data.X.proportion_of_value_in_variable(j, v), values.count(v) / len(values), "proportion of a value", rtol=1e-12)
    else:
        close(node.data.X.get_column(j), X[:, j], "column of a node", rtol=0, atol=0)


def check_condition_on(d, ref, condition):
    """A rule applied straight to the rows of a node"""
    v, value, left = condition.splitting_variable, condition.splitting_value, condition.operator is le
    rows = ref.rows & ((d.X[:, v] <= value) if left else (d.X[:, v] > value))
    split = ref.lib.split + condition
    same(int(split.data.X.n_obsv), int(rows.sum()), "row count after applying a rule")
    close(split.data.y.summed_y(), float(np.sum(d.y[rows])), "target sum after applying a rule", rtol=1e-9,
          atol=1e-9 * (float(np.sum(np.abs(d.y))) + 1e-12))
    if rows.any():
        probe = Ref(LeafNode(split), rows, 0, [])
        check_statistics(d, probe)


def run_history(case):
    fresh(0)
    X, y = arrays(case["data"])
    if case["normalize"]:
        data = make_bartpy_data(X.copy(), y.copy(), normalize=True)
        lo, hi = y.min(), y.max()
        normal = np.zeros(len(y)) if lo == hi else (y - lo) / (hi - lo) - 0.5
        close(data.y.values, normal, "normalized target", rtol=1e-9, atol=1e-12)
        d = Driven(X, normal, tree=Tree([LeafNode(Split(data))]))
    else:
        d = Driven(X, y)
    pool, labels, applied, reused, asked = [], [], 0, 0, 0
    for op, i, j, k in case["ops"]:
        if op in ("grow", "drop"):
            candidates = d.splittable()
            if not candidates:
                continue
            ref = candidates[i % len(candidates)]
            variable, value = d.choose_split(ref, j, k)
            pair = (SplitCondition(variable, value, le), SplitCondition(variable, value, gt))
            pool.append(pair)
            updated = split_node(ref.lib, pair)
            if op == "grow":
                mutation = GrowMutation(ref.lib, updated)
                mutate(d.tree, mutation)
                d.note_grow(ref, updated, variable, value)
                applied += 1
            else:
                goes_left = X[:, variable] <= value
                for child, rows in [(updated.left_child, ref.rows & goes_left), (updated.right_child, ref.rows & ~goes_left)]:
                    check_statistics(d, Ref(child, rows, 0, []))
        elif op == "deep":
            applied += d.deepen(1 + i % 12, j, k % 2 == 0)
        elif op == "half":
            # a decision built by one rule in place of the usual pair object
            candidates = d.leaves()
            ref = candidates[i % len(candidates)]
            v = j % X.shape[1]
            condition = SplitCondition(v, float(X[k % len(X), v]), le if (i + j) % 2 else gt)
            check_condition_on(d, ref, condition)
            check_condition_on(d, d.root, condition)
        elif op == "reuse" and pool:
            pair = pool[j % len(pool)]
            v, value = pair[0].splitting_variable, pair[0].splitting_value
            candidates = [r for r in d.leaves() if (X[r.rows, v] <= value).any() and (X[r.rows, v] > value).any()]
            if candidates:
                ref = candidates[i % len(candidates)]
                updated = split_node(ref.lib, pair)
                mutate(d.tree, GrowMutation(ref.lib, updated))
                d.note_grow(ref, updated, v, value)
                applied, reused = applied + 1, reused + 1
        elif op == "add" and pool:
            pair = pool[j % len(pool)]
            refs = d.refs()
            check_condition_on(d, refs[i % len(refs)], pair[k % 2])
        elif op == "prune":
            applied += d.prune(i)
        elif op == "y":
            [d.update_y_in_place, d.update_y_from_root, d.update_y, d.update_y][i % 4]([np.roll(d.y, i) * (1 + j % 3), d.y[::-1] + i, np.zeros(len(y)), d.y * -0.37 + k][k % 4])
        elif op == "ask":
            refs = d.refs()
            ask(d, refs[i % len(refs)], j, k)
            asked += 1
        elif op == "askall":
            for r in d.refs():
                check_statistics(d, r)
            asked += 1
    for r in d.refs():
        check_statistics(d, r)
    if applied >= 2:
        labels.append("nontrivial")
    if reused:
        labels.append("rule reused on another node")
    if asked:
        labels.append("asked in between")
    if len(d.leaves()) >= 4:
        labels.append("four leaves or more")
    return labels


wide = st.fixed_dictionaries({
    "data": staircase(rows=(10, 40), columns=(1, 4, 9, 13), kinds=["distinct", "distinct", "grid", "binary", "onediff", "near", "wide", "skew", "const"]),
    "normalize": st.booleans(),
    "ops": st.tuples(st.sampled_from(["askall", "y"]), st.sampled_from([2, 5, 11]), index, index,
                     st.lists(st.tuples(st.sampled_from(OPS), index, index, index), min_size=1, max_size=5))
    .map(lambda t: [[t[0], 0, 0, 0], ["deep", t[1], t[2], t[3]]] + t[4]),
})

vast_history = st.fixed_dictionaries({
    "data": vast(),
    "normalize": st.booleans(),
    "ops": st.lists(st.tuples(st.sampled_from(["grow", "grow", "drop", "y", "half", "ask", "reuse"]), index, index, index), min_size=2, max_size=4),
})

SUBS = [
    Sub("history", history, run_history, 1000, 8000,
        "generated data, splits (fresh, discarded and reused rules), prunes, target updates and questions in every order; non-trivial = at least two mutations applied",
        examples=[
            {"data": {"X": [[1.], [0.], [0.], [0.]], "y": [1., 2., 3., 4.]}, "normalize": False, "ops": [["ask", 0, 3, 0], ["grow", 0, 0, 0]]},
            {"data": {"X": [[0., 0.], [1., 0.], [0., 1.], [1., 1.]], "y": [1., 2., 4., 8.]}, "normalize": False,
             "ops": [["grow", 0, 0, 0], ["grow", 0, 0, 0], ["reuse", 1, 1, 0], ["reuse", 0, 1, 0]]},
        ]),
    Sub("vast", vast_history, run_history, 8, 60, "the same on 1300 to 70000 rows; non-trivial = at least two mutations applied"),
    Sub("wide", wide, run_history, 200, 2000,
        "the same for trees that peel off values one by one, on up to 13 columns, after the root was asked; non-trivial = at least two mutations applied"),
]
ASSUMPTIONS = ["covariates are finite", "targets reach nodes through update_y, as during sampling"]
