"""
A tree of the library driven in lock step with a reference tree that keeps nothing but explicit
sets of rows.  Only the public surface of the library is used.
"""
from operator import gt, le

import numpy as np

from harness.core import Violation, close, need, same

from bartpy.data import make_bartpy_data
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import DecisionNode, LeafNode, split_node
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.tree import Tree, mutate


class Ref(object):
    """Reference node"""

    def __init__(self, lib, rows, depth, path, value=0.0):
        self.lib, self.rows, self.depth, self.path, self.value = lib, rows, depth, path, value
        self.left = self.right = None
        self.rule = None

    @property
    def is_leaf(self):
        return self.left is None

    def walk(self):
        out = [self]
        if not self.is_leaf:
            out += self.left.walk() + self.right.walk()
        return out


def splittable_columns(X, rows):
    return [j for j in range(X.shape[1]) if len(set(X[rows, j].tolist())) > 1]


class Driven(object):

    def __init__(self, X, y, data=None, tree=None):
        self.X, self.y = X, np.array(y, dtype=float)
        if tree is None:
            data = make_bartpy_data(X.copy(), self.y.copy(), normalize=False)
            leaf = LeafNode(Split(data))
            tree = Tree([leaf])
        self.tree = tree
        self.handed = None
        self.root = Ref(tree.nodes[0], np.ones(len(X), dtype=bool), 0, [])

    # ---- reference views
    def refs(self):
        return self.root.walk()

    def leaves(self):
        return [r for r in self.refs() if r.is_leaf]

    def decisions(self):
        return [r for r in self.refs() if not r.is_leaf]

    def splittable(self):
        return [r for r in self.leaves() if splittable_columns(self.X, r.rows)]

    def prunable(self):
        return [r for r in self.decisions() if r.left.is_leaf and r.right.is_leaf]

    def ref_of(self, lib):
        for r in self.refs():
            if r.lib is lib:
                return r
        raise Violation("a mutation refers to a node that is not in the tree")

    def parent_of(self, ref):
        for r in self.decisions():
            if r.left is ref or r.right is ref:
                return r
        return None

    # ---- applying mutations to the reference
    def note_grow(self, ref, updated, variable, value):
        goes_left = self.X[:, variable] <= value
        ref.lib = updated
        ref.rule = (int(variable), float(value))
        ref.left = Ref(updated.left_child, ref.rows & goes_left, ref.depth + 1, ref.path + [(int(variable), float(value), True)])
        ref.right = Ref(updated.right_child, ref.rows & ~goes_left, ref.depth + 1, ref.path + [(int(variable), float(value), False)])

    def note_prune(self, ref, updated):
        ref.lib = updated
        ref.left = ref.right = ref.rule = None
        ref.value = 0.0

    def note(self, mutation):
        """Follow a mutation made up and applied by the library"""
        ref = self.ref_of(mutation.existing_node)
        if mutation.kind == "grow":
            need(ref.is_leaf, "a decision node was grown")
            condition = mutation.updated_node.most_recent_split_condition()
            self.note_grow(ref, mutation.updated_node, condition.splitting_variable, condition.splitting_value)
        else:
            need(not ref.is_leaf and ref.left.is_leaf and ref.right.is_leaf, "a node without two leaf children was pruned")
            self.note_prune(ref, mutation.updated_node)

    # ---- mutations chosen by the case
    def choose_split(self, ref, j, k):
        columns = splittable_columns(self.X, ref.rows)
        variable = columns[j % len(columns)]
        values = sorted(set(self.X[ref.rows, variable].tolist()))[:-1]
        if k % 8 == 7 and k > 0:
            return variable, values[(len(values) - 1) // 2]  # halves of the same size come up often enough
        if k % 8 == 5:  # between two values, as splits of initialized trees are
            i = k // 8 % len(values)
            above = min(v for v in self.X[ref.rows, variable].tolist() if v > values[i])
            between = values[i] + (above - values[i]) * (0.5, 0.25, 0.75)[k % 3]
            if values[i] < between < above:
                return variable, between
        return variable, values[k % len(values)]

    def grow_mutation(self, ref, j, k):
        variable, value = self.choose_split(ref, j, k)
        conditions = (SplitCondition(variable, value, le), SplitCondition(variable, value, gt))
        updated = split_node(ref.lib, conditions)
        return GrowMutation(ref.lib, updated), variable, value

    def prune_mutation(self, ref):
        return PruneMutation(ref.lib, LeafNode(ref.lib.split, depth=ref.lib.depth))

    def grow(self, i, j, k):
        candidates = self.splittable()
        if not candidates:
            return False
        ref = candidates[i % len(candidates)]
        mutation, variable, value = self.grow_mutation(ref, j, k)
        mutate(self.tree, mutation)
        self.note_grow(ref, mutation.updated_node, variable, value)
        return True

    def prune(self, i):
        candidates = self.prunable()
        if not candidates:
            return False
        ref = candidates[i % len(candidates)]
        mutation = self.prune_mutation(ref)
        mutate(self.tree, mutation)
        self.note_prune(ref, mutation.updated_node)
        return True

    def deepen(self, steps, j=0, from_top=False):
        """Keep splitting the deepest leaf that can be split, one value at a time and the columns in turn"""
        done = 0
        for s in range(steps):
            candidates = self.splittable()
            if not candidates:
                break
            ref = max(candidates, key=lambda r: r.depth)
            mutation, variable, value = self.grow_mutation(ref, j + s, -1 if from_top else 0)
            mutate(self.tree, mutation)
            self.note_grow(ref, mutation.updated_node, variable, value)
            done += 1
        return done

    def update_y(self, y):
        self.y = np.array(y, dtype=float)
        self.handed = self.y.copy()
        self.tree.update_y(self.handed)

    def update_y_in_place(self, y):
        """The caller changes the array it handed over before and hands it over again"""
        self.y = np.array(y, dtype=float)
        if self.handed is None:
            self.handed = self.y.copy()
        self.handed[:] = self.y
        self.tree.update_y(self.handed)

    def update_y_from_root(self, y):
        """The same through the root node, which passes it on to its children"""
        self.y = np.array(y, dtype=float)
        self.handed = self.y.copy()
        self.root.lib.update_y(self.handed)

    # ---- predictions of the reference
    def predict(self, Q):
        out = np.zeros(len(Q))
        for leaf in self.leaves():
            out[self.member(leaf, Q)] = leaf.value
        return out

    @staticmethod
    def member(ref, Q):
        inside = np.ones(len(Q), dtype=bool)
        for variable, value, left in ref.path:
            inside &= (Q[:, variable] <= value) if left else (Q[:, variable] > value)
        return inside


def check_structure(d):
    """The tree's book keeping agrees with the reference"""
    tree = d.tree
    expected = d.refs()
    nodes = list(tree.nodes)
    same(sorted(id(x) for x in nodes), sorted(id(r.lib) for r in expected), "nodes of the tree (as identities)")
    for name, refs in [("leaf nodes", d.leaves()), ("decision nodes", d.decisions()),
                       ("splittable leaf nodes", d.splittable()), ("prunable decision nodes", d.prunable())]:
        attribute = name.replace(" ", "_")
        actual = getattr(tree, attribute)
        if sorted(id(x) for x in actual) != sorted(id(r.lib) for r in refs):
            raise Violation("{}: found {} of them where the reference has {}, or different ones".format(name, len(actual), len(refs)))
    for r in expected:
        if r.is_leaf:
            need(isinstance(r.lib, LeafNode), "a leaf of the reference is not a leaf of the tree")
            need(r.lib.left_child is None and r.lib.right_child is None, "a leaf has children")
        else:
            need(isinstance(r.lib, DecisionNode), "a decision node of the reference is not one in the tree")
            need(r.lib.left_child is r.left.lib, "left link of a decision node points elsewhere")
            need(r.lib.right_child is r.right.lib, "right link of a decision node points elsewhere")
            condition = r.lib.most_recent_split_condition()
            same((int(condition.splitting_variable), float(condition.splitting_value)), r.rule, "split rule of a decision node")
        same(int(r.lib.depth), r.depth, "depth of a node")


def check_partition(d, Q):
    """Membership of rows, in and out of sample"""
    for r in d.refs():
        inside = np.asarray(r.lib.split.condition())
        same(inside.astype(bool).tolist(), r.rows.tolist(), "training rows in a node at depth {}".format(r.depth))
        outside = np.asarray(r.lib.split.condition(d.X))
        same(outside.astype(bool).tolist(), r.rows.tolist(), "training rows in a node, asked as new rows")
        member = np.asarray(r.lib.split.condition(Q))
        same(member.astype(bool).tolist(), d.member(r, Q).tolist(), "new rows in a node at depth {}".format(r.depth))
    lib_leaves = list(d.tree.leaf_nodes)
    hits = np.sum([np.asarray(l.split.condition()).astype(int) for l in lib_leaves], axis=0)
    need(np.all(hits == 1), "training rows fall into {} leaves", sorted(set(np.atleast_1d(hits).tolist())))
    hits = np.sum([np.asarray(l.split.condition(Q)).astype(int) for l in lib_leaves], axis=0)
    need(np.all(hits == 1), "new rows fall into {} leaves", sorted(set(np.atleast_1d(hits).tolist())))


def check_statistics(d, ref):
    """What a node reports about its rows agrees with the rows themselves"""
    node, rows = ref.lib, ref.rows
    X = d.X[rows]
    same(int(node.data.X.n_obsv), int(rows.sum()), "row count of a node")
    scale = float(np.sum(np.abs(d.y))) + 1e-12
    close(node.data.y.summed_y(), float(np.sum(d.y[rows])), "target sum of a node", rtol=1e-9, atol=1e-9 * scale)
    for j in range(d.X.shape[1]):
        close(node.data.X.get_column(j), X[:, j], "column of a node", rtol=0, atol=0)
    columns = splittable_columns(d.X, rows)
    same([int(v) for v in node.data.X.splittable_variables()], columns, "splittable variables of a node")
    same(int(node.data.X.n_splittable_variables), len(columns), "number of splittable variables")
    same(bool(node.data.X.is_at_least_one_splittable_variable()), len(columns) > 0, "whether a node can be split")
    for j in range(d.X.shape[1]):
        values = X[:, j].tolist()
        same(bool(node.data.X.is_column_unique(j)), len(set(values)) == len(values), "whether a column of a node is unique")
        close(node.data.X.max_value_of_column(j), max(values), "largest value of a column", rtol=0, atol=0)
        for v in sorted(set(values))[:4] + sorted(set(values))[-1:]:
            close(node.data.X.proportion_of_value_in_variable(j, v), values.count(v) / len(values), "proportion of a value", rtol=1e-12)
