"""Reference computations of BART, written from its definition and independent of the library"""
import numpy as np

from harness.drive import splittable_columns


def log_marginal(y, sigma, sigma_mu):
    """log density of y ~ N(0, sigma^2 I + sigma_mu^2 11')"""
    n = len(y)
    if n == 0:
        return 0.
    a, b = sigma ** 2, sigma ** 2 + n * sigma_mu ** 2  # eigenvalues: across the mean, and along it
    mean = float(np.mean(y))
    return -0.5 * (n * np.log(2 * np.pi) + (n - 1) * np.log(a) + np.log(b) + float(np.sum((y - mean) ** 2)) / a + n * mean ** 2 / b)


def log_rule(X, rows, rule):
    """
    log probability of a split rule in a node: a variable that is not constant, then a row's value other than the largest
    A value between two of them counts as the lower one, which splits the rows alike
    """
    variable, value = rule
    columns = splittable_columns(X, rows)
    values = X[rows, variable]
    value = values[values <= value].max()
    below = values[values < values.max()]
    return -np.log(len(columns)) + np.log(np.sum(below == value) / len(below))


class Abstract(object):
    """A tree as nested rules over rows; detached from the library and from Driven"""

    def __init__(self, rows, depth=0, rule=None, left=None, right=None):
        self.rows, self.depth, self.rule, self.left, self.right = rows, depth, rule, left, right

    @property
    def is_leaf(self):
        return self.rule is None

    def walk(self):
        return [self] + ([] if self.is_leaf else self.left.walk() + self.right.walk())

    def leaves(self):
        return [x for x in self.walk() if x.is_leaf]

    def prunable(self):
        return [x for x in self.walk() if not x.is_leaf and x.left.is_leaf and x.right.is_leaf]

    def splittable(self, X):
        return [x for x in self.leaves() if splittable_columns(X, x.rows)]


def abstract(ref):
    if ref.is_leaf:
        return Abstract(ref.rows.copy(), ref.depth)
    return Abstract(ref.rows.copy(), ref.depth, ref.rule, abstract(ref.left), abstract(ref.right))


def grow_at(tree, X, rows, depth, rule):
    """A copy of tree in which the leaf holding exactly rows (at depth) is split by rule"""
    if tree.is_leaf:
        if tree.depth == depth and np.array_equal(tree.rows, rows):
            goes_left = X[:, rule[0]] <= rule[1]
            return Abstract(tree.rows, tree.depth, rule, Abstract(rows & goes_left, depth + 1), Abstract(rows & ~goes_left, depth + 1))
        return tree
    return Abstract(tree.rows, tree.depth, tree.rule, grow_at(tree.left, X, rows, depth, rule), grow_at(tree.right, X, rows, depth, rule))


def prune_at(tree, rows, depth):
    if tree.is_leaf:
        return tree
    if tree.depth == depth and np.array_equal(tree.rows, rows):
        return Abstract(tree.rows, tree.depth)
    return Abstract(tree.rows, tree.depth, tree.rule, prune_at(tree.left, rows, depth), prune_at(tree.right, rows, depth))


def log_tree_prior(tree, X, alpha, beta):
    total = 0.
    for node in tree.walk():
        p = alpha * (1. + node.depth) ** (-beta)
        if node.is_leaf:
            total += np.log1p(-p)
        else:
            total += np.log(p) + log_rule(X, node.rows, node.rule)
    return total


def log_tree_posterior(tree, X, y, sigma, sigma_mu, alpha, beta):
    return log_tree_prior(tree, X, alpha, beta) + sum(log_marginal(y[leaf.rows], sigma, sigma_mu) for leaf in tree.leaves())


def kind_probabilities(tree, X, p_grow, p_prune):
    can_grow, can_prune = len(tree.splittable(X)) > 0, len(tree.prunable()) > 0
    if can_grow and can_prune:
        return p_grow, p_prune
    return (1. if can_grow else 0.), (1. if can_prune else 0.)


def log_propose_grow(tree, X, rows, rule, p_grow, p_prune):
    return np.log(kind_probabilities(tree, X, p_grow, p_prune)[0]) - np.log(len(tree.splittable(X))) + log_rule(X, rows, rule)


def log_propose_prune(tree, X, p_grow, p_prune):
    return np.log(kind_probabilities(tree, X, p_grow, p_prune)[1]) - np.log(len(tree.prunable()))


def log_ratio_grow(before, after, X, y, rows, rule, p_grow, p_prune, sigma, sigma_mu, alpha, beta):
    return (log_tree_posterior(after, X, y, sigma, sigma_mu, alpha, beta) + log_propose_prune(after, X, p_grow, p_prune)
            - log_tree_posterior(before, X, y, sigma, sigma_mu, alpha, beta) - log_propose_grow(before, X, rows, rule, p_grow, p_prune))


def all_trees(X, rows=None, depth=0, max_depth=3):
    """Every tree the samplers can reach over X"""
    if rows is None:
        rows = np.ones(len(X), dtype=bool)
    out = [Abstract(rows, depth)]
    if depth >= max_depth:
        return out
    for c in splittable_columns(X, rows):
        for v in sorted(set(X[rows, c].tolist()))[:-1]:
            goes_left = X[:, c] <= v
            for l in all_trees(X, rows & goes_left, depth + 1, max_depth):
                for r in all_trees(X, rows & ~goes_left, depth + 1, max_depth):
                    out.append(Abstract(rows, depth, (c, v), l, r))
    return out
