"""Generators.  Every generated value is plain JSON, so that a case can be stored and replayed."""
import numpy as np

from harness.core import st

COLUMN_KINDS = ["grid", "grid", "distinct", "distinct", "binary", "const", "onediff", "wide", "skew"]
# also: values that differ in the last bit only
TREE_KINDS = COLUMN_KINDS + ["near"]
SCALES = [(1., 0.), (1., 0.), (0.5, 0.), (1000., 0.), (0.001, 5.), (1., -100.), (1e6, 0.), (1e-6, 0.), (1e14, 0.), (1e-13, 0.)]


def mostly(usual, rare, out_of):
    """One time in out_of the rare strategy (one_of drops repeats, so it cannot carry weights)"""
    return st.sampled_from([0] * (out_of - 1) + [1]).flatmap(lambda i: rare if i else usual)


@st.composite
def column(draw, n, kinds=COLUMN_KINDS):
    kind = draw(st.sampled_from(kinds))
    if kind == "grid":
        values = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
    elif kind == "distinct":
        values = draw(st.permutations(list(range(n))))
    elif kind == "binary":
        values = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    elif kind == "const":
        values = [draw(st.integers(-2, 2))] * n
    elif kind == "onediff":
        values = [0] * n
        if n > 0:
            values[draw(st.sampled_from([0, n - 1, n // 2]))] = draw(st.sampled_from([-1, 1]))
    elif kind == "skew":
        values = [v * v * v for v in draw(st.lists(st.integers(0, 6), min_size=n, max_size=n))]
    elif kind == "near":
        base = draw(st.sampled_from([1., 0.1, 1e5]))
        return [float(base + v * np.spacing(base)) for v in draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))]
    else:
        values = draw(st.lists(st.integers(-10 ** 6, 10 ** 6), min_size=n, max_size=n))
        values = [v / 997. for v in values]
    scale, offset = draw(st.sampled_from(SCALES))
    return [float(v * scale + offset) for v in values]


@st.composite
def matrix(draw, n, p, kinds=COLUMN_KINDS):
    columns = [draw(column(n, kinds)) for _ in range(p)]
    return [[c[i] for c in columns] for i in range(n)]


@st.composite
def target(draw, n, constant_ok=True):
    values = draw(st.lists(st.integers(-40, 40), min_size=n, max_size=n))
    if not constant_ok and n > 1 and len(set(values)) == 1:
        values[draw(st.integers(0, n - 1))] += 8
    kind = draw(st.sampled_from([0, 0, 1, 2, 3]))
    scale, offset = [(0.25, 0.), (1000., 50000.), (1.2345678912e-4, 0.), (3.71828182846, -11.3141592)][kind]
    return [float(v * scale + offset) for v in values]


@st.composite
def dataset(draw, n=(1, 14), p=(1, 4), kinds=COLUMN_KINDS, constant_ok=True, big=True):
    """
    A training set: mostly small and explicit (so that it shrinks), sometimes larger and described
    by a seed
    """
    if big and draw(st.integers(0, 9)) == 0:
        shape = draw(st.sampled_from(["usual", "usual", "wide", "tall"]))
        rows = draw(st.integers(20, 120) if shape == "usual" else st.integers(12, 40) if shape == "wide" else st.integers(200, 400))
        columns = draw(st.integers(11, 14) if shape == "wide" else st.integers(1, 6) if shape == "usual" else st.integers(1, 3))
        return {"big": {"n": rows, "kinds": draw(st.lists(st.sampled_from(kinds), min_size=columns, max_size=columns)),
                        "seed": draw(st.integers(0, 10 ** 6))}}
    rows = draw(st.integers(*n))
    columns = draw(st.integers(*p))
    return {"X": draw(matrix(rows, columns, kinds)), "y": draw(target(rows, constant_ok))}


@st.composite
def staircase(draw, rows=(24, 60), columns=(1, 2, 3, 9, 11, 13), kinds=("distinct", "distinct", "distinct", "distinct", "grid", "wide", "near")):
    """Data with room for deep trees, and for rules over many columns"""
    p = draw(st.sampled_from(columns))
    return {"big": {"n": draw(st.integers(*rows)), "kinds": draw(st.lists(st.sampled_from(kinds), min_size=p, max_size=p)), "seed": draw(st.integers(0, 10 ** 6))}}


@st.composite
def vast(draw, rows=(1300, 5000, 33000, 70000), kinds=("sorted", "late", "distinct", "grid", "binary", "onediff", "const")):
    """Many rows, for what is done in blocks, on samples of rows or in small integers"""
    return {"big": {"n": draw(st.sampled_from(rows)) + draw(st.integers(0, 40)), "kinds": draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3)), "seed": draw(st.integers(0, 10 ** 6))}}


def arrays(data):
    """The arrays a generated data set stands for"""
    if "big" not in data:
        X = np.array(data["X"], dtype=float)
        if X.ndim == 1:
            X = X.reshape(len(data["X"]), -1)
        return X, np.array(data["y"], dtype=float)
    spec = data["big"]
    rng = np.random.RandomState(spec["seed"])
    n = spec["n"]
    columns = []
    for kind in spec["kinds"]:
        if kind == "grid":
            c = rng.randint(-3, 4, size=n).astype(float)
        elif kind == "distinct":
            c = rng.permutation(n).astype(float)
        elif kind == "binary":
            c = rng.randint(0, 2, size=n).astype(float)
        elif kind == "const":
            c = np.full(n, 2.)
        elif kind == "onediff":
            c = np.zeros(n)
            c[rng.randint(n)] = 1.
        elif kind == "near":
            c = 1. + rng.randint(0, 5, size=n) * np.spacing(1.)
        elif kind == "late":  # constant but for the last few rows
            c = np.zeros(n)
            c[-max(1, n // 2000):] = rng.choice([-1., 1.])
        elif kind == "sorted":
            c = np.arange(n) * 0.5
        elif kind == "skew":
            c = np.floor(rng.exponential(2., size=n)) ** 2
        else:
            c = rng.normal(size=n) * 100.
        columns.append(c)
    X = np.array(columns).T.copy()
    y = rng.normal(size=n) + (X[:, 0] > np.median(X[:, 0])) * 2.
    return X, y


seeds = st.integers(0, 2 ** 31 - 1)
index = st.integers(0, 63)


def sprinkle(draw, labels, **flags):
    for name, value in flags.items():
        if value:
            labels.append(name)
    return labels


def query_points(X, extra):
    """Rows to predict for: training rows, values just either side of them, and generated rows"""
    X = np.asarray(X, dtype=float)
    rows = [X]
    rows.append(np.nextafter(X, np.inf))
    rows.append(np.nextafter(X, -np.inf))
    rows.append(np.tile(X.max(axis=0) + 1e3, (1, 1)))
    rows.append(np.tile(X.min(axis=0) - 1e3, (1, 1)))
    rows.append(np.full((1, X.shape[1]), 1e300))
    rows.append(np.full((1, X.shape[1]), -1e300))
    if len(extra):
        picks = np.array([[X[e[j % len(e)] % len(X), j] for j in range(X.shape[1])] for e in extra])
        rows.append(picks)
    return np.concatenate(rows, axis=0)
