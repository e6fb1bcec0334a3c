"""C16: chains are independent however they are run"""
import math
import sys
import threading

import joblib
import numpy as np
from joblib.externals.loky import get_reusable_executor

from harness.core import Sub, fresh, need, same, st
from harness.fitted import count_splits, depths, estimator, read_sample, settings_strategy
from harness.gens import arrays, dataset, seeds

from bartpy.runner import run_models
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel


class backend(object):
    """Run what is inside with chains in sequence, in threads, in forked or in started processes"""

    def __init__(self, name, n_jobs):
        self.name, self.n_jobs = name, n_jobs

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        if self.name == "threading":
            sys.setswitchinterval(30.)  # interleavings are the subject of C27
        self.config = None
        if self.name != "sequential":
            self.config = joblib.parallel_config(backend=self.name)
            self.config.__enter__()
        return self

    def __exit__(self, *args):
        sys.setswitchinterval(self.interval)
        if self.config is not None:
            self.config.__exit__(*args)


def jobs(name, n):
    return 1 if name == "sequential" else n


def distinct(groups, what):
    """
    No number may turn up in two of the groups: all are draws of a continuous distribution, which agree
    to 13 digits by chance once in some million cases
    """
    everything = sorted((v, g) for g, values in enumerate(groups) for v in values)
    for (v, g), (w, h) in zip(everything, everything[1:]):
        need(g == h or w - v > 1e-13 * min(1., abs(w)) + 1e-15, "{}: {} in both chain {} and chain {}", what, v, g, h)


def check_fresh_start(chain_samples, n_burn, thin, what, oblivious=False):
    """Without burn-in the first sample of a chain comes after few sweeps, so its trees have few splits"""
    if not len(chain_samples):
        return
    first = read_sample(chain_samples[0])
    sweeps = n_burn + math.ceil(1. / thin)
    size = (lambda t: max(depths(t))) if oblivious else count_splits  # a sweep adds one split, or one level
    need(all(size(t) <= sweeps for t in first), "{}: a chain did not start from its own trees", what)


def leaf_values(chain_samples):
    return [float(leaf.current_value) for s in chain_samples for t in s.trees for leaf in t.leaf_nodes]


def split_up(model, n_chains):
    samples = list(model.model_samples)
    size = len(samples) // n_chains
    same(len(samples), size * n_chains, "samples")
    return [samples[i * size:(i + 1) * size] for i in range(n_chains)]


# ---- draws taken back out of the samples
draws = st.fixed_dictionaries({
    "n": st.integers(2, 9),
    "y": st.lists(st.integers(0, 20), min_size=9, max_size=9),
    "n_chains": st.sampled_from([1, 1, 2, 3, 4]),
    "n_samples": st.integers(3, 12),
    "backend": st.sampled_from(["sequential", "sequential", "threading", "multiprocessing"]),
    "warm": st.lists(st.sampled_from(["sequential", "sequential", "threading", "multiprocessing"]), max_size=2),
    "how": st.sampled_from(["fit", "fit", "run_models"]),
    "default": st.booleans(),
    "anew": st.booleans(),
    "seed": seeds,
})


def standard_draws(chain_samples, y, a, b, k=2.):
    """Single leaf trees: recover the normal and gamma draws behind leaf values and sigma"""
    n, sigma = len(y), 1.
    z, g = [], []
    sigma_mu2 = (0.5 / k) ** 2
    for s in chain_samples:
        (tree,) = s.trees
        (leaf,) = tree.leaf_nodes
        value = float(leaf.current_value)
        precision = 1. / sigma_mu2 + n / sigma ** 2
        z.append((value - y.sum() / sigma ** 2 / precision) * math.sqrt(precision))
        sigma = float(s.sigma.current_value())
        g.append((b + 0.5 * np.sum((y - value) ** 2)) / sigma ** 2)
    return z, g


def run_draws(case):
    fresh(case["seed"])
    n = case["n"]
    X = np.full((n, 1), 3.)
    y = np.array(case["y"][:n], dtype=float)
    y[0] = 25.
    y[1] = -3.
    normal = (y - y.min()) / (y.max() - y.min()) - 0.5
    more = {} if case["default"] else {"tree_sampler": get_tree_sampler(0.5, 0.5)}
    zs, gs, model = [], [], None
    for name in case["warm"] + [case["backend"]]:
        with backend(name, max(2, case["n_chains"])):
            if model is None or case["anew"]:
                model = SklearnModel(n_trees=1, n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=0, thin=1., sigma_a=2., sigma_b=0.4, **more)
            model.set_params(n_jobs=jobs(name, max(2, case["n_chains"])))
            if case["how"] == "fit":
                models = [model.fit(X.copy(), y.copy())]
            else:
                models = run_models(model, [X.copy(), X.copy()], [y.copy(), y.copy()])
            for m in models:
                for chain in split_up(m, case["n_chains"]):
                    z, g = standard_draws(chain, normal, 2., 0.4)
                    zs.append(z)
                    gs.append(g)
    distinct(zs, "standard normal draw behind a leaf value")
    distinct(gs, "gamma draw behind sigma")
    return ["nontrivial"] if case["backend"] != "sequential" or case["warm"] else []


# ---- which mutations are made
paths = st.fixed_dictionaries({
    "of": st.sampled_from(["kind", "acceptance"]),
    "n_chains": st.integers(2, 4),
    "backend": st.sampled_from(["sequential", "threading", "multiprocessing"]),
    "warm": st.booleans(),
    "shared": st.booleans(),
    "seed": seeds,
})
LENGTH = 151
KIND_ALPHA, KIND_BETA = 0.8595730603150696, 0.8460210645815786  # with a probability of growing of 0.4 every proposal has ratio 1


def run_paths(case):
    """
    With a flat likelihood and covariates of two or three values, the number of splits over time is
    a function of the draws for accepting ('acceptance') or of those for growing or pruning ('kind')
    """
    fresh(case["seed"])
    if case["of"] == "kind":
        X, alpha, beta = np.array([[0.], [1.], [2.]]), KIND_ALPHA, KIND_BETA
    else:
        X, alpha, beta = np.array([[0.], [1.]]), 0.3, 1.
    y = np.linspace(0., 1., len(X))
    more = {"tree_sampler": get_tree_sampler(0.5, 0.5)} if not case["shared"] else {}
    if case["of"] == "kind":
        more = {"tree_sampler": get_tree_sampler(0.4, 0.6)}
    made = []
    for name in (["sequential"] if case["warm"] else []) + [case["backend"]]:
        with backend(name, case["n_chains"]):
            model = SklearnModel(n_trees=1, n_chains=case["n_chains"], n_samples=LENGTH, n_burn=0, thin=1., sigma_a=1e4, sigma_b=1e10,
                                 alpha=alpha, beta=beta, n_jobs=jobs(name, case["n_chains"]), **more)
            model.fit(X.copy(), y.copy())
            for chain in split_up(model, case["n_chains"]):
                check_fresh_start(chain, 0, 1., "path")
                made.append("".join(str(count_splits(read_sample(s)[0])) for s in chain))
    need(all(len(set(p)) > 1 for p in made), "a chain of {} sweeps never changed its tree", LENGTH)
    # a stretch of 130 sweeps is worth well over 60 random bits
    pieces = {}
    for i, p in enumerate(made):
        for start in range(0, LENGTH - 130 + 1):
            piece = p[start:start + 130]
            need(pieces.setdefault(piece, i) == i, "chains {} and {} went the same way for 130 sweeps", pieces[piece], i)
    return ["nontrivial"]


# ---- realistic fits
fits = st.fixed_dictionaries({
    "data": dataset(n=(2, 12), p=(1, 3), constant_ok=False),
    "s": settings_strategy,
    "n_chains": st.integers(2, 4),
    "backend": st.sampled_from(["sequential", "sequential", "threading", "multiprocessing"]),
    "again": st.booleans(),
})


def run_fits(case):
    s = dict(case["s"], n_chains=case["n_chains"])
    fresh(s["seed"])
    X, y = arrays(case["data"])
    groups, leaves, objects, keep = [], [], {}, []
    with backend(case["backend"], case["n_chains"]):
        model = estimator(s, n_jobs=jobs(case["backend"], case["n_chains"]), store_in_sample_predictions=True)
        for _ in range(2 if case["again"] else 1):
            model.fit(X.copy(), y.copy())
            for chain in split_up(model, case["n_chains"]):
                check_fresh_start(chain, s["n_burn"], s["thin"], "fit", s["sampler"] == "oblivious")
                number = len(groups)
                groups.append([float(m.sigma.current_value()) for m in chain])
                leaves.append(leaf_values(chain))
                for m in chain:
                    for part in [m, m.sigma] + list(m.trees) + [x for t in m.trees for x in t.nodes]:
                        need(objects.setdefault(id(part), number) == number, "chains {} and {} share an object ({})", objects[id(part)], number, type(part).__name__)
                keep.append(chain)
    distinct(groups, "sigma")
    distinct(leaves, "leaf value")
    return ["nontrivial"] if s["n_trees"] > 1 and len(groups[0]) > 1 else []


# ---- all chains at the same point of their construction
class Meeting(SklearnModel):
    """Chains wait for each other whenever one makes its model known"""

    @property
    def model(self):
        return self.__dict__.get("_model_slot")

    @model.setter
    def model(self, value):
        self.__dict__["_model_slot"] = value
        barrier = self.__dict__.get("barrier")
        if barrier is not None and threading.current_thread() is not threading.main_thread():
            try:
                barrier.wait(timeout=1.)
            except threading.BrokenBarrierError:
                pass


class Watch(Sampler):
    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def __deepcopy__(self, memo):
        return self

    def sample(self, model, tree):
        return self.inner.sample(model, tree)

    def step(self, model, tree):
        self.seen.append((threading.get_ident(), model, tree, model.sigma))
        return self.inner.step(model, tree)


meetings = st.fixed_dictionaries({
    "n_chains": st.integers(2, 4),
    "n_trees": st.integers(1, 3),
    "n_samples": st.integers(2, 5),
    "data": dataset(n=(2, 8), p=(1, 2), constant_ok=False, big=False),
    "seed": seeds,
})


def run_meeting(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    watch = Watch(get_tree_sampler(0.5, 0.5))
    model = Meeting(n_trees=case["n_trees"], n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=0, thin=1., n_jobs=case["n_chains"], tree_sampler=watch)
    model.__dict__["barrier"] = threading.Barrier(case["n_chains"])
    with backend("threading", case["n_chains"]):
        model.fit(X.copy(), y.copy())
    sampled = {}
    for _, m, tree, sigma in watch.seen:
        sampled.setdefault(id(m), []).append((tree, sigma))
    same(len(sampled), case["n_chains"], "models sampled by {} chains".format(case["n_chains"]))
    for steps in sampled.values():
        same(len(steps), case["n_samples"] * case["n_trees"], "tree steps of a chain")
    for kind in (0, 1):
        owner = {}
        for key, steps in sampled.items():
            for step in steps:
                need(owner.setdefault(id(step[kind]), key) == key, "two chains sample the same {}", ["tree", "sigma"][kind])
    for chain in split_up(model, case["n_chains"]):
        check_fresh_start(chain, 0, 1., "threads")
    return ["nontrivial"]


# ---- processes that are started, not forked
started = st.fixed_dictionaries({
    "n_chains": st.integers(2, 4),
    "warm": st.booleans(),
    "runs": st.booleans(),
    "seed": seeds,
})


def run_started(case):
    try:
        return run_in_started(case)
    finally:
        get_reusable_executor().shutdown(wait=True, kill_workers=True)


def run_in_started(case):
    return run_draws({"n": 5, "y": list(range(9)), "n_chains": case["n_chains"], "n_samples": 6, "backend": "loky", "warm": ["sequential"] if case["warm"] else [], "anew": True,
                      "how": "run_models" if case["runs"] else "fit", "default": True, "seed": case["seed"]})


SUBS = [
    Sub("draws", draws, run_draws, 80, 800,
        "chains of single leaf trees run in sequence, threads and forked processes, after other fits and in batches; the normal and gamma draws behind every value are recovered and must be distinct between chains; non-trivial = not sequential, or after earlier fits"),
    Sub("paths", paths, run_paths, 24, 160,
        "chains whose sequence of tree sizes is a function of the acceptance draws alone or of the draws of grow or prune alone must not repeat one another; all cases non-trivial",
        examples=[{"of": of, "n_chains": 2, "backend": "multiprocessing", "warm": True, "shared": True, "seed": 5} for of in ("kind", "acceptance")]),
    Sub("fits", fits, run_fits, 90, 700,
        "generated fits and refits: chains share no objects, sigmas or leaf values and each starts from unsplit trees; non-trivial = several trees and several samples per chain"),
    Sub("meeting", meetings, run_meeting, 25, 200,
        "chains in threads made to wait for each other when a model has been built; each chain must sample its own model; all cases non-trivial"),
    Sub("started", started, run_started, 2, 24,
        "as draws, in worker processes started by joblib's default backend; all cases non-trivial"),
]
ASSUMPTIONS = ["a probability below 1e-12 of two independent chains agreeing by chance is taken as never"]
