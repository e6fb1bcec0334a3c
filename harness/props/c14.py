"""C14: exactly the requested share of post burn-in samples is kept"""
import math

import numpy as np

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import evaluate_sample, read_sample
from harness.gens import arrays, dataset, index, mostly, seeds

from bartpy.data import make_bartpy_data
from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.model import Model
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.unconstrainedtree.proposer import uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.tree import mutate

THINS = [1., 0.5, 0.1, 0.25, 0.34, 0.3, 0.75, 0.9, 0.01, 1. / 3, 0.15, 0.6, 0.05]


def kept_count(n_samples, thin):
    """The requested share, where it is not a whole number the neighbours of it, and never nothing"""
    share = n_samples * thin
    if abs(share - round(share)) < 1e-9:
        return {max(int(round(share)), 1)}
    return {max(int(math.floor(share)), 1), max(int(math.ceil(share)), 1)}


def check_spacing(kept, n_burn, n_samples, thin):
    """kept: 1-based numbers of the sweeps that were kept"""
    need(all(k > n_burn for k in kept), "a burn-in sweep was kept: {} with {} burnt", kept, n_burn)
    need(all(k <= n_burn + n_samples for k in kept), "a sweep beyond the last was kept")
    need(len(kept) in kept_count(n_samples, thin), "{} of {} samples kept at a share of {}", len(kept), n_samples, thin)
    gap = 1. / thin
    gaps = [b - a for a, b in zip(kept[:-1], kept[1:])]
    need(all(math.floor(gap - 1e-9) <= g <= math.ceil(gap + 1e-9) for g in gaps), "samples are not evenly spaced: {}", gaps)
    if kept:
        first = kept[0] - n_burn
        need(first <= math.ceil(gap + 1e-9), "nothing kept in the first {} sweeps", first - 1)


class Clock(object):
    """Counts the sweeps as sigma is drawn last in each"""

    def __init__(self, script, n_trees):
        self.sweep, self.turn, self.script, self.n_trees = 1, 0, script, n_trees
        self.accepted = {}

    def acceptance(self, sweep):
        done = self.accepted.get(sweep, [])
        return sum(done) / float(len(done))


class Trees(Sampler):
    def __init__(self, clock):
        self.clock = clock

    def sample(self, model, tree):
        raise NotImplementedError()

    def step(self, model, tree):
        c = self.clock
        c.turn += 1
        what = c.script[c.turn % len(c.script)]
        mutation = None
        try:
            if what == "grow" and len(tree.leaf_nodes) < 5:
                mutation = uniformly_sample_grow_mutation(tree)
            elif what == "prune":
                mutation = uniformly_sample_prune_mutation(tree)
        except (NoSplittableVariableException, NoPrunableNodeException):
            pass
        if mutation is not None:
            mutate(tree, mutation)
        c.accepted.setdefault(c.sweep, []).append(mutation is not None)
        return mutation


class Leaves(Sampler):
    def __init__(self, clock):
        self.clock = clock

    def step(self, model, leaf):
        value = float(self.clock.sweep)
        leaf.set_value(value)
        return value


class Noise(Sampler):
    def __init__(self, clock):
        self.clock = clock

    def step(self, model, sigma):
        value = float(self.clock.sweep)
        sigma.set_value(value)
        self.clock.sweep += 1
        return value


scripts = st.lists(st.sampled_from(["grow", "grow", "prune", "keep"]), min_size=1, max_size=11)
runs = st.fixed_dictionaries({
    "n": st.integers(2, 6),
    "n_trees": mostly(st.integers(1, 4), st.integers(5, 24), 7),
    "n_samples": st.integers(1, 40),
    "n_burn": st.integers(0, 12),
    "thin": st.one_of(st.sampled_from(THINS), st.integers(1, 100).map(lambda v: v / 100.)),
    "script": scripts,
    "predictions": st.booleans(),
    "acceptance": st.booleans(),
    "seed": seeds,
    "twice": st.booleans(),
})


def run_sampler(case):
    fresh(case["seed"])
    X = np.arange(case["n"], dtype=float).reshape(-1, 1)
    y = np.arange(case["n"], dtype=float) / case["n"]
    clock = Clock(case["script"], case["n_trees"])
    model = Model(make_bartpy_data(X, y, normalize=False), Sigma(1., 1., 1.), n_trees=case["n_trees"], initializer=None)
    sampler = ModelSampler(SampleSchedule(Trees(clock), Leaves(clock), Noise(clock)))
    offset = 0
    for _ in range(2 if case["twice"] else 1):
        chain = sampler.samples(model, case["n_samples"], case["n_burn"], case["thin"], case["predictions"], case["acceptance"])
        same(clock.sweep - 1 - offset, case["n_samples"] + case["n_burn"], "sweeps run")
        kept = [int(round(m.sigma.current_value())) for m in chain["model"]]
        check_spacing([k - offset for k in kept], case["n_burn"], case["n_samples"], case["thin"])
        if case["predictions"]:
            same(len(chain["in_sample_predictions"]), len(kept), "stored predictions")
            for k, p, m in zip(kept, chain["in_sample_predictions"], chain["model"]):
                close(p, np.full(case["n"], float(k * case["n_trees"])), "prediction stored with the sample of sweep {}".format(k), rtol=1e-12)
                close(m.predict(X), p, "prediction of the stored model of sweep {}".format(k), rtol=1e-12)
        else:
            same(len(chain["in_sample_predictions"]), 0, "stored predictions that were not asked for")
        if case["acceptance"]:
            same(len(chain["acceptance"]), len(kept), "stored acceptance rates")
            for k, a in zip(kept, chain["acceptance"]):
                close(a["Tree"], clock.acceptance(k), "acceptance rate of sweep {}".format(k), rtol=1e-12)
        else:
            same(len(chain["acceptance"]), 0, "stored acceptance rates that were not asked for")
        offset = clock.sweep - 1
    return ["nontrivial"] if len(kept) >= 2 and (case["predictions"] or case["acceptance"]) else []


# ---- the same through fit, several chains
fits = st.fixed_dictionaries({
    "n": st.integers(2, 6),
    "n_trees": mostly(st.integers(1, 3), st.integers(4, 24), 7),
    "n_chains": st.integers(1, 4),
    "n_samples": st.integers(1, 25),
    "n_burn": st.integers(0, 6),
    "thin": st.sampled_from(THINS),
    "script": scripts,
    "predictions": st.booleans(),
    "acceptance": st.booleans(),
    "seed": seeds,
})


class Accepting(Sampler):
    """A tree sampler that follows a script and remembers per sweep what it accepted"""

    def __init__(self, script, n_trees):
        self.script, self.n_trees, self.turn, self.history = script, n_trees, 0, []

    def sample(self, model, tree):
        raise NotImplementedError()

    def step(self, model, tree):
        what = self.script[self.turn % len(self.script)]
        self.turn += 1
        mutation = None
        try:
            if what == "grow" and len(tree.leaf_nodes) < 5:
                mutation = uniformly_sample_grow_mutation(tree)
            elif what == "prune":
                mutation = uniformly_sample_prune_mutation(tree)
        except (NoSplittableVariableException, NoPrunableNodeException):
            pass
        if mutation is not None:
            mutate(tree, mutation)
        self.history.append(mutation is not None)
        return mutation


def run_fit(case):
    fresh(case["seed"])
    X = np.arange(case["n"], dtype=float).reshape(-1, 1)
    y = np.arange(case["n"], dtype=float) ** 2
    trees = Accepting(case["script"], case["n_trees"])
    model = SklearnModel(n_trees=case["n_trees"], n_chains=case["n_chains"], n_samples=case["n_samples"], n_burn=case["n_burn"], thin=case["thin"],
                         store_in_sample_predictions=case["predictions"], store_acceptance_trace=case["acceptance"], tree_sampler=trees, n_jobs=1)
    model.fit(X.copy(), y.copy())
    per_chain = case["n_samples"] + case["n_burn"]
    same(len(trees.history), per_chain * case["n_trees"] * case["n_chains"], "mutations asked for in a fit")
    count = len(model.extract[0]["model"])
    need(count in kept_count(case["n_samples"], case["thin"]), "{} of {} samples kept at a share of {}", count, case["n_samples"], case["thin"])
    same(len(model.model_samples), count * case["n_chains"], "stored samples")
    same(len(model.extract), case["n_chains"], "chains")
    same([len(c["model"]) for c in model.extract], [count] * case["n_chains"], "samples of the chains")
    same([float(s.sigma.current_value()) for s in model.model_samples], [float(s.sigma.current_value()) for c in model.extract for s in c["model"]],
         "sigma of the stored samples (chain by chain)")
    if case["predictions"]:
        same(list(np.asarray(model.prediction_samples).shape), [count * case["n_chains"], case["n"]], "shape of the stored predictions")
        for p, s in zip(model.prediction_samples, model.model_samples):
            close(p, evaluate_sample(read_sample(s), X), "prediction stored with its sample", rtol=1e-9, atol=1e-10)
    else:
        same(len(model.prediction_samples), 0, "stored predictions that were not asked for")
    if case["acceptance"]:
        same(len(model.acceptance_trace), count * case["n_chains"], "stored acceptance rates")
        rates = np.array(trees.history, dtype=float).reshape(case["n_chains"], per_chain, case["n_trees"]).mean(axis=2)
        got = np.array([float(a["Tree"]) for a in model.acceptance_trace]).reshape(case["n_chains"], count)
        same([float(a["Tree"]) for a in model.acceptance_trace], [float(a["Tree"]) for c in model.extract for a in c["acceptance"]], "acceptance rates (chain by chain)")
        # which sweeps they belong to: evenly spaced from some start, the same in all chains
        gap = 1. / case["thin"]
        fits_somewhere = False
        for phase in range(int(math.ceil(gap))):
            for turn in (lambda v: math.ceil(v - 1e-9), lambda v: math.floor(v + 1e-9)):
                at = [case["n_burn"] + phase + int(turn(i * gap)) for i in range(count)]
                if at and at[-1] < per_chain and np.allclose(rates[:, at], got, rtol=0, atol=1e-12):
                    fits_somewhere = True
        need(fits_somewhere, "acceptance rates {} are not those of evenly spaced sweeps after the burn-in of {}", got.tolist(), rates.tolist())
    else:
        same(len(model.acceptance_trace), 0, "stored acceptance rates that were not asked for")
    return ["nontrivial"] if count >= 2 and case["n_chains"] >= 2 else []


SUBS = [
    Sub("sampler", runs, run_sampler, 300, 3000,
        "generated numbers of samples, burn-in, thinning, flags and acceptance scripts, with stand-in samplers writing the sweep's number into the model; non-trivial = at least two samples kept and something stored with them",
        examples=[{"n": 3, "n_trees": 1, "n_samples": s, "n_burn": b, "thin": t, "script": ["grow", "keep", "prune"], "predictions": True, "acceptance": True, "seed": 0, "twice": False}
                  for s, b, t in [(1050, 520, 1.), (2100, 0, 0.5), (200, 20, 0.1), (100, 0, 0.3), (10, 3, 0.34), (7, 0, 0.15), (1, 0, 0.1)]]
        + [{"n": 4, "n_trees": t, "n_samples": 6, "n_burn": 2, "thin": 0.5, "script": ["grow"] * 40 + ["keep"] * 90 + ["prune"] * 30 + ["keep"] * 33, "predictions": True, "acceptance": True, "seed": 3, "twice": False}
           for t in (130, 201)]),
    Sub("fit", fits, run_fit, 150, 1200,
        "the same through SklearnModel.fit with several chains; non-trivial = at least two chains and two samples each",
        examples=[{"n": 4, "n_trees": 2, "n_chains": 12, "n_samples": 5, "n_burn": 3, "thin": 0.5, "script": ["grow", "keep", "prune", "keep", "keep", "grow", "grow"], "predictions": True, "acceptance": True, "seed": 3},
                  {"n": 4, "n_trees": 150, "n_chains": 2, "n_samples": 4, "n_burn": 1, "thin": 0.5, "script": ["grow"] * 40 + ["keep"] * 90 + ["prune"] * 37, "predictions": True, "acceptance": True, "seed": 4}]),
]
ASSUMPTIONS = ["0 < thin <= 1"]
