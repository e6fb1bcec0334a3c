"""C19: batch runs return for each data set its own model"""
import numpy as np
import pandas as pd

from harness.core import Sub, close, fresh, need, same, st
from harness.fitted import estimator, evaluate_sample, expected_prediction, read_sample, settings_strategy, split_variables
from harness.gens import matrix, seeds, target
from harness.props.c16 import backend, jobs
from harness.props.c20 import Watch

from bartpy.samplers.sampler import Sampler
from bartpy.runner import run_models
from bartpy.sklearnmodel import SklearnModel


@st.composite
def data_sets(draw, least=1, most=4):
    """Each with a range of covariate values and a unit of the target of its own"""
    out = []
    p = draw(st.integers(1, 3))
    n = draw(st.integers(2, 8))
    for i in range(draw(st.integers(least, most)) if draw(st.integers(0, 11)) or least > 1 else draw(st.integers(6, 13))):
        if draw(st.booleans()):
            n = draw(st.integers(2, 8))
        out.append({"X": draw(st.lists(st.lists(st.integers(-4, 4), min_size=p, max_size=p), min_size=n, max_size=n)),
                    "y": draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n)),
                    "scale": draw(st.sampled_from([1., 0.01, 300., 1.2345678912e-4, 3.1415926535])), "frame": draw(st.booleans()), "series": not draw(st.integers(0, 3)),
                    "same": draw(st.sampled_from(["own"] * 6 + ["X", "y", "permuted"])) if i else "own"})
    return out


def build(sets):
    X_s, y_s = [], []
    for i, d in enumerate(sets):
        X = np.array(d["X"], dtype=float) + 100. * i
        y = np.array(d["y"], dtype=float)
        if y.min() == y.max():
            y[0] += 4.
        y = y * d["scale"] + 1000. * i
        X = pd.DataFrame(X) if d["frame"] else X
        y = pd.Series(y, index=np.arange(len(y))[::-1]) if d.get("series") else y
        if i and d.get("same", "own") != "own":  # the same object as before, as in permutation tests
            if d["same"] == "y" and len(X) == len(y_s[-1]):
                y = y_s[-1]
            elif d["same"] == "permuted":
                X, y = X_s[-1], np.roll(y_s[-1], 1)
            elif d["same"] == "X" and len(y) == len(X_s[-1]):
                X = X_s[-1]
        X_s.append(X)
        y_s.append(y)
    return X_s, y_s


def plain(X):
    return X.values if isinstance(X, pd.DataFrame) else X


def split_rules(sample):
    rules = []

    def visit(r):
        if r[0] != "leaf":
            rules.append((r[0], r[1]))
            visit(r[2])
            visit(r[3])
    for r in read_sample(sample):
        visit(r)
    return rules


def check_belongs(model, X, y, s, what, stored):
    """The samples of this model come from chains run on exactly this data set"""
    X = plain(X)
    per_chain = {int(max(1, np.floor(s["n_samples"] * s["thin"] + 1e-9))), int(max(1, np.ceil(s["n_samples"] * s["thin"] - 1e-9)))}
    count = len(model.model_samples)
    need(count in {k * s["n_chains"] for k in per_chain}, "{}: {} samples of {} chains with {} each", what, count, s["n_chains"], per_chain)
    for sample in model.model_samples:
        same(len(sample.trees), s["n_trees"], "{}: trees".format(what))
        close(float(sample.sigma.scaling_factor), y.max() - y.min(), "{}: range of the target its chain was run on".format(what), rtol=1e-9)
        for variable, value in split_rules(sample):
            need(value in X[:, variable], "{}: splits at {} of covariate {}, which is none of its values", what, value, variable)
    if stored:
        same(len(model.prediction_samples), count, "{}: stored predictions".format(what))
        for stored_prediction, sample in zip(model.prediction_samples, model.model_samples):
            same(len(stored_prediction), len(y), "{}: rows of a stored prediction".format(what))
            close(stored_prediction, evaluate_sample(read_sample(sample), X), "{}: stored prediction".format(what), rtol=1e-8, atol=1e-9)
    unit = np.abs(y).max()
    Q = np.concatenate([X, X + 0.5, X[:, ::-1]])
    close(model.predict(Q), expected_prediction(model, Q, y), "{}: prediction".format(what), rtol=1e-8, atol=1e-9 * unit)
    close(model.residuals(X, y), y - expected_prediction(model, X, y), "{}: residuals".format(what), rtol=1e-7, atol=1e-8 * unit)
    close(model.residuals(X), y - expected_prediction(model, X, y), "{}: residuals against its own target".format(what), rtol=1e-7, atol=1e-8 * unit)
    if stored:
        close(model.predict(), expected_prediction(model, X, y), "{}: in sample prediction".format(what), rtol=1e-8, atol=1e-9 * unit)


def state(model, Q):
    """What can be seen of an estimator"""
    out = {"params": {k: v for k, v in model.get_params(deep=False).items()}, "samples": None}
    if model.model_samples is not None:
        out["samples"] = [read_sample(s) for s in model.model_samples]
        out["prediction"] = np.array(model.predict(Q)).tolist()
        out["stored"] = np.array(model.prediction_samples).tolist()
        out["acceptance"] = [dict(a) for a in model.acceptance_trace]
        out["target"] = np.array(model.data.y.unnormalized_y).tolist()
    return out


def unchanged(before, after, what):
    for key in before:
        if key == "params":
            for k, v in before["params"].items():
                need(after["params"][k] is v or after["params"][k] == v, "{}: parameter {} changed", what, k)
        else:
            need(before[key] == after.get(key), "{}: its {} changed", what, key)


cases = st.fixed_dictionaries({
    "sets": data_sets(),
    "s": settings_strategy,
    "fitted": st.booleans(),
    "stored": st.booleans(),
    "backend": st.sampled_from(["sequential", "sequential", "sequential", "threading", "multiprocessing"]),
    "seed": seeds,
})


def run_batch(case):
    s = dict(case["s"])
    fresh(case["seed"])
    X_s, y_s = build(case["sets"])
    copies = [(X.copy(), y.copy()) for X, y in zip(X_s, y_s)]
    model = estimator(s, n_jobs=jobs(case["backend"], 3), store_in_sample_predictions=case["stored"], store_acceptance_trace=True)
    if case["backend"] == "sequential":
        model.set_params(tree_sampler=Watch(model.tree_sampler))
    p = plain(X_s[0]).shape[1]
    template_X = np.arange(5. * p).reshape(5, p) - 500.
    with backend(case["backend"], 3):
        if case["fitted"]:
            model.fit(template_X, np.arange(5.) * 7.)
        before = state(model, template_X)
        if case["backend"] == "sequential":
            model.tree_sampler.seen, model.tree_sampler.alive = {}, []
        models = run_models(model, X_s, y_s)
    same(len(models), len(X_s), "models returned")
    for i, (m, X, y) in enumerate(zip(models, X_s, y_s)):
        need(m is not model, "the specification itself was returned")
        check_belongs(m, X, y, s, "model {}".format(i), case["stored"])
        same(len(m.acceptance_trace), len(m.model_samples), "acceptance rates of model {}".format(i))
        for k, v in before["params"].items():
            if k not in ("tree_sampler", "initializer"):
                same(m.get_params(deep=False)[k], v, "parameter {} of a returned model".format(k))
    need(len({id(m) for m in models}) == len(models), "the same model was returned twice")
    if case["backend"] == "sequential":  # what the chains were run on, data set by data set
        runs = model.tree_sampler.runs()
        same(len(runs), len(X_s) * s["n_chains"], "chains run")
        for i, (ran_X, ran_y, _) in enumerate(runs):
            close(ran_X, plain(X_s[i // s["n_chains"]]), "covariates of chain {}".format(i), rtol=0, atol=0)
            close(ran_y, y_s[i // s["n_chains"]], "target of chain {}".format(i), rtol=1e-9, atol=1e-9 * np.abs(y_s[i // s["n_chains"]]).max())
    ids = {}
    for i, m in enumerate(models):
        for sample in m.model_samples:
            need(ids.setdefault(id(sample), i) == i, "models {} and {} share a sample", ids[id(sample)], i)
    unchanged(before, state(model, template_X), "specification")
    for (X, y), (X0, y0) in zip(zip(X_s, y_s), copies):
        close(plain(X), plain(X0), "a caller's covariates", rtol=0, atol=0)
        close(y, y0, "a caller's target", rtol=0, atol=0)
    return ["nontrivial"] if len(X_s) >= 2 and s["n_chains"] >= 2 else []


CALLS = []


class Never(Sampler):
    """Leaves every tree alone"""

    def sample(self, model, tree):
        CALLS.append(self)
        return None

    def step(self, model, tree):
        CALLS.append(self)
        return None


extracts = st.fixed_dictionaries({
    "sets": data_sets(least=2, most=3),
    "s": settings_strategy,
    "template": st.sampled_from(["new", "fitted", "same"]),
    "stored": st.booleans(),
    "join": st.booleans(),
    "seed": seeds,
})


def run_extract(case):
    s = dict(case["s"])
    fresh(case["seed"])
    X_s, y_s = build(case["sets"])
    words = dict(store_in_sample_predictions=case["stored"], store_acceptance_trace=True)
    source = estimator(s, **words)
    source.fit(X_s[0], y_s[0])
    template = source if case["template"] == "same" else estimator(s, **words)
    if case["template"] == "fitted":
        template.fit(X_s[1], y_s[1])
    Q = plain(X_s[0])
    before = state(template, Q)
    extract = list(source.extract)
    made = template.from_extract(extract, X_s[0], y_s[0])
    need(made is not template, "the template itself was returned")
    need([read_sample(x) for x in made.model_samples] == [read_sample(x) for c in extract for x in c["model"]], "samples are not those of the extract")
    same([dict(a) for a in made.acceptance_trace], [dict(a) for c in extract for a in c["acceptance"]], "acceptance rates of a model from an extract")
    check_belongs(made, X_s[0], y_s[0], s, "model from an extract", case["stored"])
    unchanged(before, state(template, Q), "template")
    # the new model can be used on without changing the template
    made.fit(X_s[1], y_s[1])
    check_belongs(made, X_s[1], y_s[1], s, "refitted model from an extract", case["stored"])
    unchanged(before, state(template, Q), "template after the new model was refitted")
    del CALLS[:]
    made.set_params(tree_sampler=Never(), n_trees=1, n_samples=1)
    need(template.get_params(deep=False)["tree_sampler"] is before["params"]["tree_sampler"], "the template's tree sampler changed with the new model's")
    template.fit(X_s[1], y_s[1])
    need(not CALLS, "the template samples with the tree sampler later set on the new model")
    check_belongs(template, X_s[1], y_s[1], s, "template refitted", case["stored"])
    made.fit(X_s[0], y_s[0])
    need(CALLS, "the new model does not sample with the tree sampler set on it")
    if s["n_chains"] >= 2:
        part = template.from_extract(extract[:1], X_s[0], y_s[0])
        need([read_sample(x) for x in part.model_samples] == [read_sample(x) for x in extract[0]["model"]], "samples are not those of the one chain given")
    return ["nontrivial"]


SUBS = [
    Sub("batch", cases, run_batch, 90, 900,
        "lists of 1-4 data sets with their own covariate values, sizes and units; where each sample was fitted can be read off its split values and scale; non-trivial = several data sets and several chains"),
    Sub("extract", extracts, run_extract, 60, 500,
        "models built from the chains of another estimator, over new and fitted templates; all cases non-trivial"),
]
