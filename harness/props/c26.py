"""C26: cached random draws are fresh draws of the stated distribution"""
import pickle
from collections import Counter
from copy import deepcopy

import numpy as np
from scipy import stats as ss

from harness.core import Sub, fresh, need, same, st
from harness.gens import seeds
from harness.stats import counts_match, uncorrelated, successive_independent, uniform_sample

from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler

caches = st.one_of(st.integers(1, 4), st.integers(1, 12), st.sampled_from([50, 97, 400, 500, 800, 1000]), st.sampled_from([1024, 2500]))


def make(kind, cache):
    return NormalScalarSampler(cache) if kind == "normal" else UniformScalarSampler(cache)


def transform(kind, x):
    return ss.norm.cdf(x) if kind == "normal" else np.asarray(x, dtype=float)


# ---- distribution over many refills
continuous = st.fixed_dictionaries({"kind": st.sampled_from(["normal", "uniform"]), "cache": caches, "default": st.booleans(), "seed": seeds})
N = 4000


def run_continuous(case):
    fresh(case["seed"])
    sampler = make(case["kind"], case["cache"]) if not case["default"] else {"normal": NormalScalarSampler, "uniform": UniformScalarSampler}[case["kind"]]()
    x = np.array([float(sampler.sample()) for _ in range(N)])
    if case["kind"] == "uniform":
        need(x.min() >= 0. and x.max() < 1., "a uniform draw outside [0, 1): {} to {}", x.min(), x.max())
    need(len(set(x.tolist())) == N, "a draw was handed out twice ({} different of {})", len(set(x.tolist())), N)
    mirrored = len(set(x.tolist()) & set((-x if case["kind"] == "normal" else 1. - x).tolist()))
    need(mirrored == 0, "{} of {} draws are the mirror image of another", mirrored, N)
    uniform_sample(transform(case["kind"], x), "{} draws with a cache of {}".format(case["kind"], case["cache"]))
    successive_independent(x, "{} draws with a cache of {}".format(case["kind"], case["cache"]), lags=(1, 2, 3))
    c = case["cache"] if not case["default"] else 1000
    for offset in range(min(c, 3)):  # each place in a cache, where draws next to each other come from the same refill
        if c > 1 and N // c >= 200:
            uncorrelated(x[offset::c][:N // c - 1], x[offset + 1::c][:N // c - 1], "neighbours in a cache of {}".format(c))
            uniform_sample(transform(case["kind"], x[offset::c]), "{} draws at place {} of a cache of {}".format(case["kind"], offset, c))
    # and from one refill to the next, position by position
    c = case["cache"] if not case["default"] else 1000
    if 4 <= c <= N // 3:
        successive_independent(x, "{} draws one cache apart".format(case["kind"]), lags=(c, 2 * c - 1))
    if c >= 20:  # nothing special about the first and last of a cache
        ends = np.concatenate([x[::c], x[c - 1::c]])
        if len(ends) >= 20:
            uniform_sample(transform(case["kind"], ends), "{} draws at the ends of a cache of {}".format(case["kind"], c))
    return ["nontrivial"] if N > c else []


# ---- far out: values that come up once in thousands of draws
tails = st.fixed_dictionaries({"kind": st.sampled_from(["normal", "uniform"]), "cache": st.sampled_from([1000, 60000, 25000, 7777]), "draws": st.just(120000), "seed": seeds})


def run_tails(case):
    fresh(case["seed"])
    sampler, n = make(case["kind"], case["cache"]), case["draws"]
    x = np.fromiter((sampler.sample() for _ in range(n)), dtype=float, count=n)
    different = len(np.unique(x))
    need(different >= n - (3 if n > 10 ** 6 else 0), "a draw was handed out twice with a cache of {} ({} different of {})", case["cache"], different, n)
    u = transform(case["kind"], x)
    uniform_sample(u[:10 ** 6], "{} draws".format(case["kind"]))
    for p in [1e-6] * (n > 10 ** 7) + [1e-5] * (n > 10 ** 6) + [1e-4, 1e-3, 1e-2]:
        for name, count in (("below", np.sum(u < p)), ("above", np.sum(u > 1. - p))):
            counts_match({"out": int(count), "in": int(n - count)}, {"out": p, "in": 1. - p}, "{} draws {} the quantile of {}".format(case["kind"], name, p))
    successive_independent(x[:10 ** 6], "{} draws".format(case["kind"]), lags=(1, 2, case["cache"]))
    return ["nontrivial"]


def evenly_varied(drawn, size, probabilities, what):
    """The chi-squared distances of blocks from their expectation are neither too large nor too small"""
    live = {v: p for v, p in probabilities.items() if p * size >= 3.}
    if not live:
        return
    v = max(live, key=lambda k: live[k] * (1. - live[k]))
    p = live[v]
    if p * (1. - p) * size < 3.:
        return
    counts = np.array([sum(1 for d in drawn[i:i + size] if d == v) for i in range(0, len(drawn) - size + 1, size)], dtype=float)
    # squared deviations of binomials are close to chi-squared, with a margin for what they are not
    deviation = float(np.sum((counts - size * p) ** 2) / (size * p * (1. - p)))
    k = len(counts)
    low = ss.chi2.ppf(1e-11, k) * 0.5 if k * np.log(ss.binom.pmf(int(size * p), size, p)) < np.log(1e-13) else 0.  # all of them just right by chance
    high = ss.chi2.isf(1e-11, k) * 1.5 if p * (1. - p) * size >= 10. else np.inf
    need(low <= deviation <= high, "{}: counts of {!r} over {} blocks vary by {:.3g} times what independent draws do", what, v, k, deviation / k)


@st.composite
def discretes(draw):
    k = draw(st.integers(1, 6))
    values = draw(st.sampled_from([list(range(k)), [10 * v + 3 for v in range(k)], ["abcdef"[v] for v in range(k)], [0.5 * v for v in range(k)]]))
    weights = draw(st.one_of(st.none(), st.lists(st.integers(1, 40), min_size=k, max_size=k), st.lists(st.sampled_from([1, 1000, 0]), min_size=k, max_size=k)))
    if weights is not None and sum(weights) == 0:
        weights[0] = 1
    return {"values": values, "weights": weights, "cache": draw(caches), "things": draw(st.sampled_from(["plain", "plain", "functions", "tuples", "mixed"])), "seed": draw(seeds)}


def run_discrete(case):
    fresh(case["seed"])
    values, k = case["values"], len(case["values"])
    things = values
    if case["things"] == "functions":  # what the library uses it for
        things = [(lambda v=v: v) for v in values]
    elif case["things"] == "tuples":
        things = [(v, "of", 2) for v in values]
    elif case["things"] == "mixed":
        things = [(1, "a", 2.5, None, (3, 4), [5])[(i + case["cache"]) % 6] for i in range(k)]
    probabilities = [1. / k] * k if case["weights"] is None else [w / float(sum(case["weights"])) for w in case["weights"]]
    if case["weights"] is None:
        sampler = DiscreteSampler(things, cache_size=case["cache"])
    else:
        sampler = DiscreteSampler(things, list(probabilities), cache_size=case["cache"])
    more = [sampler.sample() for _ in range(N if case["cache"] < 50 else max(N, 30 * case["cache"]))]
    more = [v.item() if hasattr(v, "item") else v for v in more]
    if things is not values:  # one of the given things, not something made from it
        number = {repr(thing): v for thing, v in zip(things, values)}
        for v in more:
            need(repr(v) in number, "{!r} was drawn, which is none of {!r}", v, things)
        more = [number[repr(v)] for v in more]
    drawn = more[:N]
    what = "draws of {} with probabilities {} and a cache of {}".format(values, probabilities, case["cache"])
    counts_match(dict(Counter(drawn)), dict(zip(values, probabilities)), what)
    if k > 1:
        pairs = Counter(zip(drawn[:-1:2], drawn[1::2]))
        counts_match(dict(pairs), {(a, b): p * q for a, p in zip(values, probabilities) for b, q in zip(values, probabilities)}, "successive " + what)
        c = case["cache"]
        if 2 <= c <= N // 8:
            apart = Counter((drawn[i], drawn[i + c]) for start in range(0, N - 2 * c, 2 * c) for i in range(start, start + c))
            counts_match(dict(apart), {(a, b): p * q for a, p in zip(values, probabilities) for b, q in zip(values, probabilities)}, "one cache apart, " + what)
        # blocks vary as much as independent draws do, neither more nor less
        for size in sorted({20, 50, c // 2, c, 2 * c}):
            if 20 <= size <= len(more) // 6:
                evenly_varied(more, size, dict(zip(values, probabilities)), "blocks of {} {}".format(size, what))
        if c <= N // 40:
            ends = Counter(drawn[c - 1::c])
            counts_match(dict(ends), dict(zip(values, probabilities)), "last of a cache, " + what)
    return ["nontrivial"] if k > 1 and N > case["cache"] else []


# ---- values that hardly ever come up
rare = st.fixed_dictionaries({"p": st.sampled_from([1e-4, 3e-4, 1e-3, 1e-2, 0.25, 0.5, 0.7]), "cache": st.sampled_from([1000, 30000, 777]), "last": st.booleans(), "draws": st.just(200000), "seed": seeds})


def run_rare(case):
    fresh(case["seed"])
    p, n = case["p"], case["draws"]
    shares = [1. - p, p] if case["last"] else [p, 1. - p]
    sampler = DiscreteSampler([0, 1], list(shares), cache_size=case["cache"])
    counts = Counter(int(sampler.sample()) for _ in range(n))
    counts_match(dict(counts), dict(enumerate(shares)), "draws with probabilities {} and a cache of {}".format(shares, case["cache"]))
    return ["nontrivial"]


# ---- histories with copies
operations = st.lists(st.one_of(st.tuples(st.just("take"), st.integers(0, 7), st.integers(1, 15)),
                                st.tuples(st.just("copy"), st.integers(0, 7), st.sampled_from(["deepcopy", "pickle"])),
                                st.tuples(st.just("new"), st.integers(1, 12), st.just(0))), min_size=1, max_size=25)
histories = st.fixed_dictionaries({"kind": st.sampled_from(["normal", "uniform"]), "cache": st.integers(1, 12), "ops": operations, "seed": seeds})


def run_history(case):
    fresh(case["seed"])
    family = [make(case["kind"], case["cache"])]
    seen = {}
    copies = 0
    for op, a, b in case["ops"]:
        if op == "take":
            member = a % len(family)
            for _ in range(b):
                v = float(family[member].sample())
                need(v not in seen, "sampler {} gives a draw that sampler {} gave before", member, seen.get(v))
                seen[v] = member
        elif op == "new":
            family.append(make(case["kind"], a))
        else:
            source = family[a % len(family)]
            family.append(deepcopy(source) if b == "deepcopy" else pickle.loads(pickle.dumps(source)))
            copies += 1
    for member, sampler in enumerate(family):  # everything left over in the caches
        for _ in range(15):
            v = float(sampler.sample())
            need(v not in seen, "sampler {} gives a draw that sampler {} gave before", member, seen.get(v))
            seen[v] = member
    return ["nontrivial"] if copies and len(seen) > 20 else []


discrete_copies = st.fixed_dictionaries({"cache": st.sampled_from([150, 300, 1000]), "taken": st.integers(1, 60), "how": st.sampled_from(["deepcopy", "pickle"]), "seed": seeds})


def run_discrete_copies(case):
    fresh(case["seed"])
    sampler = DiscreteSampler([0, 1], [0.5, 0.5], cache_size=case["cache"])
    for _ in range(case["taken"]):
        sampler.sample()
    other = deepcopy(sampler) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(sampler))
    a = [int(sampler.sample()) for _ in range(80)]
    b = [int(other.sample()) for _ in range(80)]
    need(a != b, "a copy repeats 80 draws of the sampler it was copied from")
    return ["nontrivial"]


SUBS = [
    Sub("continuous", continuous, run_continuous, 60, 600, "4000 draws for generated cache sizes: Kolmogorov-Smirnov, spread, lag correlation, no repeats; non-trivial = the cache was refilled"),
    Sub("tails", tails, run_tails, 6, 40, "120000 draws with large caches: shares beyond far quantiles, no repeats; all cases non-trivial",
        examples=[{"kind": k, "cache": 60000, "draws": 400000, "seed": 5} for k in ("normal", "uniform")] + [{"kind": "uniform", "cache": 1000, "draws": 25000000, "seed": 6}, {"kind": "normal", "cache": 1000, "draws": 12000000, "seed": 6}]),
    Sub("discrete", discretes(), run_discrete, 100, 900, "4000 draws of generated values and probabilities: exact binomial and chi-squared tests of singles and pairs; non-trivial = several values and a refilled cache"),
    Sub("rare", rare, run_rare, 4, 40, "200000 draws of two values, one of them hardly ever drawn; all cases non-trivial"),
    Sub("history", histories, run_history, 300, 3000, "histories of draws, copies and pickles over a family of samplers: no draw ever appears twice; non-trivial = copies were made and more than 20 draws taken"),
    Sub("discrete copies", discrete_copies, run_discrete_copies, 40, 300, "copies of partly used discrete samplers; all cases non-trivial"),
]
ASSUMPTIONS = ["statistical tests are set to fail with probability below 1e-9 on a right distribution"]
