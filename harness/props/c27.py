"""C27: chains in threads stay independent under every interleaving"""
import threading

from harness.core import HarnessError, Sub, close, fresh, need, same, st
from harness.fitted import count_splits, depths, estimator, evaluate_sample, read_sample
from harness.gens import arrays, dataset, seeds
from harness.schedule import Interleaving

from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as get_oblivious_tree_sampler
from bartpy.samplers.sampler import Sampler
from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler


def no_errors(errors, what):
    for e in errors:
        if isinstance(e, HarnessError):
            raise e
        need(e is None, "{} failed in a thread: {!r}", what, e)


# ---- one sampler of random draws, several threads
draws = st.fixed_dictionaries({
    "kind": st.sampled_from(["normal", "uniform", "discrete"]),
    "cache": st.integers(1, 5),
    "takes": st.lists(st.integers(1, 8), min_size=2, max_size=3),
    "schedule": st.lists(st.tuples(st.integers(1, 25), st.integers(0, 1)), min_size=1, max_size=40),
    "seed": seeds,
})


def run_draws(case):
    fresh(case["seed"])
    sampler = {"normal": lambda: NormalScalarSampler(case["cache"]), "uniform": lambda: UniformScalarSampler(case["cache"]),
               "discrete": lambda: DiscreteSampler([3, 5, 9], [0.2, 0.5, 0.3], cache_size=case["cache"])}[case["kind"]]()
    scheduled = Interleaving(case["schedule"], opcodes=True)
    results, errors = scheduled.run([lambda k=k: [sampler.sample() for _ in range(k)] for k in case["takes"]])
    no_errors(errors, "drawing from a {} sampler".format(case["kind"]))
    everything = [float(v) for r in results for v in r]
    same(len(everything), sum(case["takes"]), "draws taken")
    if case["kind"] == "discrete":
        need(all(v in (3, 5, 9) for v in everything), "a value that was not given: {}", everything)
    else:
        need(len(set(everything)) == len(everything), "a draw was handed out twice: {}", results)
    return ["nontrivial"] if scheduled.switches >= 2 else []


# ---- whole chains
class Watch(Sampler):
    """Delegates, and remembers which thread samples what"""

    def __init__(self, inner):
        self.inner, self.seen, self.told, self.models = inner, [], {}, {}

    def __deepcopy__(self, memo):
        return self

    def sample(self, model, tree):
        return self.inner.sample(model, tree)

    def step(self, model, tree):
        self.seen.append((threading.get_ident(), model, tree, model.sigma))
        before = {id(x) for x in tree.nodes}
        held = list(tree.nodes)  # so that no identity comes up again
        result = self.inner.step(model, tree)
        after = {id(x) for x in tree.nodes}
        del held
        if result is None:
            need(before == after, "a tree changed although its chain was told that the mutation was rejected")
        for mutation in ([] if result is None else result if isinstance(result, list) else [result]):
            need(id(mutation.existing_node) in before and id(mutation.updated_node) in after and id(mutation.existing_node) not in after,
                 "a chain was told of a mutation that was not applied to its tree")
        self.told.setdefault(id(model), []).append(result is not None)
        self.models.setdefault(threading.get_ident(), model)
        return result

    def check(self, n_chains, n_trees):
        owner = {}
        for thread, model, tree, sigma in self.seen:
            for what, x in (("model", model), ("tree", tree), ("sigma", sigma)):
                need(owner.setdefault(id(x), thread) == thread, "two chains sample the same {}", what)
        same(len({id(m) for _, m, _, _ in self.seen}), n_chains, "models sampled")


chains = st.fixed_dictionaries({
    "data": dataset(n=(2, 8), p=(1, 3), constant_ok=False, big=False),
    "n_trees": st.integers(1, 3),
    "n_chains": st.integers(2, 3),
    "n_samples": st.integers(1, 3),
    "n_burn": st.integers(0, 2),
    "oblivious": st.sampled_from([False, False, True]),
    "gap": st.sampled_from([1, 1, 5, 20, 60, 200]),
    "schedule": st.lists(st.tuples(st.integers(1, 40), st.integers(0, 1)), min_size=4, max_size=60),
    "focus": st.sampled_from(["", "sklearnmodel", "sklearnmodel", "modelsampler", "model", "schedule", "scalar", "treemutation", "treemutation", "modelsampler", "proposer", "likihoodratio", "tree", "node", "trace", "sigma", "leafnode", "data"]),
    "seed": seeds,
})


def run_chains(case):
    fresh(case["seed"])
    X, y = arrays(case["data"])
    s = {k: case[k] for k in ("n_trees", "n_chains", "n_samples", "n_burn")}
    watch = Watch(get_oblivious_tree_sampler(0.6, 0.4) if case["oblivious"] else get_tree_sampler(0.6, 0.4))
    model = estimator(dict(s, thin=1., sampler="default", sigma_a=3., sigma_b=0.3, alpha=0.95, beta=0.5), tree_sampler=watch,
                      store_in_sample_predictions=True, store_acceptance_trace=True)
    calls = list(model.f_delayed_chains(X, y))
    same(len(calls), case["n_chains"], "chains to run")
    # with few points, all of them can be reached
    step = case["gap"] / 20. if case["focus"] != "sklearnmodel" else 0.1
    schedule = [[max(int(g * step), 1), c] for g, c in case["schedule"]]
    scheduled = Interleaving(schedule, opcodes=False, focus=case["focus"] or None)
    who = {}

    def run(number, c):
        who[number] = threading.get_ident()
        return c[0](*c[1], **c[2])
    results, errors = scheduled.run([lambda n=n, c=c: run(n, c) for n, c in enumerate(calls)])
    no_errors(errors, "a chain")
    watch.check(case["n_chains"], case["n_trees"])
    seen_sigma, seen_leaf, seen_objects = {}, {}, {}
    for number, chain in enumerate(results):
        same(len(chain["model"]), case["n_samples"], "samples of a chain")
        same(len(chain["in_sample_predictions"]), case["n_samples"], "predictions of a chain")
        same(len(chain["acceptance"]), case["n_samples"], "acceptance rates of a chain")
        told = watch.told[id(watch.models[who[number]])]
        same(len(told), case["n_trees"] * (case["n_burn"] + case["n_samples"]), "tree steps of chain {}".format(number))
        for t, rates in enumerate(chain["acceptance"]):
            sweep = told[(case["n_burn"] + t) * case["n_trees"]:(case["n_burn"] + t + 1) * case["n_trees"]]
            close(rates["Tree"], sum(sweep) / len(sweep), "acceptance rate of chain {} in sample {}".format(number, t))
        for t, (sample, prediction) in enumerate(zip(chain["model"], chain["in_sample_predictions"])):
            read = read_sample(sample)
            same(len(read), case["n_trees"], "trees of a sample")
            close(prediction, evaluate_sample(read, X), "prediction stored by chain {} for sample {}".format(number, t), rtol=1e-8, atol=1e-10)
            need(all((max(depths(r)) if case["oblivious"] else count_splits(r)) <= case["n_burn"] + t + 1 for r in read),
                 "chain {} has a tree of more levels or splits than sweeps: it did not start from its own trees", number)
            sigma = float(sample.sigma.current_value())
            need(sigma != 1. and sigma not in seen_sigma, "sigma of chain {} was not drawn anew in sweep {}", number, t)
            need(seen_sigma.setdefault(sigma, number) == number, "chains {} and {} have the same sigma {}", seen_sigma[sigma], number, sigma)
            for tree in sample.trees:
                for leaf in tree.leaf_nodes:
                    v = float(leaf.current_value)
                    need(v not in seen_leaf, "leaf value {} of chain {} was not drawn anew in sweep {}", v, number, t)
                    need(seen_leaf.setdefault(v, number) == number, "chains {} and {} have the same leaf value {}", seen_leaf[v], number, v)
                for part in [tree] + list(tree.nodes):
                    need(seen_objects.setdefault(id(part), number) == number, "chains {} and {} share an object", seen_objects[id(part)], number)
    return ["nontrivial"] if scheduled.switches >= 4 else []


SUBS = [
    Sub("draws", draws, run_draws, 400, 4000,
        "several threads taking draws of one sampler, stopped at generated byte codes; non-trivial = at least two switches"),
    Sub("chains", chains, run_chains, 500, 3000,
        "the chains of one estimator in threads, stopped at generated lines of the library; non-trivial = at least four switches"),
]
ASSUMPTIONS = ["switches happen between byte codes (draws) or lines (chains) of the library, as numpy calls hold their own lock"]
