"""C24: diagnostics plot the stored samples truthfully"""
import numpy as np
import pandas as pd
from matplotlib import pyplot as plt

from harness.core import Sub, Violation, close, fresh, need, same, st
from harness.fitted import count_splits, depths, estimator, expected_prediction, read_sample, settings_strategy, split_variables
from harness.gens import arrays, dataset, seeds

from bartpy.diagnostics.diagnostics import plot_diagnostics
from bartpy.diagnostics.features import plot_feature_proportions_against_thresholds, plot_feature_split_proportions, plot_null_feature_importance_distributions
from bartpy.diagnostics.residuals import plot_homoskedasity_diagnostics, plot_qq
from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
from bartpy.diagnostics.sigma import plot_sigma_convergence
from bartpy.diagnostics.trees import plot_tree_depth
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.plotting import plot_modelled_against_actual, plot_residuals


def lines(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines]


def has_line(ax, expected, what, in_order=True, rtol=1e-7, atol=1e-9):
    expected = np.asarray(expected, dtype=float)
    for x, y in lines(ax):
        if y.shape == expected.shape and np.allclose(y, expected, rtol=rtol, atol=atol):
            if not in_order or np.allclose(x, np.arange(len(y))):
                return
    raise Violation("{}: no line with the values {} but {}".format(what, expected.tolist()[:8], [y.tolist()[:8] for _, y in lines(ax)][:5]))


def points(ax):
    return [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if hasattr(c, "get_offsets") and len(c.get_offsets())]


def same_points(found, expected, what, atol):
    found, expected = np.asarray(found, dtype=float).reshape(-1, 2), np.asarray(expected, dtype=float).reshape(-1, 2)
    same(len(found), len(expected), "{}: points".format(what))
    if len(expected):
        order = lambda a: a[np.lexsort((a[:, 1], a[:, 0]))]  # noqa: E731
        f, e = order(found), order(expected)
        if not np.allclose(f, e, rtol=1e-6, atol=atol):
            # equal up to rounding may sort differently: match one by one
            left = list(range(len(e)))
            for row in f:
                hit = [i for i in left if np.allclose(row, e[i], rtol=1e-6, atol=atol)]
                need(hit, "{}: a point at {} that should not be there", what, row.tolist())
                left.remove(hit[0])


def check_sigma(ax, model, X, y):
    has_line(ax, [float(s.sigma.current_value()) for s in model.model_samples], "sigma")
    same(len(ax.lines), 1, "lines in the plot of sigma")


def check_acceptance(ax, model, X, y):
    has_line(ax, [float(a["Tree"]) for a in model.acceptance_trace], "acceptance rate")
    low, high = ax.get_ylim()
    need(low <= 0. and high >= 1., "acceptance rates are cut off at {}", (low, high))


def check_depth(ax, model, X, y):
    all_depths = [[d for t in read_sample(s) for d in depths(t)] for s in model.model_samples]
    named = {l.get_label().lower(): np.asarray(l.get_ydata(), dtype=float) for l in ax.lines}
    same(len(ax.lines), 3, "lines in the plot of depths")
    for word, f in (("min", np.min), ("mean", np.mean), ("max", np.max)):
        found = [v for k, v in named.items() if word in k]
        same(len(found), 1, "lines called {}".format(word))
        close(found[0], [float(f(d)) for d in all_depths], "{} depth".format(word))
    has_line(ax, [float(np.mean(d)) for d in all_depths], "mean depth")


def residuals_of(model, X, y):
    f = expected_prediction(model, X, y)
    return f, y - f


def check_homoskedasticity(ax, model, X, y):
    f, r = residuals_of(model, X, y)
    found = points(ax)
    need(found, "no points in the plot of residuals against fitted values")
    same_points(found[0], np.column_stack([f, r]), "residuals against fitted values", atol=1e-7 * max(np.abs(y).max(), 1e-300))


def check_qq(ax, model, X, y):
    _, r = residuals_of(model, X, y)
    if r.std() < 1e-6 * max(np.abs(y).max(), 1e-300):
        return
    expected = (np.sort(r) - r.mean()) / r.std()
    for x, v in lines(ax):
        if len(v) == len(expected) and np.allclose(np.sort(v), expected, rtol=1e-5, atol=1e-6):
            order = np.argsort(v, kind="stable")
            need(np.all(np.diff(x[order]) >= -1e-9), "quantiles are not in order")
            if len(x) >= 2:
                need(abs(x.mean()) < 1e-6 and x.max() > x.min(), "theoretical quantiles {} are not those of a normal distribution", x)
            return
    raise Violation("no line with the quantiles of the residuals")


def check_splits(ax, model, X, y):
    used = [v for s in model.model_samples for t in read_sample(s) for v in split_variables(t)]
    bars = [b for b in ax.patches]
    same(len(bars), len(set(used)), "bars in the plot of split proportions")
    labels = {float(t): l.get_text() for t, l in zip(ax.get_yticks(), ax.get_yticklabels())}
    found = {}
    for b in bars:
        centre = b.get_y() + b.get_height() / 2.
        label = labels.get(round(centre), "")
        need(abs(centre - round(centre)) < 1e-9 and label != "", "a bar at {} without a covariate", centre)
        found[int(float(label))] = b.get_x() + b.get_width()
    same(sorted(found), sorted(set(used)), "covariates in the plot of split proportions")
    for k in found:
        close(found[k], used.count(k) / float(len(used)), "bar of covariate {}".format(k))
    heights = [b.get_y() for b in sorted(bars, key=lambda b: b.get_y())]
    need(all(b > a for a, b in zip(heights, heights[1:])), "bars lie on one another")
    by_height = [int(float(labels[v])) for v in sorted(labels) if labels[v] != ""]
    same(by_height, sorted(by_height), "order of the covariates")


SINGLE = {"sigma": (plot_sigma_convergence, check_sigma), "acceptance": (plot_tree_mutation_acceptance_rate, check_acceptance), "depth": (plot_tree_depth, check_depth),
          "fitted": (plot_homoskedasity_diagnostics, check_homoskedasticity), "qq": (plot_qq, check_qq), "splits": (plot_feature_split_proportions, check_splits)}

cases = st.fixed_dictionaries({
    "data": dataset(n=(4, 12), p=(1, 4), constant_ok=False),
    "s": settings_strategy,
    "what": st.lists(st.sampled_from(sorted(SINGLE) + ["plain residuals", "against", "selector"]), min_size=1, max_size=3, unique=True),
    "where": st.sampled_from(["given", "given", "new"]),
    "series": st.sampled_from([None, None, "reversed", "labels"]),
})
LONG = {"data": {"big": {"n": 30, "kinds": ["distinct", "grid"], "seed": 4}}, "where": "given",
        "s": {"n_trees": 2, "n_chains": 2, "n_samples": 1040, "n_burn": 1, "thin": 1., "alpha": 0.95, "beta": 0.2, "sigma_a": 0.001, "sigma_b": 0.001, "sampler": "default", "seed": 11}}
WIDE = {"data": {"big": {"n": 25, "kinds": ["distinct"] * 13, "seed": 4}}, "where": "new",
        "s": {"n_trees": 60, "n_chains": 1, "n_samples": 12, "n_burn": 1, "thin": 1., "alpha": 0.95, "beta": 0.2, "sigma_a": 0.001, "sigma_b": 0.001, "sampler": "grow", "seed": 12}}


def as_given(y, series):
    """a target as a Series whose index says nothing about rows, or as it is"""
    if series is None:
        return y.copy()
    return pd.Series(y.copy(), index=np.arange(len(y))[::-1] if series == "reversed" else ["r{}".format(i) for i in range(len(y))])


def run(case):
    s = dict(case["s"])
    fresh(s["seed"])
    X, y = arrays(case["data"])
    model = estimator(s, store_in_sample_predictions=True, store_acceptance_trace=True).fit(X.copy(), as_given(y, case.get("series")))
    before = [read_sample(v) for v in model.model_samples]
    try:
        for what in case["what"]:
            plt.close("all")
            if what in SINGLE:
                draw, check = SINGLE[what]
                if case["where"] == "given":
                    _, (other, ax, current) = plt.subplots(1, 3)
                    plt.sca(current)
                    returned = draw(model, ax)
                    need(returned is None or returned is ax, "the plot returned other axes than those passed")
                    for bystander in (other, current):
                        need(not bystander.lines and not bystander.patches and not bystander.collections, "something was drawn on other axes than those passed")
                else:
                    ax = draw(model)
                    ax = plt.gca() if ax is None else ax
                check(ax, model, X, y)
            elif what == "plain residuals":
                plot_residuals(model)
                has_line(plt.gca(), y - expected_prediction(model, X, y), "residuals", atol=1e-8 * max(np.abs(y).max(), 1e-300))
            elif what == "against":
                plot_modelled_against_actual(model)
                unit = max(np.abs(y).max(), 1e-300)
                has_line(plt.gca(), y, "target", atol=1e-9 * unit)
                has_line(plt.gca(), expected_prediction(model, X, y), "prediction", atol=1e-8 * unit)
            else:
                selector = SelectSplitProportionThreshold(model, percentile=0.2).fit(X.copy(), as_given(y, case.get("series")))
                plt.close("all")
                selector.plot()
                check_splits(plt.gca(), selector.model, X, y)
        need([read_sample(v) for v in model.model_samples] == before, "plotting changed the samples")
    finally:
        plt.close("all")
    return ["nontrivial"] if any(count_splits(t) for v in before for t in v) and len(before) > 1 else []


together = st.fixed_dictionaries({"data": dataset(n=(4, 10), p=(1, 3), constant_ok=False, big=False), "s": settings_strategy})


def run_together(case):
    s = dict(case["s"])
    fresh(s["seed"])
    X, y = arrays(case["data"])
    model = estimator(s, store_in_sample_predictions=True, store_acceptance_trace=True).fit(X.copy(), y.copy())
    try:
        plt.close("all")
        plot_diagnostics(model)
        axes = plt.gcf().axes
        found = {}
        for name in ("sigma", "acceptance", "depth", "fitted", "qq"):
            for i, ax in enumerate(axes):
                try:
                    SINGLE[name][1](ax, model, X, y)
                except Exception:
                    continue
                found.setdefault(name, i)
            need(name in found, "no panel shows {}", name)
    finally:
        plt.close("all")
    return ["nontrivial"] if len(model.model_samples) > 1 else []


# ---- proportions against thresholds
share = st.integers(0, 100).map(lambda v: v / 100.)


@st.composite
def thresholded(draw):
    p = draw(st.integers(1, 6))
    runs = draw(st.integers(1, 6))
    order = draw(st.permutations(list(range(p))))
    return {"proportions": [[k, draw(share)] for k in order], "thresholds": [[k, draw(share)] for k in range(p)],
            "null": [[k, draw(st.lists(share, min_size=runs, max_size=runs))] for k in range(p)]}


def run_thresholded(case):
    proportions, thresholds = {k: v for k, v in case["proportions"]}, {k: v for k, v in case["thresholds"]}
    null = {k: v for k, v in case["null"]}
    try:
        plt.close("all")
        _, (other, ax, below, current) = plt.subplots(1, 4)
        plt.sca(current)
        plot_feature_proportions_against_thresholds(dict(proportions), dict(thresholds), ax)
        bars = {int(round(b.get_x() + b.get_width() / 2.)): b.get_y() + b.get_height() for b in ax.patches}
        same(sorted(bars), sorted(thresholds), "covariates with a threshold")
        for k in bars:
            close(bars[k], thresholds[k] * 100., "threshold of covariate {} in percent".format(k))
        passed, failed = [], []
        for c in ax.collections:
            if not hasattr(c, "get_offsets"):
                continue
            offsets, colours = np.asarray(c.get_offsets(), dtype=float), np.asarray(c.get_facecolors(), dtype=float)
            for i, row in enumerate(offsets):
                colour = colours[i % len(colours)]
                need(colour[0] > colour[1] or colour[1] > colour[0], "a point that is neither green nor red")
                (passed if colour[1] > colour[0] else failed).append(row)
        same_points(passed, [[k, v * 100.] for k, v in proportions.items() if v > thresholds[k]], "covariates passing (green)", 1e-9)
        same_points(failed, [[k, v * 100.] for k, v in proportions.items() if not v > thresholds[k]], "covariates failing (red)", 1e-9)
        # null distributions
        plot_null_feature_importance_distributions({k: list(v) for k, v in null.items()}, below)
        for bystander in (other, current):
            need(not bystander.lines and not bystander.patches and not bystander.collections, "something was drawn on other axes than those passed")
        for k, v in null.items():
            at = [y[0] for x, y in lines(below) if len(x) == 2 and y[0] == y[1] and x[0] < k < x[1] and abs(x[0] + x[1] - 2 * k) < 1e-6]
            need(any(abs(a - np.median(v)) < 1e-9 for a in at), "no line at the median {} of the null distribution of covariate {}: {}", np.median(v), k, at)
    finally:
        plt.close("all")
    return ["nontrivial"] if len(proportions) > 1 else []


selected = st.fixed_dictionaries({"data": dataset(n=(5, 10), p=(1, 4), constant_ok=False, big=False), "s": settings_strategy, "method": st.sampled_from(["local", "global"])})


def run_selected(case):
    s = dict(case["s"], n_samples=min(case["s"]["n_samples"], 4))
    fresh(s["seed"])
    X, y = arrays(case["data"])
    selector = SelectNullDistributionThreshold(estimator(s), percentile=0.5, method=case["method"], n_permutations=3).fit(X, y)
    try:
        plt.close("all")
        selector.plot()
        axes = plt.gcf().axes
        p = X.shape[1]
        mask = selector.get_support()
        shown = None
        for ax in axes:
            bars = {int(round(b.get_x() + b.get_width() / 2.)): b.get_y() + b.get_height() for b in ax.patches if b.__class__.__name__ == "Rectangle"}
            if len(bars) == p and all(abs(bars.get(k, -1.) - selector.thresholds[k] * 100.) < 1e-9 for k in range(p)):
                shown = ax
        need(shown is not None, "no panel shows the thresholds")
        green = [row[0] for c in shown.collections if hasattr(c, "get_offsets") for row in np.asarray(c.get_offsets(), dtype=float)
                 if len(c.get_facecolors()) and c.get_facecolors()[0][1] > c.get_facecolors()[0][0]]
        same(sorted(int(round(v)) for v in green), [int(i) for i in np.flatnonzero(mask)], "covariates shown as selected")
    finally:
        plt.close("all")
    return ["nontrivial"] if X.shape[1] > 1 else []


SUBS = [
    Sub("panels", cases, run, 120, 700,
        "plots of generated fits, read back from the axes and compared with values read off the stored samples; non-trivial = several samples and at least one split",
        examples=[dict(c, what=[w]) for c in (LONG, WIDE) for w in sorted(SINGLE)]),
    Sub("together", together, run_together, 8, 60, "the combined figure has a panel for each diagnostic; non-trivial = several samples"),
    Sub("thresholds", thresholded(), run_thresholded, 40, 300, "generated proportions, thresholds and null distributions; non-trivial = several covariates"),
    Sub("selector", selected, run_selected, 12, 100, "plots of fitted selectors; non-trivial = several covariates"),
]
ASSUMPTIONS = ["plots are drawn with matplotlib's Agg backend and read back from the artists of the axes"]
