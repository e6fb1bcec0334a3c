"""
Statistical judgements.  Every test is passed to fail with probability of at most about 1e-9 when
the null holds, so that a check stays quiet on right code whatever order it draws random numbers in.
"""
import math

import numpy as np
from scipy import stats as ss

from harness.core import Violation

ALPHA = 1e-10


def counts_match(counts, probabilities, what, alpha=ALPHA, least=15.):
    """counts: {outcome: count}, probabilities: {outcome: p}.  Outcomes without probability are impossible."""
    n = sum(counts.values())
    for outcome, c in counts.items():
        if c and probabilities.get(outcome, 0.) <= 0.:
            raise Violation("{}: outcome {} came up {} times of {} but is impossible".format(what, outcome, c, n))
    # every outcome on its own, exactly
    for outcome, p in probabilities.items():
        c = counts.get(outcome, 0)
        if p >= 1.:
            if c != n:
                raise Violation("{}: outcome {} is certain but came up {} times of {}".format(what, outcome, c, n))
            continue
        tail = 2. * min(ss.binom.cdf(c, n, p), ss.binom.sf(c - 1, n, p))
        if tail < alpha / max(len(probabilities), 1):
            raise Violation("{}: outcome {} came up {} times of {} instead of about {:.1f} (p = {:.1e})".format(what, outcome, c, n, n * p, tail))
    # and all of them together, where there are enough of each
    pooled, rest_o, rest_e = [], 0., 0.
    for outcome, p in probabilities.items():
        if n * p >= least:
            pooled.append((counts.get(outcome, 0), n * p))
        else:
            rest_o, rest_e = rest_o + counts.get(outcome, 0), rest_e + n * p
    if rest_e >= least:
        pooled.append((rest_o, rest_e))
    if len(pooled) >= 2:
        chi2 = sum((o - e) ** 2 / e for o, e in pooled)
        p_value = ss.chi2.sf(chi2, max(len(pooled) - 1, 1))
        if p_value < alpha:
            raise Violation("{}: {} outcomes do not have their probabilities (chi2 = {:.1f}, p = {:.1e})".format(what, len(pooled), chi2, p_value))


def uniform_sample(u, what, alpha=ALPHA):
    """u should be independent uniform(0, 1)"""
    u = np.asarray(u, dtype=float)
    if not np.all(np.isfinite(u)):
        raise Violation("{}: values that are not numbers".format(what))
    p = ss.kstest(u, "uniform").pvalue
    if p < alpha:
        raise Violation("{}: distribution differs, KS p = {:.1e} over {} draws (mean of the probability transform {:.3f}, spread {:.3f})".format(what, p, len(u), u.mean(), u.std()))
    n = len(u)
    if u.min() < alpha / n:
        raise Violation("{}: a draw far out in the lower tail ({:.1e})".format(what, u.min()))
    # variance of the transform
    z = (np.mean((u - 0.5) ** 2) - 1. / 12) / math.sqrt((1. / 80 - 1. / 144) / n)
    if 2 * ss.norm.sf(abs(z)) < alpha:
        raise Violation("{}: spread differs (z = {:.1f})".format(what, z))


def uncorrelated(a, b, what, alpha=ALPHA):
    """a and b are independent samples with many distinct values"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    n = len(a)
    r = ss.spearmanr(a, b).statistic
    if np.isnan(r):
        return
    z = math.atanh(max(min(r, 1 - 1e-12), -1 + 1e-12)) * math.sqrt(max(n - 3, 1) / 1.06)
    if 2 * ss.norm.sf(abs(z)) < alpha:
        raise Violation("{}: correlation {:.3f} over {} draws (p = {:.1e})".format(what, r, n, 2 * ss.norm.sf(abs(z))))


def successive_independent(u, what, lags=(1, 2)):
    u = np.asarray(u, dtype=float)
    for lag in lags:
        uncorrelated(u[:-lag], u[lag:], "{} (lag {})".format(what, lag))


def batch_z(x, expected, batches=40):
    """z value of the mean of an autocorrelated series against its expectation"""
    x = np.asarray(x, dtype=float)
    size = len(x) // batches
    means = x[:size * batches].reshape(batches, size).mean(axis=1)
    se = means.std(ddof=1) / math.sqrt(batches)
    return (means.mean() - expected) / max(se, 1e-300), means.mean(), se
