"""Statistical oracles with a negligible false-alarm probability."""
import numpy as np


def chi2_p(counts, probs):
    """p-value of Pearson's test; bins with small expectation are merged"""
    from scipy.stats import chi2
    counts = np.asarray(counts, dtype=float)
    probs = np.asarray(probs, dtype=float)
    probs = probs / probs.sum()
    N = counts.sum()
    order = np.argsort(probs)
    c, e = [], []
    ac = ae = 0.0
    for i in order:
        ac += counts[i]
        ae += N * probs[i]
        if ae >= 8:
            c.append(ac)
            e.append(ae)
            ac = ae = 0.0
    if ae > 0 or ac > 0:
        if e:
            c[-1] += ac
            e[-1] += ae
        else:
            return 1.0
    if len(e) < 2:
        return 1.0
    c, e = np.array(c), np.array(e)
    return float(chi2.sf(np.sum((c - e)**2 / e), len(e) - 1))
