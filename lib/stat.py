"""Statistical oracles with a fixed, tiny false-alarm probability."""
import numpy as np


def chi2_bad(counts, probs, p_false=1e-9, min_expected=5.0):
    """Pearson test of observed counts against exact probabilities -> (reject, description)."""
    from scipy.stats import chi2

    counts = np.asarray(counts, dtype=float)
    probs = np.asarray(probs, dtype=float)
    n = counts.sum()
    zero = probs <= 1e-14
    if counts[zero].sum() > 0:
        return True, f"{int(counts[zero].sum())} of {int(n)} draws fell on outcomes of probability zero"
    c, p = counts[~zero], probs[~zero]
    p = p / p.sum()
    order = np.argsort(p)
    c, p = c[order], p[order]
    # pool small cells
    cc, pp, ac, ap = [], [], 0.0, 0.0
    for ci, pi in zip(c, p):
        ac += ci
        ap += pi
        if ap * n >= min_expected:
            cc.append(ac)
            pp.append(ap)
            ac = ap = 0.0
    if ap > 0:
        if cc:
            cc[-1] += ac
            pp[-1] += ap
        else:
            cc, pp = [ac], [ap]
    cc, pp = np.array(cc), np.array(pp)
    if len(cc) < 2:
        return False, "single outcome"
    stat = float(np.sum((cc - n * pp) ** 2 / (n * pp)))
    dof = len(cc) - 1
    # the chi-square tail is only approximate for small cells: ask for a wide margin
    thr = 1.3 * float(chi2.isf(p_false, dof)) + 10.0
    return stat > thr, f"chi2={stat:.1f} with {dof} dof over {int(n)} draws (threshold {thr:.1f})"
