"""C22: the supervised fits return the regularised least-squares solution."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from GPSKet.supervised.supervised_qgps import QGPSGenLinMod, QGPSLearningExp, QGPSLogSpaceFit
from lib import bayes, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (learner, parameters, configurations, target amplitudes, weightings, noise and prior settings, reference sites). One "
    "comparison per fitted parameter tensor; non-trivial: at least two data and two active features."
)
ASSUMPTIONS = [
    "float64 or complex128 parameters; single MPI process; prior precisions of at least 1e-3 and well-conditioned normal equations",
    "features are computed by the harness from their definition (products over all sites but the reference site, summed over images)",
    "zero target amplitudes stand for the limit of vanishing amplitude; real learners fit log|amplitude|",
]


@st.composite
def cases(draw, what="ridge"):
    c = {"cls": draw(st.sampled_from(["exp", "exp", "log"])), "L": draw(st.integers(1, 4)), "M": draw(st.integers(1, 3)),
         "D": draw(st.integers(2, 4)), "complex": draw(st.booleans()), "bias": draw(st.booleans()) and what != "precomputed",
         "zeros": draw(st.sampled_from([0.0, 0.0, 0.3]))}
    c["expand"] = c["complex"] and draw(st.booleans())
    c["n"] = draw(st.integers(1, 14))
    c["sym"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["refs"] = [draw(st.one_of(st.integers(0, c["L"] - 1), st.lists(st.integers(0, c["L"] - 1), min_size=c["M"], max_size=c["M"])))
                 for _ in range(draw(st.integers(1, 3)))]
    c["noise"] = draw(st.sampled_from([0.1, 0.01, 1.0, 0.0] if c["cls"] == "exp" else [0.1, 0.01, 1.0]))
    c["init_alpha"] = draw(st.sampled_from([1.0, 0.1, 10.0, 0.01]))
    c["alphas"] = draw(st.sampled_from(["same", "same", "random", "cutoff"]))
    c["weights"] = draw(st.booleans())
    c["prior"] = draw(st.sampled_from([0.0, 0.0, 1.0, 0.4]))
    c["zero_amps"] = draw(st.sampled_from([0, 0, 1, 2])) if c["cls"] == "exp" and c["noise"] else 0
    c["mode"] = draw(st.sampled_from(["plain", "plain", "iterative", "reweighted"])) if c["cls"] == "exp" else "plain"
    if c["mode"] != "plain":
        c["zero_amps"] = 0
    if what != "ridge":
        c["rvm"], c["opt_alpha"], c["opt_noise"] = draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([False, False, True]))
        c["its"] = draw(st.integers(1, 3))
    c["seed"] = draw(specs.seeds)
    return c


def parameters(case, r):
    e = r.normal(size=(case["D"], case["M"], case["L"]))
    if case["complex"]:
        e = e + 1j * r.normal(size=e.shape)
    e[r.random(e.shape) < case["zeros"]] = 0
    return e


def data(case, r):
    shape = (case["n"], case["L"]) if case["sym"] == 0 else (case["n"], case["L"], case["sym"])
    X = r.integers(0, case["D"], size=shape)
    f = 0.7 * r.normal(size=case["n"]) + (0.7j * r.normal(size=case["n"]) if case["complex"] else 0)
    if case["cls"] == "log":
        return X, f
    a = np.exp(f)
    if not case["complex"]:
        a = a * r.choice([-1, 1], size=len(a))
    a[: case["zero_amps"]] = 0
    return X, a


def learner(case, eps, K=None):
    cls = QGPSLearningExp if case["cls"] == "exp" else QGPSLogSpaceFit
    kw = {"iterative_noise_est": True} if case["mode"] == "iterative" else {}
    return cls(eps, init_alpha=case["init_alpha"], init_noise_tilde=case["noise"], complex_expand=case["expand"], include_bias=case["bias"], K=K, **kw)


def kind_of(case):
    return "real" if not case["complex"] else "expand" if case["expand"] else "complex"


def precision(case, a, w, noise, pred=None, rew=None):
    """Inverse variance of the log-amplitudes of the data, and the weighted right-hand side factors."""
    if case["cls"] == "log":
        S = np.full(len(a), 1 / noise)
    elif noise == 0:
        S = np.ones(len(a))
    elif case["mode"] == "iterative":
        S = 1 / np.log((1 + np.sqrt(1 + 4 * noise / np.abs(pred) ** 2)) / 2)
    else:
        with np.errstate(divide="ignore"):
            S = 1 / np.log1p(noise * (1 if rew is None else rew) / np.abs(a) ** 2)
    return S if w is None else S * w


def problem(case, eps, X, a, refs, alpha, w, noise, pred=None, rew=None):
    K = bayes.kernel(eps, X, refs)
    full = np.hstack((K, np.ones((len(K), 1)))) if case["bias"] else K
    S = precision(case, a, w, noise, pred, rew)
    with np.errstate(divide="ignore", invalid="ignore"):
        f = (a if case["cls"] == "log" else np.log(a) if case["complex"] else np.log(np.abs(a))) - case["prior"] * K.sum(1)
        mult = S * f
    if case["cls"] == "exp":
        zero = a == 0
        mult = np.where(zero, -0.5 * (1.0 if w is None else w), mult)
    return bayes.Problem(full, f, S, alpha, kind_of(case), mult)


def precisions(case, q, refs):
    """Prior precisions of the weights: (parameters, bias), for expanded complex weights those of the real, then of the imaginary parts."""
    n = case["M"] * case["D"]
    site = np.repeat(np.broadcast_to(refs, (case["M"],)), case["D"])
    parts = [0, n] if kind_of(case) == "expand" else [0]
    out = []
    for k, off in enumerate(parts):
        out.append(q.alpha_mat[site, off + np.arange(n)])
        if case["bias"]:
            out.append(q.alpha_bias[k:k + 1])
    return np.concatenate(out)


def solution(case, P, eps, refs):
    """(parameters after the fit, bias) the problem prescribes."""
    n = case["M"] * case["D"]
    refs_arr = np.broadcast_to(refs, (case["M"],))
    wt, valid = P.weights(), P.valid()
    wt = np.where(valid, wt, 0)
    pw, pb = unpack(case, wt, n)
    old = bayes.at_refs(eps, refs) - case["prior"]
    if kind_of(case) == "expand":
        h = len(valid) // 2
        vr, vi = valid[:h][:n], valid[h:][:n]
        pw = np.where(vr, pw.real, old.real) + 1j * np.where(vi, pw.imag, old.imag)
    else:
        pw = np.where(valid[:n], pw, old)
    want = eps.copy()
    for k in range(n):
        m, d = divmod(k, case["D"])
        want[d, m, refs_arr[m]] = pw[k] + case["prior"]
    return want, pb


def unpack(case, w, n):
    """(weights of the parameters, weight of the bias) from the reference's weight vector."""
    if kind_of(case) == "expand":
        h = len(w) // 2
        w = w[:h] + 1j * w[h:]
    return w[:n], (w[n] if case["bias"] else 0.0)


def check(case, rec):
    r = rng_of(case)
    eps = parameters(case, r)
    X, a = data(case, r)
    n = case["M"] * case["D"]
    q = learner(case, eps)
    w = r.integers(1, 5, size=len(a)) * [1.0, 0.37][int(r.integers(2))] if case["weights"] else None
    rew = None
    if case["mode"] == "reweighted":
        rew = r.random(len(a)) + 0.5
        q.noise_reweighting = bayes.share(rew)
    kind = kind_of(case)
    if case["alphas"] != "same":
        q.alpha_mat[:] = np.exp(r.normal(size=q.alpha_mat.shape))
        q.alpha_bias = np.exp(r.normal(size=q.alpha_bias.shape))
        if case["alphas"] == "cutoff":
            q.alpha_mat[r.random(q.alpha_mat.shape) < 0.3] = 1e11
    bias = 0.0
    for step, refs in enumerate(case["refs"]):
        refs_arr = np.broadcast_to(refs, (case["M"],))
        alpha = precisions(case, q, refs)
        pred = None
        if case["mode"] == "iterative":
            pred = np.exp(bayes.kernel(eps, X, refs) @ bayes.at_refs(eps, refs) + bias)
        P = problem(case, eps, X, a, refs, alpha, w, case["noise"], pred, rew)
        if P.ambiguous() or not np.all(np.isfinite(P.G)) or P.condition() > 1e8 or np.abs(P.S).max() > 1e8:
            rec.label("skipped: ill-conditioned")
            return
        want, pb = solution(case, P, eps, refs)
        w0 = None if w is None else w.copy()
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            q.fit_step(*bayes.share(X, a), refs if isinstance(refs, int) else np.array(refs), opt_alpha=False, opt_noise=False, weightings=bayes.share(w), prior_mean=case["prior"])
        require(w is None or np.array_equal(w, w0), "the weightings handed over were modified")
        tol = 1e-9 * P.condition() * (1 + np.abs(want).max()) + 1e-9
        close(q.epsilon, want, f"parameters fitted at reference sites {refs} (step {step})", rtol=1e-7, atol=min(tol, 1e-4))
        if case["bias"]:
            close(np.array(q.bias).reshape(-1)[0], pb if case["complex"] else np.real(pb), f"fitted bias (step {step})", rtol=1e-7, atol=min(tol, 1e-4))
        rec.add(1, [step], nontrivial=len(a) >= 2 and int(P.active().sum()) >= 2)
        eps, bias = np.array(q.epsilon), complex(np.array(q.bias).reshape(-1)[0]) if case["bias"] else 0.0
        if not case["complex"]:
            bias = np.real(bias)
        if np.abs(eps).max() > 30:
            rec.label("stopped: large parameters")
            return
    rec.label(case["cls"], kind, case["mode"], "weighted" if case["weights"] else "unweighted", "zero amplitudes" if case["zero_amps"] else "no zeros")
    rec.sample({"case": case})


def options(case):
    kw = {"opt_alpha": case["opt_alpha"], "opt_noise": case["opt_noise"], "rvm": case["rvm"], "prior_mean": case["prior"]}
    if case["cls"] == "exp":
        kw["max_alpha_iterations"] = case["its"]
        kw["max_noise_iterations"] = case["its"]
        kw["noise_bounds"] = [(np.log(1e-4), np.log(10.0))]
    else:
        kw["max_alpha_beta_iterations"] = case["its"]
    return kw


def fit(q, case, X, a, w):
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        for refs in case["refs"]:
            q.fit_step(*bayes.share(X, a), refs if isinstance(refs, int) else np.array(refs), weightings=bayes.share(w), **options(case))


def conditioned(case, eps, X, a, refs, w):
    kind = kind_of(case)
    n = case["M"] * case["D"] + int(case["bias"])
    alpha = np.full(2 * n if kind == "expand" else n, case["init_alpha"])
    P = problem(case, eps, X, a, refs, alpha, w, case["noise"], np.exp(bayes.kernel(eps, X, refs) @ bayes.at_refs(eps, refs)), None)
    return np.all(np.isfinite(P.G)) and not P.ambiguous() and P.condition() < 1e6 and np.abs(P.S).max() < 1e6


def check_repeat(case, rec):
    """Integer weightings mean repeated data."""
    r = rng_of(case)
    eps = parameters(case, r)
    X, a = data(case, r)
    w = r.integers(1, 4, size=len(a))
    if case["opt_noise"] and (case["zero_amps"] or case["noise"] == 0):
        case = {**case, "opt_noise": False}
    if case["mode"] == "reweighted":
        case = {**case, "mode": "plain"}
    if case["opt_noise"] or case["opt_alpha"]:
        case = {**case, "refs": case["refs"][:1]}
    if not conditioned(case, eps, X, a, case["refs"][0], w.astype(float)) or np.abs(eps).max() > 30:
        rec.label("skipped: ill-conditioned")
        return
    one, two = learner(case, eps), learner(case, eps)
    fit(one, case, X, a, w.astype(float))
    idx = np.repeat(np.arange(len(a)), w)
    idx = r.permutation(idx)
    fit(two, case, X[idx], a[idx], None)
    tol = 1e-3 if case["opt_noise"] else 1e-5
    top = 1 + np.abs(two.epsilon).max()
    if not np.all(np.isfinite(two.epsilon)) or top > 100 or two.alpha_mat.min() < 1e-5 or (case["opt_alpha"] and two.alpha_mat.max() > 1e6):
        rec.label("skipped: diverged")
        return
    close(one.epsilon, two.epsilon, "parameters fitted with integer weightings against repeated data", rtol=tol, atol=tol * top)
    close(float(one.noise_tilde), float(two.noise_tilde), "noise with integer weightings against repeated data", rtol=tol, atol=1e-9)
    if case["zero_amps"] == 0 and case["noise"] and not case["opt_alpha"]:
        l1, l2 = one.log_marg_lik(), two.log_marg_lik()
        close(l1, l2, "marginal likelihood with integer weightings against repeated data", rtol=tol, atol=tol * (1 + abs(l2)))
    elif case["zero_amps"]:
        one.log_marg_lik()
    rec.add(1, ["repeat"], nontrivial=len(a) >= 2 and w.max() > 1)
    rec.label("repeat", case["cls"], kind_of(case), "optimised" if case["opt_alpha"] or case["opt_noise"] else "fixed")
    rec.sample({"case": case})


def check_final(case, rec):
    """After optimising the precisions and the noise, the fit is the solution for the values reported."""
    r = rng_of(case)
    case = {**case, "refs": case["refs"][:1], "mode": "plain"}
    if case["noise"] == 0:
        case["noise"] = 0.1
    if case["zero_amps"]:
        case["opt_noise"] = False
    eps = parameters(case, r)
    X, a = data(case, r)
    w = r.integers(1, 4, size=len(a)).astype(float) if case["weights"] else None
    refs = case["refs"][0]
    q = learner(case, eps)
    fit(q, case, X, a, w)
    alpha, noise = precisions(case, q, refs), float(q.noise_tilde)
    require(noise > 0 and np.isfinite(noise), f"the noise is {noise} after the fit")
    P = problem(case, eps, X, a, refs, alpha, w, noise)
    if alpha.min() <= 0 or not np.all(np.isfinite(P.G)) or P.ambiguous() or P.condition() > 1e8 or np.any((alpha > 1e9) & (alpha < 1e10)):
        rec.label("skipped: ill-conditioned")
        return
    want, pb = solution(case, P, eps, refs)
    tol = 1e-8 * P.condition() * (1 + np.abs(want).max()) + 1e-8
    close(q.epsilon, want, "parameters of a fit with optimised precisions and noise", rtol=1e-6, atol=min(tol, 1e-3))
    if case["bias"]:
        close(np.array(q.bias).reshape(-1)[0], pb if case["complex"] else np.real(pb), "bias of a fit with optimised precisions", rtol=1e-6, atol=min(tol, 1e-3))
    rec.add(1, ["final"], nontrivial=len(a) >= 2 and int(P.active().sum()) >= 2 and (case["opt_alpha"] or case["opt_noise"]))
    rec.label("final", case["cls"], kind_of(case), "rvm" if case["rvm"] else "shared")
    rec.sample({"case": case})


def check_precomputed(case, rec):
    """The same features, precomputed by the caller, give the same weights."""
    r = rng_of(case)
    case = {**case, "refs": case["refs"][:1], "zero_amps": 0}
    if case["mode"] != "plain":
        case["mode"] = "plain"
    if case["noise"] == 0:
        case["noise"] = 0.1
    eps = parameters(case, r)
    X, a = data(case, r)
    w = r.integers(1, 4, size=len(a)).astype(float) if case["weights"] else None
    if not conditioned(case, eps, X, a, case["refs"][0], w):
        rec.label("skipped: ill-conditioned")
        return
    K = bayes.kernel(eps, X, case["refs"][0])
    one, two = learner(case, eps), learner(case, eps, K=bayes.share(K).copy())
    fit(one, case, X, a, w)
    fit(two, case, X, a, w)
    require(np.array_equal(two.epsilon, eps), "a fit of precomputed features changed the parameters")
    tol = 1e-4 if case["opt_noise"] else 1e-6
    close(two.weights, one.weights, "weights of precomputed features", rtol=tol, atol=tol * (1 + np.abs(one.weights).max()))
    close(float(two.noise_tilde), float(one.noise_tilde), "noise with precomputed features", rtol=tol, atol=1e-9)
    rec.add(1, ["precomputed"], nontrivial=len(a) >= 2)
    rec.label("precomputed", case["cls"], kind_of(case), "optimised" if case["opt_alpha"] or case["opt_noise"] else "fixed")
    rec.sample({"case": case})


SUBS = [
    Sub("ridge", lambda: cases(), check, quick=250, thorough=6000, shards=4, weight=1),
    Sub("repeat", lambda: cases("repeat"), check_repeat, quick=200, thorough=4000, shards=2, weight=1),
    Sub("final", lambda: cases("final"), check_final, quick=200, thorough=4000, shards=2, weight=1),
    Sub("precomputed", lambda: cases("precomputed"), check_precomputed, quick=200, thorough=4000, shards=2, weight=1),
]
