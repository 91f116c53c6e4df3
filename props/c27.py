"""C27: marginal likelihoods and hyperparameters of the supervised fits."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from lib import bayes
from lib.core import Sub, close, require, rng_of
from props.c22 import cases as fit_cases
from props.c22 import data, kind_of, learner, parameters, precisions, problem

RULE = (
    "Case = (learner, parameters, configurations, target amplitudes, integer weightings, noise and prior settings, reference sites, "
    "iterations). One comparison per evidence, derivative component or optimum; non-trivial: at least two data and two active features."
)
ASSUMPTIONS = [
    "float64 or complex128 parameters; single MPI process; well-conditioned covariances; integer weightings stand for repeated data",
    "the evidence is evaluated by the harness as an explicit Gaussian log density of the data; derivatives by central differences of it",
    "optima are compared where the learner's own iterations converged",
]


@st.composite
def cases(draw, what):
    c = draw(fit_cases("ridge"))
    c["refs"] = c["refs"][:1]
    if c["noise"] == 0.0:
        c["noise"] = 0.05
    c["zero_amps"] = 0
    if what == "zeros":
        c["cls"], c["mode"] = "exp", draw(st.sampled_from(["plain", "plain", "reweighted"]))
        c["zero_amps"] = draw(st.integers(1, 2))
    if what in ("alpha", "growing"):
        c["n"] = draw(st.integers(3, 14))
        c["mode"] = "plain"
    if what == "alpha":
        c["rvm"], c["beta"] = draw(st.booleans()), draw(st.booleans()) and c["cls"] == "log"
        c["alphas"] = "same"
    if what == "growing":
        c["its"] = draw(st.integers(1, 6))
        c["start"] = draw(st.sampled_from(["one", "some", "all", "none"]))
    return c


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(np.errstate(all="ignore"))
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    return s


class Setting:
    """A learner with its data and the reference model of the data, repeated according to the weightings."""

    def __init__(self, case):
        self.case = case
        r = self.r = rng_of(case)
        self.eps = parameters(case, r)
        self.X, self.a = data(case, r)
        self.q = learner(case, self.eps)
        self.w = r.integers(1, 4, size=len(self.a)).astype(float) if case["weights"] else None
        self.rew = None
        if case["mode"] == "reweighted":
            self.rew = r.random(len(self.a)) + 0.5
            self.q.noise_reweighting = bayes.share(self.rew)
        if case["alphas"] != "same":
            self.q.alpha_mat[:] = np.exp(r.normal(size=self.q.alpha_mat.shape))
            self.q.alpha_bias = np.exp(r.normal(size=self.q.alpha_bias.shape))
            if case["alphas"] == "cutoff":
                self.q.alpha_mat[r.random(self.q.alpha_mat.shape) < 0.3] = 1e11
        refs = case["refs"][0]
        self.refs = refs
        self.ref_arg = refs if isinstance(refs, int) else np.array(refs)
        self.idx = np.arange(len(self.a)) if self.w is None else np.repeat(np.arange(len(self.a)), self.w.astype(int))
        self.pred = np.exp(bayes.kernel(self.eps, self.X, refs) @ bayes.at_refs(self.eps, refs)) if case["mode"] == "iterative" else None

    def model(self, alpha=None, noise=None):
        i = self.idx
        return problem(self.case, self.eps, self.X[i], self.a[i], self.refs, precisions(self.case, self.q, self.refs) if alpha is None else alpha, None,
                       self.case["noise"] if noise is None else noise, None if self.pred is None else self.pred[i],
                       None if self.rew is None else self.rew[i])

    def usable(self, P):
        if not np.all(np.isfinite(P.G)) or P.ambiguous() or P.condition() > 1e7 or np.abs(P.S).max() > 1e6 or np.abs(P.S).min() < 1e-6:
            return False
        return np.abs(self.eps).max() < 30 and np.abs(P.K).max() < 1e3

    def setup(self):
        with quiet():
            self.q.setup_fit(*bayes.share(self.X, self.a), self.ref_arg, weightings=bayes.share(self.w), prior_mean=self.case["prior"])


def check_evidence(case, rec):
    s = Setting(case)
    P = s.model()
    if not s.usable(P):
        rec.label("skipped: ill-conditioned")
        return
    act = P.active()
    s.setup()
    with quiet():
        got, dalpha, dnoise = s.q.log_marg_lik(), s.q.log_marg_lik_alpha_der(), s.q.log_marg_lik_noise_der()
    want = P.evidence(act)
    top = 1 + abs(want) + float(np.sum(P.S * np.abs(P.f) ** 2))
    close(got, want, "log marginal likelihood", rtol=1e-8, atol=1e-9 * top * P.condition() ** 0.5 + 1e-9)
    nontrivial = len(s.a) >= 2 and int(act.sum()) >= 2
    rec.add(1, ["evidence"], nontrivial=nontrivial)
    alpha = P.alpha
    h = 1e-4
    for k in np.flatnonzero(P.valid() & (alpha < 1e9)):
        e = []
        for sign in (1, -1):
            b = alpha.copy()
            b[k] *= np.exp(sign * h)
            e.append(s.model(alpha=b).evidence(act))
        fd = (e[0] - e[1]) / (2 * h) / alpha[k]
        close(dalpha[k] * alpha[k], fd * alpha[k], f"derivative of the log marginal likelihood by the logarithm of precision {k}", rtol=1e-5, atol=3e-7 * top)
        rec.add(1, ["alpha", int(k)], nontrivial=nontrivial)
    for k in np.flatnonzero(~P.valid()):
        close(dalpha[k], 0.0, f"derivative of the log marginal likelihood by precision {k}, whose feature vanishes on all data", rtol=0, atol=1e-9)
    n0 = case["noise"]
    e = [s.model(noise=n0 * np.exp(sign * h)).evidence(act) for sign in (1, -1)]
    fd = (e[0] - e[1]) / (2 * h)
    close(dnoise * n0, fd, "derivative of the log marginal likelihood by the logarithm of the noise", rtol=1e-5, atol=3e-7 * top)
    rec.add(1, ["noise"], nontrivial=nontrivial)
    rec.label(case["cls"], kind_of(case), case["mode"], "weighted" if case["weights"] else "unweighted", "bias" if case["bias"] else "no bias")
    rec.sample({"case": case, "evidence": float(want)})


def check_zeros(case, rec):
    """Vanishing amplitudes: the derivative is that of the log marginal likelihood the learner reports, and the optimum stays finite."""
    s = Setting(case)
    case2 = {**case, "zero_amps": 0}
    if len(s.a) <= case["zero_amps"] or not s.usable(Setting(case2).model()):
        rec.label("skipped: ill-conditioned")
        return
    n0, h, e = case["noise"], 1e-4, []
    for sign in (1, -1, 0):
        s.q.noise_tilde = n0 * np.exp(sign * h)
        s.setup()
        with quiet():
            e.append(s.q.log_marg_lik())
    require(np.all(np.isfinite(e)), f"log marginal likelihood with vanishing amplitudes: {e}")
    with quiet():
        d = s.q.log_marg_lik_noise_der()
    close(d * n0, (e[0] - e[1]) / (2 * h), "noise derivative with vanishing amplitudes", rtol=1e-4, atol=1e-5 * (1 + abs(e[2])))
    with quiet():
        s.q.fit_step(*bayes.share(s.X, s.a), s.ref_arg, opt_alpha=False, opt_noise=True, noise_bounds=[(np.log(1e-3), np.log(10.0))], weightings=bayes.share(s.w), prior_mean=case["prior"])
    require(np.isfinite(s.q.noise_tilde) and np.all(np.isfinite(s.q.epsilon)), f"noise {s.q.noise_tilde} after a fit with vanishing amplitudes")
    with quiet():
        end = s.q.log_marg_lik()
    require(end >= e[2] - 1e-6 * (1 + abs(e[2])), f"optimising the noise lowered the log marginal likelihood from {e[2]} to {end}")
    rec.add(2, ["zeros"], nontrivial=len(s.a) >= 3)
    rec.label("zeros", kind_of(case))
    rec.sample({"case": case})


LO, HI = 1e-3, 10.0


def check_noise(case, rec):
    """opt_noise finds a local maximum of the evidence within the bounds, not below the start."""
    s = Setting(case)
    P = s.model()
    if case["cls"] == "log" or not s.usable(P) or not s.usable(s.model(noise=LO)) or not s.usable(s.model(noise=HI)):
        rec.label("skipped: ill-conditioned")
        return
    act = P.active()
    if not act.any() or np.any(s.model(noise=LO).active() != act) or np.any(s.model(noise=HI).active() != act):
        rec.label("skipped: ill-conditioned")
        return
    with quiet():
        s.q.fit_step(*bayes.share(s.X, s.a), s.ref_arg, opt_alpha=False, opt_noise=True, noise_bounds=[(np.log(LO), np.log(HI))], weightings=bayes.share(s.w), prior_mean=case["prior"])
    n1 = float(s.q.noise_tilde)
    require(LO * (1 - 1e-9) <= n1 <= HI * (1 + 1e-9), f"optimised noise {n1} outside of its bounds")
    start, end = P.evidence(act), s.model(noise=n1).evidence(act)
    scale = 1 + abs(start) + abs(end)
    require(end >= start - 1e-6 * scale, f"optimising the noise lowered the log marginal likelihood from {start} to {end}")
    # a local maximum: no better value nearby
    for f in (0.9, 1.1):
        n2 = min(max(n1 * f, LO), HI)
        e2 = s.model(noise=n2).evidence(act)
        require(e2 <= end + 1e-4 * scale, f"noise {n1} with evidence {end} is not optimal: {e2} for noise {n2}")
    rec.add(3, ["optimum"], nontrivial=len(s.a) >= 2 and int(act.sum()) >= 2 and abs(np.log(n1 / case["noise"])) > 1e-3)
    rec.label("noise", case["mode"], kind_of(case), "interior" if LO * 1.01 < n1 < HI / 1.01 else "at a bound")
    rec.sample({"case": case, "noise": n1})


def check_alpha(case, rec):
    """Converged precisions (and noise in log space) are stationary points of the evidence."""
    s = Setting(case)
    if not s.usable(s.model()):
        rec.label("skipped: ill-conditioned")
        return
    kw = {"opt_alpha": True, "rvm": case["rvm"], "weightings": bayes.share(s.w), "prior_mean": case["prior"]}
    limit = 400
    if case["cls"] == "log":
        kw.update(opt_noise=case["beta"], max_alpha_beta_iterations=limit)
    else:
        kw.update(opt_noise=False, max_alpha_iterations=limit)

    def run(n):
        t = Setting(case)
        kw2 = dict(kw)
        kw2["max_alpha_beta_iterations" if case["cls"] == "log" else "max_alpha_iterations"] = n
        with quiet():
            t.q.fit_step(*bayes.share(t.X, t.a), t.ref_arg, **kw2)
        return t

    s, t = run(limit), run(limit - 1)
    alpha, before = precisions(case, s.q, s.refs), precisions(case, t.q, s.refs)
    noise = float(s.q.noise_tilde) if case["cls"] == "log" else case["noise"]
    if case["beta"] and not noise > 1e-8:
        rec.label("interpolated: no finite optimum")
        return
    require(np.all(np.isfinite(alpha)) and np.all(alpha >= 0), f"precisions {alpha} after the optimisation")
    if not np.allclose(alpha, before, rtol=1e-7, atol=0) or abs(np.log(noise / float(t.q.noise_tilde) if case["cls"] == "log" else 1)) > 1e-7 or alpha.min() < 1e-5:
        rec.label("not converged")
        return
    P = s.model(alpha=alpha, noise=noise)
    act = P.active()
    if not s.usable(P) or np.any((alpha > 1e7) & (alpha < 1e10)) or not act.any():
        rec.label("skipped: ill-conditioned")
        return
    ev = lambda la, ln: s.model(alpha=np.where(act, alpha * np.exp(la), alpha), noise=noise * np.exp(ln)).evidence(act)
    scale = 1 + abs(ev(np.zeros(len(alpha)), 0.0)) + float(np.sum(P.S * np.abs(P.f) ** 2))
    h = 1e-4
    moves = []
    if case["rvm"]:
        for k in np.flatnonzero(act):
            v = np.zeros(len(alpha))
            v[k] = 1.0
            moves.append((f"precision {k}", v, 0.0))
    else:
        vals = alpha[act]
        require(np.allclose(vals, vals[0], rtol=1e-9), f"shared precision takes the values {vals}")
        moves.append(("the shared precision", np.ones(len(alpha)), 0.0))
    if case["beta"]:
        moves.append(("the noise", np.zeros(len(alpha)), 1.0))
    for name, v, dn in moves:
        d = (ev(h * v, h * dn) - ev(-h * v, -h * dn)) / (2 * h)
        require(abs(d) <= 2e-5 * scale, f"the log marginal likelihood is not stationary in {name}: slope {d} at {alpha}, noise {noise}")
        rec.add(1, [name], nontrivial=len(s.a) >= 2 and int(act.sum()) >= 2)
    rec.label("alpha", case["cls"], kind_of(case), "rvm" if case["rvm"] else "shared", "noise" if case["beta"] else "fixed noise")
    rec.sample({"case": case, "alpha": alpha.tolist()})


def single_moves(s, alpha, act, noise):
    """Best evidence reachable by changing one precision (Tipping and Faul), by explicit one-dimensional search."""
    P = s.model(alpha=alpha, noise=noise)
    best, empty = P.evidence(act), -np.inf
    grid = np.exp(np.linspace(np.log(1e-4), np.log(1e6), 41))
    for k in np.flatnonzero(P.valid()):
        on = act.copy()
        on[k] = True
        for g in grid:
            b = alpha.copy()
            b[k] = g
            best = max(best, s.model(alpha=b, noise=noise).evidence(on))
        off = act.copy()
        off[k] = False
        if off.any():
            best = max(best, P.evidence(off))
        elif act[k]:
            empty = P.evidence(off)
    return -np.inf if empty > best - 1e-6 * (1 + abs(best)) else best  # the last feature is never removed


def check_growing(case, rec):
    """Each iteration of the growing RVM makes the single change of a precision which raises the evidence most."""
    out = []
    for n in range(case["its"] + 1):
        s = Setting({**case, "alphas": "same"})
        keep = s.r.random(s.q.alpha_mat.shape) < 0.3
        if case["start"] == "one":
            keep[:] = False
            keep[:, int(s.r.integers(keep.shape[1]))] = True
        if case["start"] == "none":
            keep[:] = False
            s.q.alpha_bias[:] = np.inf
        if case["start"] != "all":
            s.q.alpha_mat[~keep] = np.inf
        a0 = precisions(case, s.q, s.refs)
        P0 = s.model(alpha=np.where(np.isfinite(a0), a0, 1e12))
        if not s.usable(P0) or (np.any(np.diag(P0.G).real < 1e-6) if case["start"] == "none" else not P0.active().any()):
            rec.label("skipped: ill-conditioned")
            return
        w0 = None if s.w is None else s.w.copy()
        with quiet():
            s.q.fit_step_growing_RVM(*bayes.share(s.X, s.a), s.ref_arg, n, weightings=bayes.share(s.w), prior_mean=case["prior"])
        require(s.w is None or np.array_equal(s.w, w0), "the weightings handed over were modified")
        alpha = precisions(case, s.q, s.refs)
        require(not np.any(np.isnan(alpha)) and alpha.min() > 0, f"precisions {alpha} after {n} iterations")
        finite = np.where(np.isfinite(alpha), alpha, 1e12)
        P = s.model(alpha=finite)
        if finite.min() < 1e-3 or not s.usable(P) or np.any((finite > 1e6) & (finite < 1e11)):
            rec.label("stopped: ill-conditioned")
            break
        act = P.active()
        ev = P.evidence(act)
        scale = 1 + abs(ev)
        if out:
            finite0, act0, ev0 = out[-1]
            changed = np.flatnonzero(np.abs(np.log(finite / finite0)) > 1e-9)
            require(len(changed) <= 1, f"iteration {n} changed the precisions {changed}")
            require(ev >= ev0 - 1e-7 * scale, f"iteration {n} lowered the log marginal likelihood from {ev0} to {ev}")
            if n <= 2:
                best = single_moves(s, finite0, act0, case["noise"])
                require(ev >= best - 1e-6 * scale, f"iteration {n} reached a log marginal likelihood of {ev}, another change of a single precision gives {best}")
            rec.add(2, [n], nontrivial=len(changed) > 0 and len(s.a) >= 2)
        elif case["start"] == "none":
            none = np.zeros(len(finite), dtype=bool)
            require(act.sum() == 1, f"{act.sum()} features after starting from none")
            best = single_moves(s, np.full(len(finite), 1e12), none, case["noise"])
            if best > P.evidence(none) + 1e-3 * scale:
                require(ev >= best - 1e-6 * scale, f"the first feature gives a log marginal likelihood of {ev}, another one {best}")
            rec.add(1, ["first"], nontrivial=len(s.a) >= 2)
        out.append((finite, act, ev))
        # the weights belong to these precisions
        w = P.weights(act)
        h = case["M"] * case["D"]
        if kind_of(case) == "expand":
            half = len(w) // 2
            new = (w[:half] + 1j * w[half:])[:h]
            valid = P.valid()[:half][:h] & P.valid()[half:][:h]
        else:
            new, valid = w[:h], P.valid()[:h]
        got = bayes.at_refs(s.q.epsilon, s.refs)
        close(got[valid], (new + case["prior"])[valid], f"parameters after {n} iterations", rtol=1e-6, atol=min(1e-9 * P.condition() * (1 + np.abs(w).max()) + 1e-9, 1e-4))
        rec.add(1, ["weights", n], nontrivial=len(s.a) >= 2)
    rec.label("growing", case["cls"], kind_of(case), case["start"])
    rec.sample({"case": case})


SUBS = [
    Sub("evidence", lambda: cases("evidence"), check_evidence, quick=200, thorough=5000, shards=3, weight=1),
    Sub("zeros", lambda: cases("zeros"), check_zeros, quick=100, thorough=2000, shards=1, weight=1),
    Sub("noise", lambda: cases("noise"), check_noise, quick=150, thorough=3000, shards=2, weight=1),
    Sub("alpha", lambda: cases("alpha"), check_alpha, quick=100, thorough=2000, shards=3, weight=2),
    Sub("growing", lambda: cases("growing"), check_growing, quick=80, thorough=2000, shards=3, weight=2),
]
