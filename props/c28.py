"""C28: generalised linear model fits of amplitudes."""
import contextlib
import io

import numpy as np
import scipy as sp
from hypothesis import strategies as st

from GPSKet.supervised.supervised_qgps import QGPSGenLinMod
from lib import bayes, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (parameters, configurations, target amplitudes, weightings, noise and prior settings, way of optimisation, reference sites). One "
    "comparison per fitted parameter tensor, evidence or optimum; non-trivial: at least two data and two active features."
)
ASSUMPTIONS = [
    "float64 or complex128 parameters; single MPI process; minimisers and line searches of scipy handed over by the caller",
    "the loss is half of the weighted squared error of the amplitudes over the noise plus the quadratic prior; it is evaluated by the harness",
    "cases whose Hessian is neither clearly positive definite nor clearly indefinite are not compared",
]


@st.composite
def cases(draw, what):
    c = {"L": draw(st.integers(1, 4)), "M": draw(st.integers(1, 2)), "D": draw(st.integers(2, 3)), "complex": draw(st.booleans()),
         "bias": draw(st.booleans()), "n": draw(st.integers(1, 12)), "sym": draw(st.sampled_from([0, 0, 1, 2])),
         "zeros": draw(st.sampled_from([0.0, 0.0, 0.3]))}
    c["refs"] = draw(st.one_of(st.integers(0, c["L"] - 1), st.lists(st.integers(0, c["L"] - 1), min_size=c["M"], max_size=c["M"])))
    c["noise"] = draw(st.sampled_from([0.1, 0.03, 1.0]))
    c["init_alpha"] = draw(st.sampled_from([1.0, 0.1, 10.0]))
    c["alphas"] = draw(st.sampled_from(["same", "random", "cutoff"]))
    c["weights"] = draw(st.booleans())
    c["prior"] = draw(st.sampled_from([0.0, 0.0, 0.5]))
    if what == "newton":
        c["way"] = draw(st.sampled_from(["newton", "newton", "linesearch", "logfit", "irls"]))
        c["near"] = draw(st.sampled_from([0.0, 0.1, 0.5]))
        c["precomputed"] = c["way"] == "newton" and not c["bias"] and draw(st.booleans())
        c["irls"] = draw(st.integers(1, 3))
    else:
        c["way"] = "minimize"
        c["near"] = 1.0
        c["precomputed"] = False
    if what == "hyper":
        c["alphas"] = "same"
        c["n"] = draw(st.integers(6, 16))
        c["rvm"], c["beta"] = draw(st.booleans()), draw(st.booleans())
        c["near"] = 0.1
    c["seed"] = draw(specs.seeds)
    return c


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(np.errstate(all="ignore"))
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    return s


class Setting:
    def __init__(self, case):
        self.case = case
        r = self.r = rng_of(case)
        shape = (case["D"], case["M"], case["L"])
        self.eps = 0.6 * r.normal(size=shape) + (0.4j * r.normal(size=shape) if case["complex"] else 0)
        self.eps[r.random(shape) < case["zeros"]] = 0
        cs = (case["n"], case["L"]) if case["sym"] == 0 else (case["n"], case["L"], case["sym"])
        self.X = r.integers(0, case["D"], size=cs)
        self.refs = case["refs"]
        self.ref_arg = self.refs if isinstance(self.refs, int) else np.array(self.refs)
        self.K0 = bayes.kernel(self.eps, self.X, self.refs)
        model = np.exp(self.K0 @ bayes.at_refs(self.eps, self.refs))
        d = r.normal(size=case["n"]) + (1j * r.normal(size=case["n"]) if case["complex"] else 0)
        # amplitudes within case["near"] of those of the current parameters
        self.a = model * np.exp(case["near"] * d) if case["near"] < 1 else np.exp(0.5 * d) * (1 if case["complex"] else r.choice([1, 1, 1, -1], size=case["n"]))
        self.w = r.integers(1, 4, size=case["n"]) * 0.7 if case["weights"] else None
        self.q = QGPSGenLinMod(self.eps, init_alpha=case["init_alpha"], init_noise_tilde=case["noise"], include_bias=case["bias"],
                               K=bayes.share(self.K0).copy() if case["precomputed"] else None)
        if case["alphas"] != "same":
            self.q.alpha_mat[...] = np.exp(r.normal(size=self.q.alpha_mat.shape))
            self.q.alpha_bias[...] = np.exp(r.normal(size=self.q.alpha_bias.shape))
            if case["alphas"] == "cutoff":
                self.q.alpha_mat[r.random(self.q.alpha_mat.shape) < 0.25] = 1e11
        K = np.hstack((self.K0, np.ones((case["n"], 1)))) if case["bias"] else self.K0
        self.K = np.hstack((K, 1j * K)) if case["complex"] else K
        self.pre = np.exp(case["prior"] * self.K0.sum(1))
        self.valid = np.abs(self.K).sum(0) > 1e-10

    def precisions(self):
        case, q = self.case, self.q
        n = case["M"] * case["D"]
        site = np.repeat(np.broadcast_to(self.refs, (case["M"],)), case["D"])
        out = []
        for k, off in enumerate([0, n] if case["complex"] else [0]):
            out.append(q.alpha_mat[off:off + n] if case["precomputed"] else q.alpha_mat[site, off + np.arange(n)])
            if case["bias"]:
                out.append(q.alpha_bias[k:k + 1])
        return np.concatenate(out)

    def start(self):
        w = bayes.at_refs(self.eps, self.refs) - self.case["prior"]
        if self.case["bias"]:
            w = np.concatenate((w, [0.0]))
        return np.concatenate((w.real, w.imag)) if self.case["complex"] else w

    def fitted(self):
        """The weight vector of the learner's reported model."""
        if self.case["precomputed"]:
            return np.array(self.q.weights)
        w = bayes.at_refs(self.q.epsilon, self.refs) - self.case["prior"]
        if self.case["bias"]:
            w = np.concatenate((w, np.array(self.q.bias).reshape(1)))
        return np.concatenate((w.real, w.imag)) if self.case["complex"] else w


class Loss:
    def __init__(self, s, alpha, noise):
        self.s, self.act = s, s.valid & (alpha < 1e10)
        self.alpha = (alpha / 2 if s.case["complex"] else alpha)[self.act]
        self.K = s.K[:, self.act]
        self.w = np.ones(len(s.a)) if s.w is None else s.w
        self.beta = 1 / noise

    def pred(self, x):
        return self.s.pre * np.exp(self.K @ x)

    def loss(self, x):
        return 0.5 * (self.beta * np.sum(self.w * np.abs(self.s.a - self.pred(x)) ** 2) + np.sum(self.alpha * x ** 2))

    def grad(self, x):
        p = self.pred(x)
        return -self.beta * np.real(self.K.T @ (self.w * p * (self.s.a - p).conj())) + self.alpha * x

    def hess(self, x):
        p = self.pred(x)
        b = self.w * p * (self.s.a - p).conj()
        return self.beta * np.real(-(self.K.T * b) @ self.K + (self.K.T * (self.w * np.abs(p) ** 2)) @ self.K.conj()) + np.diag(self.alpha)

    def scale(self, x):
        p = self.pred(x)
        return 1 + self.beta * float(np.max(np.abs(self.K.T) @ (self.w * np.abs(p) * (np.abs(self.s.a) + np.abs(p))))) + float(np.max(np.abs(self.alpha * x)))


def sane(s):
    return np.abs(s.K).max() < 20 and np.abs(s.a).max() < 30 and np.abs(s.pre).max() < 30 and np.abs(s.pre).min() > 1e-3 and not np.any(
        (np.abs(s.K).sum(0) > 1e-13) & (np.abs(s.K).sum(0) < 1e-7))


def fit(s, **kw):
    a0, w0, x0 = s.a.copy(), None if s.w is None else s.w.copy(), s.X.copy()
    with quiet():
        s.q.fit_step(*bayes.share(s.X, s.a), s.ref_arg, weightings=bayes.share(s.w), prior_mean=s.case["prior"], **kw)
    require(np.array_equal(s.a, a0) and np.array_equal(s.X, x0) and (s.w is None or np.array_equal(s.w, w0)), "the arrays handed over were modified")


def check_newton(case, rec):
    s = Setting(case)
    if case["way"] == "irls" and (case["complex"] or np.any(s.a <= 0)):
        case = s.case = {**case, "way": "newton"}
    if case["way"] == "logfit" and (case["prior"] or np.any((s.a <= 0) if not case["complex"] else (s.a == 0))):
        case = s.case = {**case, "way": "newton"}
    alpha = s.precisions()
    F = Loss(s, alpha, case["noise"])
    if not sane(s) or not F.act.any():
        rec.label("skipped: ill-conditioned")
        return
    full = s.start()
    x = full[F.act]
    kw = {}
    if case["way"] == "linesearch":
        kw["linesearch_fun"] = sp.optimize.line_search
    elif case["way"] == "logfit":
        kw["log_fit_init"] = True
        S = F.w / np.log1p(case["noise"] / np.abs(s.a) ** 2)
        G = np.real((F.K.conj().T * S) @ F.K) + np.diag(F.alpha)
        if np.linalg.cond(G) > 1e7:
            rec.label("skipped: ill-conditioned")
            return
        x = np.linalg.solve(G, np.real(F.K.conj().T @ (S * np.log(s.a))))
    elif case["way"] == "irls":
        kw["it_rew_lst_sq_steps"] = case["irls"]
        for _ in range(case["irls"]):
            p = F.pred(x)
            S = F.w * np.abs(p) ** 2 * F.beta
            G = (F.K.T * S) @ F.K + np.diag(F.alpha)
            if not np.all(np.isfinite(G)) or np.linalg.cond(G) > 1e7 or np.abs(F.K @ x).max() > 5:
                rec.label("skipped: ill-conditioned")
                return
            x = np.linalg.solve(G, F.K.T @ (S * (F.K @ x + (s.a - p) / p)))
    if not np.all(np.isfinite(x)) or np.abs(F.K @ x).max() > 6:
        rec.label("skipped: ill-conditioned")
        return
    H, g = F.hess(x), F.grad(x)
    ev = np.linalg.eigvalsh(H)
    if np.abs(ev).max() > 1e8 or -1e-6 * np.abs(ev).max() < ev.min() < 1e-6 * np.abs(ev).max():
        rec.label("skipped: ill-conditioned")
        return
    if case["precomputed"]:
        s.q.weights = full.copy()
    fit(s, opt_alpha=False, opt_beta=False, **kw)
    got = s.fitted()
    require(case["precomputed"] or np.isclose(s.q.noise_tilde, case["noise"], rtol=1e-9), f"the noise changed to {s.q.noise_tilde}")
    step = -np.linalg.solve(H, g) if ev.min() > 0 else np.zeros(len(x))
    tol = 1e-9 * ev.max() / np.abs(ev).min() * (1 + np.abs(step).max() + np.abs(x).max()) + 1e-9
    if case["way"] == "linesearch" and ev.min() > 0:
        with quiet():
            gamma = sp.optimize.line_search(F.loss, F.grad, x, step)[0]
        moved = got[F.act] - x
        t = 0.0 if np.abs(step).max() < 1e-12 else float(moved @ step / (step @ step))
        close(moved, t * step, "the change of the weights is along the Newton direction", rtol=1e-5, atol=min(tol, 1e-5))
        if np.abs(step).max() > 1e-4:
            if gamma is not None:
                require(t > 0, f"the step length of the line search is {t} (the reference line search gives {gamma})")
            lo, ln = F.loss(x), F.loss(got[F.act])
            require(ln <= lo + 1e-9 * (1 + abs(lo)), f"a step with line search raised the loss from {lo} to {ln}")
    else:
        close(got[F.act], x + step, f"weights after a fit step ({case['way']})", rtol=1e-6, atol=min(tol, 1e-4))
    if not case["precomputed"]:
        close(got[~s.valid], full[~s.valid], "parameters without influence on the data", rtol=1e-9, atol=1e-12)
        same = np.ones(s.eps.shape, dtype=bool)
        same[:, np.arange(case["M"]), np.broadcast_to(s.refs, (case["M"],))] = False
        require(np.array_equal(s.q.epsilon[same], s.eps[same]), "parameters away from the reference sites changed")
    pinned = s.valid & ~F.act
    close(got[pinned], np.zeros(pinned.sum()), "weights of features with diverging precision", rtol=0, atol=1e-12)
    rec.add(1, ["newton"], nontrivial=len(s.a) >= 2 and int(F.act.sum()) >= 2 and np.abs(step).max() > 1e-6)
    rec.label(case["way"], "complex" if case["complex"] else "real", "convex" if ev.min() > 0 else "indefinite", "precomputed" if case["precomputed"] else "products")
    rec.sample({"case": case})


def minimise(fun, x0, jac, hess):
    return sp.optimize.minimize(fun, x0, jac=jac, hess=hess, method="trust-exact", options={"gtol": 1e-10, "maxiter": 400})


def laplace(s, F, x, alpha):
    """Laplace approximation of the log marginal likelihood."""
    n = F.w.sum()
    if s.case["complex"]:
        # loss() is half of the negative log posterior
        return n * np.log(F.beta / np.pi) - 2 * F.loss(x) + 0.5 * np.sum(np.log(alpha[F.act])) - 0.5 * np.linalg.slogdet(2 * F.hess(x))[1]
    return 0.5 * n * np.log(F.beta / (2 * np.pi)) - F.loss(x) + 0.5 * np.sum(np.log(alpha[F.act])) - 0.5 * np.linalg.slogdet(F.hess(x))[1]


def check_minimum(case, rec):
    s = Setting(case)
    alpha = s.precisions()
    F = Loss(s, alpha, case["noise"])
    if not sane(s) or not F.act.any() or np.abs(F.K @ s.start()[F.act]).max() > 5:
        rec.label("skipped: ill-conditioned")
        return
    fit(s, opt_alpha=False, opt_beta=False, minimize_fun=minimise)
    got = s.fitted()
    x = got[F.act]
    g, H = F.grad(x), F.hess(x)
    ev = np.linalg.eigvalsh(H)
    if ev.min() < 1e-4 * ev.max():
        rec.label("skipped: flat minimum")
        return
    require(np.abs(g).max() <= 1e-6 * F.scale(x), f"the gradient of the loss at the reported minimum is {g}")
    pinned = s.valid & ~F.act
    close(got[pinned], np.zeros(pinned.sum()), "weights of features with diverging precision", rtol=0, atol=1e-12)
    close(got[~s.valid], s.start()[~s.valid], "parameters without influence on the data", rtol=1e-9, atol=1e-12)
    with quiet():
        L = s.q.log_marg_lik()
    want = laplace(s, F, x, alpha)
    close(L, want, "Laplace approximation of the log marginal likelihood", rtol=1e-3, atol=1e-3 * (1 + abs(F.loss(x))))
    # derivative with respect to the inverse noise at these weights
    h = 1e-4 * F.beta
    hi, lo = Loss(s, alpha, 1 / (F.beta + h)), Loss(s, alpha, 1 / (F.beta - h))
    want = (laplace(s, hi, x, alpha) - laplace(s, lo, x, alpha)) / (2 * h)
    with quiet():
        D = s.q.log_marg_lik_beta_der()
    close(D, want, "derivative of the log marginal likelihood with respect to the inverse noise", rtol=1e-3, atol=1e-3 * (F.w.sum() + F.loss(x)) / F.beta)
    with quiet():
        D = np.asarray(s.q.log_marg_lik_alpha_der())
    for k in s.r.permutation(np.flatnonzero(F.act))[:2]:
        up, dn = alpha.copy(), alpha.copy()
        up[k] *= 1 + 1e-4
        dn[k] *= 1 - 1e-4
        want = (laplace(s, Loss(s, up, case["noise"]), x, up) - laplace(s, Loss(s, dn, case["noise"]), x, dn)) / (up[k] - dn[k])
        close(D[k], want, f"derivative of the log marginal likelihood with respect to precision {k}", rtol=1e-3, atol=1e-4 * (1 / alpha[k] + np.abs(x).max() ** 2))
    rec.add(3, ["minimum"], nontrivial=len(s.a) >= 2 and int(F.act.sum()) >= 2)
    rec.label("minimum", "complex" if case["complex"] else "real", case["alphas"])
    rec.sample({"case": case})


def check_hyper(case, rec):
    def run(n):
        s = Setting(case)
        fit(s, opt_alpha=True, opt_beta=case["beta"], rvm=case["rvm"], max_alpha_beta_iterations=n, minimize_fun=minimise)
        return s

    s = Setting(case)
    F = Loss(s, s.precisions(), case["noise"])
    if not sane(s) or not F.act.any() or np.abs(F.K @ s.start()[F.act]).max() > 5:
        rec.label("skipped: ill-conditioned")
        return
    s, t = run(300), run(299)
    alpha, before, noise = s.precisions(), t.precisions(), float(s.q.noise_tilde)
    if (not np.all(np.isfinite(alpha)) or alpha.min() < 1e-5 or not noise > 1e-8 or not np.allclose(alpha, before, rtol=1e-7, atol=0)
            or abs(noise / float(t.q.noise_tilde) - 1) > 1e-7 or np.any((alpha > 1e7) & (alpha < 1e10))):
        rec.label("not converged")
        return
    if not case["beta"]:
        close(noise, case["noise"], "noise which is not optimised", rtol=1e-9)
    F = Loss(s, alpha, noise)
    if not F.act.any():
        rec.label("not converged")
        return
    x = s.fitted()[F.act]
    H = F.hess(x)
    ev = np.linalg.eigvalsh(H)
    if not np.all(np.isfinite(H)) or ev.min() < 1e-4 * ev.max():
        rec.label("skipped: flat minimum")
        return
    require(np.abs(F.grad(x)).max() <= 1e-4 * F.scale(x), f"the gradient of the loss for the final precisions is {F.grad(x)}")
    cov = np.diag(np.linalg.inv(H)) * (0.5 if case["complex"] else 1.0)
    gamma = 1 - alpha[F.act] * cov
    if case["rvm"]:
        close(gamma, alpha[F.act] * x ** 2, "well-determinedness of each weight against its precision", rtol=1e-3, atol=1e-4)
    else:
        require(np.allclose(alpha[F.act], alpha[F.act][0], rtol=1e-9), f"shared precision takes the values {alpha[F.act]}")
        close(gamma.sum(), float(np.sum(alpha[F.act] * x ** 2)), "well-determinedness of the weights against the shared precision", rtol=1e-3, atol=1e-4)
    if case["beta"]:
        err = float(np.sum(F.w * np.abs(s.a - F.pred(x)) ** 2))
        close(err / noise, F.w.sum() - (0.5 if case["complex"] else 1.0) * gamma.sum(), "squared error over the optimised noise", rtol=1e-3, atol=1e-4)
    rec.add(1, ["hyper"], nontrivial=int(F.act.sum()) >= 2)
    rec.label("hyper", "complex" if case["complex"] else "real", "rvm" if case["rvm"] else "shared", "noise" if case["beta"] else "fixed noise")
    rec.sample({"case": case, "alpha": alpha.tolist(), "noise": noise})


SUBS = [
    Sub("newton", lambda: cases("newton"), check_newton, quick=200, thorough=5000, shards=3, weight=1),
    Sub("minimum", lambda: cases("minimum"), check_minimum, quick=120, thorough=2500, shards=2, weight=1),
    Sub("hyper", lambda: cases("hyper"), check_hyper, quick=60, thorough=1000, shards=3, weight=2),
]
