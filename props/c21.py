"""C21: predictions of the supervised learners."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from GPSKet.supervised.supervised_qgps import QGPSGenLinMod, QGPSLearningExp, QGPSLogSpaceFit
from lib import specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (learner class, parameter shape and type, bias, pool of configuration sets with or without symmetry images, history of "
    "predictions, reference-site changes, parameter assignments, fits and in-place changes of the arrays handed over). One comparison per prediction "
    "or error; non-trivial: made after an earlier prediction or fit whose cached products could be reused."
)
ASSUMPTIONS = [
    "float64 or complex128 parameters, configurations given as indices of local states; single MPI process",
    "the parameters and bias the learner reports are the model it predicts with",
]
CLASSES = {"exp": QGPSLearningExp, "log": QGPSLogSpaceFit, "glm": QGPSGenLinMod}


@st.composite
def cases(draw):
    c = {"cls": draw(st.sampled_from(["exp", "exp", "log", "glm"])), "L": draw(st.integers(1, 5)), "M": draw(st.integers(1, 3)),
         "D": draw(st.integers(2, 4)), "complex": draw(st.booleans()), "bias": draw(st.booleans()), "zeros": draw(st.sampled_from([0.0, 0.0, 0.15, 0.5])),
         "tiny": draw(st.booleans())}
    c["expand"] = c["complex"] and draw(st.booleans())
    if c["cls"] == "glm" and c["complex"]:
        c["expand"] = True
    c["sets"] = [{"n": draw(st.integers(1, 9)), "sym": draw(st.sampled_from([0, 0, 1, 2, 3]))} for _ in range(2)]
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        k = draw(st.sampled_from(["predict", "predict", "predict", "predict", "refs", "refs", "refs", "fit", "fit", "epsilon", "confs", "error", "refs_inplace"]))
        o = {"op": k, "set": draw(st.integers(0, 1))}
        if k in ("refs", "fit"):
            o["refs"] = draw(st.one_of(st.integers(0, c["L"] - 1), st.lists(st.integers(0, c["L"] - 1), min_size=c["M"], max_size=c["M"])))
        if k == "fit":
            o["alpha"] = draw(st.booleans())
            o["prior"] = draw(st.sampled_from([0.0, 0.0, 1.0]))
        ops.append(o)
    c["ops"] = ops
    c["seed"] = draw(specs.seeds)
    return c


def exact(eps, bias, confs, log):
    if confs.ndim == 2:
        confs = confs[..., None]
    out = np.zeros(len(confs), dtype=complex)
    for i, x in enumerate(confs):
        for k in range(x.shape[1]):
            for m in range(eps.shape[1]):
                out[i] += np.prod([eps[x[j, k], m, j] for j in range(x.shape[0])])
    out = out + bias
    return out if log else np.exp(out)


def size_of(eps, confs):
    if confs.ndim == 2:
        confs = confs[..., None]
    return max(sum(np.prod([abs(eps[x[j, k], m, j]) for j in range(x.shape[0])]) for k in range(x.shape[1]) for m in range(eps.shape[1])) for x in confs)


def make(case, eps):
    kw = {"include_bias": case["bias"]}
    if case["cls"] != "glm":
        kw["complex_expand"] = case["expand"]
    return CLASSES[case["cls"]](eps, **kw)


def check(case, rec):
    r = rng_of(case)
    D, M, L = case["D"], case["M"], case["L"]

    def params():
        e = r.normal(size=(D, M, L))
        if case["complex"]:
            e = e + 1j * r.normal(size=e.shape)
        e = e * 0.9
        e[r.random(e.shape) < case["zeros"]] = 0
        if case["tiny"]:
            e[r.random(e.shape) < 0.1] *= 1e-12
        return e

    def confset(s):
        shape = (s["n"], L) if s["sym"] == 0 else (s["n"], L, s["sym"])
        return r.integers(0, D, size=shape).astype([np.int64, np.uint8][int(r.integers(2))])

    sets = [confset(s) for s in case["sets"]]
    eps0 = params()
    q = make(case, eps0)
    eps0[:] = 7.0  # the learner keeps its own parameters
    used, refs_array = False, None
    log = case["cls"] == "log"
    for k, o in enumerate(case["ops"]):
        X = sets[o["set"]]
        what = f"operation {k} ({o['op']})"
        if o["op"] == "refs":
            refs_array = o["refs"] if isinstance(o["refs"], int) else np.array(o["refs"])
            q.ref_sites = refs_array
        elif o["op"] == "refs_inplace":
            if isinstance(refs_array, np.ndarray):
                refs_array[:] = r.integers(0, L, size=M)
                q.ref_sites = refs_array
        elif o["op"] == "epsilon":
            e = params()
            q.epsilon = e
            require(np.array_equal(q.epsilon, e), f"{what}: assigned parameters are not kept")
            e[:] = 3.0
        elif o["op"] == "confs":
            X[:] = r.integers(0, D, size=X.shape)
        elif o["op"] == "fit":
            amps = np.exp(0.3 * r.normal(size=len(X)) + (0.3j * r.normal(size=len(X)) if case["complex"] else 0))
            if log:
                amps = np.log(amps)
            refs_array = o["refs"] if isinstance(o["refs"], int) else np.array(o["refs"])
            before = np.array(q.epsilon)
            X0, amps0 = X.copy(), amps.copy()
            kw = {"opt_alpha": o["alpha"], "prior_mean": o["prior"]}
            kw["max_alpha_iterations" if case["cls"] == "exp" else "max_alpha_beta_iterations"] = 2
            kw["opt_beta" if case["cls"] == "glm" else "opt_noise"] = False
            with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                q.fit_step(X, amps, refs_array, **kw)
            require(np.array_equal(X, X0) and np.array_equal(amps, amps0), f"{what}: the data handed over were modified")
            refs = np.broadcast_to(refs_array, (M,))
            keep = np.ones((D, M, L), bool)
            for m in range(M):
                keep[:, m, refs[m]] = False
            require(np.array_equal(np.array(q.epsilon)[keep], before[keep]), f"{what}: a fit at reference sites {refs.tolist()} changed parameters of other sites")
            used = True
        if o["op"] in ("predict", "error", "fit", "confs"):
            eps, bias = np.array(q.epsilon), np.array(q.bias)
            require(eps.shape == (D, M, L), f"{what}: parameters of shape {eps.shape}")
            if not np.all(np.isfinite(eps)) or not np.all(np.isfinite(bias)):
                rec.label("stopped: diverged fit")
                return
            size = size_of(eps, X) + np.abs(bias).max()
            if size > 50:
                continue
            want = exact(eps, bias[0] if case["bias"] else 0.0, X, log)
            tol = 1e-9 * (1 + size) * (1.0 if log else 1 + np.abs(want).max())
            if o["op"] == "error":
                y = r.normal(size=len(X)) * (1 + 0j if case["complex"] else 1)
                w = r.random(len(X)) if r.integers(2) else None
                e2 = np.abs(want - y) ** 2
                close(q.squared_error(X, y, w), np.sum(e2 if w is None else w * e2), f"{what}: squared error", rtol=1e-8, atol=tol * (1 + np.abs(want).max()))
                if not log and np.all(np.abs(np.angle(want)) < 3.14) and np.abs(want).min() > 1e-20:
                    y = np.exp(r.normal(size=len(X)) + (1j * r.uniform(-1.5, 1.5, size=len(X)) if case["complex"] else 0))
                    e2 = np.abs(np.log(want) - np.log(y)) ** 2
                    close(q.squared_error_log_space(X, y, w), np.sum(e2 if w is None else w * e2), f"{what}: squared error of the logarithms",
                          rtol=1e-8, atol=1e-9 * (1 + size) ** 2)
            else:
                got = q.predict(X)
                require(got.shape == (len(X),), f"{what}: predictions of shape {got.shape} for {len(X)} configurations")
                close(got, want if case["complex"] else want.real, f"{what}: predicted amplitudes", rtol=1e-8, atol=tol)
            rec.add(1, [k], nontrivial=used)
            used = True
    rec.label(case["cls"], "complex" if case["complex"] else "real", "bias" if case["bias"] else "no bias")
    rec.sample({"case": case})


SUBS = [Sub("history", lambda: cases(), check, quick=300, thorough=6000, shards=8, weight=1)]
