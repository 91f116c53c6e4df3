"""C17: minSR updates coincide with stochastic reconfiguration."""
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.driver import minSRVMC
from GPSKet.vqs import MCStateUniqueSamples
from lib import mc, models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, model, sampler or unique-samples state, operator, solver, chunk size, number of steps). Each optimisation step "
    "is one comparison of the parameter change with the stochastic-reconfiguration step of the samples used; non-trivial: at "
    "least three distinct samples, more than one chain or unequal counts, and an update above 1e-8."
)
ASSUMPTIONS = [
    "real parameters with real amplitudes ('real' mode), or holomorphic complex models ('holomorphic' or 'complex' mode)",
    "log-derivatives by automatic differentiation of full evaluations, local energies from exact Hamiltonian matrices",
    "with the default pseudo-inverse, cases whose singular values leave its cutoff ambiguous are not compared",
]


class RecordedUnique(mc.Recorded, MCStateUniqueSamples):
    pass


@st.composite
def cases(draw):
    c = draw(mc.states(ar=False))
    s = c["spec"]
    if s["type"] == "Slater" and s["dtype"] == "real":
        s["dtype"] = "complex"
    if s["type"] == "CPDBackflow" and s["dtype"] == "real":
        s["dtype"] = "complex"
    n = models.n_configs(s["space"])
    c["unique"] = draw(st.booleans())
    c["n"] = c["chains"] * draw(st.sampled_from([4, 6, 3, 5, 2]))
    if c["unique"]:
        c["n"] = c["chains"] * max(1, min(c["n"], n) // c["chains"])
    c["op"] = draw(mc.operators())
    if s["dtype"] == "real":
        c["mode"] = draw(st.sampled_from([{}, {"mode": "real"}]))
    else:
        c["mode"] = draw(st.sampled_from([{}, {"mode": "complex"}, {"holomorphic": True}, {"mode": "holomorphic"}]))
    c["reg"] = draw(st.sampled_from([None, 0.01, 0.1, 1.0]))
    c["lr"] = draw(st.sampled_from([0.02, 0.1]))
    c["steps"] = draw(st.integers(1, 3))
    c["chunk"] = draw(st.sampled_from([None, c["chains"], 1, c["n"]]))
    c["seed"] = draw(specs.seeds)
    return c


def check(case, rec):
    spec = case["spec"]
    r = rng_of(case)
    v = models.random_variables(spec, r, spread=0.5)
    op, H = mc.operator(case)
    kw = {"n_samples": case["n"], "seed": case["seed"], "variables": v, "n_discard_per_chain": 1}
    if case["unique"]:
        vs = RecordedUnique(mc.sampler(case), models.build(spec), max_sampling_steps=3, **kw)
    else:
        vs = mc.RecordedMCState(mc.sampler(case), models.build(spec), **kw)
    if case["chunk"]:
        vs.chunk_size = case["chunk"]
    skw = {}
    lam = case["reg"]
    if lam is not None:
        skw["solver"] = lambda A, b: jnp.linalg.solve(A + lam * jnp.eye(len(A)), b)
    drv = minSRVMC(op, nk.optimizer.Sgd(case["lr"]), variational_state=vs, **case["mode"], **skw)
    for t in range(case["steps"]):
        p0 = mc.flat_vector(vs.parameters)
        ref = mc.Reference(spec, {**v, "params": vs.parameters}, H)
        vs.__dict__["drawn"] = []
        drv.advance(1)
        if case["unique"]:
            # the state has been reset by the new parameters: recount what was drawn
            from props.c15 import expected
            counts, _ = expected(vs.__dict__["drawn"], case["n"], 3)
            rows = np.array([ref.index[x] for x in counts])
            w = np.array(list(counts.values()), dtype=float)
            w /= w.sum()
        else:
            require(len(vs.__dict__["drawn"]) == 1, f"step {t}: {len(vs.__dict__['drawn'])} batches of samples drawn")
            rows = ref.rows(vs.__dict__["drawn"][0])
            w = np.full(len(rows), 1 / len(rows))
        e = ref.eloc[rows]
        esc = 1 + np.abs(e).max()
        if not np.all(np.isfinite(e)) or esc > 1e6:
            rec.label("stopped: diverged")
            return
        mean = np.sum(w * e)
        close(drv.energy.mean, mean, f"step {t}: reported energy", rtol=1e-8, atol=1e-8 * esc)
        close(drv.energy.variance, np.sum(w * np.abs(e - mean) ** 2), f"step {t}: reported variance", rtol=1e-7, atol=1e-7 * esc**2)
        O = ref.split_jacobian().real if spec["dtype"] == "real" else ref.holomorphic_jacobian()
        O = O[rows]
        X = np.sqrt(w)[:, None] * (O - w @ O)
        y = np.sqrt(w) * (e - mean)
        if spec["dtype"] == "real":
            y = y.real
        factor = 1.0
        if spec["dtype"] != "real" and drv.mode == "complex":
            # the split parameters (re, im) double the kernel: the same step for the pseudo-inverse, the regulariser is halved
            factor = 2.0
        if lam is None:
            sv = np.linalg.svd(X, compute_uv=False) ** 2
            top = sv.max() if len(sv) else 0.0
            if top < 1e-12 or np.any((sv > 1e-15 * top) & (sv < 1e-8 * top)):
                rec.label("ambiguous pseudo-inverse: not compared")
                compared = False
            else:
                want = np.linalg.pinv(X, rcond=1e-6) @ y
                compared = True
        else:
            S = X.conj().T @ X + lam / factor * np.eye(X.shape[1])
            want = np.linalg.solve(S, X.conj().T @ y)
            compared = True
        p1 = mc.flat_vector(vs.parameters)
        if compared:
            close((p0 - p1) / case["lr"], want, f"step {t}: update", rtol=1e-5, atol=1e-6 * (1 + np.abs(want).max()))
            rec.add(1, [t], nontrivial=len(set(rows)) >= 3 and (np.ptp(w) > 0 or case["chains"] > 1) and np.abs(want).max() > 1e-8)
        if np.abs(p1).max() > 20 or not np.all(np.isfinite(p1)):
            rec.label("stopped: diverged")
            return
    rec.label(drv.mode, "pseudo-inverse" if lam is None else "regularised", "unique" if case["unique"] else "plain", spec["type"])
    rec.sample({"case": case})


SUBS = [Sub("trajectory", lambda: cases(), check, quick=7, thorough=200, shards=8, weight=3)]
