"""C16: the SR driver with RMSProp regularisation."""
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.driver import VMC_SRRMSProp
from lib import mc, models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, model, sampler, operator, driver settings, number of steps). Each optimisation step is one comparison of the "
    "parameter change and the reported energy with the linear system built from the recorded samples; non-trivial: at least "
    "three distinct samples and a gradient above 1e-6."
)
ASSUMPTIONS = [
    "samples are those the state's own sample() returned during the step (recorded by a subclass)",
    "log-derivatives by automatic differentiation of full evaluations, local energies from exact Hamiltonian matrices",
    "parameters all real or all complex; 'complex' mode for complex-valued models, 'real' mode for real parameters; single MPI process",
    "the update is decided by the residual of the linear system (the solver is an exact dense one; a share of cases uses the default)",
]


@st.composite
def cases(draw):
    c = draw(mc.states(ar=False))
    s = c["spec"]
    c["n"] = c["chains"] * draw(st.integers(2, 12))
    c["op"] = draw(mc.operators())
    real_out = s["type"] == "qGPS" and s["dtype"] == "real"
    if real_out:
        c["mode"] = draw(st.sampled_from([None, "real"]))
    elif s["dtype"] == "real":
        c["mode"] = draw(st.sampled_from([None, "complex", "real"]))
    else:
        c["mode"] = draw(st.sampled_from([None, "complex"]))
    c["shift"] = draw(st.sampled_from([0.01, 0.1, 1.0]))
    c["schedule"] = draw(st.booleans())
    c["decay"] = draw(st.sampled_from([0.9, 0.5, 0.99, 0.0]))
    c["eps"] = draw(st.sampled_from([1e-8, 1e-2, 5.0]))
    c["scale"] = draw(st.sampled_from([0.0, 0.0, 3.0]))
    c["lr"] = draw(st.sampled_from([0.02, 0.1]))
    c["steps"] = draw(st.integers(1, 4))
    c["chunk"] = draw(st.sampled_from([None, None, c["chains"], c["n"]]))
    c["solver"] = draw(st.sampled_from(["exact", "exact", "exact", "default"]))
    c["seed"] = draw(specs.seeds)
    return c


def check(case, rec):
    spec = case["spec"]
    r = rng_of(case)
    v = models.random_variables(spec, r, spread=0.5)
    op, H = mc.operator(case)
    vs = mc.RecordedMCState(mc.sampler(case), models.build(spec), n_samples=case["n"], seed=case["seed"], variables=v, n_discard_per_chain=1)
    if case["chunk"]:
        vs.chunk_size = case["chunk"]
    shift = (lambda t: case["shift"] / (1 + t)) if case["schedule"] else case["shift"]
    kw = {} if case["solver"] == "default" else {"linear_solver_fn": lambda A, b: jnp.linalg.solve(A, b)}
    drv = VMC_SRRMSProp(op, nk.optimizer.Sgd(case["lr"]), diag_shift=shift, decay=case["decay"], eps=case["eps"],
                        initial_scale=case["scale"], jacobian_mode=case["mode"], variational_state=vs, **kw)
    cplx_out = not (spec["type"] == "qGPS" and spec["dtype"] == "real")
    mode = case["mode"] or ("complex" if cplx_out else "real")
    require(drv.jacobian_mode == mode, f"jacobian mode {drv.jacobian_mode} instead of {mode}")
    ema = None
    for t in range(case["steps"]):
        p0 = mc.split_vector(vs.parameters)
        var = {**v, "params": vs.parameters}
        ref = mc.Reference(spec, var, H)
        vs.__dict__["drawn"] = []
        drv.advance(1)
        drawn = vs.__dict__["drawn"]
        require(len(drawn) == 1, f"step {t}: {len(drawn)} batches of samples drawn")
        rows = ref.rows(drawn[0])
        n = len(rows)
        e = ref.eloc[rows]
        esc = 1 + np.abs(e).max()
        if not np.all(np.isfinite(e)) or esc > 1e6:
            rec.label("stopped: diverged")
            return
        close(drv.energy.mean, e.mean(), f"step {t}: reported energy", rtol=1e-8, atol=1e-8 * esc)
        O = ref.split_jacobian(real=mode == "real")[rows]
        Oc = O - O.mean(0)
        ec = e - e.mean() if mode == "complex" else (e - e.mean()).real
        # both sides carry the driver's normalisation: log-derivatives and energies times sqrt(n)
        g = 2 * n * np.real(Oc.conj().T @ ec)
        S = n * np.real(Oc.conj().T @ Oc)
        ema = case["decay"] * (np.full(g.shape, case["scale"]) if ema is None else ema) + (1 - case["decay"]) * g**2
        hat = ema / (1 - case["decay"] ** (t + 1))
        lam = case["shift"] / (1 + t) if case["schedule"] else case["shift"]
        A = S + lam * np.diag(np.sqrt(hat) + case["eps"])
        p1 = mc.split_vector(vs.parameters)
        dp = (p0 - p1) / case["lr"]
        require(bool(np.all(np.isfinite(dp))), f"step {t}: the update is not finite")
        res = A @ dp - g
        tol = 1e-7 if case["solver"] == "exact" else 1e-4
        bound = tol * (np.linalg.norm(g) + np.linalg.norm(A, 2) * np.linalg.norm(dp) * (1e-3 if case["solver"] == "exact" else 0)) + 1e-9
        if case["solver"] == "default" and np.linalg.cond(A) > 1e5:
            rec.label("default solver, ill-conditioned: not compared")
        else:
            require(np.linalg.norm(res) <= bound, f"step {t}: the update does not solve the regularised system: residual {np.linalg.norm(res):.3g}, "
                    f"right-hand side {np.linalg.norm(g):.3g}, allowed {bound:.3g}")
            rec.add(1, [t], nontrivial=len(set(rows)) >= 3 and np.linalg.norm(g) / n > 1e-6)
        # the comparison of later steps uses the parameters actually reached
        if np.abs(p1).max() > 20:
            rec.label("stopped: diverged")
            return
    require(drv.step_count == case["steps"], f"step count {drv.step_count} after {case['steps']} steps")
    rec.label(mode, case["solver"], spec["type"], spec["dtype"], case["sampler"])
    rec.sample({"case": case})


SUBS = [Sub("trajectory", lambda: cases(), check, quick=7, thorough=200, shards=8, weight=3)]
