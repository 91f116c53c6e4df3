"""C20: imaginary time steps."""
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.operator.hamiltonian.ab_initio import AbInitioHamiltonianOnTheFly
from GPSKet.operator.hamiltonian.ab_initio_sparse import AbInitioHamiltonianSparse
from GPSKet.supervised.imag_time_step import ImagTimeStep, get_imag_time_step_vstate
from lib import fermi, mc, models, specs, stat
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, model, list of time steps with their on-the-fly Hamiltonians, chunk size, parameter changes). One comparison per set of "
    "amplitudes, energy or histogram; non-trivial: at least three configurations with amplitudes and a step that changes their ratios."
)
ASSUMPTIONS = [
    "Hamiltonians with on-the-fly local energies, as the function documents; non-zero propagation times",
    "configurations whose amplitude (of any intermediate state) is below 1e-6 of the largest term are not compared: the local energy is ill-conditioned there",
    "amplitudes from full evaluations of the model, exact Hamiltonian matrices over the enumerated space",
    "statistical decisions with false-alarm probability below 1e-9 per test",
]
TAUS = [0.1, 0.02, 0.5, 2.0, 0.3, 1.1]


@st.composite
def cases(draw, deep=0, small=False):
    c = draw(mc.states(ar=False))
    if deep or small:  # nested evaluations: light models over small spaces
        sp = draw(specs.fermi_space(2, 3, max_states=12)) if c["spec"]["space"]["kind"] == "fermi" else draw(specs.spin_space(3, 4))
        c["spec"] = {"type": "qGPS", "space": sp, "M": c["spec"]["M"], "dtype": c["spec"]["dtype"], "sym": "none",
                     **({"fast": c["spec"]["fast"]} if "fast" in c["spec"] else {})}
        c["sampler"] = "exact"
        c["chains"] = 1
    if c["sampler"] == "fasthop":
        c["sampler"] = "hop"
    c["steps"] = []
    fermi_ = c["spec"]["space"]["kind"] == "fermi"
    for _ in range(deep if deep else 1):
        o = draw(mc.operators())
        o["fly"] = True
        if fermi_ and draw(st.integers(0, 3)) == 0 and not deep and not small:
            o["abinitio"] = draw(st.sampled_from(["dense", "sparse"]))
        tau = draw(st.sampled_from(TAUS))
        c["steps"].append({"tau": tau if draw(st.integers(0, 3)) else -tau, "op": o})
    c["n"] = c["chains"] * draw(st.integers(1, 6))
    c["chunk"] = draw(st.sampled_from([None, None, 1, c["chains"], c["n"]]))
    c["seed"] = draw(specs.seeds)
    return c


def hamiltonian(case, o, r):
    sp = case["spec"]["space"]
    if "abinitio" not in o:
        return mc.operator({**case, "op": o})
    h, eri = fermi.random_integrals(r, sp["L"])
    cls = AbInitioHamiltonianOnTheFly if o["abinitio"] == "dense" else AbInitioHamiltonianSparse
    return cls(models.space(sp), h, eri), fermi.molecular_hamiltonian(models.all_configs(sp), h, eri)


def compare(got_logs, psi, terms, ok, what):
    """exp(got) equals psi (up to rounding of the terms summed) on the rows ok."""
    got = np.exp(np.asarray(got_logs).astype(complex))
    bad = ok & ~(np.abs(got - psi) <= 1e-7 * terms + 1e-6 * np.abs(psi))
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        require(False, f"{what}: amplitude {got[k]} instead of {psi[k]} (configuration {k})")


def check(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    v = models.random_variables(spec, r, spread=0.6)
    basis = models.all_configs(sp)
    logs = np.asarray(models.f_full(models.build(spec))(v, basis)).astype(complex)
    if not np.isfinite(logs.real).any() or np.nanmax(np.where(np.isfinite(logs.real), logs.real, np.nan)) > 300:
        rec.label("skipped: overflowing or vanishing amplitudes")
        return
    X = jnp.asarray(basis)
    vs = nk.vqs.MCState(mc.sampler(case), models.build(spec), n_samples=case["n"], seed=case["seed"], variables=v, n_discard_per_chain=1)
    if case["chunk"]:
        vs.chunk_size = case["chunk"]
    before = np.asarray(vs.samples).copy()
    base = vs
    n = len(basis)

    def evolve(start):
        """Amplitudes, error scales and comparable rows after each step."""
        psi, ok, out = np.exp(start), np.ones(n, bool), []
        for (op, H), s in zip(ops, case["steps"]):
            terms = np.abs(psi) + abs(s["tau"]) * (np.abs(H) @ np.abs(psi))
            ok = ok & (np.abs(psi) > 1e-6 * terms)
            # the local energies of a configuration involve its neighbours: they must be comparable too
            reach = (np.abs(H) > 0) | np.eye(n, dtype=bool)
            new = psi - s["tau"] * (H @ psi)
            out.append((psi, new, terms, ok.copy()))
            ok = np.array([ok[reach[k]].all() for k in range(n)])
            psi = new
        return out

    ops = [hamiltonian(case, s["op"], r) for s in case["steps"]]
    exact = evolve(logs)
    chain = [vs]
    for (op, H), s in zip(ops, case["steps"]):
        chain.append(get_imag_time_step_vstate(s["tau"], op, chain[-1]))
    for k, (psi, new, terms, ok) in enumerate(exact):
        compare(chain[k + 1].log_value(X), new, terms, ok, f"state after {k + 1} imaginary time steps")
        rec.add(1, ["state", k], nontrivial=int(ok.sum()) >= 3 and np.abs(new - psi)[ok].max(initial=0) > 1e-6 * np.abs(psi).max())
        # the one-off evaluation, on the state of the step before
        st_ = ImagTimeStep(chain[k], ops[k][0])
        m = (len(basis) // (case["chunk"] or 1)) * (case["chunk"] or 1)
        if m and np.abs(psi).min() > 0:
            got = st_.log_imag_time_step(case["steps"][k]["tau"], X[:m])
            compare(got, new[:m], terms[:m], ok[:m], f"time step {k + 1} evaluated for given samples")
            rec.add(1, ["samples", k], nontrivial=int(ok[:m].sum()) >= 3)
    # the original state is as it was
    require(np.array_equal(np.asarray(vs.samples), before), "the samples of the original state changed")
    got = np.asarray(base.log_value(X)).astype(complex)
    require(np.array_equal(np.nan_to_num(got), np.nan_to_num(np.asarray(base.log_value(X)).astype(complex))), "log_value is not deterministic")
    fin = np.isfinite(logs.real)
    close(np.exp(got[fin]), np.exp(logs[fin]), "the original state after the step", rtol=1e-9, atol=1e-12)
    # parameters: independent of the original state, and they matter
    v2 = models.random_variables(spec, r, spread=0.6)
    logs2 = np.asarray(models.f_full(models.build(spec))(v2, basis)).astype(complex)
    last = chain[-1]
    if np.isfinite(logs2.real).all() and logs2.real.max() < 300:
        vs.parameters = v2["params"]
        psi, new, terms, ok = exact[-1]
        compare(last.log_value(X), new, terms, ok, "evolved state after changing the parameters of the original")
        last.parameters = v2["params"]
        if set(v) == {"params"}:
            psi, new, terms, ok = evolve(logs2)[-1]
            compare(last.log_value(X), new, terms, ok, "evolved state after changing its parameters")
            rec.add(1, ["params"], nontrivial=int(ok.sum()) >= 3)
        compare(vs.log_value(X), np.exp(logs2), np.exp(logs2.real), np.ones(n, bool), "original state after changing its parameters")
    rec.label(spec["type"], spec["dtype"], "fast" if spec.get("fast") else "full", f"{len(case['steps'])} steps", "chunked" if case["chunk"] else "unchunked",
              case["steps"][0]["op"].get("abinitio", sp["kind"]))
    rec.sample({"case": case})


def check_mc(case, rec):
    """The evolved state as a Monte Carlo state: samples and energies."""
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    v = models.random_variables(spec, r, spread=0.5)
    basis = models.all_configs(sp)
    logs = np.asarray(models.f_full(models.build(spec))(v, basis)).astype(complex)
    n = len(basis)
    s = case["steps"][0]
    op, H = hamiltonian(case, s["op"], r)
    psi = np.exp(logs - logs.real.max())
    new = psi - s["tau"] * (H @ psi)
    terms = np.abs(psi) + abs(s["tau"]) * (np.abs(H) @ np.abs(psi))
    if np.abs(psi).min() < 1e-6 or (np.abs(new) < 1e-4 * terms).any() or n < 3:
        rec.label("skipped: vanishing amplitudes")
        return
    N = 800
    kw = {"dtype": jnp.uint8 if sp["kind"] == "fermi" else jnp.int8}
    vs = nk.vqs.MCState(nk.sampler.ExactSampler(models.space(sp), **kw), models.build(spec), n_samples=N, seed=case["seed"], variables=v)
    vs.samples
    ev = get_imag_time_step_vstate(s["tau"], op, vs)
    x = np.asarray(ev.samples).reshape(-1, sp["L"])
    index = {tuple(int(a) for a in b): k for k, b in enumerate(basis)}
    rows = np.array([index[tuple(int(a) for a in b)] for b in x])
    bad, msg = stat.chi2_bad(np.bincount(rows, minlength=n), np.abs(new) ** 2 / np.sum(np.abs(new) ** 2))
    require(not bad, f"samples of the evolved state do not follow |(1 - tau H) psi|^2: {msg}")
    rec.add(1, ["law"], nontrivial=True)
    # energies of the evolved state over its own samples
    op2, H2 = mc.operator({**case, "op": {"fly": True, "U": 1.7, "t": 0.6}})
    e = (H2 @ new) / new
    sc = ((np.abs(H2) @ np.abs(new)) / np.abs(new)).max()
    stats = ev.expect(op2)
    close(stats.mean, e[rows].mean(), "energy of the evolved state", rtol=1e-7, atol=1e-7 * sc)
    rec.add(1, ["energy"], nontrivial=True)
    rec.label("Monte Carlo", spec["type"], spec["dtype"])
    rec.sample({"case": case})


SUBS = [
    Sub("steps", lambda: cases(), check, quick=4, thorough=250, shards=4, weight=2),
    Sub("nested", lambda: cases(2), check, quick=3, thorough=200, shards=3, weight=3),
    Sub("thrice", lambda: cases(3), check, quick=1, thorough=30, shards=1, weight=3),  # compilation takes minutes
    Sub("montecarlo", lambda: cases(small=True), check_mc, quick=3, thorough=150, shards=2, weight=3),
]
