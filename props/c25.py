"""C25: expectation values over ordinary samples, and stratified sampling."""
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.vqs import MCStateStratifiedSampling
from lib import mc, models, specs, stat
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, model, sampler, operator, sizes, chunk size / deterministic set and options). One comparison per "
    "expectation value or set of weights; non-trivial: at least three distinct samples carry weight. The law of the complement "
    "samples is one chi-square comparison per case, non-trivial if the complement has at least three members."
)
ASSUMPTIONS = [
    "local energies: exact Hubbard / Heisenberg matrices and the model's amplitudes of full configurations",
    "stratified states use hopping or exchange Metropolis samplers on small spaces, single MPI process",
    "statistical decisions with false-alarm probability below 1e-9 per test",
]


# ------------------------------------------------------------------ plain expectation values


@st.composite
def plain_cases(draw):
    c = draw(mc.states())
    c["n"] = c["chains"] * draw(st.integers(2, 8))
    c["op"] = draw(mc.operators())
    c["chunks"] = sorted({draw(st.sampled_from([0, 1, c["chains"], c["n"], c["n"] // 2])) for _ in range(2)})
    c["given"] = draw(st.booleans())
    c["seed"] = draw(specs.seeds)
    return c


def check_plain(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    v = models.random_variables(spec, r)
    op, H = mc.operator(case)
    ref = mc.Reference(spec, v, H)
    vs = nk.vqs.MCState(mc.sampler(case), models.build(spec), n_samples=case["n"], seed=case["seed"], variables=v, n_discard_per_chain=0)
    if case["given"]:
        ok = np.abs(ref.psi) > 1e-6
        k = r.choice(np.flatnonzero(ok), size=case["n"])
        vs._samples = jnp.asarray(mc.part(ref.basis[k].reshape(case["chains"], -1, sp["L"])))
    s = np.asarray(vs.samples)
    rows = ref.rows(s)
    e = ref.eloc[rows]
    scale = 1 + np.abs(e).max()
    want = nk.stats.statistics(jnp.asarray(e.reshape(s.shape[0], -1)))  # averages over processes itself
    for c in case["chunks"]:
        if c and case["n"] % c:
            continue
        vs.chunk_size = c or None
        got = vs.expect(op)
        require(np.array_equal(np.asarray(vs.samples), s), "computing an expectation value changes the samples")
        close(got.mean, want.mean, f"mean over the samples, chunk size {c}", rtol=1e-8, atol=1e-8 * scale)
        close(got.variance, want.variance, f"variance over the samples, chunk size {c}", rtol=1e-7, atol=1e-7 * scale**2)
        for f in ("error_of_mean", "R_hat"):
            a, b = complex(getattr(got, f)), complex(getattr(want, f))
            require((np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-5 * scale + 1e-5 * abs(b) or float(want.variance) < 1e-10 * scale**2,
                    f"{f} of the samples, chunk size {c}: {a} instead of {b}")
        rec.add(1, [c], nontrivial=len(set(rows)) >= 3)
    rec.label(case["sampler"], spec["type"], "fly" if case["op"]["fly"] else "matrix elements")
    rec.sample({"case": case, "mean": complex(want.mean)})


# ------------------------------------------------------------------ stratified sampling


@st.composite
def strat_cases(draw, law=False):
    dt = {"dtype": draw(specs.dtypes)}
    if draw(st.integers(0, 2)):
        sp = draw(specs.fermi_space(3, 4, max_states=40 if not law else 20))
        name = "hop"
    else:
        sp = {"kind": "spin", "L": 4, "sz": 0}
        name = "exchange"
    n = models.n_configs(sp)
    c = {"spec": {"type": "qGPS", "space": sp, "M": draw(st.integers(1, 2)), **dt}, "sampler": name,
         "det": draw(st.integers(1, max(1, n - 2))), "chains": draw(st.sampled_from([1, 2, 4])), "sweep": draw(st.sampled_from([1, 2, 3])),
         "norm": draw(st.sampled_from(["random", "random", "samples", "none"])), "op": draw(mc.operators()), "seed": draw(specs.seeds)}
    if c["norm"] == "none":  # for normalised wavefunctions
        c["spec"] = {"type": "ARqGPS", "space": sp, "M": c["spec"]["M"], "pow": 2, **dt}
    c["length"] = draw(st.integers(1, 4))
    c["discard"] = draw(st.integers(0, 2))
    c["n_rand"] = draw(st.sampled_from([None, 400, 401]))
    if law:
        c["det"] = draw(st.integers(1, max(1, n // 2)))
        c["spec"] = {"type": "qGPS", "space": sp, "M": draw(st.integers(1, 2)), **dt}
        c["norm"], c["chains"], c["length"] = "samples", 100, 1
    return c


def build(case, v, ref, det, discard):
    spec, sp = case["spec"], case["spec"]["space"]
    kw = {}
    if case["norm"] == "samples":
        kw["rand_norm"] = False
    elif case["norm"] == "none":
        kw["renormalize"] = False
    elif case["n_rand"] is not None:
        kw["number_random_samples"] = case["n_rand"]
    return MCStateStratifiedSampling(jnp.asarray(ref.basis[det]), len(ref.basis), mc.sampler(case), models.build(spec), variables=v,
                                     n_samples=case["chains"] * case["length"], n_discard_per_chain=discard, seed=case["seed"], **kw)


def setup(case):
    spec = case["spec"]
    r = rng_of(case)
    v = models.random_variables(spec, r)
    op, H = mc.operator(case)
    ref = mc.Reference(spec, v, H)
    return r, v, op, ref


def check_weights(case, rec):
    r, v, op, ref = setup(case)
    sp = case["spec"]["space"]
    n = len(ref.basis)
    if n < 3:
        rec.label("skipped: tiny space")
        return
    p = np.exp(2 * ref.logs.real)
    det = r.permutation(n)[: case["det"]]
    vs = build(case, v, ref, det, case["discard"])
    stats = vs.expect(op)
    for again in (False, True):
        s, w = (mc.gather(a) for a in vs.samples_with_counts)
        rows = ref.rows(s)
        nd, ns = len(det), case["chains"] * case["length"]
        require(len(s) == len(w) == nd + ns, f"{len(s)} samples, {len(w)} weights for a deterministic set of {nd} and {ns} samples")
        # the deterministic set, each once; all others from the complement
        d = set(int(a) for a in det)
        isdet = np.array([a in d for a in rows])
        require(sorted(rows[isdet]) == sorted(d), "the deterministic set is not listed exactly once among the samples")
        ws = w[~isdet]
        close(ws, np.full(ns, ws[0]), "weights of the sampled configurations differ", rtol=1e-9, atol=1e-12)
        close(w.sum(), 1.0, "weights do not sum to one", rtol=1e-9, atol=1e-9)
        wd, pd = w[isdet], p[rows[isdet]]
        comp = np.array([a for a in range(n) if a not in d])
        if case["norm"] == "none":
            Z = 1.0
        elif case["norm"] == "samples":
            with np.errstate(divide="ignore"):
                Z = p[det].sum() + len(comp) / np.mean(1 / p[rows[~isdet]])
        else:
            k = int(np.argmax(pd))
            Z = pd[k] / wd[k]
            zc, pc = Z - p[det].sum(), p[comp]
            tol = 1e-7 * Z
            require(len(comp) * pc.min() - tol <= zc <= len(comp) * pc.max() + tol, "norm estimate outside what the complement allows")
            m = case["n_rand"] or ns
            if m >= 400:
                bound = len(comp) * np.ptp(pc) * np.sqrt(np.log(2 / 1e-11) / (2 * m))
                require(abs(zc - pc.sum()) <= bound + tol, f"norm of the complement estimated as {zc}, exact {pc.sum()}, "
                        f"allowed deviation {bound}")
        close(wd, pd / Z, "weights of the deterministic set", rtol=1e-6, atol=1e-9)
        e = ref.eloc[rows]
        use = w > 0
        mean = np.sum((w * e)[use])
        if not again:
            scale = 1 + np.abs(e[use]).max()
            close(stats.mean, mean, "mean energy", rtol=1e-8, atol=1e-8 * scale)
            before = s, w
        else:
            require(np.array_equal(before[0], s) and np.array_equal(before[1], w), "samples change without a reset")
        rec.add(1, [again], nontrivial=len(set(rows)) >= 3)
    vs.reset()
    vs.samples_with_counts
    rec.label(case["norm"], case["sampler"])
    rec.sample({"case": case, "mean": complex(mean)})


def check_law(case, rec):
    r, v, op, ref = setup(case)
    sp = case["spec"]["space"]
    n, L = len(ref.basis), sp["L"]
    if n < 4:
        rec.label("skipped: tiny space")
        return
    det = r.permutation(n)[: case["det"]]
    logs = ref.logs.real
    # Metropolis transition with proposals of the sampler; moves into the deterministic set are rejected
    Q = np.zeros((n, n))
    if case["sampler"] == "hop":
        from props.c13 import hop_law
        for k, x in enumerate(ref.basis):
            for y, q in hop_law(x.astype(int), 1.0, None).items():
                Q[k, ref.index[y]] += q
    else:
        pairs = [(i, j) for i in range(L) for j in range(i)]
        for k, x in enumerate(ref.basis):
            for i, j in pairs:
                y = x.copy()
                y[i], y[j] = x[j], x[i]
                Q[k, ref.index[tuple(int(a) for a in y)]] += 1 / len(pairs)
    A = Q * np.exp(np.minimum(0, 2 * (logs[None] - logs[:, None])))
    A[:, det] = 0
    np.fill_diagonal(A, 0)
    P = A + np.diag(1 - A.sum(1))
    comp = np.array([a for a in range(n) if a not in set(det)])
    P = P[np.ix_(comp, comp)]
    # only where the chain forgets its start quickly (the start is the implementation's business)
    steps, M = 0, np.eye(len(comp))
    while steps < 60 and (steps < case["sweep"] or np.abs(M - M[:1]).sum(1).max() > 4e-3):
        M, steps = M @ P, steps + 1
    if steps >= 60 or len(comp) < 3:
        rec.label("skipped: slow mixing")
        return
    burn = int(np.ceil(steps / case["sweep"])) - 1
    vs = build(case, v, ref, det, burn)
    rows = []
    for _ in range(12):  # successive batches are independent up to the 0.4% the chain remembers
        s, w = vs.samples_with_counts
        rows += list(ref.rows(np.asarray(s)[len(det):]))
        vs.reset()
    pos = {int(a): k for k, a in enumerate(comp)}
    require(all(int(a) in pos for a in rows), "a sample of the complement lies in the deterministic set")
    counts = np.bincount([pos[int(a)] for a in rows], minlength=len(comp))
    law = np.exp(2 * (logs[comp] - logs[comp].max()))
    bad, text = stat.chi2_bad(counts, law / law.sum())
    require(not bad, f"samples of the complement do not follow the wavefunction restricted to it: {text}")
    rec.add(1, [0], nontrivial=len(comp) >= 3)
    rec.label(case["sampler"], f"{steps} steps")
    rec.sample({"case": case, "steps": steps, "counts": counts})


SUBS = [
    Sub("plain", lambda: plain_cases(), check_plain, quick=8, thorough=250, shards=4, weight=3),
    Sub("stratified", lambda: strat_cases(), check_weights, quick=9, thorough=250, shards=3, weight=2),
    Sub("complement-law", lambda: strat_cases(True), check_law, quick=4, thorough=80, shards=3, weight=4),
]
