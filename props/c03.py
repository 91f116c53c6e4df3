"""C03: on-the-fly fermionic local energies equal the definition <x|H|psi>/<x|psi>."""
import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.operator.hamiltonian import (
    AbInitioHamiltonianOnTheFly,
    AbInitioHamiltonianSparse,
    FermiHubbardOnTheFly,
)
from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly as dense_kernel
from GPSKet.sampler import MetropolisHopping
from lib import fermi, models, specs
from lib.core import Sub, close, require, rng_of
from props import c02

RULE = (
    "Case = (wavefunction model, parameters, Hamiltonian, chunk size). Every configuration with a "
    "well-conditioned amplitude is one comparison of the local energy; non-trivial: at least two connected "
    "off-diagonal elements contribute."
)
ASSUMPTIONS = [
    "amplitudes used by the reference are the model's own evaluations from scratch (their values are the subject of C08, C09, C11)",
    "one-body integrals real symmetric, two-body integrals real and 8-fold symmetric; edges join distinct sites",
    "configurations whose amplitude is below 1e-3 of the largest are not used as reference points",
]

seeds = st.integers(0, 2**31 - 1)


@st.composite
def sector(draw, hi=4):
    L = draw(st.sampled_from([hi, hi, hi, 3, 3, 2]))
    inner = [L // 2, L // 2, (L + 1) // 2, *range(1, L)]
    edge = draw(st.integers(0, 5))  # one case in three has an empty or full band
    ups = st.sampled_from(inner)
    ne = [draw(ups), draw(ups)]
    if edge < 2:
        ne[edge] = draw(st.sampled_from([0, 0, L]))
    return {"kind": "fermi", "L": L, "n_elec": ne}


@st.composite
def gps_model(draw):
    t = draw(st.sampled_from(["qGPS", "qGPS", "qGPS", "Plaquette", "SegGPS", "ARqGPS", "ARqGPSFull"]))
    sp = draw(sector())
    if t == "qGPS":
        s = draw(specs.qgps(space=st.just(sp), fast=draw(st.booleans())))
        big = draw(st.sampled_from([None, None, 800, -800]))
        return {**s, "big": big} if big else s
    if t == "Plaquette":
        return draw(specs.plaquette_gps(space=st.just(sp), fast=draw(st.booleans())))
    if t == "SegGPS":
        return {"type": t, "space": sp, "M": draw(st.integers(1, 2)), "dtype": draw(specs.dtypes)}
    return draw(specs.ar_model(types=(t,), space=st.just(sp), syms=False))


@st.composite
def det_model(draw):
    fast = draw(st.sampled_from([True, True, False]))
    which = draw(st.sampled_from(["slater", "slater", "product", "asymm", "backflow"]))
    f = {"slater": specs.slater, "product": specs.slater_product, "asymm": specs.asymm, "backflow": specs.backflow}
    return draw(f[which](fast=fast, max_states=40))


def cases(model_strategy, ops):
    @st.composite
    def strat(draw):
        spec = draw(model_strategy)
        L = spec["space"]["L"]
        op = draw(st.sampled_from(ops))
        pairs = [[i, j] for i in range(L) for j in range(L) if i != j]
        c = {"spec": spec, "op": op, "seed": draw(seeds),
             "chunk": draw(st.sampled_from([None, None, 1, 2, 4]))}
        if op == "hubbard":
            c["edges"] = draw(st.lists(st.sampled_from(pairs), min_size=0 if draw(st.integers(0, 7)) == 0 else 2, max_size=5))
            c["tform"] = draw(st.sampled_from(["scalar", "list"]))
        else:
            c["ints"] = draw(st.sampled_from(["generic", "generic", "sparse", "local"]))
            c["unit"] = draw(st.sampled_from([1.0, 1.0, 1e-9, 1e6]))
        return c

    return strat


def local_energies(vs, op, xs, chunk):
    vs._samples = jnp.asarray(xs).reshape(len(xs), 1, -1)
    vs.chunk_size = chunk
    out = vs.local_estimators(op)
    return np.asarray(out).reshape(-1)


def reference(H, basis, logs, rows):
    with np.errstate(all="ignore"):
        out = np.zeros(len(rows), dtype=complex)
        scale = np.zeros(len(rows))
        for k, r in enumerate(rows):
            ratio = np.where(np.isfinite(logs.real), np.exp(np.where(np.isfinite(logs.real), logs, 0) - logs[r]), 0.0)
            out[k] = np.sum(H[r] * ratio)
            scale[k] = np.sum(np.abs(H[r] * ratio))
    return out, scale


def make_state(spec, v):
    m = models.build(spec)
    h = models.space(spec["space"])
    sa = nk.sampler.ExactSampler(h)
    return nk.vqs.MCState(sa, m, n_samples=16, variables=v)


def check(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    L, ne = sp["L"], tuple(sp["n_elec"])
    r = rng_of(case)
    v = models.random_variables(spec, r)
    m = models.build(spec)
    basis = models.all_configs(sp)
    logs = np.asarray(models.f_full(m)(v, basis)).astype(complex)
    fin = np.isfinite(logs.real)
    if not fin.any():
        rec.label("skipped: all amplitudes vanish")
        return
    rows = np.nonzero(fin & (logs.real > logs.real[fin].max() - 6.9))[0]
    rows = r.permutation(rows)[:10]
    xs = basis[rows]
    hilb = models.space(sp)
    unit = 1.0
    if case["op"] == "hubbard":
        edges = [tuple(e) for e in case["edges"]]
        ts = [float(a) for a in r.normal(size=len(edges))] if case["tform"] == "list" else [0.8] * len(edges)
        U = float(r.normal() * 3)
        op = FermiHubbardOnTheFly(hilb, edges, U=U, t=list(ts) if case["tform"] == "list" else 0.8)
        H = fermi.hubbard_hamiltonian(basis, edges, U, ts)
    else:
        unit = case.get("unit", 1.0)
        hm, g = (unit * a for a in fermi.random_integrals(r, L, case["ints"]))
        cls = AbInitioHamiltonianSparse if case["op"] == "sparse" else AbInitioHamiltonianOnTheFly
        op = cls(hilb, hm.copy(), g.copy())
        H = fermi.molecular_hamiltonian(basis, hm, g)
    want, scale = reference(H, basis, logs, rows)
    name = f"local energy ({case['op']}, {spec['type']}, fast={spec.get('fast')})"
    if case["op"] == "rdm":
        fast = bool(getattr(m, "apply_fast_update", False)) if "fast" in spec or hasattr(m, "apply_fast_update") else False
        out = jax.jit(lambda pars, x, t, e: dense_kernel(ne, m.apply, pars, x, (t, e), use_fast_update=fast,
                                                         chunk_size=case["chunk"], return_local_RDMs=True))(
            v, jnp.asarray(xs), jnp.asarray(op.t_mat), jnp.asarray(g))
        en, rdm1, rdm2 = (np.asarray(o) for o in out)
        close(en, want, name, rtol=1e-6, atol=1e-8 * unit, scale=scale)
        # the density matrices do not depend on the integrals: contracted with any other symmetric integrals
        # they must give that Hamiltonian's local energy
        for k in range(3):
            h2, g2 = (hm, g) if k == 0 else fermi.random_integrals(r, L, ["generic", "onebody", "twobody"][k])
            t2 = h2 - 0.5 * np.einsum("prrq->pq", g2)
            con = np.einsum("pq,xpq->x", t2, rdm1) + np.einsum("pqrs,xpqrs->x", g2, rdm2)
            w, s = reference(fermi.molecular_hamiltonian(basis, h2, g2), basis, logs, rows)
            s = s + np.abs(t2).sum() + np.abs(g2).sum() * np.abs(rdm2).max()
            close(con, w, "integrals contracted with the local density matrices", rtol=1e-6, atol=1e-8, scale=s)
        tr = np.einsum("xpp->x", rdm1)
        close(tr, np.full(len(xs), sum(ne), dtype=complex), "trace of the local one-body density matrix", atol=1e-8)
        # one-body density matrix element by element: <x|E_pq|psi>/<x|psi>
        E = fermi.excitation_matrices(basis)
        for p in range(L):
            for q in range(L):
                w, s = reference(E[p, q] + E[q, p], basis, logs, rows)
                close(rdm1[:, p, q] + rdm1[:, q, p], w,
                      f"symmetrised local one-body density matrix [{p},{q}]", rtol=1e-6, atol=1e-8, scale=s)
    else:
        vs = make_state(spec, v)
        got = local_energies(vs, op, xs, case["chunk"])
        close(got, want, name, rtol=1e-6, atol=1e-8 * unit, scale=scale)
        # the same operator on other samples and parameters (nothing may be remembered from the first call)
        v2 = models.random_variables(spec, r)
        logs2 = np.asarray(models.f_full(m)(v2, basis)).astype(complex)
        ok = np.isfinite(logs2.real)
        if ok.any() and ok[rows].all() and (logs2.real[rows] > logs2.real[ok].max() - 9).all():
            vs.variables = v2
            got = local_energies(vs, op, xs, case["chunk"])
            want2, scale2 = reference(H, basis, logs2, rows)
            close(got, want2, name + " after a parameter update", rtol=1e-6, atol=1e-8 * unit, scale=scale2)
    off = np.abs(H - np.diag(np.diag(H)))[rows] > 1e-12 * unit
    rec.add_many([xs, want], off.sum(axis=1) >= 2)
    rec.label(spec["type"], case["op"], "fast" if spec.get("fast") else "full", f"chunk {case['chunk']}")
    rec.label(f"log-amplitudes near {spec.get('big', 0)}", f"integrals of order {unit:g}")
    if 0 in ne or L in ne:
        rec.label("empty or full band")
    rec.sample(case)


@st.composite
def large_cases(draw, ops):
    op = draw(st.sampled_from(ops))
    if op == "hubbard":
        c = draw(c02.hubbard_large())
    else:
        L = draw(st.integers(5, 7))
        inner = st.integers(1, L - 1)
        c = {"L": L, "n_elec": [draw(inner), draw(inner)], "ints": draw(st.sampled_from(["generic", "sparse", "local"])), "seed": draw(seeds)}
    c["op"], L, ne = op, c["L"], c["n_elec"]
    sp = {"kind": "fermi", "L": L, "n_elec": list(ne)}
    fast = draw(st.booleans())
    types = ["qGPS", "qGPS", "Plaquette"] + (["Slater", "CPDBackflow"] if op != "hubbard" or (L <= 40 and max(ne) <= 8 and min(ne) >= 1) else [])
    t = draw(st.sampled_from(types))
    s = c["spec"] = {"type": t, "space": sp, "M": draw(st.integers(1, 2)), "dtype": draw(specs.dtypes), "fast": fast}
    if t == "qGPS" and (L > 20 or draw(st.booleans())):
        s["big"] = draw(st.sampled_from([30, -30, 800]))  # amplitudes of neighbouring configurations of the same order
    if t == "Plaquette":
        s["plaquettes"] = [list(draw(st.permutations(list(range(L)))))[:3] for _ in range(3)]
    elif t == "Slater":
        del s["M"]
        s["dets"], s["const"] = draw(st.integers(1, 2)), draw(st.booleans())
    elif t == "CPDBackflow":
        s["restricted"], s["fixed"] = False, draw(st.booleans())
    c["chunk"] = draw(st.sampled_from([None, 1, 2]))
    return c


def check_large(case, rec):
    """Systems too large to be enumerated: the row of the Hamiltonian by explicit operators, the amplitudes one by one."""
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    L, n = sp["L"], 2
    m = models.build(spec)
    v = models.random_variables(spec, r)
    if case["op"] == "hubbard":
        op, edges, U, ts = c02.large_hubbard({**case, "fly": True}, r)
        row = lambda x: c02.hubbard_row(x, edges, U, ts)
    else:
        hm, g = fermi.random_integrals(r, L, case["ints"])
        op = (AbInitioHamiltonianSparse if case["op"] == "sparse" else AbInitioHamiltonianOnTheFly)(models.space(sp), hm.copy(), g.copy())
        row = lambda x: {fermi.config(b, L): c for b, c in c02.apply_molecular(fermi.bits(x), L, hm, g).items()}
    pool = models.random_configs(sp, r, 16)
    logs = np.asarray(models.f_full(m)(v, pool)).astype(complex)
    if not np.isfinite(logs.real).any():
        rec.label("skipped: all amplitudes vanish")
        return
    xs = pool[np.argsort(-np.where(np.isfinite(logs.real), logs.real, -np.inf))[:n]]
    rows = [row(x) for x in xs]
    width = max(len(q) for q in rows) + 1
    vs = nk.vqs.MCState(MetropolisHopping(models.space(sp), n_chains=1), m, n_samples=2, variables=v)
    got = local_energies(vs, op, xs, case["chunk"])
    want, scale = np.zeros(n, complex), np.zeros(n)
    for k, q in enumerate(rows):
        ys = np.array([tuple(int(a) for a in xs[k])] + list(q) + [tuple(int(a) for a in xs[k])] * (width - 1 - len(q)), dtype=np.uint8)
        logs = np.asarray(models.f_full(m)(v, ys)).astype(complex)
        ratio = np.where(np.isfinite(logs.real), np.exp(np.where(np.isfinite(logs.real), logs, 0) - logs[0]), 0)[1:len(q) + 1]
        terms = np.array(list(q.values())) * ratio
        want[k], scale[k] = terms.sum(), np.abs(terms).sum()
    ok = np.isfinite(scale) & (scale < 1e12)
    if not ok.any():
        rec.label("skipped: overflowing ratios")
        return
    close(got[ok], want[ok], f"local energy ({case['op']}, {spec['type']}, fast={spec['fast']}, {L} sites)", rtol=1e-6, atol=1e-8, scale=scale[ok])
    rec.add_many([xs[ok], want[ok]], [len(q) > 2 for q, o in zip(rows, ok) if o])
    rec.label(spec["type"], case["op"], "fast" if spec["fast"] else "full", "large")
    rec.sample(case)


SUBS = [
    Sub("large_hubbard", lambda: large_cases(["hubbard"]), check_large, 6, 120, shards=2, weight=2.0, explicit=[
        {"L": 280, "n_elec": [270, 140], "lattice": "ring", "tform": "list", "fly": True, "seed": 2, "op": "hubbard", "chunk": None,
         "spec": {"type": "qGPS", "space": {"kind": "fermi", "L": 280, "n_elec": [270, 140]}, "M": 1, "dtype": "complex", "fast": f, "big": 30}}
        for f in (True, False)]),
    Sub("large_molecular", lambda: large_cases(["dense", "sparse"]), check_large, 3, 60, shards=3, weight=6.0),
    Sub("gps_hubbard", cases(gps_model(), ["hubbard"]), check, 8, 150, shards=2, weight=2.0,
        explicit=[{"spec": {"type": "qGPS", "space": {"kind": "fermi", "L": 4, "n_elec": [2, 2]}, "M": 2,
                            "dtype": "complex", "sym": "trans", "fast": True}, "op": "hubbard", "seed": 3,
                   "chunk": 2, "edges": [[0, 1], [1, 2], [2, 3], [3, 0]], "tform": "list"}] +
                 [{"spec": {"type": "qGPS", "space": {"kind": "fermi", "L": 4, "n_elec": [2, 2]}, "M": 2, "big": b,
                            "dtype": "complex", "sym": "none", "fast": f}, "op": "hubbard", "seed": 4,
                   "chunk": None, "edges": [[0, 1], [1, 2], [2, 3]], "tform": "scalar"} for b, f in ((800, True), (-800, False))]),
    Sub("gps_dense", cases(gps_model(), ["dense"]), check, 4, 120, shards=3, weight=3.3,
        explicit=[{"spec": {"type": "qGPS", "space": {"kind": "fermi", "L": 4, "n_elec": [2, 2]}, "M": 2,
                            "dtype": "complex", "sym": "none", "fast": True}, "op": "dense", "seed": 3,
                   "chunk": None, "ints": "generic"}]),
    Sub("gps_sparse", cases(gps_model(), ["sparse"]), check, 4, 120, shards=3, weight=4.3,
        explicit=[{"spec": {"type": "qGPS", "space": {"kind": "fermi", "L": 4, "n_elec": [2, 2]}, "M": 2,
                            "dtype": "complex", "sym": "none", "fast": True}, "op": "sparse", "seed": 3,
                   "chunk": None, "ints": "sparse", "unit": u} for u in (1.0, 1e-9)]),
    Sub("gps_rdm", cases(gps_model(), ["rdm"]), check, 4, 80, shards=2, weight=4.0,
        explicit=[{"spec": {"type": "qGPS", "space": {"kind": "fermi", "L": 4, "n_elec": [2, 2]}, "M": 2,
                            "dtype": "complex", "sym": "none", "fast": f}, "op": "rdm", "seed": 3, "chunk": None, "ints": "generic", "unit": 1.0}
                  for f in (True, False)]),
    Sub("det_hubbard", cases(det_model(), ["hubbard"]), check, 6, 80, shards=2, weight=2.5),
    Sub("det_dense", cases(det_model(), ["dense"]), check, 4, 80, shards=2, weight=6.0),
    Sub("det_sparse", cases(det_model(), ["sparse"]), check, 4, 80, shards=2, weight=6.5),
]
