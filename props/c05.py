"""C05: J1-J2 Heisenberg Hamiltonians and their on-the-fly local energies."""
import itertools

import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.operator.hamiltonian import get_J1_J2_Hamiltonian
from lib import models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = lattice, couplings, boundary, sign rule (and a wavefunction for local energies). One comparison per "
    "configuration row; non-trivial: the configuration has at least one antiparallel coupled pair."
)
ASSUMPTIONS = [
    "periodic directions have at least three sites, or four for second-neighbour chains (shorter periodic directions are NetKet's convention)",
    "with second-neighbour coupling the sign rule is given per coupling, and Marshall rotation is only asked for on bipartite bonds",
    "amplitudes used for local energies are the model's own evaluations from scratch",
]
seeds = st.integers(0, 2**31 - 1)


def bonds(Lx, Ly, pbc, order):
    """Pairs of sites of the chain / row-major grid at first or second neighbour distance."""
    dims = [Lx] if Ly is None else [Lx, Ly]
    sites = list(itertools.product(*[range(d) for d in dims]))
    dist = {}
    for a in range(len(sites)):
        for b in range(a + 1, len(sites)):
            d2 = 0
            for u, w, d in zip(sites[a], sites[b], dims):
                k = abs(u - w)
                d2 += min(k, d - k) ** 2 if pbc else k**2
            dist[a, b] = d2
    want = {1: 1, 2: 4 if Ly is None else 2}[order]
    return [p for p, d in dist.items() if d == want]


def bipartite(edges, n):
    colour = {}
    adj = {i: [] for i in range(n)}
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    for s in range(n):
        if s in colour:
            continue
        colour[s] = 0
        todo = [s]
        while todo:
            u = todo.pop()
            for w in adj[u]:
                if w not in colour:
                    colour[w] = 1 - colour[u]
                    todo.append(w)
                elif colour[w] == colour[u]:
                    return False
    return True


@st.composite
def lattices(draw, small, large=False):
    pbc = draw(st.booleans())
    J2 = draw(st.sampled_from([0.0, 0.0, 0.5, -0.3, 1.7]))
    if draw(st.booleans()):
        Lx, Ly = draw(st.sampled_from([4, 5, 6, 6] if small else [5, 6, 7, 8, 10])), None
        if pbc and J2 != 0:
            Lx = max(Lx, 5)
    else:
        Lx, Ly = draw(st.sampled_from([(2, 2), (2, 3), (3, 2)] if small else [(3, 3), (4, 3), (3, 4), (2, 4), (4, 2)]))
        if min(Lx, Ly) < 3:
            pbc = False
    if large:
        if Ly is None:
            Lx = draw(st.sampled_from([12, 16, 21, 40, 80]))
        else:
            Lx, Ly = draw(st.sampled_from([(4, 4), (5, 4), (3, 6), (6, 6), (8, 4), (5, 7)]))
    n = Lx * (Ly or 1)
    b1 = bonds(Lx, Ly, pbc, 1)
    can = bipartite(b1, n)
    rule = draw(st.booleans()) if can else False
    if J2 != 0:
        b2 = bonds(Lx, Ly, pbc, 2)
        rule = [rule, False]
        if not b2:
            J2, rule = 0.0, rule[0]
    up = n // 2 if draw(st.booleans()) else draw(st.integers(1, n - 1))
    return {"Lx": Lx, "Ly": Ly, "pbc": pbc, "J1": draw(st.sampled_from([1.0, -0.8, 2.0])), "J2": J2,
            "rule": rule, "sz": up - n / 2, "fly": draw(st.booleans()), "seed": draw(seeds)}


def row(case, x):
    """{configuration: element} of sum_ij J_ij S_i.S_j with the sign-rotated exchange where asked."""
    out = {}
    rules = case["rule"] if isinstance(case["rule"], list) else [case["rule"], False]
    for order, J, rot in ((1, case["J1"], rules[0]), (2, case["J2"], rules[1])):
        if J == 0:
            continue
        for i, j in bonds(case["Lx"], case["Ly"], case["pbc"], order):
            if x[i] == x[j]:
                out[tuple(x)] = out.get(tuple(x), 0.0) + J / 4
            else:
                out[tuple(x)] = out.get(tuple(x), 0.0) - J / 4
                y = list(x)
                y[i], y[j] = y[j], y[i]
                out[tuple(y)] = out.get(tuple(y), 0.0) + (-J / 2 if rot else J / 2)
    return out


def operator(case, fly):
    rule = tuple(case["rule"]) if isinstance(case["rule"], list) else case["rule"]
    return get_J1_J2_Hamiltonian(case["Lx"], Ly=case["Ly"], J1=case["J1"], J2=case["J2"], sign_rule=rule,
                                 total_sz=case["sz"], on_the_fly_en=fly, pbc=case["pbc"])


def check_elements(case, rec):
    op = operator(case, case["fly"])
    n = case["Lx"] * (case["Ly"] or 1)
    require(op.hilbert.size == n, f"{op.hilbert.size} sites instead of {n}")
    r = rng_of(case)
    xs = models.random_configs({"kind": "spin", "L": n, "sz": case["sz"]}, r, 8)
    require(bool(np.all(np.asarray(op.hilbert.constraint(jnp.asarray(xs, dtype=float))))) if op.hilbert.constrained else True,
            "configurations of the requested magnetisation are rejected by the operator's space")
    xp, mels = op.get_conn_padded(xs.astype(float))
    for k, x in enumerate(xs):
        got = {}
        for y, m in zip(np.asarray(xp[k]).astype(int), np.asarray(mels[k])):
            got[tuple(int(a) for a in y)] = got.get(tuple(int(a) for a in y), 0.0) + m
        want = row(case, [int(a) for a in x])
        keys = sorted(set(got) | set(want))
        close(np.array([got.get(a, 0.0) for a in keys]), np.array([want.get(a, 0.0) for a in keys]),
              f"row of {x.tolist()}", rtol=1e-10, atol=1e-10)
    rec.add_many([xs], [len(row(case, [int(a) for a in x])) > 1 for x in xs])
    rec.label("chain" if case["Ly"] is None else "grid", "J2" if case["J2"] else "J1", "pbc" if case["pbc"] else "open")
    rec.sample(case)


@st.composite
def energy_cases(draw):
    c = draw(lattices(True))
    n = c["Lx"] * (c["Ly"] or 1)
    sp = {"kind": "spin", "L": n, "sz": c["sz"]}
    t = draw(st.sampled_from(["qgps", "qgps", "plaq", "ar"]))
    if t == "ar" and c["sz"] != 0:
        t = "qgps"
    if t == "qgps":
        c["spec"] = draw(specs.qgps(space=st.just(sp), fast=draw(st.booleans())))
        big = draw(st.sampled_from([None, None, 800, -800]))
        if big:
            c["spec"]["big"] = big
    elif t == "plaq":
        c["spec"] = draw(specs.plaquette_gps(space=st.just(sp), fast=draw(st.booleans())))
    else:
        c["spec"] = draw(specs.ar_model(types=("ARqGPS", "ARqGPSFull"), space=st.just(sp), syms=True))
    c["chunk"] = draw(st.sampled_from([None, 1, 4]))
    return c


@st.composite
def large_cases(draw):
    c = draw(lattices(False, large=True))
    n = c["Lx"] * (c["Ly"] or 1)
    sp = {"kind": "spin", "L": n, "sz": c["sz"]}
    t = draw(st.sampled_from(["qgps", "qgps", "plaq", "ar"]))
    fast = draw(st.booleans())
    c["spec"] = {"type": "qGPS", "space": sp, "M": draw(st.integers(1, 2)), "dtype": draw(specs.dtypes), "fast": fast,
                 "sym": draw(st.sampled_from(["none", "reflect", "flip"]))}
    if t == "qgps" and (n > 20 or draw(st.booleans())):
        c["spec"]["big"] = draw(st.sampled_from([30, -30, 800]))
    if t == "plaq":
        c["spec"].update(type="Plaquette", plaquettes=[list(draw(st.permutations(list(range(n)))))[:3] for _ in range(3)])
    elif t == "ar" and c["sz"] == 0 and n <= 24:
        c["spec"] = {"type": "ARqGPSFull", "space": sp, "M": 1, "pow": 2, "dtype": "complex", "fast": fast, "sym": "none"}
    c["chunk"] = draw(st.sampled_from([None, 1, 4]))
    return c


def check_large(case, rec):
    """Lattices too large to be enumerated: elements, and local energies from the amplitudes of the connected configurations."""
    check_elements(case, rec)
    spec = case["spec"]
    r = rng_of(case)
    v = models.random_variables(spec, r)
    m = models.build(spec)
    xs = models.random_configs(spec["space"], r, 4)
    op = operator(case, True)
    vs = nk.vqs.MCState(nk.sampler.MetropolisExchange(op.hilbert, graph=nk.graph.Chain(spec["space"]["L"])), m, n_samples=16, variables=v)
    vs.chunk_size = case["chunk"]
    vs._samples = jnp.asarray(xs, dtype=float).reshape(len(xs), 1, -1)
    got = np.asarray(vs.local_estimators(op)).reshape(-1)
    rows_ = [row(case, [int(a) for a in x]) for x in xs]
    width = max(len(q) for q in rows_)
    want, scale = np.zeros(len(xs), complex), np.zeros(len(xs))
    for k, q in enumerate(rows_):
        ys = np.array(list(q) + [tuple(int(a) for a in xs[k])] * (width - len(q) + 1), dtype=np.int8)
        logs = np.asarray(models.f_full(m)(v, ys)).astype(complex)
        terms = np.array(list(q.values())) * np.exp(logs[: len(q)] - logs[-1])
        want[k], scale[k] = terms.sum(), np.abs(terms).sum()
    ok = np.isfinite(scale) & (scale < 1e12)
    if not ok.any():
        rec.label("skipped: overflowing ratios")
        return
    close(got[ok], want[ok], f"local energy ({spec['type']}, fast={spec.get('fast')}, {spec['space']['L']} sites)", rtol=1e-6, atol=1e-8, scale=scale[ok])
    rec.add_many([xs[ok], want[ok]], [len(q) > 1 for q, o in zip(rows_, ok) if o])
    rec.label("large", spec["type"])


def check_energy(case, rec):
    spec = case["spec"]
    r = rng_of(case)
    v = models.random_variables(spec, r)
    m = models.build(spec)
    basis = models.all_configs(spec["space"])
    logs = np.asarray(models.f_full(m)(v, basis)).astype(complex)
    fin = np.isfinite(logs.real)
    rows = np.nonzero(fin & (logs.real > logs.real[fin].max() - 6.9))[0]
    rows = r.permutation(rows)[:8]
    op = operator(case, True)
    vs = nk.vqs.MCState(nk.sampler.ExactSampler(op.hilbert), m, n_samples=16, variables=v)
    vs.chunk_size = case["chunk"]
    vs._samples = jnp.asarray(basis[rows], dtype=float).reshape(len(rows), 1, -1)
    got = np.asarray(vs.local_estimators(op)).reshape(-1)
    table = {tuple(int(a) for a in x): l for x, l in zip(basis, logs)}
    want, scale = np.zeros(len(rows), complex), np.zeros(len(rows))
    for k, i in enumerate(rows):
        x = tuple(int(a) for a in basis[i])
        for y, mel in row(case, list(x)).items():
            term = mel * np.exp(table[y] - table[x]) if np.isfinite(table[y].real) else 0.0
            want[k] += term
            scale[k] += abs(term)
    close(got, want, f"local energy ({spec['type']}, fast={spec.get('fast')})", rtol=1e-6, atol=1e-8, scale=scale)
    rec.add_many([basis[rows], want], [len(row(case, [int(a) for a in basis[i]])) > 1 for i in rows])
    rec.label(spec["type"], "fast" if spec.get("fast") else "full")
    rec.sample(case)


SUBS = [
    Sub("large", large_cases, check_large, 6, 80, shards=2, weight=3.0),
    Sub("elements", lambda: lattices(False), check_elements, 40, 600, shards=2),
    Sub("local_energy", energy_cases, check_energy, 20, 150, shards=6, weight=5.0),
]
