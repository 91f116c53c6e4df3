"""C02: Fermi-Hubbard and ab-initio operators are the second-quantised Hamiltonians they claim to be."""
import numpy as np
from hypothesis import strategies as st

from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.fermion import apply_hopping
from GPSKet.operator.hamiltonian import (
    AbInitioHamiltonian,
    AbInitioHamiltonianOnTheFly,
    AbInitioHamiltonianSparse,
    FermiHubbard,
    FermiHubbardOnTheFly,
)
from lib import fermi
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (sites, electron numbers, operator data). Each row of the operator (one configuration and all "
    "configurations connected to it) is one comparison; non-trivial: the row has at least one non-zero "
    "off-diagonal element (operators), or the hop crosses at least one electron of the same spin (hops)."
)
ASSUMPTIONS = [
    "one-body integrals real symmetric, two-body integrals real with the 8-fold permutation symmetry (chemists' notation)",
    "fermionic ordering: all up orbitals by site, then all down orbitals by site",
    "Hubbard edges join distinct sites; repeated edges add up",
]

seeds = st.integers(0, 2**31 - 1)

units = st.sampled_from([1.0, 1.0, 1e-9, 1e6])  # atomic units, or anything else


def conn_matrix(op, basis, dtype, reps=1):
    """Dense matrix from get_conn_flattened on the whole basis at once (rows = bra configuration)."""
    n = len(basis)
    index = {tuple(int(v) for v in c): k for k, c in enumerate(basis)}
    sections = np.empty(n, dtype=np.int64)
    xp, mels = op.get_conn_flattened(basis.astype(dtype), sections)
    H = np.zeros((n, n), dtype=complex)
    start = 0
    for k in range(n):
        end = int(sections[k])
        require(end >= start and end <= len(mels), f"sections[{k}]={end} out of order")
        for c, m in zip(np.asarray(xp)[start:end], mels[start:end]):
            if m != 0:
                key = tuple(int(v) for v in c)
                require(key in index, f"connects {basis[k].tolist()} to {key}, outside the Hilbert space")
                H[k, index[key]] += m
        start = end
    require(start == len(mels), "elements left over after the last section")
    return H


def compare(op, basis, H, rec, case):
    dt = np.dtype(case["dtype"])
    got = conn_matrix(op, basis, dt)
    tol = 1e-10 * min(case.get("unit", 1.0), 1.0)
    # the matrix is real symmetric, so row = bra or row = ket is the same statement
    close(got, H, "connected elements", rtol=1e-10, atol=tol)
    r = rng_of(case, "subset")
    k = int(r.integers(1, min(len(basis), 6) + 1))
    pick = r.integers(0, len(basis), size=k)
    xs = basis[pick]
    xp, mels = op.get_conn_padded(xs.astype(dt))
    require(xp.shape[0] == k and mels.shape[0] == k, "get_conn_padded: wrong batch size")
    index = {tuple(int(v) for v in c): j for j, c in enumerate(basis)}
    for a in range(k):
        row = np.zeros(len(basis), dtype=complex)
        for c, m in zip(np.asarray(xp[a]), np.asarray(mels[a])):
            if m != 0:
                row[index[tuple(int(v) for v in c)]] += m
        close(row, H[pick[a]], f"padded connected elements of {xs[a].tolist()}", rtol=1e-10, atol=tol)
    hilb = op.hilbert
    order = [index[tuple(int(v) for v in c)] for c in np.asarray(hilb.all_states())]
    close(np.asarray(op.to_dense()), H[np.ix_(order, order)], "to_dense", rtol=1e-10, atol=tol)
    require(bool(op.is_hermitian), "is_hermitian is False for a Hermitian operator")
    off = H - np.diag(np.diag(H))
    rec.add_many([basis, H], (np.abs(off) > 1e-12 * case.get("unit", 1.0)).any(axis=1))


@st.composite
def hubbard_cases(draw):
    L = draw(st.integers(1, 5))
    constrained = True if L >= 4 else draw(st.booleans())
    ne = [draw(st.integers(0, L)), draw(st.integers(0, L))] if constrained else None
    pairs = [[i, j] for i in range(L) for j in range(L) if i != j]
    edges = draw(st.lists(st.sampled_from(pairs), max_size=6)) if pairs else []
    tform = draw(st.sampled_from(["scalar", "list"]))
    return {
        "L": L, "n_elec": ne, "edges": edges, "tform": tform,
        "U": draw(st.sampled_from([0.0, 1.0, -2.5, 8.0, 3.7])),
        "t": draw(st.sampled_from([1.0, -0.7, 2.0, 0.0])),
        "fly": draw(st.booleans()), "unit": draw(units),
        "dtype": draw(st.sampled_from(["uint8", "int64", "float64"])),
        "seed": draw(seeds),
    }


def check_hubbard(case, rec):
    L, ne = case["L"], case["n_elec"]
    hilb = FermionicDiscreteHilbert(L, n_elec=None if ne is None else tuple(ne))
    edges = [tuple(e) for e in case["edges"]]
    r = rng_of(case)
    unit = case.get("unit", 1.0)
    ts = [unit * float(v) for v in r.normal(size=len(edges))] if case["tform"] == "list" else [unit * case["t"]] * len(edges)
    t_arg = list(ts) if case["tform"] == "list" else unit * case["t"]
    cls = FermiHubbardOnTheFly if case["fly"] else FermiHubbard
    op = cls(hilb, edges, U=unit * case["U"], t=t_arg)
    basis = fermi.sector(L, ne)
    H = fermi.hubbard_hamiltonian(basis, edges, unit * case["U"], ts)
    compare(op, basis, H, rec, case)
    rec.label("edges" if edges else "no-edges", "constrained" if ne else "unconstrained")
    rec.sample(case)


@st.composite
def abinitio_cases(draw, max_L=4):
    L = draw(st.sampled_from([max_L, max_L, max_L - 1, 3, 2, 1]))
    occ = st.sampled_from([L // 2, (L + 1) // 2, L // 2, *range(L + 1)])
    return {
        "L": L,
        "n_elec": [draw(occ), draw(occ)],
        "kind": draw(st.sampled_from(["generic", "generic", "onebody", "twobody", "sparse", "local"])),
        "cls": draw(st.integers(0, 2)), "unit": draw(units),
        "dtype": draw(st.sampled_from(["uint8", "int64", "float64"])),
        "seed": draw(seeds),
    }


def check_abinitio(case, rec):
    L, ne = case["L"], tuple(case["n_elec"])
    hilb = FermionicDiscreteHilbert(L, n_elec=ne)
    h, g = (case.get("unit", 1.0) * a for a in fermi.random_integrals(rng_of(case), L, case["kind"]))
    cls = [AbInitioHamiltonian, AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse][case["cls"]]
    op = cls(hilb, h.copy(), g.copy())
    basis = fermi.sector_up_down(L, ne)
    compare(op, basis, fermi.molecular_hamiltonian(basis, h, g), rec, case)
    rec.label(case["kind"], "doubles" if sum(1 for a in ne if 2 <= a <= L - 2) else "no-doubles")
    rec.sample(case)


@st.composite
def sparse_large(draw):
    """One row of a larger system against Slater-Condon by explicit operators on bitmasks."""
    L = draw(st.integers(5, 7))
    return {
        "L": L,
        "n_elec": [draw(st.integers(1, L - 1)), draw(st.integers(1, L - 1))],
        "kind": draw(st.sampled_from(["generic", "sparse", "local"])),
        "cls": draw(st.integers(0, 2)),
        "seed": draw(seeds),
    }


def apply_molecular(b, L, h, g):
    """H |b> as {bits: coefficient}: sum h c+_p c_q + 1/2 sum (pq|rs) c+_p c+_r c_s c_q."""
    out = {}
    for sp in (0, L):
        for p in range(L):
            for q in range(L):
                if h[p, q]:
                    s, b2 = fermi.hop(b, p + sp, q + sp)
                    if s:
                        out[b2] = out.get(b2, 0.0) + s * h[p, q]
    for s1 in (0, L):
        for s2 in (0, L):
            for r in range(L):
                for s_ in range(L):
                    sg, b1 = fermi.hop(b, r + s2, s_ + s2)  # E_rs first, then subtract delta
                    for p in range(L):
                        for q in range(L):
                            v = 0.5 * g[p, q, r, s_]
                            if not v:
                                continue
                            if sg:
                                s3, b3 = fermi.hop(b1, p + s1, q + s1)
                                if s3:
                                    out[b3] = out.get(b3, 0.0) + v * sg * s3
                            if s1 == s2 and q == r:
                                s3, b3 = fermi.hop(b, p + s1, s_ + s1)
                                if s3:
                                    out[b3] = out.get(b3, 0.0) - v * s3
    return out


def check_sparse_large(case, rec):
    L, ne = case["L"], tuple(case["n_elec"])
    hilb = FermionicDiscreteHilbert(L, n_elec=ne)
    r = rng_of(case)
    h, g = fermi.random_integrals(r, L, case["kind"])
    op = [AbInitioHamiltonian, AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse][case.get("cls", 0)](hilb, h, g)
    xs = np.zeros((2, L), dtype=np.uint8)
    for x in xs:
        x[r.permutation(L)[: ne[0]]] += 1
        x[r.permutation(L)[: ne[1]]] += 2
    sections = np.empty(2, dtype=np.int64)
    xp, mels = op.get_conn_flattened(xs, sections)
    start = 0
    for k in range(2):
        want = apply_molecular(fermi.bits(xs[k]), L, h, g)
        got = {}
        for c, m in zip(xp[start:sections[k]], mels[start:sections[k]]):
            b = fermi.bits(c)
            got[b] = got.get(b, 0.0) + m
        keys = sorted(set(got) | set(want))
        close(np.array([got.get(b, 0.0) for b in keys]), np.array([want.get(b, 0.0) for b in keys], dtype=complex),
              f"row of {xs[k].tolist()}", rtol=1e-10, atol=1e-10)
        start = int(sections[k])
    rec.add_many([xs], True)
    rec.sample(case)


@st.composite
def hubbard_large(draw):
    L = draw(st.one_of(st.integers(6, 40), st.integers(41, 300)))
    n = st.one_of(st.integers(0, L), st.just(L // 2), st.just(L // 2))
    return {"L": L, "n_elec": [draw(n), draw(n)], "lattice": draw(st.sampled_from(["chain", "ring", "random", "star"])),
            "tform": draw(st.sampled_from(["scalar", "list"])), "fly": draw(st.booleans()), "seed": draw(seeds)}


def large_hubbard(case, r):
    """(operator, edges, U, hopping amplitudes) of a case of hubbard_large."""
    L = case["L"]
    edges = {"chain": [(i, i + 1) for i in range(L - 1)], "ring": [(i, (i + 1) % L) for i in range(L)],
             "random": [tuple(int(v) for v in r.permutation(L)[:2]) for _ in range(30)],
             "star": [(0, i) for i in range(1, L)]}[case["lattice"]]
    ts = [float(v) for v in r.normal(size=len(edges))] if case["tform"] == "list" else [0.9] * len(edges)
    U = float(r.normal() * 3)
    hilb = FermionicDiscreteHilbert(L, n_elec=tuple(case["n_elec"]))
    cls = FermiHubbardOnTheFly if case["fly"] else FermiHubbard
    return cls(hilb, edges, U=U, t=list(ts) if case["tform"] == "list" else 0.9), edges, U, ts


def hubbard_row(x, edges, U, ts):
    """H |x> as {configuration: coefficient}."""
    L = len(x)
    out = {tuple(int(v) for v in x): U * float((x == 3).sum())}
    for (i, j), t in zip(edges, ts):
        for a, b in ((i, j), (j, i)):
            for spin in (1, 2):
                if not (x[b] & spin) or (x[a] & spin):
                    continue
                lo, hi = min(a, b), max(a, b)
                crossed = sum(1 for k in range(lo + 1, hi) if x[k] & spin)
                y = [int(v) for v in x]
                y[b] -= spin
                y[a] += spin
                out[tuple(y)] = out.get(tuple(y), 0.0) - t * (-1) ** crossed
    return out


def check_hubbard_large(case, rec):
    r = rng_of(case)
    L, ne = case["L"], case["n_elec"]
    op, edges, U, ts = large_hubbard(case, r)
    xs = np.zeros((3, L), dtype=np.uint8)
    for x in xs:
        x[r.permutation(L)[: ne[0]]] += 1
        x[r.permutation(L)[: ne[1]]] += 2
    sections = np.empty(3, dtype=np.int64)
    xp, mels = op.get_conn_flattened(xs, sections)
    start = 0
    for k in range(3):
        want = hubbard_row(xs[k], edges, U, ts)
        got = {}
        for c, m in zip(np.asarray(xp)[start:sections[k]], mels[start:sections[k]]):
            if m != 0:
                key = tuple(int(v) for v in c)
                got[key] = got.get(key, 0.0) + m
        keys = sorted(set(got) | set(want))
        close(np.array([got.get(b, 0.0) for b in keys]), np.array([want.get(b, 0.0) for b in keys]), f"row of {xs[k].tolist()}",
              rtol=1e-10, atol=1e-10)
        start = int(sections[k])
        rec.add(1, [xs[k]], nontrivial=len(want) > 1)
    rec.label(case["lattice"], "more than 64 sites" if L > 64 else "up to 64 sites")
    rec.sample(case)


def check_hop(case, rec):
    r = rng_of(case)
    L = case["L"]
    for _ in range(40):
        x = r.integers(0, 4, size=L).astype(np.uint8)
        q, p = (int(v) for v in r.integers(0, L, size=2))
        spin = int(r.integers(1, 3))
        full, free = np.nonzero(x & spin)[0], np.nonzero(~x & spin)[0]
        if len(full) and len(free) and r.random() < 0.7:
            q, p = int(r.choice(full)), int(r.choice(free))
        off = 0 if spin == 1 else L
        s, b2 = fermi.hop(fermi.bits(x), p + off, q + off)
        occ = (x & spin) > 0
        for how in ("count", "direct"):
            y = x.copy()
            if how == "count":
                m = apply_hopping(q, p, y, spin, cummulative_count=np.cumsum(occ))
            else:
                m = apply_hopping(q, p, y, spin)
            require(m == s, f"hop {q}->{p} of spin {spin} on {x.tolist()} has sign {m}, expected {s} ({how})")
            if s:
                require(fermi.bits(y) == b2, f"hop {q}->{p} of spin {spin} on {x.tolist()} gives {y.tolist()}")
            else:
                require((y == x).all(), f"forbidden hop {q}->{p} of spin {spin} changes {x.tolist()} to {y.tolist()}")
        lo, hi = min(p, q), max(p, q)
        rec.add(2, key=[x, p, q, spin], nontrivial=bool(s) and occ[lo + 1:hi].any())
    rec.sample(case)


SUBS = [
    Sub("hubbard", hubbard_cases, check_hubbard, 40, 500, shards=2,
        explicit=[{"L": 2, "n_elec": [1, 1], "edges": [], "tform": "scalar", "U": 4.0, "t": 1.0, "fly": False,
                   "dtype": "uint8", "seed": 0},
                  {"L": 4, "n_elec": [2, 3], "edges": [[0, 3], [3, 1], [0, 3]], "tform": "list", "U": 4.0, "t": 1.0,
                   "fly": True, "dtype": "uint8", "seed": 0}]),
    Sub("ab_initio", abinitio_cases, check_abinitio, 22, 150, shards=3,
        explicit=[{"L": 4, "n_elec": [2, 2], "kind": "generic", "cls": 0, "dtype": "uint8", "seed": 1},
                  {"L": 4, "n_elec": [2, 3], "kind": "generic", "cls": 2, "dtype": "uint8", "seed": 1}]),
    Sub("ab_initio_rows", sparse_large, check_sparse_large, 5, 60, shards=2, weight=3.0),
    Sub("hubbard_rows", hubbard_large, check_hubbard_large, 20, 400, explicit=[
        {"L": 300, "n_elec": [299, 290], "lattice": "ring", "tform": "list", "fly": True, "seed": 1}]),
    Sub("hops", lambda: st.fixed_dictionaries({"L": st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 300)), "seed": seeds}), check_hop, 60, 1500),
]
