"""C12: Pfaffians, their derivative, and Pfaffian pair states."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from GPSKet.models.pfaffian import (
    PfaffianState,
    ZeroMagnetizationPfaffian,
    get_gauss_leg_elements_Sy,
    log_pfaffian,
)
from netket.utils import HashableArray
from lib import fermi, models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (matrix family and size) or (pair state, sites, electrons, symmetry, projection). One comparison per matrix, "
    "derivative direction, or configuration. Non-trivial: dimension at least four, so the Pfaffian is not a single entry."
)
ASSUMPTIONS = [
    "skew-symmetric input of even dimension; entries of order one; derivative only at well-conditioned matrices",
    "electron positions: up electrons 0..L-1, down electrons L..2L-1",
]
seeds = specs.seeds


def pf(a):
    """Textbook recursion: expansion along the first row."""
    n = len(a)
    if n == 0:
        return 1.0
    tot = 0.0
    for j in range(1, n):
        keep = [k for k in range(1, n) if k != j]
        tot = tot + (-1) ** (j - 1) * a[0, j] * pf(a[np.ix_(keep, keep)])
    return tot


@functools.lru_cache(None)
def f_log(n):
    return jax.jit(log_pfaffian)


@functools.lru_cache(None)
def f_jvp(n):
    return jax.jit(lambda a, d: jax.jvp(log_pfaffian, (a,), (d,)))


def amp(z):
    z = complex(z)
    if np.isnan(z.real):
        return complex(np.nan)
    return 0.0 if z.real == -np.inf else np.exp(z)


@st.composite
def matrices(draw):
    return {"n": draw(st.sampled_from([2, 4, 4, 6, 6, 8])),
            "kind": draw(st.sampled_from(["real", "complex", "complex", "sparse", "sparse", "block", "permuted", "singular", "integer"])),
            "count": 6, "seed": draw(seeds)}


def draw_matrix(kind, n, r):
    if kind == "integer":
        a = r.integers(-2, 3, size=(n, n)).astype(float)
    elif kind == "sparse":
        a = r.normal(size=(n, n)) * (r.random((n, n)) < 0.45)
    elif kind == "block":  # adjacent pairs only
        a = np.zeros((n, n))
        for i in range(0, n, 2):
            a[i, i + 1] = r.normal()
    elif kind == "permuted":  # a perfect matching in random order: a single term with a sign
        a = np.zeros((n, n))
        p = r.permutation(n)
        for i in range(0, n, 2):
            a[p[i], p[i + 1]] = r.normal()
    elif kind == "singular":
        a = r.normal(size=(n, n))
        a = a - a.T
        i = int(r.integers(n))
        a[i, :] = 0
        a[:, i] = 0
        return a
    else:
        a = r.normal(size=(n, n))
        if kind == "complex":
            a = a + 1j * r.normal(size=(n, n))
    return a - a.T


def check_matrix(case, rec):
    n, r = case["n"], rng_of(case)
    for k in range(case["count"]):
        a = draw_matrix(case["kind"], n, r)
        want = complex(pf(a))
        got = amp(np.asarray(f_log(n)(jnp.asarray(a))))
        scale = max(abs(want), float(np.abs(a).max()) ** (n // 2) * 1e-2, 1e-12)
        require(not np.isnan(got) and abs(got - want) <= 1e-9 * scale,
                f"exp(log_pfaffian) = {got}, expected {want} for {a.tolist()}")
        rec.add(1, key=[k, a.real, np.imag(a)], nontrivial=n >= 4)
        if np.linalg.cond(a) < 1e4 if abs(want) > 1e-8 else False:
            d = draw_matrix("complex" if case["kind"] == "complex" else "real", n, r)
            inv = np.linalg.inv(a)
            wd = 0.5 * np.trace(inv @ d)
            dt = np.result_type(a, d)
            p, t = f_jvp(n)(jnp.asarray(a.astype(dt)), jnp.asarray(d.astype(dt)))
            close(np.asarray(t).astype(complex), np.asarray(wd, dtype=complex), "directional derivative of log_pfaffian", rtol=1e-7, atol=1e-7)
            # finite differences of the recursion: an oracle that does not know the inverse formula
            h = 1e-6
            fd = (pf(a + h * d) - pf(a - h * d)) / (2 * h * want)
            close(np.asarray(t).astype(complex), np.asarray(fd, dtype=complex), "derivative against finite differences",
                  rtol=1e-4, atol=1e-4 * (1 + np.abs(inv).max() ** 3))
            rec.add(2, key=["d", k, a.real, np.imag(a)], nontrivial=n >= 4)
    rec.label(case["kind"], f"n={n}")
    rec.sample(case)


@st.composite
def states(draw):
    L = draw(st.sampled_from([2, 3, 3, 4]))
    kind = draw(st.sampled_from(["general", "zero", "zero", "projected", "projected"]))
    n = draw(st.integers(1, L))
    ne = [n, n]
    if kind == "general":
        ne = [draw(st.integers(0, L)), draw(st.integers(0, L))]
        if sum(ne) % 2 or sum(ne) == 0:
            ne = [1, 1]
    return {"L": L, "kind": kind, "n_elec": ne, "sym": draw(st.sampled_from(["none", "none", "trans", "reflect"])),
            "grid": draw(st.integers(0, 2)), "dtype": draw(specs.dtypes), "seed": draw(seeds)}


@functools.lru_cache(None)
def pos_syms(name, L):
    """Symmetries on first-quantised spin-orbital positions: site permutation, spin kept."""
    perms = models.perms_for(name, L)
    full = jnp.asarray(np.concatenate([perms, perms + L], axis=1).T)  # (2L, T)
    return lambda y: full[y]


def check_state(case, rec):
    L, ne = case["L"], case["n_elec"]
    r = rng_of(case)
    sp = {"kind": "fermi", "L": L, "n_elec": ne}
    x = models.all_configs(sp)
    y = np.array([[*map(int, u), *[L + int(i) for i in d]] for u, d in (fermi.electrons(c) for c in x)])
    dt = models.dtype_of(case)
    perms = models.perms_for(case["sym"], L)
    rnd = lambda *s: r.normal(size=s) + (1j * r.normal(size=s) if case["dtype"] == "complex" else 0)
    if case["kind"] == "general":
        m = PfaffianState(L, dtype=dt, symmetries=pos_syms(case["sym"], L))
        F = rnd(2 * L, 2 * L)
        v = {"params": {"F": jnp.asarray(F)}}
        Fs, ws = [F], [1.0]
    else:
        f = rnd(L, L)
        v = {"params": {"f": jnp.asarray(f)}}
        kw = {}
        angles, ws = [0.0], [1.0]
        if case["kind"] == "projected":
            el = get_gauss_leg_elements_Sy(ne[0] + 1 + case["grid"])
            kw["S2_projection"] = el
            angles, ws = np.asarray(el[0]), np.asarray(el[1])
            require(abs(ws.sum() - 2) < 1e-12 and ((angles > 0) & (angles < np.pi)).all(), "Gauss-Legendre elements")
        m = ZeroMagnetizationPfaffian(L, dtype=dt, symmetries=pos_syms(case["sym"], L), **kw)
        Fs = []
        for a in angles:
            # rotate both spin-orbitals of every pair: up -> c up + s dn, dn -> -s up + c dn
            c, s = np.cos(a / 2), np.sin(a / 2)
            R = np.block([[c * np.eye(L), -s * np.eye(L)], [s * np.eye(L), c * np.eye(L)]])
            pair = np.zeros((2 * L, 2 * L), dtype=complex)
            pair[:L, L:] = f
            Fs.append(R @ pair @ R.T)
    got = np.asarray(jax.jit(m.apply)(v, jnp.asarray(y)))
    require(got.shape == (len(x),), f"{got.shape} amplitudes for {len(x)} configurations")
    want = np.zeros(len(x), dtype=complex)
    for k, pos in enumerate(y):
        for p in perms:
            q = [p[i] if i < L else L + p[i - L] for i in pos]
            for F, w in zip(Fs, ws):
                sub = F[np.ix_(q, q)]
                want[k] += w * pf(sub - sub.T)
    g = np.array([amp(z) for z in got])
    close(g, want, f"{case['kind']} Pfaffian amplitudes", rtol=1e-8, atol=1e-9)
    if case["kind"] == "projected":
        out = {}
        for c, a in zip(x, g):
            b = fermi.bits(c)
            for i in range(L):
                s, b2 = fermi.hop(b, i, L + i)
                if s:
                    out[b2] = out.get(b2, 0.0) + s * a
        up = np.array(list(out.values()) or [0.0])
        close(up, np.zeros_like(up), "S+ applied to the spin-projected pair state", atol=1e-8 * max(1.0, np.abs(g).max()))
    # exchanging two electrons flips the sign
    if y.shape[1] >= 2:
        z = y.copy()
        i, j = (int(a) for a in r.permutation(y.shape[1])[:2])
        z[:, [i, j]] = z[:, [j, i]]
        swapped = np.array([amp(a) for a in np.asarray(m.apply(v, jnp.asarray(z)))])
        close(swapped, -want, "amplitudes after exchanging two electrons", rtol=1e-8, atol=1e-9)
    rec.add_many([x, want], sum(ne) >= 4 or len(perms) > 1)
    rec.label(case["kind"], "sym:" + case["sym"])
    rec.sample(case)


@st.composite
def large_matrices(draw):
    return {"n": draw(st.sampled_from([10, 12, 16, 20, 30, 40])), "dtype": draw(specs.dtypes),
            "scale": draw(st.sampled_from([0, 0, 0, -12, 12, 30])), "seed": draw(seeds)}


def check_large_matrix(case, rec):
    """Pf(B D B^T) = det(B) Pf(D) for matrices too large for the recursion."""
    n, r = case["n"], rng_of(case)
    rnd = lambda *s: r.normal(size=s) + (1j * r.normal(size=s) if case["dtype"] == "complex" else 0)
    B = np.linalg.qr(rnd(n, n))[0] @ np.diag(np.exp(0.5 * r.normal(size=n)))
    d = rnd(n // 2)
    d = d / np.abs(d) * np.exp(0.7 * r.normal(size=n // 2))
    D = np.zeros((n, n), dtype=B.dtype)
    for i, a in enumerate(d):
        D[2 * i, 2 * i + 1], D[2 * i + 1, 2 * i] = a, -a
    A = B @ D @ B.T
    A = (A - A.T) / 2
    sign, mag = np.linalg.slogdet(B)
    want = mag + np.log(np.abs(d)).sum() + (n // 2) * case["scale"] * np.log(10)
    phase = sign * np.prod(d / np.abs(d))
    got = complex(np.asarray(f_log(n)(jnp.asarray(A * 10.0 ** case["scale"]))))
    require(abs(got.real - want) <= 1e-8 * (n + abs(want)), f"log|Pf| of a {n}x{n} matrix is {got.real}, expected {want}")
    require(abs(np.exp(1j * got.imag) - phase) <= 1e-7 * n, f"phase of the Pfaffian of a {n}x{n} matrix is {np.exp(1j * got.imag)}, expected {phase}")
    T = rnd(n, n)
    T = T - T.T
    p, t = f_jvp(n)(jnp.asarray(A), jnp.asarray(T))
    wd = 0.5 * np.trace(np.linalg.solve(A, T))
    close(np.asarray(t).astype(complex), np.asarray(wd, dtype=complex), "directional derivative of log_pfaffian", rtol=1e-7, atol=1e-7 * n * (1 + abs(wd)))
    rec.add(3, key=[A.real, np.imag(A)], nontrivial=True)
    rec.label("large", case["dtype"], f"10^{case['scale']}")
    rec.sample(case)


SUBS = [
    Sub("large", large_matrices, check_large_matrix, 12, 200, weight=1.0),
    Sub("pfaffian", matrices, check_matrix, 40, 400, shards=2, weight=0.3),
    Sub("states", states, check_state, 10, 120, shards=4, weight=2.0),
]
