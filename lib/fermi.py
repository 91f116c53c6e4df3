"""Reference second quantisation, written from the textbook definitions (numpy only).

Basis: occupation strings with local states 0 empty, 1 up, 2 down, 3 double; creation operators are
ordered all up (by site) then all down (by site).
"""
import itertools

import numpy as np


def sector(L, n_elec=None):
    """All configurations, lexicographic in the local state; optionally with fixed (n_up, n_down)."""
    out = []
    for c in itertools.product(range(4), repeat=L):
        if n_elec is not None:
            up = sum(v & 1 for v in c)
            dn = sum((v >> 1) & 1 for v in c)
            if (up, dn) != tuple(n_elec):
                continue
        out.append(c)
    return np.array(out, dtype=np.uint8).reshape(-1, L)


def sector_up_down(L, n_elec):
    """The same, constructed from the two occupation sets (no 4^L enumeration)."""
    out = []
    for u in itertools.combinations(range(L), n_elec[0]):
        for d in itertools.combinations(range(L), n_elec[1]):
            c = np.zeros(L, dtype=np.uint8)
            c[list(u)] += 1
            c[list(d)] += 2
            out.append(c)
    out.sort(key=lambda c: tuple(c))
    return np.array(out, dtype=np.uint8).reshape(-1, L)


def bits(config):
    L = len(config)
    b = 0
    for i, v in enumerate(config):
        if v & 1:
            b |= 1 << i
        if v & 2:
            b |= 1 << (L + i)
    return b


def config(b, L):
    """Inverse of bits."""
    return tuple(((b >> i) & 1) + 2 * ((b >> (L + i)) & 1) for i in range(L))


def hop(b, p, q):
    """c+_p c_q on bitmask b -> (sign, b') or (0, None).  Jordan-Wigner with mode 0 leftmost."""
    if not (b >> q) & 1:
        return 0, None
    s = bin(b & ((1 << q) - 1)).count("1")
    b ^= 1 << q
    if (b >> p) & 1:
        return 0, None
    s += bin(b & ((1 << p) - 1)).count("1")
    b |= 1 << p
    return (-1) ** s, b


def excitation_matrices(basis):
    """E[p,q] = sum_sigma c+_{p sigma} c_{q sigma} as dense matrices in `basis` (rows = bra)."""
    n, L = basis.shape
    index = {bits(c): k for k, c in enumerate(basis)}
    E = np.zeros((L, L, n, n))
    for k, c in enumerate(basis):
        b = bits(c)
        for p in range(L):
            for q in range(L):
                for off in (0, L):
                    s, b2 = hop(b, p + off, q + off)
                    if s and b2 in index:
                        E[p, q, index[b2], k] += s
    return E


def molecular_hamiltonian(basis, h, eri):
    """H = sum h_pq E_pq + 1/2 sum (pq|rs) (E_pq E_rs - delta_qr E_ps)."""
    E = excitation_matrices(basis)
    L = basis.shape[1]
    H = np.einsum("pq,pqxy->xy", h, E)
    for p in range(L):
        for q in range(L):
            two = np.einsum("rs,rsxy->xy", eri[p, q], E)
            H = H + 0.5 * E[p, q] @ two
    H -= 0.5 * np.einsum("pqqs,psxy->xy", eri, E)
    return H


def hubbard_hamiltonian(basis, edges, U, t):
    E = excitation_matrices(basis)
    H = np.diag(U * np.sum(basis == 3, axis=1).astype(float))
    for (i, j), tij in zip(edges, t):
        H = H - tij * (E[i, j] + E[j, i])
    return H


def random_integrals(rng, L, kind="generic"):
    """Symmetric one-body matrix and 8-fold symmetric two-body tensor."""
    h = rng.normal(size=(L, L))
    h = h + h.T
    g = rng.normal(size=(L, L, L, L))
    if kind == "onebody":
        g = np.zeros_like(g)
    elif kind == "twobody":
        h = np.zeros_like(h)
    elif kind == "sparse":
        h = h * (rng.random((L, L)) < 0.4)
        h = h + h.T
        g = g * (rng.random((L, L, L, L)) < 0.08)
    elif kind == "local":
        keep = np.zeros_like(g)
        for i in range(L):
            keep[i, i, i, i] = 1
            for j in range(L):
                keep[i, i, j, j] = keep[i, j, j, i] = keep[i, j, i, j] = 1
        g = g * keep
    g = g + g.transpose(1, 0, 2, 3)
    g = g + g.transpose(0, 1, 3, 2)
    g = g + g.transpose(2, 3, 0, 1)
    return h, g


def electrons(config):
    """(positions of up electrons, positions of down electrons)."""
    c = np.asarray(config).astype(int)
    return [i for i in range(len(c)) if c[i] & 1], [i for i in range(len(c)) if c[i] & 2]


def amplitude_table(configs, psi):
    return {tuple(int(v) for v in c): a for c, a in zip(configs, psi)}
