"""The experiment scripts of the repository (scripts/ARGPS, scripts/cpd-backflow) as importable packages."""
import contextlib
import io
import os
import sys

import numpy as np

from lib import env, fermi

FOLDERS = {"argps": os.path.join(env.REPO, "scripts", "ARGPS"), "cpd": os.path.join(env.REPO, "scripts", "cpd-backflow")}


def install():
    for p in FOLDERS.values():
        if p not in sys.path:
            sys.path.insert(0, p)


@contextlib.contextmanager
def quiet():
    """The scripts and pyscf report on standard output."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def geometry(r, atoms, spread=0.25):
    """Atoms on a bent chain about 1 Angstrom apart (never closer than 0.7)."""
    out = []
    pos = np.zeros(3)
    for a in atoms:
        out.append((a, tuple(float(round(v, 4)) for v in pos)))
        step = np.array([1.0 + 0.4 * r.random(), spread * r.normal(), spread * r.normal()])
        pos = pos + step
    return out


def integrals(mol, coeff=None):
    """One- and two-electron integrals of the molecule in the orbitals `coeff` (default: symmetric orthogonalisation)."""
    S = mol.intor("int1e_ovlp")
    if coeff is None:
        w, v = np.linalg.eigh(S)
        coeff = v @ np.diag(w**-0.5) @ v.T
    h = coeff.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ coeff
    n = S.shape[0]
    g = mol.intor("int2e").reshape(n, n, n, n)
    for _ in range(4):
        g = np.tensordot(g, coeff, axes=([0], [0]))
    return h, g


def dense(op):
    """(basis in the order of the reference, matrix of the operator in that basis)."""
    hilb = op.hilbert
    states = np.asarray(hilb.all_states()).astype(int)
    basis = fermi.sector_up_down(hilb.size, tuple(hilb._n_elec))
    index = {tuple(c): k for k, c in enumerate(states)}
    order = [index[tuple(int(v) for v in c)] for c in basis]
    H = np.asarray(op.to_dense())
    return basis, H[np.ix_(order, order)], states[order]


def spin_excitations(basis, spin):
    """E[p,q] = c+_{p spin} c_{q spin} as dense matrices (rows = bra)."""
    n, L = basis.shape
    index = {fermi.bits(c): k for k, c in enumerate(basis)}
    E = np.zeros((L, L, n, n))
    for k, c in enumerate(basis):
        b = fermi.bits(c)
        for p in range(L):
            for q in range(L):
                s, b2 = fermi.hop(b, p + spin * L, q + spin * L)
                if s:
                    E[p, q, index[b2], k] += s
    return E
