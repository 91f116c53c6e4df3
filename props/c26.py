"""C26: the dataset of the water molecule."""
import contextlib
import functools
import glob
import io
import os
import tempfile

import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from pyscf import gto

from GPSKet.datasets import get_H2O_dataset
from lib import fermi, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (sequence of requests (basis, method, number of configurations) to one or two data folders, geometry, interruption of a request "
    "while its results are written). One comparison per returned dataset; non-trivial: a request which computes, selects or loads after an earlier request."
)
ASSUMPTIONS = [
    "the molecule is built in the minimal basis (441 determinants) and, per case, with a slightly different geometry, in place of the 6-31G basis of the function",
    "the Hamiltonian matrix is the harness's own, from the integrals the function stores in the data folder, over the sector of the GPSKet configurations",
    "interruptions happen between, not within, the writes of files; data folders are scratch folders of the check",
]
L, NE = 7, (5, 5)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    req = [{"basis": draw(st.sampled_from(["canonical", "CANONICAL", "LOCAL", "boys", "SPLIT", "Split"])), "method": draw(st.sampled_from(["FCI", "FCI", "CISD", "cisd"])),
            "largest": draw(st.sampled_from([None, None, 1, 5, 40, 441, 1000])), "folder": draw(st.integers(0, 1)),
            "fail": draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 4]))} for _ in range(n)]
    if draw(st.booleans()):
        req.append(dict(req[0], largest=draw(st.sampled_from([None, 3]))))
    return {"requests": req, "stretch": draw(st.sampled_from([1.0, 0.95, 1.07])), "seed": draw(specs.seeds)}


class Interrupted(Exception):
    pass


@contextlib.contextmanager
def molecule(stretch):
    """Build every molecule in the minimal basis, with its atoms moved."""
    orig = gto.Mole.build

    def build(self, *a, **k):
        if k.get("atom") is not None:
            k["atom"] = [[s, tuple(stretch * v for v in x)] for s, x in k["atom"]]
        if k.get("basis") is not None:
            k["basis"] = "sto-3g"
        k.setdefault("verbose", 0)
        return orig(self, *a, **k)

    array = np.array

    def old_array(*a, **k):  # the installed pyscf expects copy=False to mean "only if needed"
        if k.get("copy") is False:
            k["copy"] = None
        return array(*a, **k)

    gto.Mole.build, np.array = build, old_array
    try:
        yield
    finally:
        gto.Mole.build, np.array = orig, array


@contextlib.contextmanager
def interruption(after):
    """The process is interrupted when it is about to write file number `after`."""
    if after is None:
        yield
        return
    orig, count = np.save, [0]

    def save(*a, **k):
        if count[0] == after:
            raise Interrupted()
        count[0] += 1
        return orig(*a, **k)

    np.save = save
    try:
        yield
    finally:
        np.save = orig


@functools.lru_cache(1)
def sector():
    b = fermi.sector_up_down(L, NE)
    E = fermi.excitation_matrices(b)
    return b, {tuple(int(v) for v in c): k for k, c in enumerate(b)}, [[scipy.sparse.csr_matrix(E[p, q]) for q in range(L)] for p in range(L)]


def hamiltonian(h, eri):
    """H = sum h_pq E_pq + 1/2 sum (pq|rs) (E_pq E_rs - delta_qr E_ps), dense."""
    b, _, E = sector()
    H = scipy.sparse.csr_matrix((len(b), len(b)))
    one = h - 0.5 * np.einsum("pqqs->ps", eri)
    flat = [E[p][q] for p in range(L) for q in range(L)]
    w = eri.reshape(L * L, L * L)
    stack = scipy.sparse.vstack([m.reshape(1, -1) for m in flat]).tocsr()
    W = scipy.sparse.csr_matrix(w) @ stack
    for a in range(L * L):
        H = H + one.reshape(-1)[a] * flat[a] + 0.5 * flat[a] @ W[a].reshape(len(b), len(b)).tocsr()
    return H.toarray()


def integrals(folder, basis, method):
    out = []
    for name in ("h1", "h2"):
        f = glob.glob(os.path.join(folder, f"{name}_{basis}_{method}.npy"))
        if len(f) != 1:
            return None
        out.append(np.load(f[0]))
    return out


def cisd_energy(H):
    """Lowest energy in the space of up to double excitations, H in canonical orbitals."""
    b = sector()[0].astype(int)
    hf = np.array([3] * NE[0] + [0] * (L - NE[0]))
    exc = ((b & 1) < (hf & 1)).sum(1) + (((b >> 1) & 1) < ((hf >> 1) & 1)).sum(1)
    keep = exc <= 2
    return np.linalg.eigvalsh(H[np.ix_(keep, keep)])[0], keep


def check(case, rec):
    basis, index, _ = sector()
    known, ref = {}, {}
    with tempfile.TemporaryDirectory(prefix="verif_h2o_") as root, molecule(case["stretch"]):
        for t, q in enumerate(case["requests"]):
            folder = os.path.join(root, f"data{q['folder']}")
            if q["fail"] is not None:
                with interruption(q["fail"]), contextlib.redirect_stdout(io.StringIO()):
                    try:
                        get_H2O_dataset(q["basis"], q["method"], None, datapath=folder)
                    except Interrupted:
                        rec.label("interrupted")
            before = set(os.listdir(root))
            with contextlib.redirect_stdout(io.StringIO()):
                x, a = get_H2O_dataset(q["basis"], q["method"], q["largest"], datapath=folder)
            require(set(os.listdir(root)) - before <= {f"data{q['folder']}"}, "files were written outside of the data folder")
            name = f"request {t}: {q['basis']}, {q['method']}, {q['largest']}"
            want_n = len(basis) if q["largest"] is None else min(q["largest"], len(basis))
            require(x.shape == (want_n, L) and a.shape == (want_n,), f"{name} returned shapes {x.shape} and {a.shape}")
            keys = [tuple(int(v) for v in c) for c in x]
            require(len(set(keys)) == len(keys), f"{name}: configurations repeat")
            require(all(k in index for k in keys), f"{name}: configurations outside of the sector")
            key = (q["folder"], q["basis"].upper(), q["method"].upper())
            vec = np.zeros(len(basis))
            vec[[index[k] for k in keys]] = a
            if key not in known:
                if q["largest"] is not None:
                    with contextlib.redirect_stdout(io.StringIO()):
                        x2, a2 = get_H2O_dataset(q["basis"], q["method"], None, datapath=folder)
                    full = np.zeros(len(basis))
                    full[[index[tuple(int(v) for v in c)] for c in x2]] = a2
                else:
                    full = vec
                known[key] = full
                first(case, rec, ref, folder, key, full, name)
            full = known[key]
            sel = np.zeros(len(basis), dtype=bool)
            sel[[index[k] for k in keys]] = True
            require(np.array_equal(full[sel], vec[sel]), f"{name}: amplitudes differ from those returned before")
            if sel.sum() < len(basis):
                require(np.abs(full[sel]).min() >= np.abs(full[~sel]).max() - 1e-14, f"{name}: a larger amplitude was left out")
            rec.add(1, [t], nontrivial=True)
            rec.label(key[1], key[2], "selected" if q["largest"] else "all")
    rec.sample({"case": case})


def first(case, rec, ref, folder, key, c, name):
    """A newly computed dataset is the ground state of the Hamiltonian in its basis."""
    close(np.sum(np.abs(c) ** 2), 1.0, f"{name}: norm of the amplitudes", rtol=1e-6)
    hs = integrals(folder, key[1], key[2])
    if hs is None:
        rec.label("integrals not stored")
        return
    H = hamiltonian(*hs)
    e = float(c @ H @ c)
    if "exact" not in ref:
        ref["exact"] = float(np.linalg.eigvalsh(H)[0])
    if key[2] == "FCI":
        close(e, ref["exact"], f"{name}: energy of the amplitudes against the lowest eigenvalue", rtol=1e-7)
        require(np.linalg.norm(H @ c - e * c) < 1e-3, f"{name}: not an eigenvector, residual {np.linalg.norm(H @ c - e * c)}")
    else:
        if key[1] == "CANONICAL":
            want, keep = cisd_energy(H)
            require(np.abs(c[~keep]).max() < 1e-9, f"{name}: more than double excitations")
            close(e, want, f"{name}: energy of the amplitudes against the lowest one of up to double excitations", rtol=1e-6)
        ref.setdefault("cisd", (e, name))
        close(e, ref["cisd"][0], f"{name}: energy of the amplitudes in this basis against {ref['cisd'][1]}", rtol=1e-5)
        if "cisd0" not in ref:
            with tempfile.TemporaryDirectory(prefix="verif_h2o_") as tmp, contextlib.redirect_stdout(io.StringIO()):
                get_H2O_dataset("CANONICAL", "CISD", datapath=tmp)
                hc = integrals(tmp, "CANONICAL", "CISD")
            ref["cisd0"] = None if hc is None else cisd_energy(hamiltonian(*hc))[0]
        if ref["cisd0"] is not None:
            close(e, ref["cisd0"], f"{name}: energy of the amplitudes in this basis against up to double excitations of canonical orbitals", rtol=1e-5)
    rec.add(1, ["state", *map(str, key)], nontrivial=True)


SUBS = [Sub("requests", lambda: cases(), check, quick=20, thorough=300, shards=4, weight=3)]
