"""C33: density matrices and spin correlations of optimised states."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import exp, fermi, scripts
from lib.core import Sub, close, require, rng_of

scripts.install()
from cpd_backflow import corrfunc  # noqa: E402

RULE = (
    "Case = random singlet state and projectors, a sheet of correlations, or an experiment whose density matrices the real program samples. "
    "One comparison per correlation or density-matrix element; non-trivial: its value is not zero."
)
ASSUMPTIONS = [
    "the correlation formula is that of singlets (spin-free density matrices determine it only there)",
    "the sampled two-body density matrix is defined up to the permutational symmetry of the real two-electron integrals and is compared after "
    "averaging over it; the elements the correlations use are those of a singlet without averaging",
    "density matrices are sampled for molecules (the program needs explicit integrals)",
]
seeds = st.integers(0, 2**31 - 1)


def excitations(L, ne):
    basis = fermi.sector_up_down(L, ne)
    return basis, scripts.spin_excitations(basis, 0), scripts.spin_excitations(basis, 1)


def singlet(r, L, pairs, cplx):
    basis, Eu, Ed = excitations(L, (pairs, pairs))
    S2 = sum(-Eu[p, q] @ Ed[q, p] + (Eu[p, p] if p == q else 0) for p in range(L) for q in range(L))
    w, v = np.linalg.eigh(S2)
    s0 = v[:, np.abs(w) < 1e-8]
    c = r.normal(size=s0.shape[1]) + (1j * r.normal(size=s0.shape[1]) if cplx else 0)
    psi = s0 @ c
    return basis, Eu, Ed, psi / np.linalg.norm(psi)


def spin_free(Eu, Ed, average):
    E = Eu + Ed
    L = len(E)
    r1 = np.array([[average(E[p, q]) for q in range(L)] for p in range(L)])
    r2 = np.zeros((L,) * 4, dtype=r1.dtype)
    for p in range(L):
        for q in range(L):
            for a in range(L):
                for b in range(L):
                    r2[p, q, a, b] = average(E[p, q] @ E[a, b]) - (r1[p, b] if q == a else 0)
    return r1, r2


def symmetrised(x):
    x = x + x.transpose(1, 0, 2, 3)
    x = x + x.transpose(0, 1, 3, 2)
    return (x + x.transpose(2, 3, 0, 1)) / 8


# ---------------------------------------------------------------- correlations of singlets


@st.composite
def singlets(draw):
    L = draw(st.integers(2, 4))
    return {"seed": draw(seeds), "L": L, "pairs": draw(st.integers(1, L - 1)), "complex": draw(st.booleans()),
            "projectors": draw(st.sampled_from(["sites", "groups", "general"])), "source": draw(st.sampled_from(["exact", "local"]))}


def local_rdms(basis, ne, psi):
    """Density matrices from the local estimators of the library, averaged exactly."""
    import jax.numpy as jnp
    from GPSKet.operator.hamiltonian.ab_initio import local_en_on_the_fly

    L = basis.shape[1]
    w = 4 ** np.arange(L)
    table = np.zeros(4**L, complex)
    table[basis.astype(int) @ w] = np.log(np.where(np.abs(psi) > 1e-12, psi, 1e-12).astype(complex))
    table = jnp.asarray(table)

    def apply(v, x, **kw):
        return table[x.astype(int) @ w]

    t, g = jnp.zeros((L, L)), jnp.zeros((L,) * 4)
    _, r1, r2 = local_en_on_the_fly(ne, apply, {}, jnp.asarray(basis, dtype=jnp.uint8), (t, g), use_fast_update=False, return_local_RDMs=True)
    p = np.abs(psi) ** 2
    p = np.where(np.abs(psi) > 1e-12, p, 1e-24)
    rd1, rd2 = np.tensordot(p, np.asarray(r1), 1), 2 * np.tensordot(p, np.asarray(r2), 1)
    for k in range(L):
        rd2[:, k, k, :] -= rd1.T
    return rd1, rd2


def check_singlet(case, rec):
    r = rng_of(case)
    L, ne = case["L"], (case["pairs"],) * 2
    basis, Eu, Ed, psi = singlet(r, L, case["pairs"], case["complex"])
    site = case["projectors"] == "sites"
    if case["source"] == "local" and site:
        r1, r2 = local_rdms(basis, ne, psi)
        tol = 1e-7
    else:
        r1, r2 = spin_free(Eu, Ed, lambda A: np.vdot(psi, A @ psi))
        tol = 1e-9

    def exact(PA, PB):
        SA = np.einsum("ij,ijxy->xy", PA, Eu - Ed) / 2
        SB = np.einsum("ij,ijxy->xy", PB, Eu - Ed) / 2
        return np.vdot(psi, SA @ (SB @ psi)).real

    what = f"correlations of a singlet of {2 * case['pairs']} electrons on {L} sites"
    if site:
        folder = tempfile.mkdtemp(prefix="verif-c33-")
        try:
            np.save(os.path.join(folder, "rdm_1.npy"), r1)
            np.save(os.path.join(folder, "rdm_2.npy"), r2)
            got = corrfunc.get_correlations(folder)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        P = np.eye(L)
        want = np.array([[exact(np.diag(P[a]), np.diag(P[b])) for b in range(L)] for a in range(L)])
        close(got, want, what, rtol=tol, atol=tol)
        rec.add_many([np.asarray(got).ravel(), want.ravel()], np.abs(want.ravel()) > 1e-9)
    else:
        for _ in range(4):
            if case["projectors"] == "groups":
                PA, PB = (np.diag((r.random(L) < 0.5).astype(float)) for _ in range(2))
            else:
                PA, PB = (lambda A: A + A.T)(r.normal(size=(L, L))), (lambda A: A + A.T)(r.normal(size=(L, L)))
            want = exact(PA, PB)
            got = corrfunc.spin_spin_correlation(r1, r2, PA, PB)
            close(got, want, f"{what}, projectors {case['projectors']}", rtol=1e-9, atol=1e-9)
            rec.add(1, key=[PA, PB], nontrivial=abs(want) > 1e-9)
    rec.label(case["projectors"], "complex" if case["complex"] else "real", case["source"] if site else "exact")
    rec.sample(case)


# ---------------------------------------------------------------- radial correlations


@st.composite
def sheets(draw):
    return {"seed": draw(seeds), "symmetric": draw(st.booleans())}


def check_sheet(case, rec):
    r = rng_of(case)
    c = r.normal(size=(36, 36))
    if case["symmetric"]:
        c = c + c.T
    got = corrfunc.radial_correlations(c.copy())
    pos = np.array([(x, y) for x in range(6) for y in range(6)], dtype=float)
    d2 = ((pos[:, None] - pos[None]) ** 2).sum(-1)
    bulk = [k for k in range(36) if 2 <= pos[k][0] <= 3 and 2 <= pos[k][1] <= 3]
    want = [np.mean([c[a, np.abs(d2[a] - d) < 1e-9].sum() for a in bulk]) for d in (0, 1, 2, 4)]
    close(np.array(got), np.array(want), "radial correlations of the four central atoms of the 6x6 sheet", rtol=1e-10)
    rec.add_many([np.array(got), np.array(want)], True)
    rec.sample(case)


# ---------------------------------------------------------------- sampled density matrices


@st.composite
def experiments(draw):
    return {"seed": draw(seeds), "n_atoms": draw(st.sampled_from([4, 2, 4])), "complex": draw(st.booleans()), "M": draw(st.integers(1, 2)),
            "chunks": draw(st.integers(1, 3)), "chunk": draw(st.sampled_from([16, 32])),
            "basis": draw(st.sampled_from(["local-boys", "canonical"])), "fixed": draw(st.booleans())}


def check_experiment(case, rec):
    folder = tempfile.mkdtemp(prefix="verif-c33-")
    workdir = os.path.join(folder, "run")
    try:
        n = case["n_atoms"]
        mol = [("H", (1.1 * k, 0.3 * (k % 2), 0.0)) for k in range(n)] + ([("H", (9.0, 0.0, 0.0))] if n % 2 else [])
        up = {"system.molecule": mol, "system.n_atoms": len(mol), "system.set_molecule": "given", "system.basis": case["basis"],
              "system.basis_set": "sto-3g", "system.symmetry": False, "system.n_elec": (len(mol) // 2,) * 2,
              "model.dtype": "complex" if case["complex"] else "real", "model.M": case["M"], "model.sigma": 0.3,
              "model.fixed_magnetization": case["fixed"], "total_steps": 1,
              "descent_finishing": None, "optimizer_name": "SR", "optimizer": {"learning_rate": 0.2, "mode": "complex" if case["complex"] else "real", "diag_shift": 0.1},
              "variational_state.n_samples": 16, "variational_state.n_discard_per_chain": 2, "variational_state.seed": case["seed"] % 10**6,
              "sampler.n_sweeps": 4}
        train = exp.configuration(folder, "train.py", "cpd_backflow.configs.hsheet", {**up, "evaluate": None})
        measure = exp.configuration(folder, "measure.py", "cpd_backflow.configs.hsheet", {
            **up, "evaluate": {"total_steps": 1, "n_samples": case["chunk"] * case["chunks"], "chunk_size": case["chunk"]}})
        res = exp.process("cpd").call("run", workdir, train, None)
        out = exp.process("rdms").call("rdms", workdir, measure)
        rd1, rd2 = np.load(os.path.join(workdir, "rdm_1.npy")), np.load(os.path.join(workdir, "rdm_2.npy"))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    trained = res["records"][-1]["after"]
    for p in out["parameters"]:
        close(p, trained, "parameters of the sampled state are the best ones of the optimisation", rtol=1e-9)
    L, ne = len(mol), (len(mol) // 2,) * 2
    require(out["states"].shape[1] == L, f"{out['states'].shape[1]} orbitals instead of {L}")
    basis, Eu, Ed = excitations(L, ne)
    index = {tuple(int(v) for v in b): k for k, b in enumerate(basis)}
    psi = np.zeros(len(basis), complex)
    psi[[index[tuple(s)] for s in out["states"].astype(int)]] = np.exp(out["log"] - out["log"].real.max())
    # the last chunks x chunk samples are the measured ones
    k = np.array([index[tuple(x)] for s in out["samples"] for x in s.astype(int)])
    want_n = case["chunk"] * case["chunks"]
    require(len(k) == want_n, f"{len(k)} samples drawn instead of {want_n}")
    weight = np.bincount(k, minlength=len(basis)) / len(k)
    seen = weight > 0
    W1, W2 = spin_free(Eu, Ed, lambda A: np.sum(weight[seen] * (A @ psi)[seen] / psi[seen]))
    scale = max(1.0, np.abs(W1).max(), np.abs(W2).max())
    close(rd1, W1, "sampled one-body density matrix", rtol=1e-6, atol=1e-6, scale=scale)
    close(symmetrised(rd2), symmetrised(W2), "sampled two-body density matrix", rtol=1e-6, atol=1e-6, scale=scale)
    rec.add_many([W1.ravel()], np.abs(W1.ravel()) > 1e-9)
    rec.add_many([symmetrised(W2).ravel()], np.abs(symmetrised(W2).ravel()) > 1e-9)
    rec.label(f"{L} orbitals", case["basis"], "complex" if case["complex"] else "real", f"{case['chunks']} chunks")
    rec.sample(case)


SUBS = [
    Sub("singlets", singlets, check_singlet, quick=25, thorough=250, shards=2, tshards=8),
    Sub("sheet", sheets, check_sheet, quick=20, thorough=200, shards=1, tshards=1),
    Sub("experiments", experiments, check_experiment, quick=2, thorough=25, shards=4, tshards=8, weight=4),
]
