"""C34: the molecular benchmark scripts set up the named molecule, keep the best step and continue when interrupted."""
import os
import pickle
import shutil
import tempfile

import jax
import netket as nk
import numpy as np
from hypothesis import strategies as st
from pyscf import fci

from lib import fermi, reference, scripts, specs, study
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (script, command line, molecule put in place of the large one, interruptions, sequence of energy variances, seed). "
    "Every script is executed unchanged in a scratch folder; the driver is observed and, for the histories, returns generated "
    "statistics and gradients. One comparison per matrix (setup), configuration, recorded row, file and density-matrix element; "
    "non-trivial: the molecule has at least four electrons (setup), or some step improves on an earlier one or a run was interrupted."
)
ASSUMPTIONS = [
    "the scripts' large molecules are replaced by their first atoms (the full geometry the script asks for is compared with the documented one)",
    "interruptions happen while a step is evaluated or its parameters are updated, not inside a file write; one process",
    "histories of the 4x4x4 script of more than a thousand steps start from written records of the earlier steps",
]
BOHR = 0.52917721092
SMALL = {
    "H4": ([("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.3, 0.9)), ("H", (0.1, -0.2, 1.9)), ("H", (0.4, 0.1, 2.8))], "sto-3g"),
    "LiH": ([("Li", (0.0, 0.0, 0.0)), ("H", (0.0, 0.4, 1.5))], "sto-3g"),
    "H2": ([("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.1, 0.8))], "6-31g"),
    "H2O": ([("H", (0.0, 0.795, -0.454)), ("H", (0.0, -0.795, -0.454)), ("O", (0.0, 0.0, 0.113))], "sto-3g"),
    "HeH2": ([("He", (0.0, 0.0, 0.0)), ("H", (0.0, 0.2, 1.3)), ("H", (0.0, 0.1, 2.1))], "sto-3g"),
}


def scratch():
    return tempfile.mkdtemp(prefix="verif-c34-")


def shrink(case):
    if case["script"] == "H2O":
        return lambda atoms, basis: SMALL[case["molecule"]]
    return lambda atoms, basis: (atoms[: case["atoms"]], basis)


def argv(case):
    if case["script"] == "H2O":
        return [case["M"], case["ref"], case["basis"], 20]
    return [case["M"], case["dist"]]


def small_molecule(case):
    """The molecule in place, from the documented geometry."""
    if case["script"] == "H2O":
        return study.molecule(*SMALL[case["molecule"]], "Angstrom")
    return study.molecule(full_atoms(case)[: case["atoms"]], "sto-6g", study.UNIT[case["script"]])


def full_atoms(case):
    d = case.get("dist")
    if case["script"] == "H2O":
        return SMALL["H2O"][0]
    if case["script"] == "H50_1D":
        return [("H", (i * d, 0.0, 0.0)) for i in range(50)]
    return [("H", (x * d, y * d, z * d)) for x in range(4) for y in range(4) for z in range(4)]


@st.composite
def setups(draw):
    script = draw(st.sampled_from(["H2O", "H2O", "H2O", "H50_1D", "H4x4x4"]))
    c = {"script": script, "seed": draw(specs.seeds), "M": draw(st.integers(1, 3))}
    if script == "H2O":
        c.update(molecule=draw(st.sampled_from(sorted(SMALL))), ref=draw(st.integers(0, 5)), basis=draw(st.integers(0, 2)))
        if c["ref"] and draw(st.booleans()):
            c["M"] = 0
    else:
        c.update(atoms=draw(st.sampled_from([2, 4, 4, 6])), dist=round(draw(st.floats(*((1.4, 2.2) if script == "H50_1D" else (0.75, 1.2)))), 3))
    c["lost"] = draw(st.sampled_from([[], [], ["basis.npy"], ["h1.npy"], ["h2.npy"], ["h1.npy", "basis.npy"], ["h1.npy", "h2.npy"]]))
    return c


def boys_gradient(mol, C):
    r = np.einsum("xij,ip,jq->xpq", mol.intor("int1e_r"), C, C)
    d = np.einsum("xpp->xp", r)
    return np.abs(np.einsum("xpq,xpq->pq", r, d[:, :, None] - d[:, None, :])).max() if C.shape[1] > 1 else 0.0


def check_setup(case, rec):
    folder = scratch()
    try:
        script = case["script"]
        mol = small_molecule(case)
        run = study.execute(script, argv(case), folder, shrink(case))
        # the molecule of the script
        asked = run.builds[0]
        full = study.molecule(full_atoms(case), {"H2O": "6-31G"}.get(script, "sto-6g"), study.UNIT[script])
        got = study.molecule(asked["atom"], asked["basis"], asked["unit"])
        require(got.natm == full.natm and got.nelectron == full.nelectron and got.nao == full.nao, f"the script builds {got.natm} atoms with {got.nao} functions")
        close(got.energy_nuc(), full.energy_nuc(), "nuclear repulsion of the script's geometry", rtol=1e-9)
        k = min(3, got.nao)
        close(got.intor("int1e_kin")[:k, :k], full.intor("int1e_kin")[:k, :k], "basis functions of the script", rtol=1e-8)
        # the Hamiltonian
        ha, vs = run.driver.operator, run.driver.state
        ne = mol.nelectron // 2
        require(tuple(ha.hilbert._n_elec) == (ne, ne) and ha.hilbert.size == mol.nao, f"space {ha.hilbert} for {mol.nelectron} electrons in {mol.nao} orbitals")
        basis, H, states = scripts.dense(ha)
        h, g = scripts.integrals(mol)
        want = np.linalg.eigvalsh(fermi.molecular_hamiltonian(basis, h, g))
        close(np.linalg.eigvalsh((H + H.conj().T) / 2), want, "spectrum of the Hamiltonian in the script's basis", rtol=1e-7, atol=1e-7)
        close(H, H.conj().T, "hermiticity", atol=1e-9)
        hb, gb = np.asarray(ha.h_mat), np.asarray(ha.eri_mat)
        C = np.load(os.path.join(folder, "basis.npy"))
        S = mol.intor("int1e_ovlp")
        close(C.T @ S @ C, np.eye(len(C)), "orthonormality of the basis", atol=1e-6)
        mf, ehf = study.hartree_fock(mol)
        kind = case.get("basis", 0)
        if kind == 0:
            require(boys_gradient(mol, C) < 2e-2, f"the local basis is not Boys localised (gradient {boys_gradient(mol, C):.3g})")
        else:
            F = hb + 2 * np.einsum("pqii->pq", gb[:, :, :ne, :ne]) - np.einsum("piiq->pq", gb[:, :ne, :ne, :])
            require(np.abs(F[:ne, ne:]).max(initial=0) < 1e-4, "the split basis mixes occupied and virtual Hartree-Fock orbitals")
            if kind == 1:
                off = F - np.diag(np.diag(F))
                require(np.abs(off).max() < 1e-4 and (np.diff(np.diag(F)) > -1e-4).all(), "the canonical basis does not diagonalise the Fock matrix in ascending order")
            else:
                for part in (C[:, :ne], C[:, ne:]):
                    require(boys_gradient(mol, part) < 2e-2, f"the split basis is not Boys localised (gradient {boys_gradient(mol, part):.3g})")
        # the state it starts from
        logs = np.asarray(vs.log_value(states.astype(np.uint8))).astype(complex)
        eps = [x for p, x in jax.tree_util.tree_flatten_with_path(vs.parameters)[0] if "epsilon" in jax.tree_util.keystr(p)]
        if case["M"] > 0:
            require(len(eps) == 1 and eps[0].shape[1] == case["M"], f"{[e.shape for e in eps]} GPS parameters for support dimension {case['M']}")
            require(np.allclose(np.abs(eps[0]), 1, atol=1e-5), "GPS parameters are not initialised to unit modulus")
            gps = np.array([reference.log_qgps(np.asarray(eps[0]), [c.astype(int)]) for c in states])
        else:
            require(all(e.shape[1] == 0 for e in eps), "GPS factor in spite of support dimension 0")
            gps = np.zeros(len(states), complex)
        ref = np.where(np.isfinite(logs.real), np.exp(np.where(np.isfinite(logs.real), logs - gps, 0)), 0)
        n = 1 + len(states)
        if script == "H50_1D" or case.get("ref") == 0:
            close(ref, np.ones(len(states)), "amplitude of the GPS", rtol=1e-7)
        else:
            # a converged closed-shell determinant (which of several self-consistent solutions is not prescribed)
            ref = ref / np.linalg.norm(ref)
            E = fermi.excitation_matrices(basis)
            D = np.einsum("k,pqkl,l->pq", ref.conj(), E, ref)
            close(D @ D, 2 * D, "idempotency of the density matrix of the reference state", atol=1e-5)
            F = hb + np.einsum("pqrs,rs->pq", gb, D.real) - 0.5 * np.einsum("prsq,rs->pq", gb, D.real)
            close(F @ D, D @ F, "Brillouin condition of the reference state (Hartree-Fock)", atol=2e-4)
            e = (ref.conj() @ H @ ref).real
            close(e, 0.5 * np.einsum("pq,pq->", hb + F, D).real, "energy of the reference state", rtol=1e-6)
            require(e + mol.energy_nuc() < ehf + 0.5, f"reference energy {e + mol.energy_nuc()}, Hartree-Fock {ehf}")
        # its local energies
        psi = np.where(np.isfinite(logs.real), np.exp(logs - logs.real[np.isfinite(logs.real)].max()), 0)
        rows = np.flatnonzero(np.abs(psi) > 1e-2)
        rows = rows[rng_of(case).permutation(len(rows))[:12]]
        kernel = nk.vqs.get_local_kernel(vs, ha, 1)
        args = nk.vqs.get_local_kernel_arguments(vs, ha)[1]
        got = kernel(vs._apply_fun, {"params": vs.parameters, **vs.model_state}, states[rows].astype(np.uint8), args, chunk_size=1)
        close(np.asarray(got), (H @ psi)[rows] / psi[rows], "local energies of the initial state", rtol=1e-5, atol=1e-5)
        n += len(rows)
        # a second run finds the stored basis
        for name in case["lost"]:
            if os.path.exists(os.path.join(folder, name)):
                os.remove(os.path.join(folder, name))
        for name in ("out.txt", "parameters.pickle"):
            os.remove(os.path.join(folder, name))
        again = study.execute(script, argv(case), folder, shrink(case)).driver.operator
        _, H2, _ = scripts.dense(again)
        close(np.linalg.eigvalsh((H2 + H2.conj().T) / 2), want, "spectrum with the files of an earlier run", rtol=1e-7, atol=1e-7)
        if "basis.npy" not in case["lost"]:
            close(H2, H, "Hamiltonian with the stored basis of an earlier run", rtol=1e-6, atol=1e-7)
        rec.add(n, [H.shape, case], nontrivial=mol.nelectron >= 4)
        rec.label(script, f"ref {case.get('ref')}", f"basis {kind}")
        rec.sample(case)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------------------------ histories of the optimisation


@st.composite
def histories(draw, script=None):
    script = script or draw(st.sampled_from(["H2O", "H50_1D"]))
    c = {"script": script, "M": draw(st.integers(1, 2)), "seed": draw(specs.seeds)}
    if script == "H2O":
        c.update(molecule=draw(st.sampled_from(["H2", "H4", "HeH2"])), ref=draw(st.integers(0, 5)), basis=draw(st.integers(0, 2)))
    else:
        c.update(atoms=draw(st.sampled_from([2, 4])), dist={"H50_1D": 1.8, "H4x4x4": 0.95}[script])
    limit, watch, _ = study.LOOP[script]
    gap = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 15), st.sampled_from([limit - 1, limit, limit + 1]))
    c["gaps"] = draw(st.lists(gap, max_size=5))
    c["faults"] = sorted(([draw(st.one_of(st.integers(0, 6), st.integers(0, 40))), draw(st.sampled_from(["evaluate", "evaluate", "update", "updated"]))]
                          for _ in range(draw(st.integers(0, 3)))), key=lambda f: f[0])
    if script == "H4x4x4":
        c["gaps"] = c["gaps"][:2]
        c["faults"] = [[draw(st.integers(0, 2)), f[1]] for f in c["faults"][:2]]
        c["earlier"] = draw(st.one_of(st.sampled_from([0, 1, 2, 997, 998, 999, 1000, 1001, 1002, 1003]), st.integers(200, 990), st.integers(1002, 1400)))
        c["since"] = draw(st.sampled_from([247, 248, 249, 250, 251, 3, 0, 100]))
        c["steps"] = draw(st.integers(2, 5))
    return c


def variances(r, gaps, n):
    """n values; new minima after each of the gaps, equal values included."""
    out, best, marks = [], 8.0, set(np.cumsum(gaps).tolist())
    for i in range(n):
        if i == 0 or i in marks:
            best *= float(r.uniform(0.7, 0.999))
            out.append(best)
        else:
            out.append(best if r.random() < 0.1 else best * float(1 + r.exponential(0.5)) + 1e-9)
    return out


def statistics(case, var):
    def of(i):
        r = np.random.default_rng([case["seed"], i, 11])
        return {"mean": complex(*r.normal(size=2)), "error": float(r.random()), "variance": var[i], "tau": float(r.random()), "rhat": float(1 + r.random()),
                "seed": int(r.integers(2**31))}

    return of


def since_best(var):
    return len(var) - 1 - int(np.argmin(var))


def read_rows(folder):
    with open(os.path.join(folder, "out.txt")) as f:
        return [[float(v) for v in line.split()[:4]] for line in f if line.strip()]


def check_history(case, rec):
    folder = scratch()
    script = case["script"]
    limit, _, rate = study.LOOP[script]
    r = rng_of(case)
    try:
        var = variances(r, case["gaps"], sum(case["gaps"]) + 2 * limit + 60)
        total = next(n for n in range(1, len(var) + 1) if since_best(var[:n]) == limit)  # rows of an uninterrupted run
        of = statistics(case, var)
        nuc = small_molecule(case).energy_nuc()
        done, params, last, faults = 0, [], None, list(case["faults"])
        interrupted = False
        for attempt in range(len(faults) + 2):
            fault = faults.pop(0) if faults else None
            start = done

            def results(k, p, start=start):
                if start + k > total + 3:
                    raise study.Interrupted()
                return of(start + k)

            run = study.execute(script, argv(case), folder, shrink(case), study.Run(fault, results))
            steps = run.steps
            what = f"run {attempt + 1} from row {start} ({fault or 'to the end'})"
            if start == total:
                require(not steps and run.finished, f"{what}: {len(steps)} more steps after the optimisation had finished")
            else:
                require(start + len(steps) <= total, f"{what}: continues to {start + len(steps)} steps, {limit} without improvement are reached after {total}")
                require(run.finished == (start + len(steps) == total and not (fault and fault[1] != "evaluate" and fault[0] == len(steps) - 1)) or not run.finished and fault,
                        f"{what}: ends after {start + len(steps)} steps instead of {total}")
            begun = [s["before"] for s in steps] + ([run.last] if not run.finished and fault and fault[1] == "evaluate" else [])
            if begun and last is not None:
                close(begun[0], last, f"{what}: parameters it continues with", atol=1e-12)
            for i, s in enumerate(steps):
                if s["after"] is not None:
                    close(s["after"], s["before"] - rate * s["dp"], f"{what}: update of step {i}", atol=1e-9)
                    if i + 1 < len(begun):
                        close(begun[i + 1], s["after"], f"{what}: parameters of step {i + 1}", atol=1e-12)
            if begun:
                last = begun[-1]
            lost = len(steps) if fault is None or run.finished or fault[1] == "evaluate" else len(steps) - 1
            candidates = []
            if lost < len(steps) and (done + lost == 0 or var[done + lost] < min(var[: done + lost])):
                candidates.append(steps[lost]["before"])  # evaluated as the best, its row was not reached
            params += [s["before"] for s in steps[:lost]]
            done += lost
            interrupted = interrupted or not run.finished
            rows = read_rows(folder)
            require(len(rows) == done, f"{what}: {len(rows)} rows recorded for {done} completed steps")
            for i in range(start, done):
                s = of(i)
                close(rows[i][:4], [s["mean"].real + nuc, s["mean"].imag, s["error"], s["variance"]], f"{what}: row {i}", rtol=1e-9)
            best = study.load(os.path.join(folder, "best_pars.pickle"))
            if done:
                candidates.append(params[int(np.argmin(var[:done]))])
            elif begun:
                candidates.append(begun[0])
            require(any(best.shape == c.shape and np.allclose(best, c, atol=1e-12) for c in candidates),
                    f"{what}: the stored best parameters are not those of the row with the lowest variance ({int(np.argmin(var[:done])) if done else None} of {done})")
            rec.add(len(steps) + 2, [case, attempt], nontrivial=interrupted or len(case["gaps"]) > 0)
        rec.label(script, "interrupted" if interrupted else "uninterrupted", f"ref {case.get('ref')}")
        rec.sample(case)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def local_rdm(basis, psi, samples):
    """Average of <x|c+_i c_j|psi>/<x|psi> for each spin."""
    L = basis.shape[1]
    index = {fermi.bits(c): k for k, c in enumerate(basis)}
    out = np.zeros((2, L, L), complex)
    for x in samples:
        b = fermi.bits(x.astype(int))
        for s in range(2):
            for i in range(L):
                for j in range(L):
                    # <x|c+_i c_j = (c+_j c_i |x>)^+
                    sign, b2 = fermi.hop(b, j + s * L, i + s * L)
                    if sign:
                        out[s, i, j] += sign * psi[index[b2]] / psi[index[b]]
    return out / len(samples)


def check_cube(case, rec):
    folder = scratch()
    script = "H4x4x4"
    limit, watch, rate = study.LOOP[script]
    r = rng_of(case)

    def go(fault, results):
        run = study.Run(fault, results)
        run.keep_samples = True
        return study.execute(script, argv(case), folder, shrink(case), run, n_samples=50)

    try:
        mol = small_molecule(case)
        nuc = mol.energy_nuc()
        first = go([0, "evaluate"], lambda k, p: None)
        n0 = case["earlier"]
        # the record of earlier steps: warm-up (ignored) values may be far lower than the tracked ones
        var = (np.abs(r.normal(size=min(n0, watch))) * float(r.choice([0.01, 1, 20])) + 1e-3).tolist()
        tracked = n0 - len(var)
        marker = None
        if tracked:
            since = min(case["since"], tracked - 1, limit)
            t = np.abs(r.normal(size=tracked)) + 2.0
            t[tracked - 1 - since] = 1.5
            var += t.tolist()
        with open(os.path.join(folder, "parameters.pickle"), "rb") as f:
            tree = pickle.load(f)
        start_tree = jax.tree_util.tree_map(lambda x: x * (1 + 0.01 * r.normal(size=x.shape)), tree)
        best_tree = jax.tree_util.tree_map(lambda x: x * (1 + 0.01 * r.normal(size=x.shape)), tree)
        if n0:
            with open(os.path.join(folder, "out.txt"), "w") as f:
                for v in var:
                    f.write(f"-1.5  0.0  0.1  {v}  0.5  1.0  0.1  50\n")
            for name, t in (("parameters", start_tree), ("best_pars", best_tree)):
                with open(os.path.join(folder, name + ".pickle"), "wb") as f:
                    pickle.dump(t, f)
            marker = study.vector(best_tree)
            last = study.vector(start_tree)
        else:
            last = first.last
        low = min(var[watch:], default=3.0)
        marks = np.cumsum(case["gaps"])
        for i in range(case["steps"] * 3 + 8):
            low, v = (low * 0.9, low * 0.9) if i in marks else (low, low * float(1 + r.exponential(0.5)) + 1e-9)
            var.append(v)
        of = statistics(case, var)
        done, params = n0, {}
        for attempt in range(len(case["faults"]) + 1):
            fault = case["faults"][attempt] if attempt < len(case["faults"]) else [case["steps"], "evaluate"]
            start = done
            run = go(fault, lambda k, p, start=start: of(start + k))
            steps = run.steps
            what = f"run {attempt + 1} from row {start} ({fault})"
            # how far it should have come
            need = 0
            while need < fault[0] + (fault[1] != "evaluate"):
                t = var[watch : start + need]
                if t and since_best(t) >= limit:
                    break
                need += 1
            t = var[watch : start + need]
            over = bool(t) and since_best(t) >= limit
            require(len(steps) == need, f"{what}: {len(steps)} steps instead of {need} (best tracked step {since_best(t) if t else None} steps ago)")
            if over:
                if need and fault[1] != "evaluate" and fault[0] == need - 1:
                    over = run.finished  # nothing is updated after the last step
                require(run.finished, f"{what}: goes on after {limit} steps without improvement")
            else:
                require(not run.finished, f"{what}: ended after {start + len(steps)} steps")
            begun = [s["before"] for s in steps] + ([run.last] if not run.finished and fault[1] == "evaluate" else [])
            if begun:
                close(begun[0], last, f"{what}: parameters it continues with", atol=1e-12)
                last = begun[-1]
            for i, s in enumerate(steps):
                if s["after"] is not None:
                    close(s["after"], s["before"] - rate * s["dp"], f"{what}: update of step {i}", atol=1e-9)
            lost = len(steps) if run.finished or fault[1] == "evaluate" else len(steps) - 1
            candidates = []
            if lost < len(steps):
                candidates.append(steps[lost]["before"])
            for i, s in enumerate(steps[:lost]):
                params[start + i] = s["before"]
            done += lost
            rows = read_rows(folder)
            require(len(rows) == done, f"{what}: {len(rows)} rows recorded for {done} completed steps")
            for i in range(start, done):
                s = of(i)
                close(rows[i][:4], [s["mean"].real + nuc, s["mean"].imag, s["error"], s["variance"]], f"{what}: row {i}", rtol=1e-9)
            if done > watch:
                b = watch + int(np.argmin(var[watch:done]))
                best = study.load(os.path.join(folder, "best_pars.pickle"))
                candidates.append(params.get(b, marker))
                require(any(np.allclose(best, c, atol=1e-12) for c in candidates), f"{what}: the stored best parameters are not those of row {b}, the lowest variance after {watch} steps")
            # density matrices
            for i, s in enumerate(steps[:lost]):
                if "samples" not in s or s["after"] is None:
                    continue
                L = mol.nao
                basis = fermi.sector_up_down(L, (mol.nelectron // 2,) * 2)
                psi = np.exp(np.asarray(run.driver.state.model.apply({"params": s["tree"]}, basis)).astype(complex))
                want = local_rdm(basis, psi, s["samples"].reshape(-1, L))
                got = np.load(os.path.join(folder, f"oneBRDM_{start + i}.npy"))
                close(got, want, f"{what}: one-body density matrix of step {start + i}", rtol=1e-6, atol=1e-6)
                rec.add(got.size)
            rec.add(len(steps) + 2, [case, attempt], nontrivial=True)
            if run.finished:
                break
        rec.label(script, "watching" if n0 >= watch else "before watching")
        rec.sample(case)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def check_amplitudes(case, rec):
    """The exact amplitudes of the hydrogen chain in three bases."""
    folder = scratch()
    try:
        n = case["atoms"]
        run = study.execute("H10_amplitudes", [], folder, lambda atoms, basis: (atoms[:n], basis))
        full = study.molecule([("H", (1.8 * i, 0.0, 0.0)) for i in range(10)], "sto-6g", "Bohr")
        got = study.molecule(run.builds[0]["atom"], run.builds[0]["basis"], run.builds[0]["unit"])
        close(got.intor("int1e_kin"), full.intor("int1e_kin"), "the script's molecule")
        mol = study.molecule([("H", (1.8 * i, 0.0, 0.0)) for i in range(n)], "sto-6g", "Bohr")
        mf, _ = study.hartree_fock(mol)
        h, g = scripts.integrals(mol)
        basis = fermi.sector_up_down(n, (n // 2, n // 2))
        e0, v0 = np.linalg.eigh(fermi.molecular_hamiltonian(basis, h, g))
        hc, gc = scripts.integrals(mol, mf.mo_coeff)
        c = {k: np.load(os.path.join(folder, f"{k}_amplitudes.npy")) for k in ("canonical", "localized", "split_localized")}
        for k, a in c.items():
            require(a.ndim == 2 and a.shape[0] == a.shape[1], f"{k} amplitudes have shape {a.shape}")
            close(np.linalg.norm(a), 1.0, f"norm of the {k} amplitudes", rtol=1e-8)
        # |amplitudes| do not depend on the signs of the orbitals
        e, ref = fci.direct_spin1.kernel(hc, gc, n, (n // 2, n // 2), conv_tol=1e-12)
        close(e, e0[0], "reference energy", rtol=1e-8)
        close(np.abs(c["canonical"]), np.abs(np.asarray(ref)), "canonical amplitudes", atol=1e-5)
        occ = {k: np.linalg.eigvalsh(fci.direct_spin1.make_rdm1(a, n, (n // 2, n // 2))) for k, a in c.items()}
        for k in ("localized", "split_localized"):
            close(occ[k], occ["canonical"], f"natural occupations of the {k} state", atol=1e-4)
        # the split basis keeps occupied and virtual orbitals apart, so the weight of the Hartree-Fock determinant is the same
        close(abs(c["split_localized"][0, 0]), abs(c["canonical"][0, 0]), "weight of the Hartree-Fock determinant in the split basis", atol=1e-4)
        if n > 2:
            require(abs(abs(c["localized"][0, 0]) - abs(c["canonical"][0, 0])) > 1e-3, "the localised amplitudes are those of the canonical basis")
        if n > 4:
            require(np.abs(np.abs(c["split_localized"]) - np.abs(c["canonical"])).max() > 1e-3, "the split-local amplitudes are those of the canonical basis")
        rec.add(3, case, nontrivial=n > 2)
        rec.label("H10", n)
        rec.sample(case)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


SUBS = [
    Sub("setup", setups, check_setup, 3, 30, shards=5, weight=3.0),
    Sub("history", histories, check_history, 3, 40, shards=4, weight=3.0),
    Sub("cube", lambda: histories("H4x4x4"), check_cube, 2, 30, shards=4, weight=4.0),
    Sub("amplitudes", lambda: st.fixed_dictionaries({"atoms": st.sampled_from([2, 4, 6])}), check_amplitudes, 1, 3, explicit=[{"atoms": 6}]),
]
