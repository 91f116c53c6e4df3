"""C30: the experiment scripts build the Hamiltonian their configuration describes."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from ml_collections import ConfigDict

from lib import fermi, scripts
from lib.core import Sub, close, require, rng_of
from props import c05

scripts.install()
from argps import systems as argps_systems  # noqa: E402
from cpd_backflow import systems as cpd_systems  # noqa: E402

RULE = (
    "Case = experiment configuration (and, for cached integrals, a history of runs, interruptions and lost files). One comparison per row "
    "of the Hamiltonian; non-trivial: the row has a non-zero off-diagonal element."
)
ASSUMPTIONS = [
    "periodic directions have at least three sites (shorter ones are NetKet's convention)",
    "the sign change of antiperiodic boundaries may sit on any bond of the ring (a gauge choice): moduli of the elements and the spectrum are compared",
    "molecules with a converged mean field; integrals of the reference come from pyscf's atomic-orbital integrals",
]
seeds = st.integers(0, 2**31 - 1)


def compare_gauge(op, ne, L, bonds, U, ts, what, rec):
    require(op.hilbert.size == L, f"{what}: {op.hilbert.size} sites instead of {L}")
    require(tuple(int(v) for v in op.hilbert._n_elec) == tuple(ne), f"{what}: electrons {op.hilbert._n_elec} instead of {ne}")
    basis, got, _ = scripts.dense(op)
    want = fermi.hubbard_hamiltonian(basis, bonds, U, ts)
    close(np.abs(got), np.abs(want), f"{what}: moduli of the matrix elements", rtol=1e-10)
    close(np.diag(got), np.diag(want), f"{what}: interaction energies", rtol=1e-10)
    close(got, got.conj().T, f"{what}: hermiticity", rtol=1e-10)
    close(np.linalg.eigvalsh(got), np.linalg.eigvalsh(want), f"{what}: spectrum", rtol=1e-8)
    off = want - np.diag(np.diag(want))
    rec.add_many([basis, want], (np.abs(off) > 1e-12).any(axis=1))


# ---------------------------------------------------------------- chains and grids of electrons


@st.composite
def chains(draw):
    package = draw(st.sampled_from(["argps", "cpd"]))
    pbc = draw(st.booleans())
    L = draw(st.sampled_from([4, 3, 4, 5, 6] if pbc else [2, 3, 4, 5]))
    ne = None
    if package == "cpd" and draw(st.booleans()):
        cap = L if L < 6 else 2
        ne = [draw(st.integers(0, cap)), draw(st.integers(0, cap))]
    return {"package": package, "L": L, "pbc": pbc, "n_elec": ne, "t": draw(st.sampled_from([1.0, 0.5, -1.3])),
            "U": draw(st.sampled_from([0.0, 4.0, -2.0, 8.0]))}


def check_chain(case, rec):
    L, pbc = case["L"], case["pbc"]
    sysconf = {"Lx": L, "t": case["t"], "U": case["U"], "pbc": pbc}
    if case["package"] == "argps":
        config = ConfigDict({"system_name": "Hubbard1d", "system": sysconf})
        with scripts.quiet():
            op = argps_systems.get_system(config)
    else:
        if case["n_elec"] is not None:
            sysconf["n_elec"] = tuple(case["n_elec"])
        config = ConfigDict({"system_name": "FermiHubbard", "system": sysconf, "model": {}})
        with scripts.quiet():
            op = cpd_systems.get_system(config)
    ne = case["n_elec"] if case["n_elec"] is not None else (L // 2, L // 2)
    bonds = [(i, i + 1) for i in range(L - 1)]
    ts = [case["t"]] * (L - 1)
    if pbc:
        bonds.append((0, L - 1))
        ts.append(-case["t"] if L % 4 == 0 else case["t"])
    compare_gauge(op, ne, L, bonds, case["U"], ts, f"{case['package']} chain of {L} sites, pbc={pbc}", rec)
    rec.label(case["package"], "periodic" if pbc else "open")
    rec.sample(case)


@st.composite
def grids(draw):
    kind = draw(st.sampled_from(["PBC-PBC", "PBC-APBC", "PBC-OBC", "PBC"]))
    if kind == "PBC-OBC":
        Lx, Ly = draw(st.sampled_from([(3, 2), (3, 3), (4, 2)]))
    else:
        Lx, Ly = draw(st.sampled_from([(3, 3), (3, 4), (4, 3)]))
    n = Lx * Ly
    ne = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [1, 0]] + ([[3, 3], [2, 2]] if n == 6 else [])))
    return {"kind": kind, "Lx": Lx, "Ly": Ly, "n_elec": ne if n > 6 or draw(st.booleans()) else None,
            "t": draw(st.sampled_from([1.0, 0.7])), "U": draw(st.sampled_from([0.0, 4.0, 8.0]))}


def check_grid(case, rec):
    Lx, Ly, kind = case["Lx"], case["Ly"], case["kind"]
    sysconf = {"Lx": Lx, "Ly": Ly, "t": case["t"], "U": case["U"], "pbc": kind}
    if case["n_elec"] is not None:
        sysconf["n_elec"] = tuple(case["n_elec"])
    with scripts.quiet():
        op = cpd_systems.get_system(ConfigDict({"system_name": "FermiHubbard", "system": sysconf, "model": {}}))
    n = Lx * Ly
    ne = case["n_elec"] if case["n_elec"] is not None else (n // 2, n // 2)
    bonds, ts = [], []
    for x in range(Lx):
        for y in range(Ly):
            bonds.append((x * Ly + y, ((x + 1) % Lx) * Ly + y))
            ts.append(-case["t"] if kind == "PBC-APBC" and x == Lx - 1 else case["t"])
            if y < Ly - 1 or kind != "PBC-OBC":
                bonds.append((x * Ly + y, x * Ly + (y + 1) % Ly))
                ts.append(case["t"])
    compare_gauge(op, ne, n, bonds, case["U"], ts, f"{Lx}x{Ly} grid, {kind}", rec)
    rec.label(kind)
    rec.sample(case)


# ---------------------------------------------------------------- spins


@st.composite
def spin_systems(draw):
    pbc = draw(st.booleans())
    J2 = draw(st.sampled_from([0.0, 0.0, 0.5, -0.3]))
    if draw(st.booleans()):
        Lx, Ly = draw(st.sampled_from([6, 8] if pbc else [4, 6, 8])), None
    else:
        Lx, Ly = draw(st.sampled_from([(4, 3), (3, 4)] if pbc else [(2, 2), (2, 3), (3, 2), (4, 2), (2, 4)]))
    n = Lx * (Ly or 1)
    b1 = c05.bonds(Lx, Ly, pbc, 1)
    rule = draw(st.booleans()) if c05.bipartite(b1, n) else False
    if J2 and not c05.bonds(Lx, Ly, pbc, 2):
        J2 = 0.0
    return {"Lx": Lx, "Ly": Ly, "pbc": pbc, "J1": draw(st.sampled_from([1.0, -0.8])), "J2": J2, "rule": rule,
            "given": draw(st.booleans()), "seed": draw(seeds)}


def check_spins(case, rec):
    sysconf = {"Lx": case["Lx"], "J1": case["J1"], "pbc": case["pbc"], "sign_rule": case["rule"]}
    if case["Ly"] is not None:
        sysconf["Ly"] = case["Ly"]
    if case["J2"] != 0 or case["given"]:
        sysconf["J2"] = case["J2"]
    name = ("J1J2" if case["J2"] else "Heisenberg") + ("2d" if case["Ly"] else "1d")
    with scripts.quiet():
        op = argps_systems.get_system(ConfigDict({"system_name": name, "system": sysconf}))
    n = case["Lx"] * (case["Ly"] or 1)
    require(op.hilbert.size == n, "number of sites")
    ref = dict(case, rule=[case["rule"], False])
    r = rng_of(case)
    seen = set()
    for _ in range(12):
        x = r.permutation([1] * (n // 2) + [-1] * (n // 2))
        xp, mels = op.get_conn(np.asarray(x, dtype=np.float64))
        got = {}
        for c, m in zip(np.asarray(xp), np.asarray(mels)):
            if m != 0:
                key = tuple(int(v) for v in c)
                got[key] = got.get(key, 0.0) + complex(m)
        want = c05.row(ref, tuple(int(v) for v in x))
        for key in set(got) | set(want):
            g, w = got.get(key, 0.0), want.get(key, 0.0)
            require(abs(g - w) < 1e-10, f"{name}: element {tuple(int(v) for v in x)} -> {key} is {g}, expected {w}")
        key = tuple(int(v) for v in x)
        if key not in seen:
            seen.add(key)
            rec.add(1, [case, key], nontrivial=len(want) > 1)
    rec.label(name)
    rec.sample(case)


# ---------------------------------------------------------------- molecules


@st.composite
def molecules(draw):
    package = draw(st.sampled_from(["argps", "cpd", "cpd"]))
    if package == "argps":
        atoms = draw(st.sampled_from(["HH", "HHHH"]))
        ne, basis, prune, events = None, draw(st.sampled_from(["canonical", "local"])), None, []
    else:
        atoms, ne = draw(st.sampled_from([("HHHH", None), ("HH", None), ("HHH", [2, 1]), ("HHHH", [2, 2]), ("HHHH", [3, 1]), ("HHHHH", [3, 2])]))
        basis = draw(st.sampled_from(["canonical", "local-boys", "local-pipek-mezey", "local-edmiston-ruedenberg", "local-split"]))
        prune = draw(st.sampled_from([None, None, 0.0, 0.05, 0.2]))
        files = ["basis", "h1", "h2", "hf_orbitals"]
        event = st.one_of(
            st.just(["run"]),
            st.tuples(st.just("lost"), st.lists(st.sampled_from(files), min_size=1, max_size=3, unique=True)).map(list),
            st.tuples(st.just("crash"), st.integers(1, 4)).map(list),
        )
        events = draw(st.lists(event, max_size=3))
    return {"package": package, "atoms": atoms, "n_elec": ne, "basis": basis, "prune": prune, "events": events,
            "unit": draw(st.sampled_from(["angstrom", "Bohr"])), "seed": draw(seeds)}


class Crash(Exception):
    pass


def crash_after(n, fun):
    """Run `fun`, failing in the n-th call of np.save."""
    real, left = np.save, [n]

    def save(*a, **k):
        left[0] -= 1
        if left[0] == 0:
            raise Crash
        return real(*a, **k)

    np.save = save
    try:
        fun()
    except Crash:
        pass
    finally:
        np.save = real


def check_molecule(case, rec):
    from pyscf import gto, scf

    r = rng_of(case)
    atoms = scripts.geometry(r, case["atoms"])
    scale = 1.0 if case["unit"] == "angstrom" else 1.8897
    atoms = [(a, tuple(v * scale for v in p)) for a, p in atoms]
    sysconf = {"molecule": atoms, "basis": case["basis"], "basis_set": "sto-3g", "symmetry": False, "unit": case["unit"]}
    spin = 0
    if case["n_elec"] is not None:
        sysconf["n_elec"] = tuple(case["n_elec"])
        spin = case["n_elec"][0] - case["n_elec"][1]
    if case["prune"] is not None:
        sysconf["pruning_threshold"] = case["prune"]
    mol = gto.M(atom=atoms, basis="sto-3g", unit=case["unit"], spin=spin, verbose=0)
    n = len(atoms)
    ne = mol.nelec
    mf = (scf.RHF if spin == 0 else scf.ROHF)(mol)
    ehf = mf.kernel() - mol.energy_nuc()
    if not mf.converged:
        rec.label("skipped: mean field not converged")
        return
    what = f"{case['package']} {case['atoms']} {case['basis']}"
    with tempfile.TemporaryDirectory(prefix="verif_mol_") as folder:
        if case["package"] == "argps":
            config = ConfigDict({"system_name": "Hchain", "system": sysconf})
            with scripts.quiet():
                op = argps_systems.get_system(config)
        else:
            config = ConfigDict({"system_name": "Hchain", "system": sysconf, "model": {}})

            def build():
                with scripts.quiet():
                    return cpd_systems.get_system(config, folder)

            for e in case["events"]:
                if e[0] == "run":
                    build()
                elif e[0] == "crash":
                    crash_after(e[1], build)
                else:
                    for f in e[1]:
                        path = os.path.join(folder, f + ".npy")
                        if os.path.exists(path):
                            os.remove(path)
            op = build()
        require(op.hilbert.size == n and tuple(int(v) for v in op.hilbert._n_elec) == tuple(ne), f"{what}: space")
        basis, got, _ = scripts.dense(op)
        pruned = bool(case["prune"])
        if not pruned:
            want = fermi.molecular_hamiltonian(basis, *scripts.integrals(mol))
            close(np.linalg.eigvalsh(got), np.linalg.eigvalsh(want), f"{what}: spectrum", rtol=1e-7, atol=1e-7)
        if case["basis"] == "canonical" and not pruned:
            hf = [k for k, c in enumerate(basis) if all(bool(c[i] & 1) == (i < ne[0]) and bool(c[i] & 2) == (i < ne[1]) for i in range(n))]
            close(got[hf[0], hf[0]], ehf, f"{what}: energy of the lowest orbitals being filled", rtol=1e-6)
        if case["package"] == "cpd":
            C = np.load(os.path.join(folder, "basis.npy"))
            close(C.T @ mol.intor("int1e_ovlp") @ C, np.eye(n), f"{what}: stored orbitals are orthonormal", rtol=1e-6, atol=1e-6)
            h, g = scripts.integrals(mol, C)
            if pruned:
                if any((np.abs(np.abs(a) - case["prune"]) < 1e-7).any() for a in (h, g)):
                    rec.label("threshold tie")
                    return
                h, g = (np.where(np.abs(a) < case["prune"], 0.0, a) for a in (h, g))
            want = fermi.molecular_hamiltonian(basis, h, g)
            close(got, want, f"{what}: Hamiltonian in the stored orbitals", rtol=1e-6, atol=1e-6)
        off = got - np.diag(np.diag(got))
        rec.add_many([basis, got], (np.abs(off) > 1e-10).any(axis=1))
    rec.label(case["package"], case["basis"], *(e[0] for e in case["events"]))
    rec.sample(case)


# ---------------------------------------------------------------- configurations


@st.composite
def configurations(draw):
    return {"package": draw(st.sampled_from(["argps-chain", "argps-sheet", "cpd-sheet"])), "n": draw(st.integers(1, 37)),
            "distance": draw(st.sampled_from([1.8, 1.0, 0.75, 2.5])), "given": draw(st.sampled_from([None, 0, 7, 2**31 + 3])),
            "basis": draw(st.sampled_from(["canonical", "local"])), "dtype": draw(st.sampled_from(["real", "complex"])), "locked": draw(st.booleans())}


def check_configuration(case, rec):
    package, geometry = case["package"].split("-")
    if package == "argps":
        from argps import utils
        from argps.configs import common, hydrogen

        config = hydrogen.get_config(f"{geometry},{case['basis']},{case['dtype']}")
        require(config.system.basis == case["basis"] and config.model.dtype == case["dtype"], f"options of {case}: {config.system.basis}, {config.model.dtype}")
    else:
        from cpd_backflow import utils
        from cpd_backflow.configs import common, hsheet

        config = hsheet.get_config()
    config.system.n_atoms, config.system.distance = case["n"], case["distance"]
    if case["given"] is not None:
        config.variational_state.seed = case["given"]
    if case["locked"]:
        config.lock()
    resolved = common.resolve(config)
    n, d = case["n"], case["distance"]
    what = f"{case['package']} of {n} atoms"
    require(resolved.system.n_atoms == n and resolved.system.distance == d, f"{what}: size changed")
    molecule = [(a, tuple(p)) for a, p in resolved.system.molecule]
    require([a for a, _ in molecule] == ["H"] * n, f"{what}: atoms {[a for a, _ in molecule]}")
    pos = np.array([p for _, p in molecule], dtype=float).reshape(n, 3)
    if geometry == "chain":
        want = np.array([[d * k, 0, 0] for k in range(n)])
    else:
        Lx = max(k for k in range(1, n + 1) if n % k == 0 and k * k <= n)
        want = np.array([[d * x, d * y, 0] for x in range(Lx) for y in range(n // Lx)])
    close(pos, want, f"{what}: positions", rtol=1e-12, atol=1e-12)
    seed = resolved.variational_state.seed
    if case["given"] is not None:
        require(seed == case["given"], f"{what}: seed {seed} instead of the given {case['given']}")
    else:
        require(seed is not None and 0 <= int(seed) < 2**32, f"{what}: seed {seed}")
    with tempfile.TemporaryDirectory(prefix="verif_conf_") as folder:
        sub = os.path.join(folder, "a", "b")
        utils.save_config(sub, resolved)
        first = utils.read_config(sub)
        again = common.resolve(ConfigDict(first))
        utils.save_config(sub, again)
        second = utils.read_config(sub)
    require(first == second, f"{what}: saved configuration {first} becomes {second} when it is read and saved again")
    flat = ConfigDict(first)
    for section, keys in (("system", ("n_atoms", "distance", "basis", "unit", "basis_set", "symmetry")), ("model", tuple(resolved.model.keys())),
                          ("variational_state", tuple(resolved.variational_state.keys())), ("optimizer", tuple(resolved.optimizer.keys()))):
        for key in keys:
            require(flat[section][key] == resolved[section][key], f"{what}: {section}.{key} is saved as {flat[section][key]!r} instead of {resolved[section][key]!r}")
    close(np.array([p for _, p in flat.system.molecule], dtype=float).reshape(n, 3), want, f"{what}: saved positions", rtol=1e-12, atol=1e-12)
    rec.add(1, key="configuration", nontrivial=n > 1)
    rec.label(case["package"], "seed given" if case["given"] is not None else "seed drawn")
    rec.sample(case)


SUBS = [
    Sub("configuration", lambda: configurations(), check_configuration, quick=40, thorough=300, shards=1, tshards=2),
    Sub("chain", lambda: chains(), check_chain, quick=30, thorough=200, shards=1,
        explicit=[{"package": p, "L": 4, "pbc": b, "n_elec": None, "t": 1.0, "U": 4.0} for p in ("argps", "cpd") for b in (True, False)]),
    Sub("grid", lambda: grids(), check_grid, quick=20, thorough=150, shards=1),
    Sub("spins", lambda: spin_systems(), check_spins, quick=30, thorough=200, shards=1),
    Sub("molecule", lambda: molecules(), check_molecule, quick=25, thorough=250, shards=3, weight=2),
]
