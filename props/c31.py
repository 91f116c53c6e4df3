"""C31: the ansaetze the experiment scripts set up have the structure their configuration asks for."""
import os
import tempfile

import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st
from ml_collections import ConfigDict

from lib import fermi, scripts
from lib.core import Sub, Violation, close, require, rng_of
from props import c05

scripts.install()
from argps import models as argps_models  # noqa: E402
from argps import samplers as argps_samplers  # noqa: E402
from argps import systems as argps_systems  # noqa: E402
from cpd_backflow import models as cpd_models  # noqa: E402
from cpd_backflow import systems as cpd_systems  # noqa: E402

RULE = (
    "Case = experiment configuration. Comparisons: one per configuration (norm, symmetry images, local energy) or per matrix element of the density "
    "matrix; non-trivial: the configuration has a symmetry image or connected configuration different from itself, or the state is not the only one of its space."
)
ASSUMPTIONS = [
    "symmetry groups of the lattice are those of NetKet's graph; the filter GPS is symmetrised by translations only",
    "mean fields that pyscf cannot converge are skipped (the script refuses them)",
    "orbital rotations leave the mean-field energy stationary to 1e-3",
]
seeds = st.integers(0, 2**31 - 1)


# ---------------------------------------------------------------- ARGPS


@st.composite
def argps_cases(draw):
    name = draw(st.sampled_from(["GPS", "ARGPS", "MaskedGPS", "ARFilterGPS", "MaskedFilterGPS", "FilterGPS"]))
    system = draw(st.sampled_from(["chain", "chain", "grid", "hubbard"]))
    sym = "none"
    if system == "chain":
        dims, pbc = [draw(st.sampled_from([4, 6]))], draw(st.booleans()) or name == "FilterGPS"
    elif system == "grid":
        dims, pbc = draw(st.sampled_from([([2, 2], True), ([2, 2], False), ([2, 3], False), ([3, 2], False), ([2, 4], True)]))
        if name == "FilterGPS":
            pbc = True
    else:
        dims, pbc = [draw(st.sampled_from([2, 3, 4]))], draw(st.booleans())
        if dims[0] < 3:
            pbc = False
    if system != "hubbard":
        sym = draw(st.sampled_from(["none", "translations", "point-symmetries", "spin-flip", "translations,spin-flip", "spin-flip,translations",
                                    "point-symmetries,spin-flip", "translations,point-symmetries", "all"]))
    return {"name": name, "system": system, "dims": list(dims), "pbc": pbc, "sym": sym, "dtype": draw(st.sampled_from(["real", "complex"])),
            "M": draw(st.integers(1, 3)), "rule": draw(st.booleans()), "chunk": draw(st.sampled_from([None, 4])), "seed": draw(seeds)}


def group(case):
    """Site permutations under which the amplitudes have to be invariant."""
    graph = nk.graph.Grid(case["dims"], pbc=case["pbc"])
    names = case["sym"].split(",")
    if case["name"] == "FilterGPS":
        return graph.translation_group().to_array(), False
    t, p = ("translations" in names or names == ["all"]), ("point-symmetries" in names or names == ["all"])
    flip = "spin-flip" in names or names == ["all"]
    if t and p:
        perms = graph.automorphisms().to_array()
    elif t:
        perms = graph.translation_group().to_array()
    elif p:
        perms = graph.point_group().to_array()
    else:
        perms = np.arange(graph.n_nodes)[None]
    return np.asarray(perms), flip


def spin_matrix(case, states):
    dims = case["dims"]
    ref = {"Lx": dims[0], "Ly": dims[1] if len(dims) > 1 else None, "pbc": case["pbc"], "J1": 1.0, "J2": 0.0, "rule": [case["rule"], False]}
    index = {tuple(s): k for k, s in enumerate(states)}
    H = np.zeros((len(states),) * 2)
    for k, s in enumerate(states):
        for y, m in c05.row(ref, list(s)).items():
            H[k, index[y]] += m
    return H


def check_argps(case, rec):
    dims, pbc = case["dims"], case["pbc"]
    n = int(np.prod(dims))
    if case["system"] == "hubbard":
        sysconf, sysname = {"Lx": n, "t": 1.0, "U": 4.0, "pbc": pbc}, "Hubbard1d"
    else:
        case["rule"] = case["rule"] and c05.bipartite(c05.bonds(dims[0], dims[1] if len(dims) > 1 else None, pbc, 1), n)
        sysconf, sysname = {"Lx": dims[0], "J1": 1.0, "pbc": pbc, "sign_rule": case["rule"]}, f"Heisenberg{len(dims)}d"
        if len(dims) > 1:
            sysconf["Ly"] = dims[1]
    ar = "AR" in case["name"]
    config = ConfigDict({
        "system_name": sysname, "system": sysconf, "model_name": case["name"],
        "model": {"M": case["M"], "dtype": case["dtype"], "sigma": 0.25, "symmetries": case["sym"]},
        "sampler_name": "ARDirectSampler" if ar else ("MetropolisHopping" if case["system"] == "hubbard" else "MetropolisExchange"),
        "sampler": {} if ar else {"n_chains_per_rank": 4},
    })
    with scripts.quiet():
        ha = argps_systems.get_system(config)
        graph = ha.graph if hasattr(ha, "graph") else None
        ma = argps_models.get_model(config, ha.hilbert, graph)
        sa = argps_samplers.get_sampler(config, ha.hilbert, graph)
    hilb = ha.hilbert
    states = np.asarray(hilb.all_states()).astype(int)
    what = f"{case['name']} on {sysname} {dims}, symmetries {case['sym']}"
    v = ma.init(jax.random.PRNGKey(case["seed"] % 2**31), jnp.asarray(states[:1]))
    leaves = jax.tree_util.tree_leaves(v["params"])
    want_complex = case["dtype"] == "complex"
    require(any(np.iscomplexobj(x) for x in leaves) == want_complex, f"{what}: parameters are not {case['dtype']}")
    logs = np.asarray(jax.jit(ma.apply)(v, jnp.asarray(states))).astype(complex)
    require(logs.shape == (len(states),), f"{what}: shape {logs.shape} for {len(states)} configurations")
    require(np.isfinite(logs.real).any() and not np.isnan(logs).any(), f"{what}: no finite amplitude")
    if ar:
        close(np.sum(np.exp(2 * logs.real)), 1.0, f"{what}: norm", rtol=1e-7)
    else:
        require(np.isfinite(logs).all(), f"{what}: vanishing amplitude inside the Hilbert space")
    index = {tuple(s): k for k, s in enumerate(states)}
    if graph is not None:
        perms, flip = group(case)
        top = logs.real.max()
        for p in perms:
            for f in (1, -1) if flip else (1,):
                img = np.array([index[tuple(f * s[p])] for s in states])
                a, b = np.exp(logs - top), np.exp(logs[img] - top)
                close(b, a, f"{what}: amplitudes after site permutation {list(map(int, p))}{' and spin flip' if f < 0 else ''}", rtol=1e-7, atol=1e-9)
        rec.add_many([states], np.array([any(tuple(s[p]) != tuple(s) for p in perms) or flip for s in states]))
    # local energies of exactly this pair of model and Hamiltonian
    if case["system"] == "hubbard":
        basis, H, order = scripts.dense(ha)
        perm = [index[tuple(s)] for s in order]
        Hs = np.zeros_like(H)
        Hs[np.ix_(perm, perm)] = H
    else:
        Hs = spin_matrix(case, states) if min(dims) > 2 or not pbc else np.asarray(ha.to_dense()).real
    fin = np.isfinite(logs.real)
    rows = np.nonzero(fin & (logs.real > logs.real[fin].max() - 5))[0]
    r = rng_of(case)
    rows = r.permutation(rows)[:6]
    vs = nk.vqs.MCState(nk.sampler.ExactSampler(hilb), ma, n_samples=16, variables=v)
    vs.chunk_size = case["chunk"]
    vs._samples = jnp.asarray(states[rows], dtype=hilb.all_states().dtype).reshape(len(rows), 1, -1)
    got = np.asarray(vs.local_estimators(ha)).reshape(-1)
    amp = np.where(fin, np.exp(np.where(fin, logs, 0) - logs[fin].real.max()), 0)
    terms = Hs[rows] * amp[None] / amp[rows][:, None]
    close(got, terms.sum(axis=1), f"{what}: local energies", rtol=1e-6, atol=1e-7, scale=np.abs(terms).sum(axis=1))
    rec.add_many([states[rows], terms], (np.abs(terms) > 1e-12).sum(axis=1) > 1)
    # the sampler produces configurations of this Hilbert space
    ss = sa.init_state(ma, v, seed=case["seed"] % 2**31)
    ss = sa.reset(ma, v, state=ss)
    xs, _ = sa.sample(ma, v, state=ss, chain_length=4)
    xs = np.asarray(xs).reshape(-1, n)
    for x in xs:
        require(tuple(int(a) for a in x) in index and np.all(x == x.astype(int)), f"{what}: sample {x.tolist()} outside the Hilbert space")
    rec.label(case["name"], case["system"], case["sym"])
    rec.sample(case)


# ---------------------------------------------------------------- CPD backflow


@st.composite
def cpd_cases(draw):
    system = draw(st.sampled_from(["hubbard", "molecule", "molecule"]))
    orbitals = draw(st.sampled_from(["restricted", "unrestricted", "generalised"]))
    case = {"system": system, "orbitals": orbitals, "M": draw(st.integers(1, 3)), "dtype": draw(st.sampled_from(["real", "complex"])),
            "sigma": draw(st.sampled_from([0.0, 0.0, 0.3])), "seed": draw(seeds)}
    if system == "hubbard":
        case["pbc"] = draw(st.booleans())
        case["L"] = draw(st.sampled_from([3, 4]))
        ne = [[1, 1], [2, 2]] if orbitals == "restricted" else [[1, 1], [2, 1], [2, 2], [1, 2], [3, 1]]
        case["n_elec"] = draw(st.sampled_from([e for e in ne if max(e) < case["L"]]))
        case["U"] = draw(st.sampled_from([1.0, 4.0]))
        case["cutoff"] = None
    else:
        opts = [("HHHH", None), ("HH", None)]
        if orbitals != "restricted":
            opts += [("HHH", [2, 1]), ("HHHH", [2, 2]), ("HHHH", [3, 1]), ("HHHHH", [3, 2])]
        case["atoms"], case["n_elec"] = draw(st.sampled_from(opts))
        case["basis"] = draw(st.sampled_from(["canonical", "local-boys", "local-pipek-mezey", "local-edmiston-ruedenberg", "local-split"]))
        case["cutoff"] = draw(st.sampled_from([None, None, 1, 2, 3]))
        if case["cutoff"] is not None:
            case["cutoff"] = min(case["cutoff"], len(case["atoms"]))
        case["again"] = draw(st.booleans())
    return case


def check_cpd(case, rec):
    r = rng_of(case)
    restricted, fixed = case["orbitals"] == "restricted", case["orbitals"] != "generalised"
    model = {"M": case["M"], "dtype": case["dtype"], "sigma": case["sigma"], "restricted": restricted, "fixed_magnetization": fixed}
    if case["system"] == "hubbard":
        config = ConfigDict({"system_name": "FermiHubbard", "model": model,
                             "system": {"Lx": case["L"], "t": 1.0, "U": case["U"], "pbc": case["pbc"], "n_elec": tuple(case["n_elec"])}})
    else:
        sysconf = {"molecule": scripts.geometry(r, case["atoms"]), "basis": case["basis"], "basis_set": "sto-3g", "symmetry": False, "unit": "angstrom"}
        if case["n_elec"] is not None:
            sysconf["n_elec"] = tuple(case["n_elec"])
        if case["cutoff"] is not None:
            model["exchange_cutoff"] = case["cutoff"]
        config = ConfigDict({"system_name": "Hchain", "model": model, "system": sysconf})
    what = f"{case['orbitals']} {case['system']} {case.get('atoms', case.get('L'))} {case['n_elec']}"
    h2 = hf = None
    if case["system"] == "molecule":
        from pyscf import gto, scf

        spin = 0 if case["n_elec"] is None else case["n_elec"][0] - case["n_elec"][1]
        mol = gto.M(atom=[(a, tuple(p)) for a, p in config.system.molecule], basis="sto-3g", spin=spin, verbose=0)
        mean_field = (scf.RHF if spin == 0 else scf.ROHF)(mol)
        ehf = mean_field.kernel() - mol.energy_nuc()
        if not mean_field.converged:
            rec.label("skipped: mean field not converged")
            return
    with tempfile.TemporaryDirectory(prefix="verif_cpd_") as folder:
        with scripts.quiet():
            ha = cpd_systems.get_system(config, folder)
            if case.get("again"):
                ha = cpd_systems.get_system(config, folder)
            try:
                ma = cpd_models.get_model(config, ha.hilbert, ha, folder)
            except AssertionError as e:
                frame = e.__traceback__
                while frame.tb_next is not None:
                    frame = frame.tb_next
                mf = frame.tb_frame.f_locals.get("mf")
                if mf is not None and not getattr(mf, "converged", True):
                    rec.label("skipped: mean field not converged")
                    return
                raise
        if case["system"] == "molecule":
            h2, hf = np.load(os.path.join(folder, "h2.npy")), np.load(os.path.join(folder, "hf_orbitals.npy"))
    hilb = ha.hilbert
    n, ne = hilb.size, tuple(int(v) for v in hilb._n_elec)
    basis, H, order = scripts.dense(ha)
    x = jnp.asarray(order, dtype=jnp.uint8)
    key = jax.random.PRNGKey(case["seed"] % 2**31)
    v = ma.init(key, x[:1])
    leaves = jax.tree_util.tree_leaves(v["params"])
    require(any(np.iscomplexobj(a) for a in leaves) == (case["dtype"] == "complex"), f"{what}: parameters are not {case['dtype']}")
    if case["cutoff"] is not None:
        # environments: the orbitals with the largest Hartree-Fock exchange with each orbital
        D = 2 * hf @ hf.T if ne[0] == ne[1] and hf.shape[1] == ne[0] else hf[:, : ne[0]] @ hf[:, : ne[0]].T + hf[:, ne[0]:] @ hf[:, ne[0]:].T
        K = np.abs(np.einsum("iklj,kl->ij", h2, D))
        env = np.asarray(ma.environments)
        require(env.shape == (n if fixed else 2 * n, case["cutoff"]), f"{what}: environments of shape {env.shape}")
        for row in range(env.shape[0]):
            o = row % n
            require(len(set(env[row].tolist())) == case["cutoff"], f"{what}: repeated orbital in the environment {env[row].tolist()}")
            want = np.sort(K[o])[::-1][: case["cutoff"]]
            close(K[o][env[row]], want, f"{what}: exchange of orbital {o} with its environment {env[row].tolist()}", rtol=1e-5, atol=1e-6)
    if case["sigma"] > 0:
        # the noise around the mean-field parameters has the requested width
        model["sigma"] = 0.0
        cold = dict(config.to_dict(), model=dict(config.to_dict()["model"], sigma=0.0))
        with tempfile.TemporaryDirectory(prefix="verif_cpd_") as folder, scripts.quiet():
            ha0 = cpd_systems.get_system(ConfigDict(cold), folder)
            ma0 = cpd_models.get_model(ConfigDict(cold), ha0.hilbert, ha0, folder)
        v0 = ma0.init(key, x[:1])
        a = np.concatenate([np.asarray(p).reshape(-1) for p in leaves])
        b = np.concatenate([np.asarray(p).reshape(-1) for p in jax.tree_util.tree_leaves(v0["params"])])
        require(a.shape == b.shape, f"{what}: number of parameters depends on sigma")
        # signs of the mean-field orbitals are not determined: compare where the mean-field value is 0 or 1
        sel = (np.abs(b) < 1e-12) | (np.abs(b - 1) < 1e-12)
        d = (a - b)[sel]
        if d.size >= 60:
            s = np.sqrt(np.mean(np.abs(d) ** 2))
            tol = 6 / np.sqrt(2 * d.size)
            require(abs(s / case["sigma"] - 1) < tol, f"{what}: initial noise {s} instead of {case['sigma']}")
            rec.add(1, case, nontrivial=True)
        rec.label("noise")
        rec.sample(case)
        return
    logs = np.asarray(jax.jit(ma.apply)(v, x)).astype(complex)
    fin = np.isfinite(logs.real)
    require(fin.any() and not np.isnan(logs).any(), f"{what}: no finite amplitude")
    psi = np.where(fin, np.exp(np.where(fin, logs - logs.real[fin].max(), 0)), 0)
    psi = psi / np.linalg.norm(psi)
    k = int(np.argmax(np.abs(psi)))
    psi = psi * np.exp(-1j * np.angle(psi[k]))
    require(np.abs(psi.imag).max() < 1e-7, f"{what}: the initial state is not real")
    psi = psi.real
    E = [scripts.spin_excitations(basis, s) for s in (0, 1)]
    D = [np.einsum("x,pqxy,y->pq", psi, e, psi) for e in E]
    for s in (0, 1):
        close(np.trace(D[s]), ne[s], f"{what}: electron number of spin {s}", rtol=1e-7)
        close(D[s] @ D[s], D[s], f"{what}: the initial state is not a single determinant (density matrix of spin {s} not idempotent)", rtol=1e-6, atol=1e-6)
    Hpsi = H.real @ psi
    grad = [np.einsum("x,pqxy,y->pq", Hpsi, e, psi) - np.einsum("x,qpxy,y->pq", Hpsi, e, psi) for e in E]
    grad = [2 * g for g in grad]
    spin_resolved = case["system"] == "hubbard" and not restricted
    for g in grad if spin_resolved else [grad[0] + grad[1]]:
        require(np.abs(g).max() < 1e-3, f"{what}: the initial determinant is not a mean-field solution (orbital gradient {np.abs(g).max():.2g})")
    if case["system"] == "molecule":
        close(psi @ Hpsi, ehf, f"{what}: energy of the initial state against Hartree-Fock", rtol=1e-6)
    rec.add_many([np.stack([d.reshape(-1) for d in D])], [len(basis) > 1] * 2)
    rec.label(case["system"], case["orbitals"], "cutoff" if case["cutoff"] else "all-to-all")
    rec.sample(case)


SUBS = [
    Sub("argps", lambda: argps_cases(), check_argps, quick=14, thorough=120, shards=4, weight=4),
    Sub("cpd", lambda: cpd_cases(), check_cpd, quick=14, thorough=120, shards=4, weight=4),
]
