"""Reference wavefunction amplitudes in plain numpy loops, written from the model definitions."""
import numpy as np

from lib import fermi, models


def leaf(params, *names):
    """Find a parameter by its name anywhere in the tree (first match by path suffix)."""
    flat = {}

    def walk(t, path):
        if hasattr(t, "items"):
            for k, v in t.items():
                walk(v, path + (k,))
        else:
            flat[path] = np.asarray(t)

    walk(params, ())
    hits = [v for p, v in sorted(flat.items()) if all(any(n in q for q in p) for n in names)]
    if not hits:
        raise KeyError(f"{names} not in {list(flat)}")
    return hits[0]


def images(spec, idx, key="sym"):
    """Images of an index configuration under the model's symmetry list."""
    return models.sym_images(spec.get(key, "none"), spec["space"]["L"], idx)


# ------------------------------------------------------------------ GPS family


def log_qgps(eps, ims):
    tot = 0.0
    D, M, L = eps.shape
    for x in ims:
        for m in range(M):
            p = 1.0
            for i in range(L):
                p = p * eps[x[i], m, i]
            tot = tot + p
    return tot


def log_plaquette(eps, plaq, ims):
    tot = 0.0
    D, P, M, K = eps.shape
    for x in ims:
        for p in range(P):
            for m in range(M):
                v = 1.0
                for k in range(K):
                    v = v * eps[x[plaq[p][k]], p, m, k]
                tot = tot + v
    return tot


def log_seg(eps, idx, fermionic):
    D, M, L = eps.shape[:3]
    up = dn = 0
    prod = np.ones(M, dtype=complex)
    for i in range(L):
        prod = prod * eps[idx[i], :, i, up, dn]
        if fermionic:
            up += int(idx[i]) & 1
            dn += (int(idx[i]) >> 1) & 1
        else:
            up += int(idx[i]) == 1
            dn += int(idx[i]) == 0
    return prod.sum()


# ------------------------------------------------------------------ autoregressive family


def ar_allowed(space, prefix, D):
    """Which local states may follow the prefix (index configuration)."""
    L = space["L"]
    i = len(prefix)
    if space["kind"] == "spin" and space.get("sz") is not None:
        return np.array([list(prefix).count(d) < L // 2 for d in range(D)])
    if space["kind"] == "fermi" and space.get("n_elec") is not None:
        up, dn = space["n_elec"]
        ups = sum(int(v) & 1 for v in prefix)
        dns = sum((int(v) >> 1) & 1 for v in prefix)
        ok = []
        for d in range(D):
            u, w = ups + (d & 1), dns + (d >> 1)
            ok.append(u <= up and w <= dn and up - u <= L - i - 1 and dn - w <= L - i - 1)
        return np.array(ok)
    return np.ones(D, dtype=bool)


def ar_raw(spec, params, prefix):
    """Unnormalised complex log-amplitudes of the next site's local states."""
    t = spec["type"]
    i = len(prefix)
    if t in ("ARqGPS", "ARqGPSModPhase"):
        eps = ar_epsilon(params)
        ctx = np.ones(eps.shape[1], dtype=complex)
        for j, v in enumerate(prefix):
            ctx = ctx * eps[v, :, j]
        return (eps[:, :, i] * ctx).sum(axis=-1)
    if t in ("ARqGPSFull", "ARqGPSModPhaseFull"):
        if isinstance(spec["M"], list):
            e = np.asarray(params[f"epsilon_{i}"])
        else:
            full = ar_epsilon(params)
            e = full[:, :, i * (i + 1) // 2: (i + 1) * (i + 2) // 2]
        ctx = np.ones(e.shape[1], dtype=complex)
        for j, v in enumerate(prefix):
            ctx = ctx * e[v, :, j]
        return (e[:, :, i] * ctx).sum(axis=-1)
    if t == "ARPlaquette":
        eps = ar_epsilon(params)
        ctx = np.ones(eps.shape[1], dtype=complex)
        for k in range(eps.shape[2]):
            if spec["masks"][i][k]:
                ctx = ctx * eps[prefix[spec["plaquettes"][i][k]], :, k]
        return (eps[:, :, 0] * ctx).sum(axis=-1)
    raise ValueError(t)


def ar_epsilon(params):
    return np.asarray(params["epsilon"])


def ar_conditional(spec, params, prefix):
    """(log psi of each next local state, probabilities)."""
    raw = np.asarray(ar_raw(spec, params, prefix), dtype=complex)
    ok = ar_allowed(spec["space"], prefix, len(raw))
    pw = spec.get("pow", 2)
    w = np.where(ok, pw * raw.real, -np.inf)
    top = w.max()
    Z = top + np.log(np.exp(w - top).sum()) if spec.get("norm", True) else 0.0
    logp = w - Z
    log = np.where(ok, raw, 0) + np.where(ok, -Z / pw, -np.inf)
    return log, np.exp(logp)


def log_ar(spec, params, raw_config):
    """Log-amplitude of one configuration (own representation), with symmetrisation."""
    sp = spec["space"]
    L = sp["L"]
    ims = models.sym_images(spec.get("sym", "none"), L, np.asarray(raw_config).astype(int), flipped=lambda v: -v)
    pw = spec.get("pow", 2)
    mods, phases = [], []
    for im in ims:
        idx = models.local_index(sp, im)
        tot = 0.0 + 0.0j
        for i in range(L):
            log, _ = ar_conditional(spec, params, idx[:i])
            tot = tot + log[idx[i]]
        mods.append(tot.real)
        phases.append(tot.imag)
    mods = np.array(mods)
    top = mods.max()
    if top == -np.inf:
        return complex(-np.inf, 0)
    mod = top + np.log(np.mean(np.exp(pw * (mods - top)))) / pw
    live = np.exp(1j * np.array(phases))
    out = mod + 1j * np.angle(live.sum())
    if "ModPhase" in spec["type"]:
        idx = models.local_index(sp, raw_config)
        out = out + 1j * log_qgps(leaf(params["_qgps"], "epsilon"), [idx])
    return out


# ------------------------------------------------------------------ determinants


def slater_dets(spec, params, config):
    """(M, S, T) determinants of one configuration."""
    L = spec["space"]["L"]
    nu, nd = spec["space"]["n_elec"]
    up, dn = fermi.electrons(config)
    perms = models.perms_for(spec.get("sym", "none"), L)
    M = spec.get("dets", 1)
    s2 = spec.get("S2")
    angles = [0.0] if s2 is None else s2[0]
    out = np.zeros((M, len(angles), len(perms)), dtype=complex)
    for m in range(M):
        if spec.get("fixed", True):
            Uu = leaf(params, "U_up")[m]
            Ud = Uu if spec.get("restricted", False) else leaf(params, "U_down")[m]
            U = np.zeros((2 * L, nu + nd), dtype=complex)
            U[:L, :nu] = Uu
            U[L:, nu:] = Ud
        else:
            U = np.asarray(leaf(params, "U"))[m].astype(complex)
        for s, a in enumerate(angles):
            c, sn = np.cos(a / 2), np.sin(a / 2)
            # exp(-i a S_y) on the spin part of every orbital
            V = np.concatenate([c * U[:L] - sn * U[L:], sn * U[:L] + c * U[L:]])
            for t, p in enumerate(perms):
                rows = [p[i] for i in up] + [L + p[i] for i in dn]
                out[m, s, t] = np.linalg.det(V[rows])
    return out


def psi_slater(spec, params, config):
    d = slater_dets(spec, params, config)
    if spec.get("S2") is not None:
        d = d * np.asarray(spec["S2"][1])[None, :, None]
    return d.sum()


def psi_asymm(spec, params, config):
    d = slater_dets(spec, params, config)
    if spec["type"] == "ASymmqGPSProd":
        return np.sinh(d).prod(axis=0).sum()
    c = np.asarray(spec["coeffs"])[:, None, None]
    lin = (c * d).sum(axis=0)
    return np.sinh(lin.sum()) if spec.get("how", "kernel") == "kernel" else np.sinh(lin).sum()


def log_jastrow(kernel, ims):
    K = kernel + kernel.T
    tot = 0.0
    for x in ims:
        x = np.asarray(x).astype(int)
        u, d = 1 - (x & 1), 1 - ((x >> 1) & 1)
        tot = tot + u @ K @ d
    return tot


def det_from_orbitals(spec, phi, up, dn):
    """phi: (rows, cols) orbitals; up/dn: electron positions (already symmetry mapped)."""
    L = spec["space"]["L"]
    nu = spec["space"]["n_elec"][0]
    if not spec.get("fixed", True):
        return np.linalg.det(phi[list(up) + [L + i for i in dn]])
    if spec.get("restricted", True):
        return np.linalg.det(phi[list(up)]) * np.linalg.det(phi[list(dn)])
    return np.linalg.det(phi[list(up)][:, :nu]) * np.linalg.det(phi[list(dn)][:, nu:])


def cpd_orbitals(spec, params, config):
    eps = leaf(params, "epsilon")  # (rows, cols, 4, M, K)
    rows, cols, _, M, K = eps.shape
    env = spec.get("env")
    phi = np.zeros((rows, cols), dtype=complex)
    for a in range(rows):
        sites = env[a] if env is not None else range(K)
        occ = [int(config[s]) for s in sites]
        for n in range(cols):
            for m in range(M):
                v = 1.0
                for k, o in enumerate(occ):
                    v = v * eps[a, n, o, m, k]
                phi[a, n] += v
    return phi


def correction(spec, weight, config):
    out = 0.0
    for i, o in enumerate(config):
        out = out + weight[int(o), i]
    out = np.asarray(out)
    return np.tanh(out) if spec.get("dtype", "complex") == "real" else out


def psi_backflow(spec, orbitals, weight, config):
    """Sum over symmetries of the determinant of (mean-field + correction) orbitals."""
    L = spec["space"]["L"]
    up, dn = fermi.electrons(config)
    corr = correction(spec, weight, config)  # (rows, cols, T)
    tot = 0.0
    for t, p in enumerate(models.perms_for(spec.get("sym", "none"), L)):
        phi = corr[..., t] + (0 if orbitals is None else orbitals)
        tot = tot + det_from_orbitals(spec, phi, [p[i] for i in up], [p[i] for i in dn])
    return tot


def named_child(params, *parts):
    for k in sorted(params):
        if all(p in k for p in parts):
            return params[k]
    raise KeyError(parts)


def log_amplitude(spec, variables, config):
    """Reference log-amplitude of one configuration in the space's own representation."""
    P = variables["params"]
    t = spec["type"]
    sp = spec["space"]
    with np.errstate(divide="ignore"):
        if t == "qGPS":
            return log_qgps(leaf(P, "epsilon"), images(spec, models.local_index(sp, config)))
        if t == "Plaquette":
            return log_plaquette(leaf(P, "epsilon"), spec["plaquettes"], images(spec, models.local_index(sp, config)))
        if t == "SegGPS":
            return log_seg(leaf(P, "epsilon"), models.local_index(sp, config), sp["kind"] == "fermi")
        if t.startswith("AR"):
            return log_ar(spec, P, config)
        if t == "Slater":
            return np.log(complex(psi_slater(spec, P, config)))
        if t in ("ASymmqGPS", "ASymmqGPSProd"):
            return np.log(complex(psi_asymm(spec, P, config)))
        if t == "SlaterqGPS":
            s = {"restricted": True, **spec}
            return np.log(complex(psi_slater(s, named_child(P, "Slater"), config))) + log_qgps(
                leaf(named_child(P, "qGPS"), "epsilon"), images(spec, np.asarray(config).astype(int), "gsym"))
        if t == "Jastrow":
            return log_jastrow(leaf(P, "kernel"), images(spec, config))
        if t == "SlaterJastrow":
            s = {"restricted": True, **spec}
            return np.log(complex(psi_slater(s, named_child(P, "Slater"), config))) + log_jastrow(
                leaf(named_child(P, "Jastrow"), "kernel"), images(spec, config, "gsym"))
        if t == "CPDBackflow":
            up, dn = fermi.electrons(config)
            return np.log(complex(det_from_orbitals(spec, cpd_orbitals(spec, P, config), up, dn)))
        if t == "Backflow":
            orb = leaf(variables["orbitals"], "mean_field") if spec.get("orb", True) else None
            return np.log(complex(psi_backflow(spec, orb, leaf(P, "weight"), config)))
        if t == "BackflowJastrow":
            n = spec.get("dets", 1)
            tot = 0.0
            weights = weights_in_order(P)
            model = models.build(spec)
            for d in range(n):
                tot = tot + psi_backflow(spec, np.asarray(model.orbitals[d]), weights[d], config)
            return np.log(complex(tot)) + log_jastrow(leaf(named_child(P, "Jastrow"), "kernel"),
                                                      images(spec, config, "gsym"))
    raise ValueError(t)


def weights_in_order(P):
    """Correction weights of the determinants, in the order of the model's correction modules."""
    found = []

    def walk(t, path):
        if hasattr(t, "items"):
            for k, v in t.items():
                walk(v, path + (k,))
        elif path[-1] == "weight":
            found.append((path, np.asarray(t)))

    walk(P, ())
    return [w for _, w in sorted(found, key=lambda a: a[0])]


def log_amplitudes(spec, variables, configs):
    import jax

    v = jax.tree_util.tree_map(np.asarray, variables)
    return np.array([log_amplitude(spec, v, c) for c in np.asarray(configs)], dtype=complex)
