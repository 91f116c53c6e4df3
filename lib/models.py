"""Builds wavefunction models of the repository from JSON specs and fills them with random parameters."""
import functools
import json
import zlib

import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from netket.utils import HashableArray

import GPSKet.models as gm
from GPSKet.hilbert import FermionicDiscreteHilbert

# ------------------------------------------------------------------ spaces


def space(s):
    return _space(json.dumps(s, sort_keys=True))


@functools.lru_cache(None)
def _space(js):
    s = json.loads(js)
    if s["kind"] == "fermi":
        ne = s.get("n_elec")
        return FermionicDiscreteHilbert(s["L"], n_elec=None if ne is None else tuple(ne))
    if s["kind"] == "spin":
        if s.get("sz") is None:
            return nk.hilbert.Spin(0.5, N=s["L"])
        return nk.hilbert.Spin(0.5, N=s["L"], total_sz=s["sz"])
    if s["kind"] == "fock":
        return nk.hilbert.Fock(s["nmax"], N=s["L"])
    if s["kind"] == "qubit":
        return nk.hilbert.Qubit(s["L"])
    raise ValueError(s)


def local_index(s, x):
    """Configuration in the space's own representation -> index of the local state (numpy)."""
    x = np.asarray(x).astype(int)
    if s["kind"] == "spin":
        return index_of_spin(x)
    return x


@functools.lru_cache(None)
def _spin_first():
    return int(np.asarray(nk.hilbert.Spin(0.5).local_states)[0])


def index_of_spin(x):
    # the ordering of the two local states is NetKet's; taken from the space itself
    return (x != _spin_first()).astype(int)


def random_configs(s, rng, n):
    """Uniform random members of the space, in its own representation (numpy)."""
    L = s["L"]
    if s["kind"] == "fermi":
        ne = s.get("n_elec")
        if ne is None:
            return rng.integers(0, 4, size=(n, L)).astype(np.uint8)
        out = np.zeros((n, L), dtype=np.uint8)
        for o in out:
            o[rng.permutation(L)[: ne[0]]] += 1
            o[rng.permutation(L)[: ne[1]]] += 2
        return out
    if s["kind"] == "spin":
        if s.get("sz") is None:
            return rng.choice([-1, 1], size=(n, L)).astype(np.int8)
        up = int(round(L / 2 + s["sz"]))
        out = -np.ones((n, L), dtype=np.int8)
        for o in out:
            o[rng.permutation(L)[:up]] = 1
        return out
    if s["kind"] == "fock":
        return rng.integers(0, s["nmax"] + 1, size=(n, L)).astype(np.int8)
    if s["kind"] == "qubit":
        return rng.integers(0, 2, size=(n, L)).astype(np.int8)
    raise ValueError(s)


def all_configs(s):
    """Every configuration of the space in its own representation, enumerated here (not by NetKet)."""
    import itertools

    L = s["L"]
    if s["kind"] == "fermi":
        from lib import fermi

        ne = s.get("n_elec")
        return fermi.sector(L) if ne is None else fermi.sector_up_down(L, ne)
    vals = {"spin": (-1, 1), "qubit": (0, 1)}.get(s["kind"]) or tuple(range(s["nmax"] + 1))
    out = [c for c in itertools.product(vals, repeat=L)
           if s.get("sz") is None or sum(c) == round(2 * s["sz"])]
    return np.array(out, dtype=np.int8).reshape(-1, L)


def n_configs(s):
    import math

    L = s["L"]
    if s["kind"] == "fermi":
        ne = s.get("n_elec")
        return 4**L if ne is None else math.comb(L, ne[0]) * math.comb(L, ne[1])
    if s["kind"] == "spin" and s.get("sz") is not None:
        return math.comb(L, int(round(L / 2 + s["sz"])))
    return (s["nmax"] + 1 if s["kind"] == "fock" else 2) ** L


# ------------------------------------------------------------------ symmetries


@functools.lru_cache(None)
def lattice(L):
    """Ladder for L = 6, 10, ..., chain otherwise."""
    return nk.graph.Grid([2, L // 2], pbc=False) if L % 4 == 2 and L > 2 else nk.graph.Chain(L, pbc=L > 2)


def perms_for(name, L):
    """List of site permutations (T, L): transformed[i] = original[perm[i]]."""
    if name in ("none", "flip", "local", "local+flip"):
        return np.arange(L)[None]
    if name.startswith("lattice"):
        return np.asarray(lattice(L).automorphisms().to_array())
    base = np.arange(L)
    if name.startswith("trans"):
        p = [np.roll(base, k) for k in range(L)]
    elif name.startswith("reflect"):
        p = [base, base[::-1]]
    elif name.startswith("dihedral"):
        p = [np.roll(base, k) for k in range(L)] + [np.roll(base[::-1], k) for k in range(L)]
    elif name.startswith("cycle"):  # a non-involutive, non-group-closed list of permutations
        p = [base, np.roll(base, 1)] if L > 1 else [base]
    else:
        raise ValueError(name)
    return np.array(p)


@functools.lru_cache(None)
def perm_syms(name, L):
    """(symmetries, inverse) acting on index configurations; name may end in '+flip' (two local states).
    "lattice" and "local" take the library's own pair (lattice automorphisms, or only the spin inversion)."""
    if name.startswith(("lattice", "local")):
        return gm.get_sym_transformation_spin(lattice(L), automorphisms=name.startswith("lattice"), spin_flip="flip" in name)
    perms = perms_for(name, L)
    T = len(perms)
    inv = np.argsort(perms, axis=1)
    flip = "flip" in name
    pT, iT = jnp.asarray(perms.T), jnp.asarray(inv.T)

    def symmetries(x):
        out = jnp.take(x, pT, axis=-1)
        if flip:
            out = jnp.concatenate((out, 1 - out), axis=-1)
        return out

    def inverse(occ, sites):
        s = iT[sites]
        o = jnp.tile(jnp.expand_dims(occ, -1), T)
        if flip:
            s = jnp.concatenate((s, s), axis=-1)
            o = jnp.concatenate((o, 1 - o), axis=-1)
        return o, s

    return symmetries, inverse


@functools.lru_cache(None)
def raw_syms(name, L):
    """Same, but acting on configurations in NetKet's +-1 spin representation (flip = negation)."""
    perms = perms_for(name, L)
    T = len(perms)
    inv = np.argsort(perms, axis=1)
    flip = "flip" in name
    pT, iT = jnp.asarray(perms.T), jnp.asarray(inv.T)

    def symmetries(x):
        out = jnp.take(x, pT, axis=-1)
        if flip:
            out = jnp.concatenate((out, -out), axis=-1)
        return out

    def inverse(occ, sites):
        s = iT[sites]
        o = jnp.tile(jnp.expand_dims(occ, -1), T)
        if flip:
            s = jnp.concatenate((s, s), axis=-1)
            o = jnp.concatenate((o, -o), axis=-1)
        return o, s

    return symmetries, inverse


@functools.lru_cache(None)
def electron_syms(name, L):
    """Acts on electron positions (B, N): every permutation moves site s to perm[s]."""
    perms = jnp.asarray(perms_for(name, L).T)  # (L, T)

    def symmetries(y):
        return perms[y]

    return symmetries


def sym_images(name, L, x, flipped=lambda v: 1 - v):
    """Reference: (T, L) images of one configuration."""
    x = np.asarray(x)
    ims = [x[p] for p in perms_for(name, L)]
    if "flip" in name:
        ims = ims + [flipped(i) for i in ims]
    return np.array(ims)


# ------------------------------------------------------------------ models


def dtype_of(spec):
    return {"complex": jnp.complex128, "real": jnp.float64}[spec.get("dtype", "complex")]


# The documented defaults: half of the generated models leave out every argument that has its documented value, so
# that what a user gets without asking is compared with the same definitions as what is asked for explicitly.
_COMMON = {"dtype": jnp.complex128}
_FAST = dict(_COMMON, apply_fast_update=True)
_AR = dict(_COMMON, machine_pow=2, normalize=True, apply_symmetries="none")
DEFAULTS = {
    "qGPS": dict(_FAST, syms="none"),
    "PlaquetteqGPS": dict(_COMMON, syms="none"),
    "SegGPS": dict(_COMMON),
    "ARqGPS": _AR, "ARqGPSModPhase": _AR, "ARPlaquetteqGPS": _AR,
    "ARqGPSFull": dict(_AR, apply_fast_update=True), "ARqGPSModPhaseFull": dict(_AR, apply_fast_update=True),
    "Slater": dict(_FAST, n_determinants=1, symmetries="none", spin_symmetry_by_structure=False, S2_projection=None,
                   fixed_magnetization=True, constant_time_updates=True),
    "SlaterqGPS": dict(_FAST, n_determinants=1, M=1, slater_apply_symmetries="none", qGPS_apply_symmetries="none",
                       spin_symmetry_by_structure=True, fixed_magnetization=True),
    "SlaterJastrow": dict(_FAST, n_determinants=1, slater_apply_symmetries="none", jastrow_apply_symmetries="none",
                          spin_symmetry_by_structure=True, fixed_magnetization=True),
    "Jastrow": dict(_COMMON, apply_symmetries="none"),
    "ASymmqGPS": dict(_FAST, n_determinants=1, apply_symmetries="none", spin_symmetry_by_structure=False,
                      symmetrization="kernel", coeffs=[1.0]),
    "ASymmqGPSProd": dict(_FAST, n_determinants=1, apply_symmetries="none", spin_symmetry_by_structure=False),
    "CPDBackflow": dict(_FAST, environments=None, restricted=True, fixed_magnetization=True),
    "Backflow": dict(apply_fast_update=True, apply_symmetries="none", orbitals=None, spin_symmetry_by_structure=True,
                     fixed_magnetization=True),
    "BackflowJastrow": dict(apply_fast_update=True, backflow_apply_symmetries="none", jastrow_apply_symmetries="none",
                            spin_symmetry_by_structure=True, fixed_magnetization=True),
}


class Terse:
    """The model classes of the repository, called without the arguments that equal their documented defaults."""

    def __init__(self, L, omit):
        self.trivial = [f for fam in (perm_syms, raw_syms) for f in (fam("none", L), fam("none", L)[0])]
        self.trivial.append(electron_syms("none", L))
        self.omit = omit

    def is_default(self, value, default):
        if isinstance(default, str) and default == "none":
            return any(value is f for f in self.trivial)
        if isinstance(default, list):
            return np.array_equal(np.asarray(value), default)
        return value is default or (type(value) is type(default) and value == default)

    def __getattr__(self, name):
        cls, defaults = getattr(gm, name), DEFAULTS[name]

        def make(*args, **kw):
            if self.omit:
                kw = {k: v for k, v in kw.items() if k not in defaults or not self.is_default(v, defaults[k])}
            return cls(*args, **kw)

        return make


def build(spec):
    return _build(json.dumps(spec, sort_keys=True))


@functools.lru_cache(None)
def _build(js):
    spec = json.loads(js)
    h = space(spec["space"])
    L = spec["space"]["L"]
    dt = dtype_of(spec)
    t = spec["type"]
    g = Terse(L, bool(zlib.crc32(js.encode()) & 1))
    sym = spec.get("sym", "none")
    kw = {}
    if "fast" in spec:
        kw["apply_fast_update"] = bool(spec["fast"])
    bare = (lambda pair: pair[0]) if spec.get("bare") else (lambda pair: pair)  # without the inverse operations
    if t == "qGPS":
        return g.qGPS(h, spec["M"], dtype=dt, syms=bare(perm_syms(sym, L)), **kw)
    if t == "Plaquette":
        return g.PlaquetteqGPS(h, spec["M"], HashableArray(np.array(spec["plaquettes"])), dtype=dt,
                                syms=bare(perm_syms(sym, L)), **kw)
    if t == "SegGPS":
        return g.SegGPS(h, spec["M"], dtype=dt)
    if t in ("ARqGPS", "ARqGPSModPhase"):
        cls = getattr(g, t)
        return cls(h, spec["M"], dtype=dt, machine_pow=spec.get("pow", 2), normalize=spec.get("norm", True),
                   apply_symmetries=raw_syms(sym, L)[0], **ar_space_kw(spec))
    if t in ("ARqGPSFull", "ARqGPSModPhaseFull"):
        cls = getattr(g, t)
        M = spec["M"]
        M = HashableArray(np.array(M)) if isinstance(M, list) else M
        return cls(h, M, dtype=dt, machine_pow=spec.get("pow", 2), normalize=spec.get("norm", True),
                   apply_symmetries=bare(raw_syms(sym, L)), **ar_space_kw(spec), **kw)
    if t == "ARPlaquette":
        return g.ARPlaquetteqGPS(h, spec["M"], HashableArray(np.array(spec["plaquettes"])),
                                  HashableArray(np.array(spec["masks"])), dtype=dt,
                                  machine_pow=spec.get("pow", 2), normalize=spec.get("norm", True), apply_symmetries=raw_syms(sym, L)[0],
                                  **ar_space_kw(spec))
    if t == "Slater":
        s2 = spec.get("S2")
        return g.Slater(
            h, n_determinants=spec.get("dets", 1), dtype=dt,
            init_fun=jax.nn.initializers.normal(),
            symmetries=electron_syms(sym, L),
            spin_symmetry_by_structure=bool(spec.get("restricted", False)),
            S2_projection=None if s2 is None else (HashableArray(np.array(s2[0])), HashableArray(np.array(s2[1]))),
            fixed_magnetization=bool(spec.get("fixed", True)),
            constant_time_updates=bool(spec.get("const", True)), **kw)
    if t == "SlaterqGPS":
        return g.SlaterqGPS(
            h, dtype=dt, n_determinants=spec.get("dets", 1), M=spec["M"],
            slater_init_fun=jax.nn.initializers.normal(),
            slater_apply_symmetries=electron_syms(sym, L),
            qGPS_apply_symmetries=perm_syms(spec.get("gsym", "none"), L),
            spin_symmetry_by_structure=bool(spec.get("restricted", True)),
            fixed_magnetization=bool(spec.get("fixed", True)), **kw)
    if t == "SlaterJastrow":
        return g.SlaterJastrow(
            h, dtype=dt, n_determinants=spec.get("dets", 1), slater_init_fun=jax.nn.initializers.normal(),
            slater_apply_symmetries=electron_syms(sym, L),
            jastrow_apply_symmetries=perm_syms(spec.get("gsym", "none"), L)[0],
            spin_symmetry_by_structure=bool(spec.get("restricted", True)),
            fixed_magnetization=bool(spec.get("fixed", True)), **kw)
    if t == "Jastrow":
        return g.Jastrow(h, dtype=dt, apply_symmetries=perm_syms(sym, L)[0])
    if t in ("ASymmqGPS", "ASymmqGPSProd"):
        k = dict(n_determinants=spec.get("dets", 1), dtype=dt, init_fun=jax.nn.initializers.normal(),
                 apply_symmetries=electron_syms(sym, L),
                 spin_symmetry_by_structure=bool(spec.get("restricted", False)), **kw)
        if t == "ASymmqGPS":
            k["symmetrization"] = spec.get("how", "kernel")
            k["coeffs"] = HashableArray(np.array(spec["coeffs"]))
        return getattr(g, t)(h, **k)
    if t == "CPDBackflow":
        env = spec.get("env")
        return g.CPDBackflow(h, spec["M"], environments=None if env is None else HashableArray(np.array(env)),
                              dtype=dt, restricted=bool(spec.get("restricted", True)),
                              fixed_magnetization=bool(spec.get("fixed", True)), **kw)
    if t in ("Backflow", "BackflowJastrow"):
        from GPSKet.models.qGPS import qGPS  # noqa: F401

        rng = np.random.default_rng(spec.get("oseed", 0))
        ne = spec["space"]["n_elec"]
        rows, cols = orbital_shape(spec)
        orb = lambda k: rng.normal(size=(rows, cols)) + (1j * rng.normal(size=(rows, cols)) if dt == jnp.complex128 else 0)
        nsym = len(perms_for(sym, L))
        corr = lambda: Correction(h, (rows, cols), spec["M"], dt, nsym)
        if t == "Backflow":
            return g.Backflow(h, corr(), orbitals=HashableArray(np.asarray(orb(0))) if spec.get("orb", True) else None,
                               apply_symmetries=electron_syms(sym, L),
                               spin_symmetry_by_structure=bool(spec.get("restricted", True)),
                               fixed_magnetization=bool(spec.get("fixed", True)), **kw)
        n = spec.get("dets", 1)
        return g.BackflowJastrow(h, tuple(HashableArray(np.asarray(orb(i))) for i in range(n)),
                                  tuple(corr() for i in range(n)),
                                  backflow_apply_symmetries=electron_syms(sym, L),
                                  jastrow_apply_symmetries=perm_syms(spec.get("gsym", "none"), L)[0],
                                  spin_symmetry_by_structure=bool(spec.get("restricted", True)),
                                  fixed_magnetization=bool(spec.get("fixed", True)), **kw)
    raise ValueError(t)


def orbital_shape(spec):
    L = spec["space"]["L"]
    up, dn = spec["space"]["n_elec"]
    if not spec.get("fixed", True):
        return 2 * L, up + dn
    if spec.get("restricted", True):
        return L, up
    return L, up + dn


import flax.linen as nn  # noqa: E402


class Correction(nn.Module):
    """A configuration-dependent orbital correction with the interface Backflow documents."""

    hilbert: object
    shape: tuple
    M: int
    dtype: object
    n_syms: int = 1

    @nn.compact
    def __call__(self, x, cache_intermediates=False, update_sites=None):
        L = self.hilbert.size
        w = self.param("weight", jax.nn.initializers.normal(), (4, L, *self.shape, self.n_syms), self.dtype)
        if cache_intermediates or update_sites is not None:
            saved = self.variable("intermediates_cache", "configs", lambda: None)
        if update_sites is not None:
            old = saved.value

            def put(conf, sites, occ):
                for k in reversed(range(sites.shape[0])):
                    conf = conf.at[sites[k]].set(occ[k])
                return conf

            x = jax.vmap(put)(old, update_sites, x)
        if cache_intermediates:
            saved.value = x
        xi = jnp.asarray(x, jnp.int32)
        out = jnp.zeros((x.shape[0], *self.shape, self.n_syms), self.dtype)
        for i in range(L):
            out = out + w[xi[:, i], i]
        return jnp.tanh(out) if self.dtype != jnp.complex128 else out


# counting / renormalisation functions for autoregressive models on fermionic spaces


def _fermi_count(x):
    x = jnp.asarray(x, jnp.int32)
    return jnp.stack([jnp.zeros_like(x), x & 1, (x & 2) >> 1, jnp.zeros_like(x)], axis=-1).astype(jnp.int32)


@functools.lru_cache(None)
def _fermi_renorm(up, dn):
    def renorm(n_spins, hilbert, index):
        # columns: -, ups so far, downs so far, -
        L = hilbert.size
        left = L - index - 1
        ups = n_spins[..., 1:2] + jnp.array([0, 1, 0, 1])
        dns = n_spins[..., 2:3] + jnp.array([0, 0, 1, 1])
        ok = (ups <= up) & (dns <= dn) & (up - ups <= left) & (dn - dns <= left)
        return jnp.where(ok, 0.0, -jnp.inf)

    return renorm


def _free_count(x):
    x = jnp.asarray(x, jnp.int32)
    return jnp.zeros((*x.shape, 1), jnp.int32)


def _free_renorm(n_spins, hilbert, index):
    return 0.0


def ar_space_kw(spec):
    s = spec["space"]
    if s["kind"] == "fermi":
        if s.get("n_elec") is not None:
            return {"count_spins": _fermi_count, "renormalize_log_psi": _fermi_renorm(*s["n_elec"])}
        return {"count_spins": _free_count, "renormalize_log_psi": _free_renorm}
    if s["kind"] == "fock":
        return {"count_spins": _free_count, "renormalize_log_psi": _free_renorm}
    return {}


# ------------------------------------------------------------------ parameters and evaluation

_shapes = {}


def variables_template(spec):
    key = json.dumps(spec, sort_keys=True)
    if key not in _shapes:
        m = build(spec)
        x = jnp.asarray(random_configs(spec["space"], np.random.default_rng(0), 1))
        v = jax.jit(m.init)(jax.random.PRNGKey(0), x)
        _shapes[key] = jax.tree_util.tree_map(np.asarray, dict(v))
    return _shapes[key]


def random_leaf(name, shape, dtype, rng, spread=1.0):
    cplx = np.issubdtype(dtype, np.complexfloating)
    if name.startswith("epsilon"):
        mag = np.exp(0.3 * spread * rng.normal(size=shape))
        if cplx:
            return (mag * np.exp(1j * 0.8 * spread * rng.normal(size=shape))).astype(dtype)
        sign = np.where(rng.random(shape) < 0.2, -1.0, 1.0)
        return (mag * sign).astype(dtype)
    scale = 0.3 if name in ("kernel", "weight") else 1.0
    v = rng.normal(size=shape)
    if cplx:
        v = v + 1j * rng.normal(size=shape)
    return (scale * v).astype(dtype)


def n_images(spec):
    """Number of symmetry images a GPS sums over."""
    name = spec.get("sym", "none")
    return len(perms_for(name, spec["space"]["L"])) * (2 if "flip" in name else 1)


def random_variables(spec, rng, spread=1.0):
    """Full variables with freshly drawn parameters (other collections as initialised).

    spec["big"] = B (qGPS only): log-amplitudes of about B, whose exponentials over- or underflow, differing by O(1).
    """
    tmpl = variables_template(spec)
    big = spec.get("big")

    def fill(path, leaf):
        name = getattr(path[-1], "key", str(path[-1]))
        if big and name.startswith("epsilon"):
            d = 0.6 / abs(big) * rng.normal(size=leaf.shape)
            if np.issubdtype(leaf.dtype, np.complexfloating):
                d = d + 0.6j / abs(big) * rng.normal(size=leaf.shape)
            d = 1.0 + d
            d[..., 0] *= big / (leaf.shape[1] * n_images(spec))
            return jnp.asarray(d.astype(leaf.dtype))
        return jnp.asarray(random_leaf(name, leaf.shape, leaf.dtype, rng, spread))

    out = {}
    for coll, val in tmpl.items():
        if coll == "params":
            out[coll] = jax.tree_util.tree_map_with_path(fill, val)
        else:
            out[coll] = jax.tree_util.tree_map(jnp.asarray, val)
    return out


@functools.lru_cache(None)
def f_full(model):
    return jax.jit(lambda v, x: model.apply(v, x))


@functools.lru_cache(None)
def f_cache(model):
    return jax.jit(lambda v, x: model.apply(v, x, mutable="intermediates_cache", cache_intermediates=True))


@functools.lru_cache(None)
def f_update(model):
    return jax.jit(lambda v, c, occ, s: model.apply({**v, **c}, occ, update_sites=s))


@functools.lru_cache(None)
def f_update_cache(model):
    return jax.jit(
        lambda v, c, occ, s: model.apply({**v, **c}, occ, update_sites=s, cache_intermediates=True,
                                         mutable="intermediates_cache"))
