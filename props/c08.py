"""C08: GPS-family amplitudes equal their defining sums and are invariant under the supplied symmetries."""
import netket as nk
import numpy as np
from hypothesis import strategies as st

import GPSKet.models as gm
from lib import models, reference, specs
from lib.core import Sub, close, require, rng_of, same_amplitude

RULE = (
    "Case = (model structure, parameter seed); one comparison per configuration of the space (all of them up to "
    "64, else 64 random). Non-trivial: more than one site and the table of reference amplitudes is not constant."
)
ASSUMPTIONS = [
    "permutation symmetries are supplied as (image, inverse) function pairs following the documented convention",
    "default output transformation (sum over support dimensions, plaquettes and symmetry images)",
]


def configs_for(space, rng, limit=64):
    if models.n_configs(space) <= limit:
        return models.all_configs(space)
    return models.random_configs(space, rng, limit)


def check_formula(case, rec):
    spec = case["spec"]
    r = rng_of(case)
    m = models.build(spec)
    x = configs_for(spec["space"], r) if "configs" not in case else models.random_configs(spec["space"], r, case["configs"])
    for k in range(case.get("draws", 2)):
        v = models.random_variables(spec, r)
        got = np.asarray(models.f_full(m)(v, x))
        want = reference.log_amplitudes(spec, v, x)
        close(got.astype(complex), want, f"log-amplitudes of {spec['type']}", rtol=1e-9, atol=1e-9)
        rec.add_many([x, want], spec["space"]["L"] > 1 and bool(np.ptp(want.real) > 1e-9))
        # integer, unsigned and float representations of the same configuration are the same configuration
        alt = np.asarray(models.f_full(m)(v, x[:3].astype(np.float64)))
        close(alt.astype(complex), want[:3], "log-amplitudes for float configurations", rtol=1e-9, atol=1e-9)
    rec.label(spec["type"], spec["space"]["kind"], "sym:" + spec.get("sym", "none"))
    rec.sample(case)


@st.composite
def cases(draw):
    spec = draw(st.one_of(specs.qgps(), specs.plaquette_gps(), specs.seg_gps()))
    if spec["type"] != "SegGPS" and draw(st.integers(0, 3)) == 0:
        spec = {**spec, "bare": True, "fast": False}  # the symmetry images alone, without inverse operations
    return {"spec": spec, "seed": draw(specs.seeds)}


@st.composite
def large_cases(draw):
    L = draw(st.one_of(st.integers(8, 40), st.integers(41, 150)))
    kind = draw(st.sampled_from(["fermi", "fermi_free", "spin", "spin0", "fock"]))
    sp = {"fermi": {"kind": "fermi", "L": L, "n_elec": [L // 2, draw(st.integers(0, L))]}, "fermi_free": {"kind": "fermi", "L": L},
          "spin": {"kind": "spin", "L": L}, "spin0": {"kind": "spin", "L": L - L % 2, "sz": 0}, "fock": {"kind": "fock", "L": L, "nmax": 3}}[kind]
    L = sp["L"]
    t = draw(st.sampled_from(["qGPS", "qGPS", "Plaquette", "SegGPS"]))
    s = {"type": t, "space": sp, "M": draw(st.integers(1, 3)), "dtype": draw(specs.dtypes)}
    if t == "SegGPS":
        if kind not in ("fermi", "spin0"):
            s["space"] = {"kind": "spin", "L": L - L % 2, "sz": 0}
    else:
        s["sym"] = draw(st.sampled_from(["none", "reflect", "cycle"] + (["flip"] if "spin" in kind else [])))
        if L <= 20:
            s["sym"] = draw(specs.gps_sym(sp))
    if t == "Plaquette":
        s["plaquettes"] = [list(draw(st.permutations(list(range(L)))))[:4] for _ in range(5)]
    return {"spec": s, "seed": draw(specs.seeds), "draws": 1, "configs": 6}


def check_symmetry(case, rec):
    """Invariance of the symmetrised qGPS under lattice automorphisms and spin inversion, through the helper."""
    r = rng_of(case)
    g = {"chain": lambda: nk.graph.Chain(case["n"], pbc=case["pbc"]),
         "grid": lambda: nk.graph.Grid([2, case["n"] - 1], pbc=False)}[case["graph"]]()
    L = g.n_nodes
    space = {"kind": "spin", "L": L}
    h = models.space(space)
    syms = gm.get_sym_transformation_spin(g, automorphisms=case["auto"], spin_flip=case["flip"])
    perms = np.asarray(g.automorphisms().to_array()) if case["auto"] else np.arange(L)[None]
    m = gm.qGPS(h, case["M"], dtype=np.complex128, syms=syms)
    eps = models.random_leaf("epsilon", (2, case["M"], L), np.dtype(complex), r)
    v = {"params": {"epsilon": eps}}
    x = models.random_configs(space, r, 5)
    base = np.asarray(m.apply(v, x))
    # defining sum
    want = []
    for c in x:
        idx = models.local_index(space, c)
        ims = [idx[p] for p in perms]
        if case["flip"]:
            ims = ims + [1 - i for i in ims]
        want.append(reference.log_qgps(eps, ims))
    close(base, np.array(want), "symmetrised qGPS", rtol=1e-9, atol=1e-9)
    for p in perms[r.permutation(len(perms))[:4]]:
        close(np.asarray(m.apply(v, x[:, p])), base, "amplitude after a lattice automorphism", rtol=1e-9, atol=1e-9)
    if case["flip"]:
        close(np.asarray(m.apply(v, -x)), base, "amplitude after inverting all spins", rtol=1e-9, atol=1e-9)
    # documented inverse map: the image of an update is the update of the image
    if case["auto"] or case["flip"]:
        idx = models.local_index(space, x[0])
        k = int(r.integers(1, L + 1))
        sites = r.permutation(L)[:k]
        new = idx.copy()
        new[sites] = r.integers(0, 2, size=k)
        occ, pos = syms[1](np.asarray(new[sites]), np.asarray(sites))
        img_old = np.asarray(syms[0](np.asarray(idx)))
        img_new = np.asarray(syms[0](np.asarray(new)))
        upd = img_old.copy()
        for t in range(upd.shape[-1]):
            upd[np.asarray(pos)[:, t], t] = np.asarray(occ)[:, t]
        require((upd == img_new).all(), "updating the images at the mapped sites does not give the images of the update")
    rec.add_many([x, base], len(perms) > 1 or case["flip"])
    rec.label("auto" if case["auto"] else "noauto", "flip" if case["flip"] else "noflip")
    rec.sample(case)


sym_cases = st.fixed_dictionaries({
    "graph": st.sampled_from(["chain", "chain", "grid"]), "n": st.integers(3, 5), "pbc": st.booleans(),
    "auto": st.booleans(), "flip": st.booleans(), "M": st.integers(1, 2), "seed": specs.seeds,
})

SUBS = [
    Sub("large", large_cases, check_formula, 10, 120, shards=2, weight=1.5),
    Sub("definition", cases, check_formula, 34, 300, shards=6, weight=1.0),
    Sub("spin_symmetries", lambda: sym_cases, check_symmetry, 25, 200, shards=2),
]
