"""C11: determinant-based amplitudes equal their definitions; spin projection yields singlets."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import GPSKet.models as gm
from GPSKet.models.pfaffian import get_gauss_leg_elements_Sy
from lib import fermi, models, reference, specs
from props import c07
from lib.core import Sub, close, require, rng_of, same_amplitude

RULE = (
    "Case = (model structure, parameter seed). One comparison per configuration of the whole space (amplitude against "
    "explicit determinants / sums). Non-trivial: at least two electrons of one spin and at least one hole, so the "
    "determinant is not a single entry."
)
ASSUMPTIONS = [
    "electron numbers fixed per spin; fermionic ordering: ups by site, then downs by site",
    "amplitudes below 1e-9 of the largest one in the space are compared absolutely",
    "symmetry operations act on electron positions (determinants) or occupations (GPS and Jastrow factors)",
]


def nontrivial(sp):
    L, (u, d) = sp["L"], sp["n_elec"]
    return (2 <= u < L) or (2 <= d < L) or (1 <= u < L and 1 <= d < L)


def check_formula(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    m = models.build(spec)
    x = models.all_configs(sp) if models.n_configs(sp) <= 400 else models.random_configs(sp, r, 24)
    for _ in range(2):
        v = models.random_variables(spec, r, spread=0.4 if spec["type"].startswith("ASymm") and sp["L"] > 5 else 1.0)
        got = np.asarray(models.f_full(m)(v, x))
        require(got.shape == (len(x),), f"amplitudes have shape {got.shape} for {len(x)} configurations")
        want = reference.log_amplitudes(spec, v, x)
        if np.isposinf(want.real).any():
            rec.label("skipped: overflowing amplitudes")
            continue
        same_amplitude(got, want, f"amplitude of {spec['type']}", rtol=1e-6, floor=1e-9)
        rec.add_many([x, want], nontrivial(sp))
        # a single configuration, a permuted batch are the same configurations
        if _ == 0:
            continue
        if spec["type"] in ("ASymmqGPS", "ASymmqGPSProd", "Jastrow"):
            k = int(r.integers(len(x)))
            one = np.asarray(m.apply(v, jnp.asarray(x[k])))
            require(one.size == 1, f"the amplitude of one configuration has shape {one.shape}")
            same_amplitude(np.concatenate((one.reshape(-1), got)), np.concatenate((want[k:k + 1], want)),
                           f"amplitude of one configuration of {spec['type']}", rtol=1e-6, floor=1e-9)
        k = r.permutation(len(x))[:5]
        same_amplitude(np.asarray(m.apply(v, jnp.asarray(x[k].astype(np.int64)))), want[k], "amplitude of a permuted integer batch",
                       rtol=1e-6, floor=1e-9 * np.exp(max(0.0, np.nanmax(want.real) - np.nanmax(want[k].real)))) \
            if np.isfinite(want[k].real).any() else None
    rec.label(spec["type"], "sym:" + spec.get("sym", "none"), "S2" if spec.get("S2") else "noS2")
    rec.sample(case)


def spec_cases(strategy):
    @st.composite
    def strat(draw):
        return {"spec": draw(strategy), "seed": draw(specs.seeds)}

    return strat


@st.composite
def jastrow(draw):
    sp = draw(specs.fermi_space(2, 4, empty_ok=True))
    return {"type": "Jastrow", "space": sp, "dtype": draw(specs.dtypes),
            "sym": draw(st.sampled_from(["none", "trans", "reflect", "dihedral"]))}


# ------------------------------------------------------------------ spin projection


def s_plus(basis, psi, L):
    """S+ applied to an amplitude table -> {bits: amplitude}."""
    out = {}
    for c, a in zip(basis, psi):
        b = fermi.bits(c)
        for i in range(L):
            s, b2 = fermi.hop(b, i, L + i)
            if s:
                out[b2] = out.get(b2, 0.0) + s * a
    return np.array(list(out.values()))


@st.composite
def singlets(draw):
    L = draw(st.sampled_from([2, 3, 4, 4]))
    n = draw(st.integers(1, L - 1))
    return {"L": L, "n": n, "dets": draw(st.integers(1, 2)), "sym": draw(st.sampled_from(["none", "trans"])),
            "fixed": True, "extra": draw(st.integers(0, 2)), "dtype": draw(specs.dtypes), "seed": draw(specs.seeds)}


def check_singlet(case, rec):
    L, n = case["L"], case["n"]
    angles, weights = get_gauss_leg_elements_Sy(n + 1 + case["extra"])
    sp = {"kind": "fermi", "L": L, "n_elec": [n, n]}
    spec = {"type": "Slater", "space": sp, "dets": case["dets"], "dtype": case["dtype"], "sym": case["sym"],
            "fixed": case["fixed"], "S2": [np.asarray(angles).tolist(), np.asarray(weights).tolist()]}
    r = rng_of(case)
    v = models.random_variables(spec, r)
    m = models.build(spec)
    x = models.all_configs(sp)
    logs = np.asarray(models.f_full(m)(v, x)).astype(complex)
    psi = np.where(np.isfinite(logs.real), np.exp(np.where(np.isfinite(logs.real), logs, 0)), 0)
    ref = np.exp(reference.log_amplitudes(dict(spec, S2=None), v, x))
    # P = sum_k w_k exp(-i a_k Sy) = 2 |S=0><S=0|: project the reference table independently
    raised = s_plus(x, psi, L)
    scale = np.abs(ref).max()
    close(raised, np.zeros_like(raised), "S+ applied to the spin-projected state", atol=1e-8 * max(1.0, scale))
    if case["fixed"]:
        S2 = np.zeros((len(x), len(x)))
        index = {fermi.bits(c): k for k, c in enumerate(x)}
        for k, c in enumerate(x):
            b = fermi.bits(c)
            for i in range(L):
                s, b2 = fermi.hop(b, i, L + i)
                if not s:
                    continue
                for j in range(L):
                    s2, b3 = fermi.hop(b2, L + j, j)
                    if s2:
                        S2[index[b3], k] += s * s2
        w, V = np.linalg.eigh(S2)
        P0 = V[:, np.abs(w) < 1e-8] @ V[:, np.abs(w) < 1e-8].T
        close(psi, 2 * P0 @ ref, "spin-projected amplitudes against twice the exact singlet projection", rtol=1e-7, atol=1e-8)
    rec.add_many([x, psi], n >= 1 and np.abs(psi).max() > 1e-6 * scale)
    rec.label("general orbitals" if not case["fixed"] else "Sz orbitals")
    rec.sample(case)


# ------------------------------------------------------------------ occupations to positions


def check_positions(case, rec):
    L, ne = case["L"], case["n_elec"]
    r = rng_of(case)
    x = models.random_configs({"kind": "fermi", "L": L, "n_elec": ne}, r, 12)
    y = np.asarray(gm.occupancies_to_electrons(jnp.asarray(x), tuple(ne)))
    require(y.shape == (12, sum(ne)), f"electron positions have shape {y.shape}")
    for c, p in zip(x, y):
        up, dn = fermi.electrons(c)
        want = list(up) + list(dn)
        require(list(map(int, p)) == [int(a) for a in want],
                f"electron positions of {c.tolist()}: {p.tolist()}, expected {want}")
    rec.add_many([x], 0 < ne[0] < L)
    rec.sample(case)


@st.composite
def position_cases(draw):
    L = draw(st.integers(1, 8))
    return {"L": L, "n_elec": [draw(st.integers(0, L)), draw(st.integers(0, L))], "seed": draw(specs.seeds)}


SUBS = [
    Sub("large", spec_cases(c07.wide(st.one_of(specs.slater(), specs.slater_product(), specs.asymm(), specs.backflow(), jastrow()))), check_formula,
        6, 80, shards=3, weight=2.0),
    Sub("slater", spec_cases(specs.slater(4)), check_formula, 12, 150, shards=3, weight=1.5),
    Sub("products", spec_cases(specs.slater_product(4)), check_formula, 8, 100, shards=2, weight=1.5),
    Sub("asymm", spec_cases(specs.asymm(4)), check_formula, 8, 100, shards=2, weight=1.5),
    Sub("backflow", spec_cases(specs.backflow(4, env_ok=True)), check_formula, 10, 120, shards=2, weight=1.2),
    Sub("jastrow", spec_cases(jastrow()), check_formula, 10, 120, shards=1, weight=0.8),
    Sub("singlet", singlets, check_singlet, 8, 80, shards=2, weight=1.5),
    Sub("positions", position_cases, check_positions, 20, 200),
]
