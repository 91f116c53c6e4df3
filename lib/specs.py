"""Hypothesis strategies for model specifications (JSON)."""
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


@st.composite
def fermi_space(draw, lo=2, hi=4, equal=False, both=False, max_states=100, empty_ok=False):
    """Particle-number constrained fermionic space of moderate size."""
    import math

    L = draw(st.sampled_from([hi, hi, *range(hi, lo - 1, -1)]))
    low = 0 if empty_ok else 1
    # mostly partially filled bands, now and then empty or full ones
    fill = st.sampled_from([*range(1, L), *range(1, L), *range(low, L + 1)])
    for _ in range(50):
        up = draw(fill)
        dn = up if equal else draw(fill)
        if math.comb(L, up) * math.comb(L, dn) <= max_states:
            break
    else:
        up = dn = 1
    return {"kind": "fermi", "L": L, "n_elec": [up, dn]}


@st.composite
def spin_space(draw, lo=2, hi=6, constrained=None):
    L = draw(st.integers(lo, hi))
    c = draw(st.booleans()) if constrained is None else constrained
    if c:
        L = max(2, L - L % 2)
        return {"kind": "spin", "L": L, "sz": 0}
    return {"kind": "spin", "L": L}


dtypes = st.sampled_from(["complex", "real"])


def gps_sym(space):
    names = ["none", "none", "trans", "reflect", "dihedral", "cycle"]
    if space["kind"] in ("spin", "qubit"):
        names += ["flip", "trans+flip", "reflect+flip"]
        if 2 < space["L"] <= 8:
            names += ["lattice", "lattice", "lattice+flip", "local+flip", "local"]
    return st.sampled_from(names)


@st.composite
def any_space(draw, hi=5):
    k = draw(st.sampled_from(["fermi", "fermi_free", "spin", "fock", "qubit"]))
    if k == "fermi":
        return draw(fermi_space(1, min(hi, 5)))
    L = draw(st.integers(1, hi))
    if k == "fermi_free":
        return {"kind": "fermi", "L": min(L, 4)}
    if k == "spin":
        return draw(spin_space(1, hi))
    if k == "fock":
        return {"kind": "fock", "L": min(L, 4), "nmax": draw(st.integers(1, 3))}
    return {"kind": "qubit", "L": L}


@st.composite
def plaquettes(draw, L):
    K = draw(st.integers(1, L))
    P = draw(st.integers(1, 4))
    return [list(draw(st.permutations(list(range(L)))))[:K] for _ in range(P)]


@st.composite
def qgps(draw, space=None, fast=None):
    sp = draw(space if space is not None else any_space())
    s = {"type": "qGPS", "space": sp, "M": draw(st.integers(1, 3)), "dtype": draw(dtypes), "sym": draw(gps_sym(sp))}
    if fast is not None:
        s["fast"] = fast
    return s


@st.composite
def plaquette_gps(draw, space=None, fast=None):
    sp = draw(space if space is not None else any_space())
    s = {"type": "Plaquette", "space": sp, "M": draw(st.integers(1, 2)), "dtype": draw(dtypes),
         "sym": draw(gps_sym(sp)), "plaquettes": draw(plaquettes(sp["L"]))}
    if fast is not None:
        s["fast"] = fast
    return s


@st.composite
def seg_gps(draw):
    if draw(st.booleans()):
        sp = draw(fermi_space(1, 5, empty_ok=True))
    else:
        L = draw(st.integers(1, 6))
        up = draw(st.integers(0, L))
        sp = {"kind": "spin", "L": L, "sz": up - L / 2}
    return {"type": "SegGPS", "space": sp, "M": draw(st.integers(1, 3)), "dtype": draw(dtypes)}


@st.composite
def ar_space(draw, hi=5):
    k = draw(st.sampled_from(["spin0", "spin0", "spin", "fermi", "fermi_free", "fock"]))
    if k == "spin0":
        return {"kind": "spin", "L": draw(st.sampled_from([2, 4, 4, 6])), "sz": 0}
    if k == "spin":
        return {"kind": "spin", "L": draw(st.integers(1, hi + 1))}
    if k == "fermi":
        return draw(fermi_space(2, 4, empty_ok=True))
    if k == "fermi_free":
        return {"kind": "fermi", "L": draw(st.integers(1, 3))}
    return {"kind": "fock", "L": draw(st.integers(1, 3)), "nmax": draw(st.integers(1, 3))}


@st.composite
def ar_model(draw, types=("ARqGPS", "ARqGPSModPhase", "ARqGPSFull", "ARqGPSModPhaseFull", "ARPlaquette"),
             syms=True, space=None, norm=False):
    t = draw(st.sampled_from(list(types)))
    sp = draw(space if space is not None else ar_space())
    L = sp["L"]
    s = {"type": t, "space": sp, "M": draw(st.integers(1, 3)), "pow": draw(st.sampled_from([2, 2, 2, 1])),
         "dtype": "real" if "ModPhase" in t else draw(dtypes)}
    if t.endswith("Full"):
        if draw(st.integers(0, 3)) == 0:
            s["M"] = [draw(st.integers(1, 3)) for _ in range(L)]
        s["fast"] = draw(st.booleans())
        if not s["fast"] and draw(st.booleans()):
            s["bare"] = True
    if t == "ARPlaquette":
        pl, mk = [], []
        how = draw(st.sampled_from(["roll", "free"]))
        for i in range(L):
            p = [(i + k) % L for k in range(L)] if how == "roll" else list(draw(st.permutations(list(range(L)))))
            pl.append(p)
            mk.append([1 if (p[k] < i and k > 0) else 0 for k in range(L)])
        s["plaquettes"], s["masks"] = pl, mk
    if norm and draw(st.integers(0, 5)) == 0:
        s["norm"] = False
    if syms:
        names = ["none", "none", "trans", "reflect", "cycle"]
        if sp["kind"] == "spin":
            names += ["flip", "trans+flip"]
        s["sym"] = draw(st.sampled_from(names))
    return s


@st.composite
def slater(draw, hi=4, max_states=100, fast=None):
    sp = draw(fermi_space(2, hi, max_states=max_states))
    s = {"type": "Slater", "space": sp, "dets": draw(st.integers(1, 2)), "dtype": draw(dtypes),
         "sym": draw(st.sampled_from(["none", "none", "trans", "reflect"])),
         "const": draw(st.booleans())}
    variant = draw(st.sampled_from(["plain", "plain", "restricted", "general", "S2"]))
    if variant == "restricted":
        sp["n_elec"][1] = sp["n_elec"][0]
        s["restricted"] = True
    elif variant == "general":
        s["fixed"] = False
    elif variant == "S2":
        n = draw(st.integers(1, 3))
        s["S2"] = [[round(draw(st.floats(0.2, 2.9)), 2) for _ in range(n)],
                   [round(draw(st.floats(0.2, 1.5)), 2) for _ in range(n)]]
    if fast is not None:
        s["fast"] = fast
    return s


@st.composite
def slater_product(draw, hi=4, max_states=60, types=("SlaterqGPS", "SlaterJastrow"), fast=None):
    t = draw(st.sampled_from(list(types)))
    sp = draw(fermi_space(2, hi, max_states=max_states))
    s = {"type": t, "space": sp, "dets": draw(st.integers(1, 2)), "dtype": draw(dtypes),
         "sym": draw(st.sampled_from(["none", "none", "trans"])),
         "gsym": draw(st.sampled_from(["none", "none", "trans", "reflect"])),
         "restricted": draw(st.booleans()), "fixed": draw(st.sampled_from([True, True, False]))}
    if t == "SlaterqGPS":
        s["M"] = draw(st.integers(1, 2))
    if s["restricted"]:
        sp["n_elec"][1] = sp["n_elec"][0]
    if not s["fixed"]:
        s["restricted"] = False
    if fast is not None:
        s["fast"] = fast
    return s


@st.composite
def asymm(draw, hi=4, max_states=60, fast=None):
    t = draw(st.sampled_from(["ASymmqGPS", "ASymmqGPS", "ASymmqGPSProd"]))
    sp = draw(fermi_space(2, hi, max_states=max_states))
    s = {"type": t, "space": sp, "dtype": draw(dtypes), "sym": draw(st.sampled_from(["none", "none", "trans", "reflect"])),
         "restricted": draw(st.booleans())}
    if t == "ASymmqGPS":
        s["dets"] = draw(st.integers(1, 3))
        s["coeffs"] = [round(draw(st.floats(0.3, 1.5)), 2) * draw(st.sampled_from([1, -1])) for _ in range(s["dets"])]
        s["how"] = draw(st.sampled_from(["kernel", "projective"]))
    else:
        s["dets"] = draw(st.sampled_from([1, 3]))
    if s["restricted"]:
        sp["n_elec"][1] = sp["n_elec"][0]
    if fast is not None:
        s["fast"] = fast
    return s


@st.composite
def backflow(draw, hi=4, max_states=60, types=("CPDBackflow", "Backflow", "BackflowJastrow"), env_ok=False, fast=None):
    t = draw(st.sampled_from(list(types)))
    sp = draw(fermi_space(2, hi, max_states=max_states))
    s = {"type": t, "space": sp, "dtype": draw(dtypes), "M": draw(st.integers(1, 3)),
         "restricted": draw(st.booleans()), "fixed": draw(st.sampled_from([True, True, False]))}
    if not s["fixed"]:
        s["restricted"] = False
    if s["restricted"]:
        sp["n_elec"][1] = sp["n_elec"][0]
    if t == "CPDBackflow":
        if env_ok and draw(st.integers(0, 2)) == 0:
            rows = sp["L"] if s["fixed"] else 2 * sp["L"]
            K = draw(st.integers(1, sp["L"]))
            s["env"] = [list(draw(st.permutations(list(range(sp["L"])))))[:K] for _ in range(rows)]
    else:
        s["sym"] = draw(st.sampled_from(["none", "none", "trans", "reflect"]))
        s["oseed"] = draw(st.integers(0, 99))
        if t == "Backflow":
            s["orb"] = draw(st.sampled_from([True, True, False]))
        else:
            s["dets"] = draw(st.integers(1, 2))
            s["gsym"] = draw(st.sampled_from(["none", "trans"]))
    if fast is not None:
        s["fast"] = fast
    return s
