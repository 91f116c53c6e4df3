"""C06: fast updates of GPS-type models reproduce the full evaluation over any history of moves."""
from hypothesis import strategies as st

from lib import history, specs
from lib.core import Sub

RULE = (
    "Case = (model structure, sequence of 2-7 operations, seed); every operation updates 4 chains by listing changed "
    "sites (one to all sites, in any order, with repeated listings), either queried or committed to the cache. One "
    "comparison per chain and operation; non-trivial: the configuration changes and at least one update was committed before."
)
ASSUMPTIONS = [
    "an updated site may be listed again; the first listing carries the new occupancy, later listings carry the old one "
    "(the convention the on-the-fly Hamiltonians use)",
    "parameters are non-zero (magnitudes around one)",
]


def spaces():
    return st.one_of(
        specs.fermi_space(2, 4),
        specs.spin_space(2, 6),
        st.integers(2, 3).map(lambda L: {"kind": "fermi", "L": L}),
        st.tuples(st.integers(2, 3), st.integers(1, 3)).map(lambda a: {"kind": "fock", "L": a[0], "nmax": a[1]}),
    )


def ar_space():
    return st.one_of(
        st.sampled_from([4, 6, 4]).map(lambda L: {"kind": "spin", "L": L, "sz": 0}),
        st.integers(4, 5).map(lambda L: {"kind": "spin", "L": L}),
        specs.fermi_space(3, 4),
        st.just({"kind": "fermi", "L": 3}),
    )


def ar_full():
    return specs.ar_model(types=("ARqGPSFull", "ARqGPSFull", "ARqGPSModPhaseFull"), space=ar_space()).map(
        lambda s: {**{k: a for k, a in s.items() if k != "bare"}, "fast": True})


@st.composite
def large_models(draw):
    t = draw(st.sampled_from(["qGPS", "qGPS", "Plaquette", "ARqGPSFull"]))
    L = draw(st.integers(7, 12) if t == "ARqGPSFull" else st.integers(8, 60))
    L += L % 2
    kinds = [{"kind": "spin", "L": L, "sz": 0}, {"kind": "spin", "L": L}, {"kind": "fermi", "L": L},
             {"kind": "fermi", "L": L, "n_elec": [L // 2, draw(st.integers(1, L - 1))]}, {"kind": "fock", "L": L, "nmax": 3}]
    sp = draw(st.sampled_from(kinds))
    s = {"type": t, "space": sp, "M": draw(st.integers(1, 2)), "dtype": draw(specs.dtypes), "fast": True,
         "sym": draw(st.sampled_from(["none", "none", "reflect", "cycle"]))}
    if t == "Plaquette":
        s["plaquettes"] = [list(draw(st.permutations(list(range(L)))))[: draw(st.integers(2, 6))]]
        s["plaquettes"] += [list(draw(st.permutations(list(range(L)))))[: len(s["plaquettes"][0])] for _ in range(3)]
    if t == "ARqGPSFull":
        s["pow"] = 2
    return s


SUBS = [
    Sub("large", lambda: history.histories(large_models(), max_ops=6), history.check_long, 12, 120, shards=3, weight=2.0),
    Sub("qgps", lambda: history.histories(specs.qgps(spaces(), fast=True)), history.check_history, 28, 250, shards=3,
        weight=0.8),
    Sub("plaquette", lambda: history.histories(specs.plaquette_gps(spaces(), fast=True)), history.check_history, 20, 200,
        shards=2, weight=1.0),
    Sub("autoregressive", lambda: history.histories(ar_full(), max_ops=5), history.check_history, 9, 80, shards=4,
        weight=3.0),
]
