"""C07: fast updates of determinant-type models reproduce the full evaluation over any history of moves."""
from hypothesis import strategies as st

from lib import history, specs
from lib.core import Sub

RULE = (
    "Case = (model structure, sequence of 2-5 operations, seed); every operation moves one or two electrons in 4 chains "
    "(single hops, same-spin pairs, up+down pairs including shared sites, listings that change nothing), queried or "
    "committed. One comparison per chain and operation; non-trivial: the configuration changes and at least one update "
    "was committed before."
)
ASSUMPTIONS = [
    "updates conserve the numbers of up and down electrons",
    "committed configurations have no determinant below 1e-2 of the largest one in the space (the incremental inverse "
    "is undefined at singular determinants); queried configurations are unrestricted",
    "a repeated listing of a site carries its old occupancy (the convention the on-the-fly Hamiltonians use)",
]

def wide(strategy):
    """The same models over spaces of six to nine sites."""
    @st.composite
    def strat(draw):
        s = draw(strategy)
        L = draw(st.integers(6, 9))
        half = st.integers(2, L - 2)
        up = draw(half)
        s["space"] = {"kind": "fermi", "L": L, "n_elec": [up, up if s.get("restricted") else draw(half)]}
        if s.get("env"):
            del s["env"]
        for k in ("sym", "gsym"):
            if k in s and s[k] == "trans":
                s[k] = "cycle"
        return s

    return strat()


SUBS = [
    Sub("large", lambda: history.histories(wide(st.one_of(specs.slater(fast=True), specs.slater_product(fast=True), specs.asymm(fast=True),
                                                          specs.backflow(fast=True))), max_ops=5), history.check_long, 4, 40, shards=3,
        weight=6.0),
    Sub("slater", lambda: history.histories(specs.slater(4, 40, fast=True), max_ops=6), history.check_history, 5, 50, shards=4,
        weight=5.0,
        explicit=[{"spec": {"type": "Slater", "space": {"kind": "fermi", "L": 4, "n_elec": [2, 2]}, "dets": 2,
                            "dtype": "complex", "sym": "trans", "const": c, "fast": True},
                   "ops": [["hop", True], ["updown", True], ["pair", True], ["hop", False], ["updown", False]], "seed": 5}
                  for c in (True, False)]),
    Sub("products", lambda: history.histories(specs.slater_product(4, 40, fast=True), max_ops=5), history.check_history,
        6, 50, shards=2, weight=5.0),
    Sub("asymm", lambda: history.histories(specs.asymm(4, 40, fast=True), max_ops=5), history.check_history,
        4, 40, shards=2, weight=5.0),
    Sub("backflow", lambda: history.histories(specs.backflow(4, 40, fast=True), max_ops=5), history.check_history,
        9, 80, shards=2, weight=3.0),
]
