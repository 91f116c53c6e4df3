"""C01: the fermionic Hilbert space is exactly the requested particle-number sector."""
import jax
import numpy as np
from hypothesis import strategies as st

from GPSKet.hilbert import FermionicDiscreteHilbert
from lib.core import Sub, require, rng_of
from lib import fermi, stat

RULE = (
    "Case = (number of sites, electron numbers or None, seed). Non-trivial: the space has at least two "
    "states (enumeration, uniformity), or the configuration batch contains both members and non-members "
    "(membership), or batch size > 1 (random states)."
)
ASSUMPTIONS = [
    "n_elec is None or a tuple of two ints in 0..N",
    "uniformity is judged by a chi-square test with false-alarm probability below 1e-9 per case",
]

seeds = st.integers(0, 2**31 - 1)


@st.composite
def spaces(draw, max_n, constrained=None, min_n=1):
    n = draw(st.integers(min_n, max_n))
    c = draw(st.booleans()) if constrained is None else constrained
    ne = [draw(st.integers(0, n)), draw(st.integers(0, n))] if c else None
    return {"N": n, "n_elec": ne, "seed": draw(seeds)}


def build(case):
    ne = case["n_elec"]
    return FermionicDiscreteHilbert(N=case["N"], n_elec=None if ne is None else tuple(ne))


def rows(a):
    return [tuple(int(v) for v in r) for r in np.asarray(a)]


def check_enumeration(case, rec):
    h = build(case)
    ref = rows(fermi.sector(case["N"], case["n_elec"]))
    require(h.size == case["N"], f"size {h.size} for N={case['N']}")
    require(list(np.asarray(h.shape)) == [4] * case["N"], f"shape {h.shape}")
    require(h.local_size == 4, f"local_size {h.local_size}")
    require([int(v) for v in h.local_states] == [0, 1, 2, 3], f"local states {h.local_states}")
    require(bool(h.constrained) == (case["n_elec"] is not None), f"constrained={h.constrained}")
    require(h.n_states == len(ref), f"{h.n_states} states, expected {len(ref)}")
    got = rows(h.all_states())
    require(len(set(got)) == len(got), "all_states contains duplicates")
    require(set(got) == set(ref), "all_states is not the set of configurations with the electron numbers")
    nums = np.arange(h.n_states)
    st_ = np.asarray(h.numbers_to_states(nums))
    require(rows(st_) == got, "numbers_to_states disagrees with all_states")
    back = np.asarray(h.states_to_numbers(st_))
    require((back == nums).all(), "states_to_numbers(numbers_to_states(n)) != n")
    loc = np.asarray(h.states_to_local_indices(st_))
    require((loc == st_.astype(int)).all(), "local index of a local state differs from the state")
    rec.add_many([nums], len(ref) > 1)
    rec.label("constrained" if case["n_elec"] else "unconstrained")
    rec.sample(case)


def check_random(case, rec):
    h = build(case)
    n = case["batch"]
    s = h.random_state(jax.random.PRNGKey(case["seed"]), n if n else None, dtype=np.dtype(case["dtype"]))
    want_shape = (n, case["N"]) if n else (case["N"],)
    require(s.shape == want_shape, f"random_state shape {s.shape}, expected {want_shape}")
    require(s.dtype == np.dtype(case["dtype"]), f"random_state dtype {s.dtype}, requested {case['dtype']}")
    a = np.asarray(s).reshape(-1, case["N"])
    require(np.isin(a, [0, 1, 2, 3]).all(), "random_state leaves the local state space")
    ai = a.astype(int)
    if case["n_elec"] is not None:
        up, dn = (ai & 1).sum(1), ((ai >> 1) & 1).sum(1)
        require((up == case["n_elec"][0]).all() and (dn == case["n_elec"][1]).all(),
                f"random_state has electron numbers {set(zip(up.tolist(), dn.tolist()))}")
    rec.add_many([a], n > 1)
    rec.sample(case)


@st.composite
def random_cases(draw):
    c = draw(spaces(14))
    c["batch"] = draw(st.sampled_from([0, 1, 2, 7, 30]))
    c["dtype"] = draw(st.sampled_from(["uint8", "int64", "float64", "float32", "int8"]))
    return c


def check_uniform(case, rec):
    h = build(case)
    ref = rows(fermi.sector(case["N"], case["n_elec"]))
    index = {c: i for i, c in enumerate(ref)}
    n = 60 * len(ref) + 400
    s = rows(h.random_state(jax.random.PRNGKey(case["seed"]), n))
    idx = []
    for c in s:
        require(c in index, f"random_state produced {c}, outside the space")
        idx.append(index[c])
    counts = np.bincount(idx, minlength=len(ref))
    bad, txt = stat.chi2_bad(counts, np.full(len(ref), 1 / len(ref)))
    require(not bad, f"random_state is not uniform over the space: {txt}")
    # successive draws are independent: pair counts over (draw k, draw k+1) factorise
    if len(ref) <= 16 and len(ref) > 1:
        pair = np.zeros((len(ref), len(ref)))
        np.add.at(pair, (idx[0:-1:2], idx[1::2]), 1)
        bad, txt = stat.chi2_bad(pair.reshape(-1), np.full(pair.size, 1 / pair.size), min_expected=2)
        require(not bad, f"successive random states are correlated: {txt}")
    rec.add(1, nontrivial=len(ref) > 1)
    rec.sample(case)


def check_membership(case, rec):
    h = build(case)
    r = rng_of(case)
    N, ne = case["N"], case["n_elec"]
    x = r.integers(0, 4, size=(40, N)).astype(np.uint8)
    # add near misses: members with one electron added / removed / spin flipped
    extra = []
    for _ in range(40):
        c = np.zeros(N, dtype=np.uint8)
        c[r.permutation(N)[: ne[0]]] += 1
        c[r.permutation(N)[: ne[1]]] += 2
        extra.append(c.copy())
        c[r.integers(N)] = r.integers(4)
        extra.append(c)
    x = np.concatenate([x, np.array(extra)])
    want = ((x & 1).sum(1) == ne[0]) & (((x >> 1) & 1).sum(1) == ne[1])
    for dt in (np.uint8, np.int64, np.float64):
        got = np.asarray(h.constraint(x.astype(dt)))
        require(got.shape == (len(x),) and (got.astype(bool) == want).all(),
                f"membership of {x[np.argmax(got.astype(bool) != want)].tolist()} judged wrongly (dtype {dt.__name__})")
    got3 = np.asarray(h.constraint(x.reshape(2, -1, N)))
    require((got3.reshape(-1).astype(bool) == want).all(), "membership of a batched array judged wrongly")
    rec.add_many([x], bool(want.any() and (~want).any()))
    rec.sample(case)


def check_identity(case, rec):
    h = build(case)
    same = build(case)
    require(h == same, f"two identically defined spaces differ: {h!r}")
    require(hash(h) == hash(same), "equal spaces have different hashes")
    o = case["other"]
    other = build(o)
    differ = (o["N"], o["n_elec"]) != (case["N"], case["n_elec"])
    require((h == other) == (not differ),
            f"N={case['N']},n_elec={case['n_elec']} == N={o['N']},n_elec={o['n_elec']} is {h == other}")
    k = case["power"]
    p = h ** k
    ne = case["n_elec"]
    want = {"N": case["N"] * k, "n_elec": None if ne is None else [ne[0] * k, ne[1] * k]}
    require(p.size == want["N"] and p == build(want), f"h**{k} is {p!r}, expected {want}")
    if want["N"] <= 6:
        ref = fermi.sector(want["N"], want["n_elec"])
        require(p.n_states == len(ref) and set(rows(p.all_states())) == set(rows(ref)),
                f"h**{k} does not contain the states of the composite space")
    rec.add(3, nontrivial=True)
    rec.sample(case)


@st.composite
def identity_cases(draw):
    c = draw(spaces(4))
    c["other"] = draw(spaces(4))
    if draw(st.booleans()):
        c["other"]["N"] = c["N"]
        if c["n_elec"] and c["other"]["n_elec"]:
            c["other"]["n_elec"] = draw(st.permutations(c["n_elec"]))
        elif c["other"]["n_elec"]:
            c["other"]["n_elec"] = [min(v, c["N"]) for v in c["other"]["n_elec"]]
    c["power"] = draw(st.integers(1, 3))
    return c


@st.composite
def large_cases(draw):
    n = draw(st.one_of(st.integers(15, 60), st.integers(61, 400)))
    few = st.integers(0, 3)
    ne = draw(st.sampled_from(["any", "half", "few", "most"]))
    pick = {"any": st.integers(0, n), "half": st.just(n // 2), "few": few, "most": few.map(lambda k: n - k)}[ne]
    return {"N": n, "n_elec": [draw(pick), draw(pick)], "seed": draw(seeds), "batch": draw(st.sampled_from([1, 16, 200])),
            "dtype": draw(st.sampled_from(["uint8", "int64", "float64"])), "power": draw(st.integers(1, 3))}


def check_large(case, rec):
    """Spaces too large to be enumerated: random states, membership, identity, and the law of single sites."""
    check_random(case, rec)
    check_membership(case, rec)
    h, ne, n = build(case), case["n_elec"], case["N"]
    p = h ** case["power"]
    want = {"N": n * case["power"], "n_elec": [v * case["power"] for v in ne]}
    require(p.size == want["N"] and p == build(want), f"h**{case['power']} is {p!r}, expected {want}")
    require(h == build(case) and hash(h) == hash(build(case)), "two identically defined large spaces differ")
    near = {"N": n, "n_elec": [ne[0] + (1 if ne[0] < n else -1), ne[1]]}
    require(h != build(near) and h != build({"N": n + 1, "n_elec": ne}), "different large spaces are equal")
    # occupation of every site by either spin, and of a site by both
    k = 3000
    s = np.asarray(h.random_state(jax.random.PRNGKey(case["seed"] + 1), k)).astype(int)
    for what, occ, q in (("up", s & 1, ne[0] / n), ("down", (s >> 1) & 1, ne[1] / n), ("double", s == 3, ne[0] * ne[1] / n**2)):
        dev = np.abs(occ.mean(axis=0) - q)
        lim = 8.5 * np.sqrt(max(q * (1 - q), 1e-12) / k) + 40 / k  # beyond 1e-14 per site also for rare events
        require(dev.max() <= lim, f"site {int(dev.argmax())}: fraction of {what} occupations off by {dev.max():.3g} (limit {lim:.3g})")
    rec.add(3, [n, ne], nontrivial=0 < ne[0] < n or 0 < ne[1] < n)


SUBS = [
    Sub("large", large_cases, check_large, 12, 200, shards=2, explicit=[
        {"N": 300, "n_elec": [150, 280], "seed": 3, "batch": 16, "dtype": "uint8", "power": 2}]),
    Sub("enumeration", lambda: spaces(5), check_enumeration, 60, 400, shards=2,
        explicit=[{"N": 3, "n_elec": [0, 0], "seed": 0}, {"N": 1, "n_elec": None, "seed": 0},
                  {"N": 4, "n_elec": [4, 1], "seed": 0}]),
    Sub("random_states", random_cases, check_random, 40, 500, shards=2),
    Sub("uniformity", lambda: spaces(3), check_uniform, 20, 200, shards=2),
    Sub("membership", lambda: spaces(9, constrained=True), check_membership, 50, 1000),
    Sub("identity_and_power", identity_cases, check_identity, 60, 600),
]
