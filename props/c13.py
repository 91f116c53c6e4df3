"""C13: the proposal of the samplers conserves particle numbers and follows a symmetric law."""
import jax
import jax.numpy as jnp
import numpy as np
import netket as nk
from hypothesis import strategies as st

from GPSKet.sampler import MetropolisFastExchange, MetropolisFastHopping, MetropolisHopping
from lib import models, specs, stat
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, hop probability, optional site-transition matrix, random starting configurations, key). From every "
    "starting configuration thousands of proposals are drawn; one comparison per starting configuration: support, "
    "conservation, listed sites, and frequencies against the exact proposal law. Non-trivial: at least three "
    "different configurations can be proposed."
)
ASSUMPTIONS = [
    "site-transition matrices are symmetric and doubly stochastic, as the factories assert the first and the law needs the second",
    "statistical decision with false-alarm probability below 1e-9 per test",
]
STARTS, DRAWS = 6, 1500


def hop_law(x, p_hop, T):
    """Exact proposal distribution from configuration x (dict configuration -> probability)."""
    L = len(x)
    out = {}

    def add(y, p):
        if p > 0:
            out[tuple(int(v) for v in y)] = out.get(tuple(int(v) for v in y), 0.0) + p

    elec = [(i, s) for i in range(L) for s in (1, 2) if x[i] & s]
    for i, s in elec if p_hop > 0 else []:
        free = [j for j in range(L) if not x[j] & s]
        for j in range(L):
            q = (T[i, j] if T is not None else ((1 / len(free)) if j in free else 0.0))
            y = np.array(x, dtype=int)
            if j in free:
                y[i] -= s
                y[j] += s
            add(y, p_hop / len(elec) * q)
        if T is None and not free:
            add(x, p_hop / len(elec))
    single = [i for i in range(L) if x[i] in (1, 2)]
    pe = 1 - p_hop
    if pe > 0 and not single:
        add(x, pe)
    for i in single if pe > 0 else []:
        part = [j for j in single if x[j] != x[i]]
        for j in range(L):
            q = (T[i, j] if T is not None else ((1 / len(part)) if j in part else 0.0))
            y = np.array(x, dtype=int)
            if j in part:
                y[i], y[j] = x[j], x[i]
            add(y, pe / len(single) * q)
        if T is None and not part:
            add(x, pe / len(single))
    return out


def site_matrix(kind, L, r):
    """Symmetric doubly stochastic matrices."""
    if kind == "none":
        return None
    if kind == "ring":
        T = np.zeros((L, L))
        for i in range(L):
            T[i, (i + 1) % L] += 0.5
            T[i, (i - 1) % L] += 0.5
        return T
    if kind == "random":
        T = np.zeros((L, L))
        w = r.dirichlet(np.ones(4))
        for k in range(4):
            p = np.eye(L)[r.permutation(L)]
            T += w[k] * (p + p.T) / 2
        return (T + T.T) / 2
    raise ValueError(kind)


JIT = jax.jit(lambda sampler, key, sig: sampler.rule.transition(sampler, None, {"params": {}}, None, key, sig))


def draw_proposals(sampler, xs, key, dtype):
    """Through the sampler object the user gets from the factory."""
    sig = jnp.asarray(xs, dtype)
    return JIT(sampler, key, sig)


def compare(x, ys, law, what):
    counts = {}
    for y in ys:
        counts[tuple(int(v) for v in y)] = counts.get(tuple(int(v) for v in y), 0) + 1
    for y in counts:
        require(y in law, f"{what}: from {list(map(int, x))} the move to {list(y)} is proposed, which is not an allowed one")
    keys = sorted(law)
    bad, msg = stat.chi2_bad([counts.get(k, 0) for k in keys], [law[k] for k in keys])
    require(not bad, f"{what}: proposals from {list(map(int, x))} do not follow the law: {msg}; "
                     f"{ {str(k): [counts.get(k, 0), round(law[k], 4)] for k in keys[:8]} }")


@st.composite
def hop_cases(draw):
    sp = draw(specs.fermi_space(2, 5, max_states=400, empty_ok=True))
    return {"space": sp, "hop": draw(st.sampled_from([1.0, 1.0, 0.0, 0.5, 0.8])),
            "T": draw(st.sampled_from(["none", "none", "ring", "random"])),
            "fast": draw(st.booleans()), "dtype": draw(st.sampled_from(["uint8", "uint8", "int8", "float64"])),
            "seed": draw(specs.seeds)}


def check_hop(case, rec):
    sp = case["space"]
    L = sp["L"]
    if sum(sp["n_elec"]) == 0:
        rec.label("skipped: no electron")
        return
    r = rng_of(case)
    h = models.space(sp)
    T = site_matrix(case["T"], L, r)
    make = MetropolisFastHopping if case["fast"] else MetropolisHopping
    sampler = make(h, hop_probability=case["hop"], transition_probs=T, n_chains=16)
    if T is not None:
        # a proposal law the acceptance rule could not balance is refused
        bad = T.copy()
        i, j = r.permutation(L)[:2]
        bad[i, j] += 0.125
        bad[i, i] -= 0.125
        try:
            make(h, hop_probability=case["hop"], transition_probs=bad, n_chains=16)
        except Exception:
            pass
        else:
            require(False, "an asymmetric site-transition matrix is accepted")
    starts = models.random_configs(sp, r, STARTS)
    # the last starting points: as many doubly occupied sites as possible / as few
    up, dn = sp["n_elec"]
    starts[0] = 0
    starts[0][:up] += 1
    starts[0][:dn] += 2
    xs = np.repeat(starts, DRAWS, axis=0)
    mix = r.permutation(len(xs))
    xs = xs[mix]
    owner = np.repeat(np.arange(STARTS), DRAWS)[mix]
    key = jax.random.PRNGKey(int(r.integers(2**31)))
    out = draw_proposals(sampler, xs, key, case["dtype"])
    ys = np.asarray(out[0])
    require(out[1] is None, "a correction to the acceptance probability is returned for a symmetric proposal")
    require(ys.shape == xs.shape and ys.dtype == np.dtype(case["dtype"]), f"proposals have shape {ys.shape}, dtype {ys.dtype}")
    if case["fast"]:
        sites = np.asarray(out[2])
        require(sites.shape[0] == len(xs), f"listed sites have shape {sites.shape}")
        listed = np.zeros(xs.shape, bool)
        np.put_along_axis(listed, sites, True, axis=1)
        bad = (ys != xs) & ~listed
        if bad.any():
            b = int(np.argwhere(bad)[0, 0])
            require(False, f"the move {xs[b].tolist()} -> {ys[b].tolist()} lists only the sites {sites[b].tolist()}")
    yi = ys.astype(int)
    require(((yi >= 0) & (yi <= 3)).all(), "a proposal contains an invalid occupancy")
    require(((yi & 1).sum(1) == up).all() and (((yi & 2) >> 1).sum(1) == dn).all(), "a proposal changes the number of electrons")
    for k in range(STARTS):
        law = hop_law(starts[k].astype(int), case["hop"], T)
        compare(starts[k], yi[owner == k], law, "hopping")
        rec.add(DRAWS, key=[starts[k].tolist(), k], nontrivial=len(law) >= 3)
    rec.label("T:" + case["T"], f"hop {case['hop']}", "fast" if case["fast"] else "regular")
    # independence across chains: neighbouring chains do not move alike
    same = [k for k in range(STARTS) if len(hop_law(starts[k].astype(int), case["hop"], T)) >= 3]
    if same:
        k = same[0]
        law = hop_law(starts[k].astype(int), case["hop"], T)
        names = sorted(law)
        idx = np.array([names.index(tuple(int(v) for v in y)) for y in yi[owner == k]])
        p = np.array([law[n] for n in names])
        n = len(names)
        a, b = idx[0:-1:2], idx[1::2][: len(idx[0:-1:2])]
        top = np.argsort(-p)[:4]
        code = np.full(n, 4)
        code[top] = np.arange(len(top))
        pc = np.bincount(code, weights=p, minlength=5)
        bad, msg = stat.chi2_bad(np.bincount(code[a] * 5 + code[b], minlength=25), np.outer(pc, pc).reshape(-1))
        require(not bad, f"moves of neighbouring chains are not independent: {msg}")
    rec.sample(case)


@st.composite
def exchange_cases(draw):
    L = draw(st.integers(2, 6))
    how = draw(st.sampled_from(["clusters", "graph"]))
    kind = draw(st.sampled_from(["spin", "spin", "fermi", "fock"]))
    c = {"L": L, "how": how, "kind": kind, "seed": draw(specs.seeds)}
    if how == "clusters":
        n = draw(st.integers(1, 6))
        c["clusters"] = [list(draw(st.permutations(list(range(L)))))[:2] for _ in range(n)]
    else:
        c["L"] = max(L, 3)
        c["d_max"] = draw(st.integers(1, 2))
        c["pbc"] = draw(st.booleans())
    return c


def check_exchange(case, rec):
    L = case["L"]
    r = rng_of(case)
    sp = {"kind": case["kind"], "L": L, "nmax": 3}
    if case["kind"] == "fermi":
        sp["n_elec"] = [max(1, L // 2), max(1, L // 2)]
    h = models.space(sp)
    if case["how"] == "clusters":
        clusters = [tuple(c) for c in case["clusters"]]
        sampler = MetropolisFastExchange(h, clusters=clusters, n_chains=16)
    else:
        g = nk.graph.Chain(L, pbc=case["pbc"])
        sampler = MetropolisFastExchange(h, graph=g, d_max=case["d_max"], n_chains=16)
        clusters = []
        for i in range(L):
            for j in range(i):
                d = abs(i - j)
                d = min(d, L - d) if case["pbc"] else d
                if d <= case["d_max"]:
                    clusters.append((i, j))
    starts = models.random_configs(sp, r, STARTS)
    xs = np.repeat(starts, DRAWS, axis=0)
    mix = r.permutation(len(xs))
    xs = xs[mix]
    owner = np.repeat(np.arange(STARTS), DRAWS)[mix]
    out = draw_proposals(sampler, xs, jax.random.PRNGKey(int(r.integers(2**31))), xs.dtype)
    ys, sites = np.asarray(out[0]), np.asarray(out[2])
    require(ys.shape == xs.shape and ys.dtype == xs.dtype, f"proposals have shape {ys.shape}, dtype {ys.dtype}")
    listed = np.zeros(xs.shape, bool)
    np.put_along_axis(listed, sites, True, axis=1)
    require(not ((ys != xs) & ~listed).any(), "an exchange changes a site it does not list")
    require((np.sort(ys, 1) == np.sort(xs, 1)).all(), "an exchange does not permute the occupancies")
    for k in range(STARTS):
        law = {}
        for i, j in clusters:
            y = starts[k].copy()
            y[i], y[j] = starts[k][j], starts[k][i]
            t = tuple(int(v) for v in y)
            law[t] = law.get(t, 0) + 1 / len(clusters)
        compare(starts[k], ys[owner == k], law, "exchange")
        rec.add(DRAWS, key=[starts[k].tolist(), k], nontrivial=len(law) >= 3)
    rec.label(case["how"], case["kind"])
    rec.sample(case)


@st.composite
def large_hops(draw):
    c = draw(hop_cases())
    L = draw(st.one_of(st.integers(6, 20), st.integers(21, 80)))
    n = st.one_of(st.integers(0, L), st.just(L // 2))
    c["space"] = {"kind": "fermi", "L": L, "n_elec": [draw(n), draw(n)]}
    return c


@st.composite
def large_exchanges(draw):
    c = draw(exchange_cases())
    c["L"] = L = draw(st.integers(8, 60))
    if c["how"] == "clusters":
        c["clusters"] = [list(draw(st.permutations(list(range(L)))))[:2] for _ in range(12)]
    return c


SUBS = [
    Sub("large_hopping", large_hops, check_hop, 5, 100, shards=2, weight=1.5),
    Sub("large_exchange", large_exchanges, check_exchange, 5, 80, shards=1),
    Sub("hopping", hop_cases, check_hop, 16, 300, shards=6,
        explicit=[{"space": {"kind": "fermi", "L": 4, "n_elec": [2, 1]}, "hop": 0.5, "T": t, "fast": f, "dtype": "uint8", "seed": 5}
                  for t in ("none", "ring") for f in (True, False)]),
    Sub("exchange", exchange_cases, check_exchange, 10, 150, shards=2, weight=0.6),
]
