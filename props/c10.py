"""C10: direct autoregressive sampling draws independent configurations from |psi|^2."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from GPSKet.sampler import ARDirectSampler
from lib import models, reference, specs, stat
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (autoregressive model, parameters, sampler seed). One comparison per drawn "
    "configuration batch: histogram against the exact distribution (chi-square, false-alarm probability below 1e-9). "
    "Non-trivial: the exact distribution has at least three outcomes above 1% and none above 95%."
)
ASSUMPTIONS = [
    "symmetry operations handed to the model form a group (needed for |psi|^2 to be the distribution of a random image)",
    "statistical decision with false-alarm probability below 1e-9 per test",
]
N = 8000


@st.composite
def cases(draw, types):
    spec = draw(specs.ar_model(types=types, syms=True))
    spec["pow"] = draw(st.sampled_from([2, 2, 2, 1]))
    if "cycle" in spec["sym"]:
        spec["sym"] = "reflect"
    if "fast" in spec:
        spec["fast"] = False
    return {"spec": spec, "seed": draw(specs.seeds),
            "cachevars": draw(st.booleans())}


def exact(spec, v, basis):
    logs = reference.log_amplitudes(spec, v, basis)
    p = np.exp(spec["pow"] * np.where(np.isfinite(logs.real), logs.real, -np.inf))
    return p


def check(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    m = models.build(spec)
    h = models.space(sp)
    v = models.random_variables(spec, r)
    if not case["cachevars"]:
        v = {k: a for k, a in dict(v).items() if k != "cache"}
    basis = models.all_configs(sp)
    p = exact(spec, v, basis)
    close(p.sum(), np.float64(1.0), "reference distribution (harness)", atol=1e-6)
    sa = ARDirectSampler(h)
    chains = int(sa.n_chains)
    length = -(-N // chains)
    state = sa.init_state(m, v, seed=int(r.integers(2**31)))
    state = sa.reset(m, v, state)
    x, state2 = sa.sample(m, v, state=state, chain_length=length)
    x = np.asarray(x)
    require(x.shape == (chains, length, sp["L"]), f"samples have shape {x.shape}")
    index = {tuple(int(a) for a in c): k for k, c in enumerate(basis)}

    def idx_of(arr):
        out = np.empty(arr.shape[:-1], dtype=int)
        flat = arr.reshape(-1, arr.shape[-1])
        o = out.reshape(-1)
        for k, c in enumerate(flat):
            key = tuple(int(a) for a in c)
            if key not in index or not np.array_equal(np.asarray(key), c):
                require(False, f"sampled {c.tolist()}, which is not a configuration of the space")
            o[k] = index[key]
        return out

    k = idx_of(x)
    bad, msg = stat.chi2_bad(np.bincount(k.reshape(-1), minlength=len(basis)), p)
    require(not bad, f"samples do not follow |psi|^{spec['pow']}: {msg}")
    # same state: same draw; the returned state: a new, independent draw
    again = np.asarray(sa.sample(m, v, state=state, chain_length=length)[0])
    require(np.array_equal(again, x), "sampling twice from the same sampler state gives different samples")
    y, _ = sa.sample(m, v, state=state2, chain_length=length)
    k2 = idx_of(np.asarray(y))
    bad, msg = stat.chi2_bad(np.bincount(k2.reshape(-1), minlength=len(basis)), p)
    require(not bad, f"second batch does not follow |psi|^{spec['pow']}: {msg}")
    rich = int((p > 0.01).sum()) >= 3 and p.max() < 0.95
    # independence: joint law of neighbouring draws (in time, across chains and between the two batches)
    top = np.argsort(-p)[:5]
    code = np.full(len(basis), 5)
    code[top] = np.arange(len(top))
    pc = np.bincount(code, weights=p, minlength=6)
    joint = np.outer(pc, pc).reshape(-1)

    def pairs(a, b, what):
        a, b = code[a.reshape(-1)], code[b.reshape(-1)]
        bad, msg = stat.chi2_bad(np.bincount(a * 6 + b, minlength=36), joint)
        require(not bad, f"{what} are not independent: {msg}")

    if length > 1:
        pairs(k[:, 0:-1:2], k[:, 1::2][:, : k[:, 0:-1:2].shape[1]], "successive draws of a chain")
    if chains > 1:
        pairs(k[0:-1:2], k[1::2][: k[0:-1:2].shape[0]], "draws of neighbouring chains")
    pairs(k, k2, "draws of successive calls")
    rec.add(4, key=p.tolist(), nontrivial=rich)
    rec.label(spec["type"], sp["kind"], "sym:" + spec["sym"])
    rec.sample(case)


@st.composite
def large_cases(draw):
    c = draw(cases(("ARqGPS", "ARqGPSModPhase", "ARqGPSFull", "ARPlaquette")))
    L = draw(st.integers(8, 16))
    L += L % 2
    kinds = [{"kind": "spin", "L": L, "sz": 0}, {"kind": "spin", "L": L}, {"kind": "fermi", "L": L, "n_elec": [L // 2, L // 2 - 1]},
             {"kind": "fermi", "L": L}, {"kind": "fock", "L": L, "nmax": 2}]
    spec = draw(specs.ar_model(types=(c["spec"]["type"],), space=st.sampled_from(kinds), syms=False))
    spec["sym"] = draw(st.sampled_from(["none", "none", "reflect"]))
    spec["pow"] = c["spec"]["pow"]
    if "fast" in spec:
        spec["fast"] = False
    return {**c, "spec": spec}


def check_large(case, rec):
    """Spaces too large for a histogram: every draw has the model's conditional law given the sites before it.

    For each site, local state and sign f of the configuration before it, the sums of f (1[x_i = d] - p(d | x_<i)) are
    martingales: compared with their predictable variation (Freedman), false-alarm probability below 1e-10 each.
    """
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    m, h, L = models.build(spec), models.space(sp), sp["L"]
    full = v = models.random_variables(spec, r)
    if not case["cachevars"]:
        v = {k: a for k, a in dict(v).items() if k != "cache"}
    sa = ARDirectSampler(h)
    chains = int(sa.n_chains)
    length = -(-4000 // chains)
    state = sa.reset(m, v, sa.init_state(m, v, seed=int(r.integers(2**31))))
    x = np.asarray(sa.sample(m, v, state=state, chain_length=length)[0])
    require(x.shape == (chains, length, L), f"samples have shape {x.shape}")
    x = x.reshape(-1, L)
    states = np.asarray(h.local_states)
    require(np.isin(x, states).all(), "a sample leaves the local state space")
    if sp.get("sz") is not None:
        require((x.sum(axis=1) == 2 * sp["sz"]).all(), "a sample has another magnetisation than the space")
    if sp.get("n_elec") is not None:
        xi = x.astype(int)
        require(((xi & 1).sum(1) == sp["n_elec"][0]).all() and (((xi >> 1) & 1).sum(1) == sp["n_elec"][1]).all(), "a sample has other electron numbers than the space")
    if spec["sym"] != "none":
        # drawn configurations are replaced by random symmetry images: only the first draw of a pair of mirror images is constrained
        rec.add(1, [x[:50]], nontrivial=True)
        rec.label("large", "symmetrised")
        return
    idx = models.local_index(sp, x)
    cond = np.asarray(jax.jit(lambda v_, y: m.apply(v_, y, method=m.conditionals))(full, jnp.asarray(x)))
    t = 30.0
    mixed = 0
    for i in range(L):
        p = cond[:, i]
        signs = [np.ones(len(x))] + [np.where(idx[:, j] == idx[:, j].max(initial=0), 1.0, -1.0) for j in range(max(0, i - 2), i)]
        for f in signs:
            for d in range(p.shape[1]):
                s = float(np.sum(f * ((idx[:, i] == d) - p[:, d])))
                var = float(np.sum(p[:, d] * (1 - p[:, d])))
                lim = np.sqrt(2 * t * (var + 1)) + t
                mixed += var > 50
                require(abs(s) <= lim, f"site {i}: local state {d} drawn {s:+.1f} times too often given the sites before it (limit {lim:.1f}, {len(x)} draws)")
    rec.add(L, [x[:50]], nontrivial=mixed > 0)
    rec.label("large", spec["type"], sp["kind"])
    rec.sample(case)


SUBS = [
    Sub("large", large_cases, check_large, 5, 60, shards=3, weight=2.0),
    Sub("qgps", lambda: cases(("ARqGPS", "ARqGPSModPhase")), check, 16, 100, shards=3, weight=1.0),
    Sub("qgps_full", lambda: cases(("ARqGPSFull", "ARqGPSModPhaseFull")), check, 16, 100, shards=3, weight=1.1),
    Sub("plaquette", lambda: cases(("ARPlaquette",)), check, 16, 100, shards=2, weight=1.0),
]
