"""C09: autoregressive models are normalised, causal and obey the particle-number / magnetisation constraint."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from lib import models, reference, specs
from lib.core import Sub, close, require, rng_of, same_amplitude

RULE = (
    "Case = (autoregressive model structure, parameter seed). One comparison per configuration of the whole space "
    "(amplitude) and per configuration and site (conditional distribution). Non-trivial: the conditional depends on the "
    "prefix and is not deterministic, or the amplitude table is not constant."
)
ASSUMPTIONS = [
    "spin constraint: zero total magnetisation (the only one the default counting functions document); fermionic constraint: "
    "numbers of up and down electrons, through a counting function of the kind the tutorials pass",
    "masks of plaquette models only expose sites with a smaller index",
    "parameters of order one, so no support-dimension product underflows",
]


@functools.lru_cache(64)
def f_conditionals(m):
    return jax.jit(lambda v, x: m.apply(v, x, method=m.conditionals))


@functools.lru_cache(64)
def f_step(m, index):
    return jax.jit(lambda v, x, a: m.apply(v, x, a, method=m._conditional, mutable=["cache"]))


def strip(v):
    return {k: x for k, x in dict(v).items() if k != "cache"}


def configs(sp, r, limit=64):
    if models.n_configs(sp) > 10000:
        return models.random_configs(sp, r, 8)
    x = models.all_configs(sp)
    if len(x) > limit:
        x = x[np.sort(r.permutation(len(x))[:limit])]
    return x


def tables(spec, v, x):
    """(len(x), L, D) reference conditional probabilities."""
    params = jax.tree_util.tree_map(np.asarray, dict(v)["params"])
    memo = {}
    out = []
    for c in x:
        idx = tuple(int(a) for a in models.local_index(spec["space"], c))
        rows = []
        for i in range(len(idx)):
            if idx[:i] not in memo:
                memo[idx[:i]] = reference.ar_conditional(spec, params, list(idx[:i]))[1]
            rows.append(memo[idx[:i]])
        out.append(rows)
    return np.array(out)


def check(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    m = models.build(spec)
    x = configs(sp, r)
    pw = spec.get("pow", 2)
    normed = spec.get("norm", True)
    for _ in range(2):
        v = models.random_variables(spec, r)
        # amplitudes
        got = np.asarray(models.f_full(m)(v, x))
        want = reference.log_amplitudes(spec, v, x)
        same_amplitude(got, want, f"amplitude of {spec['type']}", rtol=1e-7, floor=1e-10)
        if "ModPhase" not in spec["type"]:
            # one configuration on its own
            k = int(r.integers(len(x)))
            one = np.asarray(models.f_full(m)(v, x[k]))
            require(one.size == 1, f"the amplitude of one configuration has shape {one.shape}")
            same_amplitude(np.concatenate((one.reshape(-1), got)), np.concatenate((want[k:k + 1], want)),
                           f"amplitude of one configuration of {spec['type']}", rtol=1e-7, floor=1e-10)
        if normed and models.n_configs(sp) == len(x) and group(spec):
            total = np.exp(pw * np.asarray(got).real).sum()
            close(total, np.float64(1.0), f"sum over the space of |psi|^{pw}", rtol=1e-8, atol=1e-8)
        # conditionals
        p = np.asarray(f_conditionals(m)(v, jnp.asarray(x)))
        ref = tables(spec, v, x)
        close(p, ref, "conditional probabilities", rtol=1e-8, atol=1e-10)
        if normed:
            close(p.sum(axis=-1), np.ones(p.shape[:2]), "sum of each conditional distribution", atol=1e-8)
        # one site at a time, through the cache that sampling uses; later sites hold garbage
        state = strip(v)
        perm = r.permutation(len(x))[:8]
        xs, want_p = x[perm], ref[perm]
        buf = models.random_configs({**sp, "sz": None, "n_elec": None}, r, len(xs)).astype(x.dtype)
        for i in range(sp["L"]):
            arg = i
            if spec["type"] == "ARPlaquette":
                arg = (jnp.asarray(i), jnp.asarray(np.array(spec["masks"][i], np.int32)),
                       jnp.asarray(np.array(spec["plaquettes"][i], np.int32)))
            elif not isinstance(spec["M"], list):
                arg = jnp.asarray(i)
            if isinstance(spec["M"], list):
                q, new = m.apply(state, jnp.asarray(buf), i, method=m._conditional, mutable=["cache"])
            else:
                q, new = f_step(m, 0)(state, jnp.asarray(buf), arg)
            close(np.asarray(q), want_p[:, i], f"conditional of site {i} computed step by step", rtol=1e-8, atol=1e-10)
            if "cache" in new:
                state = {**strip(v), "cache": new["cache"]}
            buf[:, i] = xs[:, i]
        dep = np.abs(ref - ref[:1]).max(axis=2) > 1e-6
        mix = (ref.max(axis=2) < 1 - 1e-6)
        rec.add_many([x, ref], (dep & mix).any(axis=1))
        rec.evaluations += ref.shape[0] * ref.shape[1]
    rec.label(spec["type"], sp["kind"] + ("" if sp.get("sz") is None and sp.get("n_elec") is None else " constrained"),
              "sym:" + spec.get("sym", "none"), f"pow {pw}")
    rec.sample(case)


def group(spec):
    return "cycle" not in spec.get("sym", "none")


@st.composite
def cases(draw, types):
    return {"spec": draw(specs.ar_model(types=types, norm=True)), "seed": draw(specs.seeds)}


@st.composite
def large_cases(draw):
    L = draw(st.integers(8, 16))
    L += L % 2
    kinds = [{"kind": "spin", "L": L, "sz": 0}, {"kind": "spin", "L": L, "sz": 0}, {"kind": "spin", "L": L}, {"kind": "fermi", "L": L},
             {"kind": "fermi", "L": L, "n_elec": [draw(st.integers(0, L)), draw(st.integers(0, L))]}, {"kind": "fock", "L": L, "nmax": 2}]
    types = ("ARqGPS", "ARqGPSModPhase", "ARqGPSFull", "ARqGPSModPhaseFull", "ARPlaquette")
    spec = draw(specs.ar_model(types=types, space=st.sampled_from(kinds)))
    if spec["sym"].startswith("trans"):
        spec["sym"] = spec["sym"].replace("trans", "reflect")
    return {"spec": spec, "seed": draw(specs.seeds)}


SUBS = [
    Sub("large", large_cases, check, 5, 60, shards=3, weight=3.0),
    Sub("qgps", lambda: cases(("ARqGPS", "ARqGPSModPhase")), check, 20, 200, shards=3, weight=1.0),
    Sub("qgps_full", lambda: cases(("ARqGPSFull", "ARqGPSModPhaseFull")), check, 16, 150, shards=4, weight=1.5),
    Sub("plaquette", lambda: cases(("ARPlaquette",)), check, 16, 150, shards=2, weight=1.0),
]
