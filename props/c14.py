"""C14: the fast Metropolis samplers realise the Metropolis chain of |psi|^machine_pow."""
import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.sampler import MetropolisFastExchange, MetropolisFastHopping, MetropolisHopping
from lib import history, models, specs, stat
from lib.core import Sub, close, require, rng_of
from props import c06
from props.c13 import hop_law, site_matrix

RULE = (
    "Case = (model, parameters, sampler settings, starting configurations, seed). Thousands of chains are advanced and the "
    "distribution of their positions is compared with the exact power of the Metropolis transition matrix (enumerated "
    "space, amplitudes of full configurations). Non-trivial: the exact row has at least three outcomes above 1% and some "
    "proposed move is rejected with probability above 1%."
)
ASSUMPTIONS = [
    "amplitudes of full (not partially updated) configurations are taken from the model itself; C08, C09 and C11 decide those",
    "statistical decision with false-alarm probability below 1e-9 per test",
]
STARTS, CHAINS = 3, 4500


@st.composite
def cases(draw, model, exchange=False):
    spec = draw(model)
    if spec["type"] == "qGPS" and draw(st.integers(0, 3)) == 0:
        spec = {**spec, "big": draw(st.sampled_from([800, -800]))}
    c = {"spec": spec, "sweep": draw(st.sampled_from([1, 1, 2, 3, 5])), "length": draw(st.integers(1, 3)),
         "pow": draw(st.sampled_from([2, 2, 1])), "seed": draw(specs.seeds), "spread": draw(st.sampled_from([0.6, 1.0]))}
    if not exchange:
        c["hop"] = draw(st.sampled_from([1.0, 1.0, 0.6]))
        c["T"] = draw(st.sampled_from(["none", "none", "ring", "random"]))
        c["fast"] = draw(st.sampled_from([True, True, True, False]))
    else:
        c["fast"] = True
        L = spec["space"]["L"]
        n = draw(st.integers(1, 5))
        c["clusters"] = [list(draw(st.permutations(list(range(L)))))[:2] for _ in range(n)]
    return c


def check(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    L = sp["L"]
    r = rng_of(case)
    m = models.build(spec)
    h = models.space(sp)
    v = models.random_variables(spec, r, spread=case["spread"])
    basis = models.all_configs(sp)
    if len(basis) < 3:
        rec.label("skipped: tiny space")
        return
    logs = np.asarray(models.f_full(m)(v, basis)).astype(complex).real
    logs = np.where(np.isfinite(logs), logs, -np.inf)
    table = {tuple(int(a) for a in c): k for k, c in enumerate(basis)}
    healthy = history.health_table(spec, v, {c: logs[k] + 0j for c, k in table.items()})
    n = len(basis)
    # proposal matrix
    Q = np.zeros((n, n))
    T = None
    if "clusters" in case:
        for k, x in enumerate(basis):
            for i, j in case["clusters"]:
                y = x.copy()
                y[i], y[j] = x[j], x[i]
                Q[k, table[tuple(int(a) for a in y)]] += 1 / len(case["clusters"])
    else:
        T = site_matrix(case["T"], L, r)
        for k, x in enumerate(basis):
            for y, p in hop_law(x.astype(int), case["hop"], T).items():
                Q[k, table[y]] += p
    with np.errstate(invalid="ignore"):
        ratio = np.exp(np.minimum(0.0, case["pow"] * (logs[None, :] - logs[:, None])))
    ratio = np.where(np.isnan(ratio), 0.0, ratio)
    A = Q * ratio
    P = A.copy()
    np.fill_diagonal(P, 0)
    P[np.arange(n), np.arange(n)] = 1 - P.sum(1)
    ok = np.isfinite(logs)
    if healthy is not None:
        ok &= np.array([healthy[tuple(int(a) for a in c)] for c in basis])
        # rank-one updates lose digits next to singular determinants; stay where every visited state is healthy
        if not ok.all() and case["fast"]:
            seen = np.linalg.matrix_power(P, case["sweep"] * case["length"])
            ok &= (seen[:, ~ok].sum(1) < 1e-6)
    cand = np.flatnonzero(ok)
    if len(cand) == 0:
        rec.label("skipped: no well-conditioned start")
        return
    starts = r.choice(cand, size=STARTS)
    if "clusters" in case:
        sa = MetropolisFastExchange(h, clusters=[tuple(c) for c in case["clusters"]], n_chains=CHAINS,
                                    sweep_size=case["sweep"], machine_pow=case["pow"], dtype=basis.dtype)
    else:
        make = MetropolisFastHopping if case["fast"] else MetropolisHopping
        sa = make(h, hop_probability=case["hop"], transition_probs=T, n_chains=CHAINS, sweep_size=case["sweep"],
                  machine_pow=case["pow"])
    state = sa.init_state(m, v, seed=int(r.integers(2**31)))
    state = sa.reset(m, v, state)
    owner = r.permutation(np.arange(CHAINS) % STARTS)
    state = state.replace(σ=jnp.asarray(basis[starts[owner]], state.σ.dtype))
    state = sa.reset(m, v, state)
    x, state2 = sa.sample(m, v, state=state, chain_length=case["length"])
    x = np.asarray(x)
    if x.shape != (CHAINS, case["length"], L):
        require(False, f"samples have shape {x.shape}")
    require(np.array_equal(np.asarray(state2.σ), x[:, -1]), "the returned state does not hold the last sample of each chain")
    want = case["pow"] * np.array([logs[table[tuple(int(w) for w in c)]] if tuple(int(w) for w in c) in table else np.nan
                                   for c in x[:, -1]])
    near = np.abs(np.asarray(state2.log_prob) - want) <= 1e-6 * (1 + np.abs(want))
    if not near.all() and np.isfinite(want).all():
        b = int(np.argmin(near))
        require(False, f"the returned state holds the log-probability {np.asarray(state2.log_prob)[b]} for {x[b, -1].tolist()}, "
                       f"which has {want[b]}")
    idx = np.empty(x.shape[:2], int)
    for a in range(CHAINS):
        for b in range(case["length"]):
            key = tuple(int(w) for w in x[a, b])
            require(key in table, f"the chain visits {list(key)}, which is not in the space")
            idx[a, b] = table[key]
    expected_acc = np.zeros((CHAINS,))
    for t in range(case["length"]):
        Pt = np.linalg.matrix_power(P, case["sweep"] * (t + 1))
        for k in range(STARTS):
            row = np.clip(Pt[starts[k]], 0, None)
            row[row < 1e-13] = 0
            bad, msg = stat.chi2_bad(np.bincount(idx[owner == k, t], minlength=n), row)
            require(not bad, f"after {t + 1} sweeps of {case['sweep']} from {basis[starts[k]].tolist()} the chains are not "
                             f"distributed as the Metropolis chain of |psi|^{case['pow']}: {msg}")
            rich = (row > 0.01).sum() >= 3 and (Q * (1 - ratio)).sum(1).max() > 0.01
            rec.add((owner == k).sum(), key=[int(starts[k]), t, k], nontrivial=bool(rich))
    # transitions between successive samples (not only marginals)
    if case["length"] > 1:
        Ps = np.clip(np.linalg.matrix_power(P, case["sweep"]), 0, None)
        Ps[Ps < 1e-13] = 0
        for k in range(STARTS):
            row = np.clip(np.linalg.matrix_power(P, case["sweep"])[starts[k]], 0, None)
            joint = row[:, None] * Ps
            sel = owner == k
            c = np.bincount(idx[sel, 0] * n + idx[sel, 1], minlength=n * n)
            bad, msg = stat.chi2_bad(c, joint.reshape(-1), p_false=1e-9)
            require(not bad, f"successive samples are not linked by the Metropolis transition: {msg}")
    # acceptance statistics
    steps = case["sweep"] * case["length"]
    require(int(state2.n_steps) == CHAINS * steps, f"{state2.n_steps} steps counted instead of {CHAINS * steps}")
    acc = float(state2.n_accepted)
    mean = 0.0
    dist = np.zeros(n)
    np.add.at(dist, starts[owner], 1.0 / CHAINS)
    arate = A.sum(1)
    d = dist
    for _ in range(steps):
        mean += float(d @ arate)
        d = d @ P
    # accepted moves per chain lie in [0, steps]: Hoeffding bound at 1e-10
    dev = steps * np.sqrt(CHAINS * np.log(2e10) / 2)
    require(abs(acc - mean * CHAINS) <= dev + 1, f"{acc} accepted moves reported, {mean * CHAINS:.1f} expected (allowed deviation {dev:.1f})")
    require(0 <= float(state2.acceptance) <= 1, f"acceptance ratio {state2.acceptance}")
    moved = (idx[:, 0] != starts[owner]).sum()
    require(acc >= moved - 1e-9, f"{moved} chains moved but only {acc} moves were counted as accepted")
    rec.label(spec["type"], f"sweep {case['sweep']}", "fast" if case["fast"] else "regular", f"pow {case['pow']}")
    rec.sample(case)


@st.composite
def large_cases(draw):
    spec = draw(c06.large_models())
    if spec["space"]["kind"] == "fermi" and spec["space"].get("n_elec") is None:
        spec["space"]["n_elec"] = [spec["space"]["L"] // 2, draw(st.integers(1, spec["space"]["L"]))]
    if spec["type"] == "qGPS":
        spec["big"] = draw(st.sampled_from([30, -30, 800]))
    return {"spec": spec, "sweep": draw(st.sampled_from([None, 1, 7])), "length": draw(st.integers(2, 4)), "pow": draw(st.sampled_from([2, 2, 1])),
            "hop": draw(st.sampled_from([1.0, 0.6])), "seed": draw(specs.seeds)}


def check_large(case, rec):
    """Long chains over large spaces: the log-probabilities carried along are those of the configurations reached."""
    spec, sp = case["spec"], case["spec"]["space"]
    L = sp["L"]
    r = rng_of(case)
    m, h = models.build(spec), models.space(sp)
    v = models.random_variables(spec, r, spread=0.6)
    kw = {"n_chains": 8, "machine_pow": case["pow"], "sweep_size": case["sweep"]}
    if sp["kind"] == "fermi":
        sa = MetropolisFastHopping(h, hop_probability=case["hop"], **kw)
    else:
        sa = MetropolisFastExchange(h, graph=nk.graph.Chain(L), dtype=np.int8, **kw)
    state = sa.reset(m, v, sa.init_state(m, v, seed=int(r.integers(2**31))))
    steps = case["sweep"] if case["sweep"] is not None else int(sa.sweep_size)
    first = np.asarray(state.σ).astype(int)
    done, moved = 0, False
    for k in range(3):
        if k == 1:  # other parameters from here on, carrying on from the configurations reached
            v = models.random_variables(spec, r, spread=0.6)
        x, state = sa.sample(m, v, state=state, chain_length=case["length"])
        x = np.asarray(x)
        require(x.shape == (8, case["length"], L), f"samples have shape {x.shape}")
        done += 8 * case["length"] * steps
        last = np.asarray(state.σ)
        require(np.array_equal(last, x[:, -1]), "the returned state does not hold the last sample of each chain")
        xi = x.astype(int)
        if sp["kind"] == "fermi":
            require(((xi & 1).sum(-1) == sp["n_elec"][0]).all() and (((xi >> 1) & 1).sum(-1) == sp["n_elec"][1]).all(), "the chain leaves the space")
        else:
            require((np.sort(xi, -1) == np.sort(first, -1)[:, None]).all(), "exchanges change the occupancies present")
        want = case["pow"] * np.asarray(models.f_full(m)(v, last)).astype(complex).real
        got = np.asarray(state.log_prob)
        bad = np.isfinite(want) & ~(np.abs(got - want) <= 1e-6 * (1 + np.abs(want)))
        require(not bad.any(), f"after {done} steps the state holds log-probabilities {got.tolist()}, the configurations have {want.tolist()}")
        require(int(state.n_steps) == done, f"{state.n_steps} steps counted instead of {done}")
        require(0 <= float(state.n_accepted) <= done, f"{state.n_accepted} accepted moves in {done} steps")
        moved = moved or bool((last.astype(int) != first).any())
        rec.add(8, [last, k], nontrivial=moved)
    rec.label(spec["type"], sp["kind"], "large")
    rec.sample(case)


small = dict(max_states=40)
SUBS = [
    Sub("large", large_cases, check_large, 6, 80, shards=2, weight=2.0),
    Sub("hop_gps", lambda: cases(st.one_of(specs.qgps(specs.fermi_space(2, 4, **small), fast=True),
                                           specs.plaquette_gps(specs.fermi_space(2, 4, **small), fast=True))),
        check, 5, 60, shards=2, weight=1.0),
    Sub("hop_det", lambda: cases(st.one_of(specs.slater(max_states=40, fast=True), specs.slater_product(max_states=40, fast=True),
                                           specs.asymm(max_states=40, fast=True), specs.backflow(max_states=40, fast=True))),
        check, 5, 60, shards=3, weight=1.4),
    Sub("exchange", lambda: cases(st.one_of(specs.qgps(specs.spin_space(3, 6), fast=True),
                                            specs.plaquette_gps(specs.spin_space(3, 6), fast=True),
                                            specs.ar_model(types=("ARqGPSFull", "ARqGPSModPhaseFull"),
                                                           space=specs.spin_space(3, 6, constrained=True)).map(force_fast)), True),
        check, 5, 60, shards=3, weight=1.0),
]


def force_fast(s):
    s["fast"] = True
    s.pop("bare", None)
    s["pow"] = 2
    return s
