"""Stateful check of fast amplitude updates: a history of moves against evaluation from scratch.

The model's cache is created once, then a generated sequence of partial updates is applied; after every
operation the updated log-amplitude must equal the log-amplitude of the complete configuration, whether the
update was only queried or also committed to the cache.
"""
import numpy as np
from hypothesis import strategies as st

from lib import models, reference
from lib.core import Violation, rng_of

B = 4  # chains per history


def kinds_for(spec):
    sp = spec["space"]
    det = spec["type"] in DET
    if sp["kind"] == "fermi" and (det or sp.get("n_elec") is not None):
        return ["hop", "hop", "hop", "updown", "updown", "pair", "pair", "noop", "still"]
    if sp["kind"] == "spin" and sp.get("sz") is not None:
        return ["exchange", "exchange", "noop", "all", "dummy"]
    return ["set1", "set2", "set2", "set3", "noop", "all", "dummy", "dummy"]


DET = {"Slater", "SlaterqGPS", "SlaterJastrow", "ASymmqGPS", "ASymmqGPSProd", "CPDBackflow", "Backflow",
       "BackflowJastrow"}


@st.composite
def histories(draw, spec_strategy, max_ops=7):
    spec = draw(spec_strategy)
    n = draw(st.integers(2, max_ops))
    ops = [[draw(st.sampled_from(kinds_for(spec))), draw(st.sampled_from([True, True, False]))] for _ in range(n)]
    return {"spec": spec, "ops": ops, "seed": draw(st.integers(0, 2**31 - 1))}


def propose(kind, x, rng, sp):
    """One chain: (new configuration, update sites, partial occupancies) or None if impossible here."""
    L = len(x)
    y = x.copy()
    fermion = sp["kind"] == "fermi"

    def hop(conf, spin):
        occ = [i for i in range(L) if conf[i] & spin]
        emp = [i for i in range(L) if not conf[i] & spin]
        if not occ or not emp:
            return None
        i, a = int(rng.choice(occ)), int(rng.choice(emp))
        conf[i] -= spin
        conf[a] += spin
        return i, a

    if kind == "hop":
        h = hop(y, int(rng.integers(1, 3))) or hop(y, 1) or hop(y, 2)
        if h is None:
            return None
        sites = list(h)
        if rng.random() < 0.3:
            sites = sites[::-1]
        return y, sites, [y[s] for s in sites]
    if kind == "still":  # two listed sites, nothing changes
        if L < 2:
            return None
        sites = [int(s) for s in rng.permutation(L)[:2]]
        return y, sites, [y[s] for s in sites]
    if kind == "pair":  # two same-spin hops, four distinct sites
        spin = int(rng.integers(1, 3))
        occ = [i for i in range(L) if x[i] & spin]
        emp = [i for i in range(L) if not x[i] & spin]
        if len(occ) < 2 or len(emp) < 2:
            return None
        i, j = (int(v) for v in rng.permutation(occ)[:2])
        a, b = (int(v) for v in rng.permutation(emp)[:2])
        for s in (i, j):
            y[s] -= spin
        for s in (a, b):
            y[s] += spin
        sites = [i, a, j, b]
        return y, sites, [y[s] for s in sites]
    if kind == "updown":  # an up and a down hop; a repeated site carries its old occupancy the second time
        h1 = hop(y, 1)
        h2 = hop(y, 2)
        if h1 is None or h2 is None:
            return None
        sites = [*h1, *h2]
        occ = [y[s] if s not in sites[:k] else x[s] for k, s in enumerate(sites)]
        return y, sites, occ
    if kind == "exchange":
        if L < 2 or len(set(x.tolist())) < 2:
            return None
        ups = [i for i in range(L) if x[i] != x[0]] or [0]
        i, j = 0, int(rng.choice(ups))
        i, j = (int(v) for v in rng.permutation(L)[:2]) if rng.random() < 0.3 else (i, j)
        y[i], y[j] = x[j], x[i]
        return y, [i, j], [y[i], y[j]]
    vals = {"fermi": [0, 1, 2, 3], "spin": [-1, 1], "qubit": [0, 1]}.get(sp["kind"])
    if vals is None:
        vals = list(range(sp["nmax"] + 1))
    constrained = sp.get("sz") is not None or sp.get("n_elec") is not None
    if kind.startswith("set"):
        k = int(kind[3:])
        if k > L:
            return None
        sites = [int(s) for s in rng.permutation(L)[:k]]
        for s in sites:
            y[s] = rng.choice(vals)
        return y, sites, [y[s] for s in sites]
    if kind == "noop":
        sites = [int(rng.integers(L))]
        return y, sites, [y[sites[0]]]
    if kind == "all":
        y = models.random_configs(sp, rng, 1)[0].astype(x.dtype)
        sites = [int(s) for s in rng.permutation(L)]
        return y, sites, [y[s] for s in sites]
    if kind == "dummy":  # first occurrence is the update, the repeated listing carries the old value
        if L < 2:
            return None
        sites = [int(s) for s in rng.permutation(L)[:2]]
        if constrained:
            y[sites[0]], y[sites[1]] = x[sites[1]], x[sites[0]]
        else:
            for s in sites:
                y[s] = rng.choice(vals)
        rep = sites[int(rng.integers(2))]
        full = sites + [rep]
        return y, full, [y[sites[0]], y[sites[1]], x[rep]]
    raise ValueError(kind)


def health_table(spec, v, table):
    """Configurations whose every determinant is far from singular (None: no restriction)."""
    import jax

    if spec["type"] not in DET:
        return None
    params = jax.tree_util.tree_map(np.asarray, v)["params"]
    s = dict(spec)
    if spec["type"] in ("SlaterqGPS", "SlaterJastrow"):
        s.setdefault("restricted", True)
    out = {}
    if spec["type"] in ("Slater", "SlaterqGPS", "SlaterJastrow", "ASymmqGPS", "ASymmqGPSProd"):
        dets = {}
        for c in table:
            p = params
            if spec["type"] != "Slater":
                p = reference.named_child(params, "Slater")
            dets[c] = np.abs(reference.slater_dets(s, p, np.array(c))).min()
        top = max(dets.values())
        for c, d in dets.items():
            out[c] = d > 1e-2 * top
    else:
        top = max(t.real for t in table.values() if np.isfinite(t.real))
        for c, t in table.items():
            out[c] = np.isfinite(t.real) and t.real > top - 6
    return out


def same(got, want, top, tol, msg):
    for b in range(len(got)):
        g, w = complex(got[b]), complex(want[b])
        wa = 0.0 if w.real == -np.inf or np.isnan(w.real) else np.exp(w - top)
        if np.isnan(g.real) or g.real == np.inf:
            ok = False
            ga = g
        elif g.real == -np.inf:
            ga, ok = 0.0, abs(wa) <= tol
        else:
            if g.real - top > 30:
                ga, ok = np.inf, False
            else:
                ga = np.exp(complex(g.real - top, 0 if np.isnan(g.imag) else g.imag))
                ok = abs(ga - wa) <= tol * (abs(wa) + 1)
        if not ok:
            raise Violation(f"{msg}: chain {b} has log-amplitude {g} but the full configuration evaluates to {w}")


def check_history(case, rec, tol=1e-6):
    spec, sp = case["spec"], case["spec"]["space"]
    rng = rng_of(case)
    m = models.build(spec)
    v = models.random_variables(spec, rng)
    allx = models.all_configs(sp)
    if len(allx) > 300:
        raise Violation("harness: space too large")
    pad = -(-len(allx) // 32) * 32
    stack = np.concatenate([allx, np.repeat(allx[:1], pad - len(allx), axis=0)])
    logs = np.asarray(models.f_full(m)(v, stack))[: len(allx)].astype(complex)
    table = {tuple(int(a) for a in c): t for c, t in zip(allx, logs)}
    if "AR" in spec["type"]:
        finite = [c for c, t in table.items() if np.isfinite(t.real) and t.real > -12]
    else:
        finite = [c for c, t in table.items() if np.isfinite(t.real)]
    healthy = health_table(spec, v, table)
    good = [c for c in finite if healthy is None or healthy[c]]
    if not good:
        rec.label("skipped: no well-conditioned configuration")
        return
    dt = allx.dtype
    x = np.array([good[int(k)] for k in rng.integers(0, len(good), size=B)], dtype=dt)
    look = lambda xs: np.array([table[tuple(int(a) for a in c)] for c in xs])
    top = max(t.real for t in table.values() if np.isfinite(t.real))
    # GPS log-amplitudes can spread over many orders of magnitude: compare them as logarithms
    gps = spec["type"] in ("qGPS", "Plaquette")

    def compare(got, want, msg):
        got = np.asarray(got).astype(complex)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}")
        if gps:
            err = np.abs(got - want)
            bad = ~(err <= tol * (1 + np.abs(want)))
            if bad.any():
                b = int(np.argmax(bad))
                raise Violation(f"{msg}: chain {b} has log-amplitude {got[b]} but the full configuration evaluates to {want[b]}")
        else:
            same(got, want, top, tol, msg)

    got, cache = models.f_cache(m)(v, x)
    compare(got, look(x), "evaluation that fills the cache")
    def attempt(kind, commit):
        ys, ss, os_ = [], [], []
        for b in range(B):
            prop = None
            for _ in range(12):
                p = propose(kind, x[b], rng, sp)
                if p is None:
                    break
                key = tuple(int(a) for a in p[0])
                if key not in table:
                    raise RuntimeError(f"move {kind} left the space: {key}")
                ok = np.isfinite(table[key].real) and (healthy is None or healthy[key])
                if "AR" in spec["type"]:
                    ok = ok and table[key].real > -12
                if ok or not commit:
                    prop = p
                    break
            if prop is None:
                break
            ys.append(prop[0])
            ss.append(prop[1])
            os_.append(prop[2])
        return ys, ss, os_

    commits = 0
    trace = []
    for k, (kind, commit) in enumerate(case["ops"]):
        ys, ss, os_ = attempt(kind, commit)
        if len(ys) < B and kind in ("pair", "updown"):
            # not available at this filling: a plain hop instead
            rec.label("replaced by a hop")
            ys, ss, os_ = attempt("hop", commit)
        if len(ys) < B:
            rec.label("impossible move")
            continue
        y = np.array(ys, dtype=dt)
        s = np.array(ss)
        o = np.array(os_, dtype=dt)
        want = look(y)
        msg = f"after {trace}, {'committed' if commit else 'queried'} {kind} update"
        if commit:
            got, new = models.f_update_cache(m)(v, cache, o, s)
        else:
            got, new = models.f_update(m)(v, cache, o, s), None
        compare(got, want, f"{msg} of sites {s.tolist()} to {o.tolist()} from {x.tolist()}")
        rec.add_many([x, y, s], [bool((x[b] != y[b]).any()) and commits > 0 for b in range(B)])
        trace.append(kind + ("*" if commit else ""))
        if commit:
            x, cache = y, new
            commits += 1
        rec.label(kind)
    rec.label(spec["type"])
    rec.sample(case)


def well_conditioned(spec, v, samples):
    """Predicate for spaces too large to be tabulated: determinants of ordinary size compared with those of random samples."""
    import jax

    if spec["type"] not in DET:
        return lambda c, logpsi: True
    params = jax.tree_util.tree_map(np.asarray, v)["params"]
    s = dict(spec)
    if spec["type"] in ("SlaterqGPS", "SlaterJastrow"):
        s.setdefault("restricted", True)
    if spec["type"] in ("Slater", "SlaterqGPS", "SlaterJastrow", "ASymmqGPS", "ASymmqGPSProd"):
        p = params if spec["type"] == "Slater" else reference.named_child(params, "Slater")
        size = lambda c: np.abs(reference.slater_dets(s, p, np.asarray(c))).min()
        mid = np.median([size(c) for c in samples])
        return lambda c, logpsi: size(c) > 0.1 * mid
    logs = np.asarray(models.f_full(models.build(spec))(v, np.asarray(samples))).real
    mid = np.median(logs)
    return lambda c, logpsi: logpsi.real > mid - 2.3


def check_long(case, rec, tol=1e-6):
    """The same for systems too large to be enumerated: amplitudes of complete configurations are evaluated when needed."""
    spec, sp = case["spec"], case["spec"]["space"]
    rng = rng_of(case)
    m = models.build(spec)
    v = models.random_variables(spec, rng)
    full = models.f_full(m)
    look = lambda xs: np.asarray(full(v, np.asarray(xs))).astype(complex)
    samples = models.random_configs(sp, rng, 8 * B)
    logs = np.concatenate([look(samples[k:k + B]) for k in range(0, len(samples), B)])
    healthy = well_conditioned(spec, v, samples)
    ok = [k for k in range(len(samples)) if np.isfinite(logs[k].real) and healthy(samples[k], logs[k])]
    if len(ok) < B:
        rec.label("skipped: no well-conditioned configuration")
        return
    dt = samples.dtype
    x, now = samples[ok[:B]], logs[ok[:B]]

    def compare(got, want, before, msg):
        got = np.asarray(got).astype(complex)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}")
        for b in range(B):
            g, w = got[b], want[b]
            if spec["type"] in ("qGPS", "Plaquette"):
                good = abs(g - w) <= tol * (1 + abs(w))
            else:
                top = max(before[b].real, w.real if np.isfinite(w.real) else -np.inf)
                amp = lambda z: 0.0 if z.real == -np.inf else np.exp(complex(z.real - top, z.imag))
                good = not np.isnan(g) and g.real < top + 30 and abs(amp(g) - amp(w)) <= tol * 10
            if not good:
                raise Violation(f"{msg}: chain {b} has log-amplitude {g} but the full configuration evaluates to {w}")

    got, cache = models.f_cache(m)(v, x)
    compare(got, now, now, "evaluation that fills the cache")
    commits, trace = 0, []
    for kind, commit in case["ops"]:
        for how in dict.fromkeys([kind, "hop" if spec["space"]["kind"] == "fermi" and "n_elec" in sp else kind]):
            ys, ss, os_ = [], [], []
            for b in range(B):
                for _ in range(12):
                    p = propose(how, x[b], rng, sp)
                    if p is None:
                        break
                    if commit:
                        w = look(np.repeat(np.asarray(p[0], dt)[None], B, axis=0))[0]
                        if not np.isfinite(w.real) or not healthy(p[0], w):
                            continue
                    ys.append(p[0])
                    ss.append(p[1])
                    os_.append(p[2])
                    break
            if len(ys) == B:
                break
        if len(ys) < B:
            rec.label("impossible move")
            continue
        y, s, o = np.array(ys, dtype=dt), np.array(ss), np.array(os_, dtype=dt)
        want = look(y)
        if commit:
            got, new = models.f_update_cache(m)(v, cache, o, s)
        else:
            got, new = models.f_update(m)(v, cache, o, s), None
        compare(got, want, now, f"after {trace}, {'committed' if commit else 'queried'} {how} update of sites {s.tolist()} to {o.tolist()} from {x.tolist()}")
        rec.add_many([x, y, s], [bool((x[b] != y[b]).any()) and commits > 0 for b in range(B)])
        trace.append(how + ("*" if commit else ""))
        if commit:
            x, now, cache = y, want, new
            commits += 1
        rec.label(how)
    rec.label(spec["type"], "large")
    rec.sample(case)
