"""C19: fitting autoregressive states to data."""
import functools
import itertools

import jax
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.driver import ARStateFitting
from GPSKet.sampler import ARDirectSampler
from lib import mc, models, specs, stat
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (autoregressive model, dataset of configurations and amplitudes, mini-batch size, optimisation settings, history of steps and "
    "resets). One comparison per optimisation step (reported loss, parameter change) and per histogram of mini-batches; non-trivial: "
    "the mini-batch leaves out part of the data and the step is above 1e-8."
)
ASSUMPTIONS = [
    "the mini-batch of a step is recognised by its loss among all subsets of the (small) dataset",
    "log-derivatives by automatic differentiation of full evaluations; plain gradient descent as optimiser; single MPI process",
    "statistical decisions with false-alarm probability below 1e-9 per test",
]


@st.composite
def cases(draw, law=False):
    dt = {"dtype": draw(specs.dtypes)}
    k = draw(st.integers(0, 3))
    sp = {"kind": "spin", "L": 4, "sz": 0} if k == 0 else {"kind": "spin", "L": 3} if k == 1 else draw(specs.fermi_space(2, 3))
    c = {"spec": {"type": draw(st.sampled_from(["ARqGPS", "ARqGPSFull"])), "space": sp, "M": draw(st.integers(1, 2)), "pow": 2, **dt}}
    n = models.n_configs(sp)
    c["D"] = draw(st.integers(min(2, n), min(6, n)))
    c["B"] = draw(st.integers(1, min(c["D"], 3 if law else 6)))
    c["real"] = draw(st.booleans())
    c["zeros"] = draw(st.integers(0, c["D"] - c["B"])) if draw(st.integers(0, 2)) == 0 else 0
    c["scale"] = draw(st.sampled_from([1.0, 0.3, 3.0]))
    c["lr"] = draw(st.sampled_from([0.02, 0.1, 0.3]))
    c["ops"] = draw(st.lists(st.sampled_from(["step", "step", "step", "run2", "reset"]), min_size=2, max_size=6))
    c["build"] = draw(st.booleans())
    c["draw_seed"] = draw(st.integers(0, 2**31 - 1))
    c["seed"] = draw(specs.seeds)
    return c


@functools.lru_cache(None)
def _subsets(D, B):
    return list(itertools.combinations(range(D), B))


def subset_law(p, B):
    """Probability of each subset when B elements are drawn one after the other without replacement."""
    out = {s: 0.0 for s in _subsets(len(p), B)}
    for perm in itertools.permutations(range(len(p)), B):
        q, left = 1.0, p.sum()
        for i in perm:
            q *= p[i] / left if left > 0 else 0.0
            left -= p[i]
            if q == 0:
                break
        out[tuple(sorted(perm))] += q
    return np.array([out[s] for s in _subsets(len(p), B)])


def setup(case):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    v = models.random_variables(spec, r)
    basis = models.all_configs(sp)
    rows = r.permutation(len(basis))[: case["D"]]
    y = r.normal(size=len(rows)) + (0 if case["real"] else 1j * r.normal(size=len(rows)))
    y = y * case["scale"] * np.array([0.3, 1.0, 2.0])[r.integers(3, size=len(y))]
    y[: case["zeros"]] = 0
    x = basis[rows]
    data_x, data_y = np.array(x), np.array(y)
    L = sp["L"]
    if sp["kind"] == "fermi":
        from GPSKet.operator.hamiltonian import FermiHubbard
        op = FermiHubbard(models.space(sp), [(i, i + 1) for i in range(L - 1)], U=1.0)
    else:
        op = nk.operator.Heisenberg(models.space(sp), nk.graph.Chain(L))
    args = (ARDirectSampler(models.space(sp)), models.build(spec))
    kw = {"n_samples": 8, "seed": 3}

    def make(lr):
        opt = nk.optimizer.Sgd(lr)
        if case["build"]:
            d = ARStateFitting((data_x, data_y), op, opt, *args, mini_batch_size=case["B"], seed=case["draw_seed"], n_samples=8)
        else:
            d = ARStateFitting((data_x, data_y), op, opt, variational_state=nk.vqs.MCState(*args, **kw), mini_batch_size=case["B"],
                               seed=case["draw_seed"])
        d.state.variables = v
        return d

    def kept():
        require(np.array_equal(data_x, x) and np.array_equal(data_y, y), "the dataset handed over was modified")

    return r, v, rows, y, make, kept


def losses(ref, rows, y):
    return np.abs(np.exp(ref.logs)[rows] - y) ** 2


def which(dist, B, loss, what):
    """Subsets whose loss agrees with the reported one."""
    subs = _subsets(len(dist), B)
    want = np.array([dist[list(s)].mean() for s in subs])
    tol = 1e-8 * (1 + abs(loss))
    hits = [s for s, w in zip(subs, want) if abs(w - loss) <= tol]
    require(len(hits) > 0, f"{what}: the reported loss {loss!r} is not the mean squared distance over any {B} of the {len(dist)} data "
            f"(all-data value {dist.mean()!r}; closest {want[np.argmin(np.abs(want - loss))]!r})")
    return hits


def gradient(ref, rows, y, s):
    """Flat update direction per leaf: dL/dp, or dL/dRe p + i dL/dIm p."""
    s = list(s)
    k = rows[s]
    psi = np.exp(ref.logs)[k]
    c = np.conj(psi - y[s]) * psi / len(s)
    out = []
    for cplx, ore, oim in ref.jacobian():
        g = 2 * np.real(c @ ore[k])
        out.append(g + 2j * np.real(c @ oim[k]) if cplx else g)
    return np.concatenate(out)


def check_fit(case, rec):
    spec = case["spec"]
    r, v, rows, y, make, kept = setup(case)
    drv = make(case["lr"])
    B, D = case["B"], case["D"]
    first, seq, fresh = [], [], True
    count = 0

    def one(runner):
        nonlocal count
        ref = mc.Reference(spec, {**v, "params": drv.state.parameters}, np.zeros((models.n_configs(spec["space"]),) * 2))
        p0 = mc.flat_vector(drv.state.parameters)
        runner()
        count += 1
        loss = complex(drv.loss)
        require(loss.imag == 0, "the loss is complex")
        dist = losses(ref, rows, y)
        hits = which(dist, B, loss.real, f"step {count}")
        nonzero = np.abs(y) > 0
        hits2 = [s for s in hits if all(nonzero[list(s)])]
        if nonzero.sum() >= B:
            require(hits2, f"step {count}: a configuration of amplitude zero was drawn into the mini-batch")
            hits = hits2
        p1 = mc.flat_vector(drv.state.parameters)
        err = []
        for s in hits:
            g = gradient(ref, rows, y, s)
            err.append(np.abs(p0 - case["lr"] * g - p1).max() / (1e-8 + 1e-7 * (1 + np.abs(case["lr"] * g).max())))
        require(min(err) <= 1, f"step {count}: parameters changed by {(p1 - p0)[:4]}..., not by minus learning rate times the gradient of the "
                f"loss {-case['lr'] * gradient(ref, rows, y, hits[int(np.argmin(err))])[:4]}...")
        rec.add(1, [count], nontrivial=B < D and np.abs(p1 - p0).max() > 1e-8)
        return hits

    for op in case["ops"]:
        if op == "reset":
            drv.reset()
            require(drv.step_count == 0, f"step count {drv.step_count} after a reset")
            seq, count = [], 0
            drv.state.variables = v
            continue
        for _ in range(2 if op == "run2" else 1):
            hits = one(lambda: drv.advance(1) if op == "step" else drv.run(1, out=(), show_progress=False))
            k = len(seq)
            seq.append(hits)
            if k < len(first):
                require(set(hits) & set(first[k]), f"after a reset, mini-batch {k + 1} of the seed differs from the first run: {hits} / {first[k]}")
            else:
                first.append(hits)
        require(drv.step_count == count, f"step count {drv.step_count} after {count} steps")
    kept()
    rec.label(spec["type"], spec["dtype"], "full batch" if B == D else "mini-batch", spec["space"]["kind"], "state built by driver" if case["build"] else "given state")
    rec.sample({"case": case, "batches": [h[0] for h in first]})


def check_parts(case, rec):
    """On several MPI processes: every process draws its mini-batch from its part of the dataset; the loss is the mean over all of them."""
    spec = case["spec"]
    r, v, rows, y, make, kept = setup(case)
    drv = make(case["lr"])
    B, D = case["B"], case["D"]
    parts = np.array_split(np.arange(D), mc.ranks())
    subs = [tuple(int(i) for s in pick for i in s) for pick in itertools.product(*[itertools.combinations(p, B) for p in parts])]
    count = 0
    for op in case["ops"]:
        if op == "reset":
            drv.reset()
            count = 0
            continue
        for _ in range(2 if op == "run2" else 1):
            ref = mc.Reference(spec, {**v, "params": drv.state.parameters}, np.zeros((models.n_configs(spec["space"]),) * 2))
            p0 = mc.flat_vector(drv.state.parameters)
            drv.advance(1)
            count += 1
            dist, loss = losses(ref, rows, y), float(np.real(drv.loss))
            want = np.array([dist[list(s)].mean() for s in subs])
            hits = [s for s, w in zip(subs, want) if abs(w - loss) <= 1e-8 * (1 + abs(loss))]
            require(len(hits) > 0, f"step {count}: the reported loss {loss!r} is not the mean squared distance over mini-batches of {B} of the parts "
                    f"of the processes (closest {want[np.argmin(np.abs(want - loss))]!r})")
            p1 = mc.flat_vector(drv.state.parameters)
            g = [gradient(ref, rows, y, s) for s in hits[:50]]
            err = [np.abs(p0 - case["lr"] * x - p1).max() / (1e-8 + 1e-7 * (1 + np.abs(case["lr"] * x).max())) for x in g]
            require(min(err) <= 1, f"step {count}: parameters changed by {(p1 - p0)[:4]}..., not by minus learning rate times the gradient of the "
                    f"loss {-case['lr'] * g[int(np.argmin(err))][:4]}...")
            rec.add(1, [count], nontrivial=np.abs(p1 - p0).max() > 1e-8)
        require(drv.step_count == count, f"step count {drv.step_count} after {count} steps")
    kept()
    rec.label(spec["type"], spec["dtype"], spec["space"]["kind"])
    rec.sample({"case": case})


def check_law(case, rec):
    spec = case["spec"]
    r, v, rows, y, make, kept = setup(case)
    drv = make(0.0)
    ref = mc.Reference(spec, v, np.zeros((models.n_configs(spec["space"]),) * 2))
    dist = losses(ref, rows, y)
    B, D = case["B"], case["D"]
    subs = _subsets(D, B)
    want = np.array([dist[list(s)].mean() for s in subs])
    gap = np.abs(want[:, None] - want[None, :])[~np.eye(len(want), dtype=bool)]
    if len(gap) and gap.min() < 1e-6 * (1 + want.max()):
        rec.label("skipped: subsets with equal loss")
        return
    counts = np.zeros(len(subs), int)
    idx = []
    for _ in range(500):
        drv.advance(1)
        k = int(np.argmin(np.abs(want - float(drv.loss))))
        require(abs(want[k] - float(drv.loss)) <= 1e-8 * (1 + abs(want[k])), f"the loss {float(drv.loss)} is not that of any {B} of the {D} data")
        counts[k] += 1
        idx.append(k)
    p = subset_law(np.abs(y) ** 2, B)
    bad, msg = stat.chi2_bad(counts, p)
    require(not bad, f"mini-batches are not drawn without replacement in proportion to |amplitude|^2: {msg}")
    # successive batches are independent
    joint = np.zeros((len(subs),) * 2, int)
    for a, b in zip(idx[0::2], idx[1::2]):
        joint[a, b] += 1
    bad, msg = stat.chi2_bad(joint.reshape(-1), np.outer(p, p).reshape(-1))
    require(not bad, f"successive mini-batches are not independent: {msg}")
    kept()
    rec.add(2, ["law"], nontrivial=B < D)
    rec.label("law", spec["type"])
    rec.sample({"case": case, "counts": counts.tolist()})


def check_reject(case, rec):
    r = rng_of(case)
    sp = {"kind": "fermi", "L": 3, "n_elec": [1, 1]}
    h = models.space(sp)
    basis = models.all_configs(sp)
    from GPSKet.operator.hamiltonian import FermiHubbard
    op = FermiHubbard(h, [(0, 1), (1, 2)], U=1.0)
    other = FermiHubbard(models.space({**sp, "n_elec": case["other"]}), [(0, 1), (1, 2)], U=1.0)
    data = (basis, r.normal(size=len(basis)))
    ar = models.build({"type": "ARqGPS", "space": sp, "M": 1, "pow": 2, "dtype": "real"})
    non = models.build({"type": "qGPS", "space": sp, "M": 1, "dtype": "real"})
    cases_ = [(other, nk.vqs.MCState(ARDirectSampler(h), ar, n_samples=4), TypeError, "a Hamiltonian over another space"),
              (op, nk.vqs.MCState(nk.sampler.ExactSampler(h, dtype=np.uint8), non, n_samples=4), ValueError, "a model that is not autoregressive")]
    for o, vs, exc, what in cases_:
        try:
            ARStateFitting(data, o, nk.optimizer.Sgd(0.1), variational_state=vs)
            require(False, f"{what} is accepted")
        except exc:
            pass
        rec.add(1, [what], nontrivial=True)


@st.composite
def reject_cases(draw):
    return {"other": draw(st.sampled_from([[1, 2], [2, 1], [2, 2], [0, 1]])), "seed": draw(specs.seeds)}


SUBS = [
    Sub("fit", lambda: cases(), check_fit, quick=12, thorough=250, shards=5, weight=2),
    Sub("batches", lambda: cases(True), check_law, quick=5, thorough=60, shards=3, weight=3),
    Sub("reject", lambda: reject_cases(), check_reject, quick=3, thorough=8, shards=1, weight=1),
]
