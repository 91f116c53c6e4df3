"""C15: the unique-samples Monte Carlo state."""
import jax
import netket as nk  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from GPSKet.vqs import MCStateUniqueSamples
from lib import mc, models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, model, sampler, sizes, operator, history of operations). Every access to the samples, expectation value or "
    "gradient is one comparison; non-trivial: at least two distinct samples and unequal counts."
)
ASSUMPTIONS = [
    "the draws are what the state's own sample() method returned, in order (recorded by a subclass); C10, C14 decide their law",
    "local energies: exact Hubbard / Heisenberg matrices and the model's amplitudes of full configurations",
    "single MPI process; hermitian operators for gradients",
]


class Recording(mc.Recorded, MCStateUniqueSamples):
    pass


@st.composite
def cases(draw):
    c = draw(mc.states())
    n = models.n_configs(c["spec"]["space"])
    ch = c["chains"]
    few = draw(st.sampled_from([True, True, False]))
    top = max(1, (n // 2 if few else 2 * n) // ch)
    c["n"] = ch * draw(st.integers(1, min(top, 24)))
    c["batch"] = None if draw(st.booleans()) else ch * draw(st.integers(1, 6))
    # unlimited sampling only where the support is surely large enough
    c["max"] = draw(st.sampled_from([1, 2, 3, 8]))
    if c["n"] <= n // 2 and c["spec"]["type"] == "qGPS" and c["sampler"] != "local" and draw(st.booleans()):
        c["max"] = None
    c["op"] = draw(mc.operators())
    c["chunk"] = draw(st.sampled_from([None, None, 1, ch]))
    c["ops"] = draw(st.lists(st.sampled_from(["samples", "expect", "expect", "grad", "grad", "reset", "params"]), min_size=2, max_size=5))
    c["seed"] = draw(specs.seeds)
    return c


def expected(batches, n, max_steps):
    counts, steps = {}, 0
    for b in batches:
        for x in b:
            x = tuple(int(a) for a in x)
            counts[x] = counts.get(x, 0) + 1
            if len(counts) >= n:
                break
        steps += 1
        if len(counts) >= n:
            break
    return counts, steps


def check(case, rec):
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    m = models.build(spec)
    v = models.random_variables(spec, r)
    op, H = mc.operator(case)
    vs = Recording(mc.sampler(case), m, n_samples=case["n"], seed=case["seed"], max_sampling_steps=case["max"],
                   batch_size=case["batch"], variables=v, n_discard_per_chain=1 if case["sampler"] not in ("exact", "ar") else None)
    if case["chunk"] is not None:
        vs.chunk_size = case["chunk"]
    n = case["n"]
    ref = mc.Reference(spec, v, H)
    jac = None
    fresh = True
    current = None
    for k, o in enumerate(case["ops"]):
        if o == "reset":
            vs.reset()
            fresh = True
            continue
        if o == "params":
            v = models.random_variables(spec, r)
            vs.parameters = v["params"]
            ref, jac, fresh = mc.Reference(spec, v, H), None, True
            continue
        at = f"step {k} ({o})"
        vs.__dict__["drawn"] = []
        if o == "expect":
            stats = vs.expect(op)
        elif o == "grad":
            stats, grad = vs.expect_and_grad(op)
        first = vs.__dict__["drawn"]
        s, w = vs.samples_with_counts
        drawn = vs.__dict__["drawn"]
        require(len(drawn) == len(first) or o == "samples", f"{at}: asking for the samples just used draws new ones")
        require(np.array_equal(np.asarray(vs.samples), np.asarray(s)), f"{at}: samples differ from samples_with_counts")
        s, w = mc.gather(s), mc.gather(w)
        require(s.shape == (n, sp["L"]) and w.shape == (n,), f"{at}: shapes {s.shape}, {w.shape} for {n} samples of {sp['L']} sites")
        if not fresh:
            require(not drawn, f"{at}: new draws without a reset or parameter change")
            require(np.array_equal(s, current[0]) and np.array_equal(w, current[1]), f"{at}: samples changed without a reset")
        else:
            require(bool(drawn), f"{at}: no new draws after a reset or parameter change")
            batches = list(drawn)
            want, steps = expected(batches, n, case["max"])
            require(steps == len(batches), f"{at}: went on drawing after {n} distinct samples were found")
            require(len(want) >= n or (case["max"] is not None and steps >= case["max"]),
                    f"{at}: stopped after {steps} batches with {len(want)} of {n} distinct samples")
            if case["max"] is not None:
                require(steps <= case["max"], f"{at}: {steps} batches drawn, at most {case['max']} allowed")
            pos = w > 0
            got = {}
            for x, c in zip(s[pos], w[pos]):
                x = tuple(int(a) for a in x)
                require(x not in got, f"{at}: {x} is listed twice")
                got[x] = c
            require(set(got) == set(want), f"{at}: {len(got)} distinct samples listed, {len(want)} were drawn")
            tot = sum(want.values())
            close([got[x] for x in want], [want[x] / tot for x in want], f"{at}: relative counts", rtol=1e-12, atol=1e-12)
            require(all(tuple(int(a) for a in x) in ref.index for x in s), f"{at}: a sample outside the space")
            close(w.sum(), 1.0, f"{at}: counts do not sum to one", rtol=1e-12, atol=1e-12)
        fresh, current = False, (s, w)
        rows = ref.rows(s)
        nontrivial = int((w > 0).sum()) >= 2 and np.ptp(w[w > 0]) > 0
        if o in ("expect", "grad"):
            mean = np.sum(w * ref.eloc[rows])
            var = np.sum(w * np.abs(ref.eloc[rows] - mean) ** 2)
            scale = 1 + np.abs(ref.eloc[rows]).max()
            close(stats.mean, mean, f"{at}: mean energy", rtol=1e-8, atol=1e-8 * scale)
            close(stats.variance, var, f"{at}: variance", rtol=1e-7, atol=1e-7 * scale**2)
        if o == "grad":
            flat = jax.tree_util.tree_leaves(grad)
            want = ref.gradient(rows, w)
            require(len(flat) == len(want), f"{at}: gradient has another structure than the parameters")
            par = jax.tree_util.tree_leaves(v["params"])
            for g, u, p in zip(flat, want, par):
                require(g.shape == p.shape and g.dtype == p.dtype, f"{at}: gradient leaf {g.shape} {g.dtype} of parameter {p.shape} {p.dtype}")
                close(np.asarray(g).reshape(-1), u, f"{at}: gradient", rtol=1e-6, atol=1e-7 * scale * (1 + np.abs(u).max()))
        rec.add(1, [k, o], nontrivial=nontrivial)
        rec.label(o, case["sampler"], spec["type"], "padded" if (w == 0).any() else "full")
    rec.sample({"case": case})


SUBS = [Sub("history", lambda: cases(), check, quick=9, thorough=250, shards=8, weight=3)]
