"""C23: PixelCNN and its causal convolutions."""
import functools
import itertools

import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.models import PixelCNN
from GPSKet.nn.causal_conv import CausalConv2d, HorizontalStackConv, VerticalStackConv
from lib import models, specs, stat
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (lattice, local space, kernel size, channels, depth, parameter type, gauge constraint, parameter seed) or (convolution, sizes, dilation). "
    "One comparison per conditional, amplitude, pair of sites or histogram; non-trivial: a lattice of at least 2x2 with parameters of order one."
)
ASSUMPTIONS = [
    "square lattices of up to 5x5 sites; amplitudes enumerated up to 512 configurations; gauge functions are prefix counts written by the harness",
    "a site outside of the receptive field of the stated architecture need not influence a conditional; inside, some configuration must show an influence",
    "statistical decisions with false-alarm probability below 1e-9 per test",
]


def draw_common(draw):
    return {"k": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "ch": draw(st.integers(1, 4)), "depth": draw(st.integers(0, 3)),
            "dtype": draw(st.sampled_from(["float64", "complex128", "float32"])), "seed": draw(specs.seeds)}


@st.composite
def cases(draw, what):
    c = draw_common(draw)
    if what == "causal":
        c["L"] = draw(st.sampled_from([1, 2, 3, 4, 5]))
        c["space"] = draw(st.sampled_from(["spin", "spin", "spin1", "fock"]))
        c["normalize"] = draw(st.booleans())
    else:
        c["L"] = draw(st.sampled_from([2, 2, 3]))
        c["space"] = draw(st.sampled_from(["spin", "fock" if c["L"] == 2 else "spin"]))
        c["normalize"] = True
        c["pow"] = draw(st.sampled_from([2, 2, 1]))
        c["gauge"] = draw(st.booleans())
    return c


@st.composite
def reach_cases(draw):
    c = draw_common(draw)
    c["L"] = draw(st.sampled_from([2, 3, 4]))
    c["ch"] = 5
    c["dtype"] = draw(st.sampled_from(["float64", "complex128"]))
    c["depth"] = draw(st.integers(0, 2))
    return c


@st.composite
def conv_cases(draw):
    return {"conv": draw(st.sampled_from(["vertical", "horizontal", "layer"])), "k": draw(st.integers(1, 6)), "center": draw(st.booleans()),
            "dilation": draw(st.sampled_from([1, 1, 2, 3])), "H": draw(st.integers(1, 6)), "W": draw(st.integers(1, 6)), "cin": draw(st.integers(1, 3)),
            "cout": draw(st.integers(1, 3)), "seed": draw(specs.seeds)}


@functools.lru_cache(16)
def hilbert(kind, n, total):
    if kind == "spin":
        return nk.hilbert.Spin(0.5, n, total_sz=total) if total is not None else nk.hilbert.Spin(0.5, n)
    if kind == "spin1":
        return nk.hilbert.Spin(1, n)
    return nk.hilbert.Fock(2, n, n_particles=total) if total is not None else nk.hilbert.Fock(2, n)


def counts(hi, total):
    """Prefix counts and the values each site may still take without leaving the sector of a given total."""
    loc = jnp.asarray(np.array(hi.local_states), dtype=float)
    n = hi.size

    def gauge(x):
        before = jnp.cumsum(x, axis=1) - x  # of the sites before
        return before[:, :, None] + loc[None, None, :]

    def broken(g):
        left = jnp.arange(n - 1, -1, -1)[None, :, None]
        return (g + left * loc.max() < total - 0.1) | (g + left * loc.min() > total + 0.1)

    return gauge, broken


DEFAULTS = {"machine_pow": 2, "param_dtype": "float32", "kernel_size": 3, "n_channels": 32, "depth": 10, "normalize": True}


@functools.lru_cache(64)
def build(kind, L, k, ch, depth, dtype, normalize=True, pow=2, gauge=False):
    n = L * L
    total = None
    if gauge:
        total = (0.5 if n % 2 else 0.0) if kind == "spin" else max(1, n // 2)
    hi = hilbert(kind, n, total)
    kw = {}
    if gauge:
        t = 2 * total if kind == "spin" else total
        kw["gauge_fn"], kw["constraint_fn"] = counts(hi, t)
    kw.update(machine_pow=pow, param_dtype=dtype, kernel_size=k, n_channels=ch, depth=depth, normalize=normalize)
    # arguments that have their documented value are left out
    kw = {a: b for a, b in kw.items() if a not in DEFAULTS or b != DEFAULTS[a]}
    if "param_dtype" in kw:
        kw["param_dtype"] = jnp.dtype(dtype)
    m = PixelCNN(hilbert=hi, **kw)
    v0 = m.init(jax.random.PRNGKey(0), jnp.asarray(np.array(hi.random_state(jax.random.PRNGKey(1), 1))))
    return hi, m, v0, jax.jit(lambda v, x: m.apply(v, x)), jax.jit(lambda v, x: m.apply(v, x, method=m.conditionals_log_psi)), jax.jit(
        lambda v, x: m.apply(v, x, method=m.conditionals))


def randomise(v, r, spread=0.7):
    def leaf(x):
        x = np.asarray(x)
        z = r.normal(size=x.shape) + (1j * r.normal(size=x.shape) if np.iscomplexobj(x) else 0)
        fan = max(1.0, np.prod(x.shape[:-1])) ** 0.5
        return jnp.asarray((spread * z / (fan if x.ndim > 1 else 1)).astype(x.dtype))

    return jax.tree_util.tree_map(leaf, v)


def random_configs(hi, r, n):
    return np.asarray(hi.local_states)[r.integers(0, hi.local_size, size=(n, hi.size))]


def tolerance(dtype):
    return 2e-4 if dtype == "float32" else 1e-9


def check_causal(case, rec):
    r = rng_of(case)
    hi, m, v0, _, cond, prob = build(case["space"], case["L"], case["k"], case["ch"], case["depth"], case["dtype"], case["normalize"])
    v = randomise(v0, r)
    n, tol = hi.size, tolerance(case["dtype"])
    x = random_configs(hi, r, 4)
    base = np.asarray(cond(v, jnp.asarray(x)))
    require(base.shape == (4, n, hi.local_size), f"conditionals of shape {base.shape}")
    for i in sorted({0, n - 1, *r.integers(0, n, size=3).tolist()}):
        y = x.copy()
        y[:, i:] = random_configs(hi, r, 4)[:, i:]
        new = np.asarray(cond(v, jnp.asarray(y)))
        scale = 1 + np.abs(base[:, : i + 1]).max()
        close(new[:, : i + 1], base[:, : i + 1], f"conditionals up to site {i} after changing sites {i} and later", rtol=tol, atol=tol * scale)
        rec.add(1, [i], nontrivial=n > 1)
    if case["normalize"]:
        p = np.exp(2 * base.real).sum(-1)
        close(p, np.ones(p.shape), "sums of the conditional probabilities", rtol=max(tol, 1e-9) * 10)
        close(np.asarray(prob(v, jnp.asarray(x))), np.exp(2 * base.real), "conditional probabilities", rtol=max(tol, 1e-9) * 10, atol=tol)
        rec.add(2, ["norm"], nontrivial=n > 1)
    rec.label(f"k={case['k']}", f"L={case['L']}", case["space"], case["dtype"])
    rec.sample({"case": case})


def sector(hi, total):
    x = np.array(list(itertools.product(np.asarray(hi.local_states), repeat=hi.size)))
    return x, (np.ones(len(x), dtype=bool) if total is None else np.abs(x.sum(1) - total) < 0.1)


def check_norm(case, rec):
    r = rng_of(case)
    args = (case["space"], case["L"], case["k"], case["ch"], case["depth"], case["dtype"])
    hi, m, v0, amp, cond, _ = build(*args, True, case["pow"], case["gauge"])
    v = randomise(v0, r)
    n, tol = hi.size, tolerance(case["dtype"])
    total = None
    if case["gauge"]:
        total = (1.0 if n % 2 else 0.0) if case["space"] == "spin" else max(1, n // 2)
    x, inside = sector(hi, total)
    x = x[inside]  # configurations of the Hilbert space
    out = np.asarray(amp(v, jnp.asarray(x)))
    p = np.exp(case["pow"] * out.real)
    close(p.sum(), 1.0, "sum of the probabilities of all configurations", rtol=100 * tol)
    # amplitude = product of conditionals; conditionals of the model without the gauge, restricted
    some = r.integers(0, len(x), size=12)
    c = np.asarray(cond(v, jnp.asarray(x[some])))
    idx = np.searchsorted(np.asarray(hi.local_states), x[some])
    picked = np.take_along_axis(c, idx[..., None], axis=-1)[..., 0]
    close(out[some], picked.sum(1), "log-amplitudes against sums of log-conditionals", rtol=10 * tol, atol=10 * tol)
    if case["gauge"]:
        free = np.asarray(build(*args, False, case["pow"], False)[4](v, jnp.asarray(x[some])))
        allowed = np.isfinite(c.real)
        loc = np.asarray(hi.local_states, dtype=float)
        for b in range(len(some)):
            for i in range(n):
                g = x[some[b], :i].sum() + loc
                left = n - 1 - i
                want = (g + left * loc.max() >= total - 0.1) & (g + left * loc.min() <= total + 0.1)
                require(np.array_equal(allowed[b, i], want), f"site {i} of {x[some[b]].tolist()} may take {loc[allowed[b, i]]}, the constraint leaves {loc[want]}")
                f = free[b, i][want]
                f = f - np.log(np.sum(np.exp(case["pow"] * (f.real - f.real.max())))) / case["pow"] - f.real.max()
                close(c[b, i][want], f, "conditionals with gauge against renormalised ones without", rtol=20 * tol, atol=20 * tol)
    rec.add(3, ["norm"], nontrivial=True)
    rec.label(f"k={case['k']}", "gauge" if case["gauge"] else "free", case["space"], case["dtype"], f"pow {case['pow']}")
    rec.sample({"case": case, "norm": float(p.sum())})


def reach(L, k, depth):
    """reach[i, j]: site j is inside the receptive field of the conditional of site i."""
    lo, hi = k // 2, (k - 1) // 2

    def vert(a, center):
        out = np.zeros_like(a)
        for y, x in itertools.product(range(L), repeat=2):
            for dy in range(-lo, 0 if center else 1):
                for dx in range(-lo, hi + 1):
                    if 0 <= y + dy < L and 0 <= x + dx < L:
                        out[y, x] |= a[y + dy, x + dx]
        return out

    def horiz(a, center):
        out = np.zeros_like(a)
        for y, x in itertools.product(range(L), repeat=2):
            for dx in range(-lo, 0 if center else 1):
                if 0 <= x + dx < L:
                    out[y, x] |= a[y, x + dx]
        return out

    a = np.eye(L * L, dtype=bool).reshape(L, L, L * L)
    v, h = vert(a, True), horiz(a, True)
    for _ in range(depth):
        v = vert(v, False)
        h = h | horiz(h, False) | v
    return h.reshape(L * L, L * L)


def check_reach(case, rec):
    r = rng_of(case)
    hi, m, v0, _, cond, _ = build("spin", case["L"], case["k"], case["ch"], case["depth"], case["dtype"], False)
    want = reach(case["L"], case["k"], case["depth"])
    n = hi.size
    require(not np.any(np.triu(want)), "harness: the reference receptive field is not causal")
    seen = np.zeros((n, n), dtype=bool)
    for _ in range(4):
        v = randomise(v0, r)
        x = random_configs(hi, r, 8)
        base = np.asarray(cond(v, jnp.asarray(x)))
        for j in range(n):
            y = x.copy()
            y[:, j] *= -1
            d = np.abs(np.asarray(cond(v, jnp.asarray(y))) - base).max(axis=(0, 2))
            seen[:, j] |= d > 1e-12 * (1 + np.abs(base).max())
        if np.array_equal(seen, want):
            break
    extra, missing = np.argwhere(seen & np.triu(np.ones((n, n), dtype=bool))), np.argwhere(want & ~seen)
    require(len(extra) == 0, f"the conditional of site {extra[0][0] if len(extra) else 0} depends on site {extra[0][1] if len(extra) else 0}")
    require(len(missing) == 0, f"the conditional of site {missing[0][0] if len(missing) else 0} never depends on site {missing[0][1] if len(missing) else 0}, "
            "which its receptive field contains")
    rec.add(n * n, ["reach"], nontrivial=bool(want.any()))
    rec.label(f"k={case['k']}", f"depth {case['depth']}", f"L={case['L']}")
    rec.sample({"case": case})


def check_conv(case, rec):
    """Masks of the stacks: the vertical one sees the rows above (and its own unless masked), the horizontal one its own row to the left."""
    r = rng_of(case)
    H, W, k = case["H"], case["W"], case["k"]
    x = r.normal(size=(1, H, W, case["cin"]))
    if case["conv"] == "layer":
        m = CausalConv2d(n_channels=case["cin"], kernel_size=k, activation=jnp.tanh, param_dtype=jnp.float64)
        v = randomise(m.init(jax.random.PRNGKey(0), jnp.asarray(x), jnp.asarray(x)), r)
        f = jax.jit(lambda a, b: m.apply(v, a, b))
        bv, bh = (np.asarray(t) for t in f(x, x))
        for i, j in itertools.product(range(H), range(W)):
            y = x.copy()
            y[0, i, j] += 1.0
            for which in ("v", "h"):
                nv, nh = (np.asarray(t) for t in (f(y, x) if which == "v" else f(x, y)))
                dv, dh = np.abs(nv - bv).max(axis=(0, 3)) > 1e-12, np.abs(nh - bh).max(axis=(0, 3)) > 1e-12
                early = np.arange(H)[:, None] < i
                require(not np.any(dv & early), f"row {i} of the {which} stack influences vertical features of earlier rows")
                if which == "h":
                    require(not dv.any(), "the horizontal stack influences the vertical one")
                    ok = (np.arange(H)[:, None] == i) & (np.arange(W)[None, :] >= j)
                else:
                    ok = np.arange(H)[:, None] >= i
                require(not np.any(dh & ~ok), f"site ({i},{j}) of the {which} stack influences horizontal features at {np.argwhere(dh & ~ok).tolist()}")
        rec.add(H * W, ["layer"], nontrivial=H * W > 1)
    else:
        cls = VerticalStackConv if case["conv"] == "vertical" else HorizontalStackConv
        m = cls(features=case["cout"], kernel_size=k, mask_center=case["center"], dilation=case["dilation"], param_dtype=jnp.float64)
        v = randomise(m.init(jax.random.PRNGKey(0), jnp.asarray(x)), r)
        f = jax.jit(lambda a: m.apply(v, a))
        base = np.asarray(f(x))
        require(base.shape == (1, H, W, case["cout"]), f"features of shape {base.shape}")
        d = case["dilation"]
        past = k // 2
        for i, j in itertools.product(range(H), range(W)):
            y = x.copy()
            y[0, i, j] += 1.0
            got = np.abs(np.asarray(f(y)) - base).max(axis=(0, 3)) > 1e-12
            want = np.zeros((H, W), dtype=bool)
            for a, b in itertools.product(range(H), range(W)):
                dy, dx = i - a, j - b  # offset of the input seen from the output
                if dy % d or dx % d:
                    continue
                dy, dx = dy // d, dx // d
                if case["conv"] == "vertical":
                    want[a, b] = -past <= dy <= (-1 if case["center"] else 0) and -past <= dx <= (k - 1) // 2
                else:
                    want[a, b] = dy == 0 and -past <= dx <= (-1 if case["center"] else 0)
            require(np.array_equal(got, want), f"site ({i},{j}) influences {np.argwhere(got).tolist()} of the {case['conv']} stack, expected {np.argwhere(want).tolist()}")
        rec.add(H * W, ["conv"], nontrivial=H * W > 1 and k > 1)
    rec.label(case["conv"], f"k={k}", f"dilation {case['dilation']}")
    rec.sample({"case": case})


SUBS = [
    Sub("causal", lambda: cases("causal"), check_causal, quick=12, thorough=300, shards=3, weight=2),
    Sub("norm", lambda: cases("norm"), check_norm, quick=12, thorough=300, shards=2, weight=2),
    Sub("reach", lambda: reach_cases(), check_reach, quick=8, thorough=150, shards=2, weight=2),
    Sub("conv", lambda: conv_cases(), check_conv, quick=20, thorough=600, shards=2, weight=1),
]
