"""C24: initialisation of parameters."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
import scipy.stats
from hypothesis import strategies as st

from GPSKet.nn import initializers as init
from lib import models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (initialiser, its settings, shape, type, key) or (model structure, keys). One comparison per drawn tensor or per initialised model; "
    "non-trivial: more than one element."
)
ASSUMPTIONS = [
    "statistical decisions (Kolmogorov-Smirnov, correlations of large draws) with false-alarm probability below 1e-9 per test",
    "64-bit mode; real types float32 and float64, complex types complex64 and complex128",
]
DTYPES = ["float32", "float64", "complex64", "complex128"]


@st.composite
def normal_cases(draw):
    return {"sigma": draw(st.sampled_from([0.1, 0.01, 0.5, 0.0, 0.3])), "dtype": draw(st.sampled_from(DTYPES)), "default": draw(st.booleans()),
            "shape": draw(st.lists(st.integers(1, 6), min_size=0, max_size=4)), "big": draw(st.sampled_from([[4000], [2, 1000, 2], [50, 4, 20]])),
            "seed": draw(specs.seeds)}


@st.composite
def orthogonal_cases(draw):
    return {"scale": draw(st.sampled_from([1.0, 0.5, 3.0, 0.01])), "axis": draw(st.sampled_from([-1, -1, -2])), "dtype": draw(st.sampled_from(DTYPES)),
            "default": draw(st.booleans()), "shape": [draw(st.integers(1, 5)), draw(st.integers(1, 7)), draw(st.integers(1, 7))], "seed": draw(specs.seeds),
            "bad": draw(st.sampled_from([[], [4], [3, 3], [2, 3, 3, 2]]))}


@st.composite
def model_cases(draw):
    s = draw(st.one_of(specs.qgps(), specs.plaquette_gps(), specs.ar_model(), specs.slater(), specs.slater_product(), specs.asymm(),
                       specs.backflow()))
    return {"spec": s, "seed": draw(specs.seeds)}


def ks_ok(z):
    """z is a sample of the standard normal distribution."""
    return scipy.stats.kstest(z, "norm").pvalue > 1e-10


def check_normal(case, rec):
    dt = np.dtype(case["dtype"])
    cplx = dt.kind == "c"
    f = init.normal(sigma=case["sigma"], dtype=jnp.dtype(dt)) if case["default"] else init.normal(sigma=case["sigma"])
    call = (lambda k, s: f(k, s)) if case["default"] else (lambda k, s: f(k, s, jnp.dtype(dt)))
    key, other = jax.random.split(jax.random.PRNGKey(case["seed"]))
    tol = 1e-5 if dt.itemsize in (4,) or dt == np.complex64 else 1e-6
    for shape in (tuple(case["shape"]), tuple(case["big"])):
        x = np.asarray(call(key, shape))
        require(x.shape == shape, f"shape {x.shape} instead of {shape}")
        require(x.dtype == dt, f"type {x.dtype} instead of {dt}")
        require(np.array_equal(x, np.asarray(call(key, shape))), "two draws with the same key differ")
        if cplx:
            close(np.abs(x), np.ones(shape), "modulus of complex parameters", rtol=tol, atol=tol)
        if case["sigma"] == 0:
            close(x, np.ones(shape, dtype=dt), "parameters without spread", rtol=tol, atol=tol)
        elif x.size > 1000:
            y = np.asarray(call(other, shape))
            zs = [(np.angle(t) if cplx else t.astype(float) - 1).reshape(-1) / case["sigma"] for t in (x, y)]
            if cplx and dt == np.complex64:
                zs = [np.asarray(z, dtype=float) for z in zs]
            for z in zs:
                require(ks_ok(z), f"{'phases' if cplx else 'deviations from one'} over sigma have mean {z.mean()} and standard deviation {z.std()}")
            for a, b, name in ((zs[0], zs[1], "draws with different keys"), (zs[0][:-1], zs[0][1:], "neighbouring elements")):
                c = np.corrcoef(a, b)[0, 1]
                require(abs(c) < 6.5 / np.sqrt(len(a)), f"{name} have a correlation of {c}")
            if len(shape) > 1:
                z = zs[0].reshape(shape)
                c = np.corrcoef(z[0].reshape(-1), z[1].reshape(-1))[0, 1]
                require(abs(c) < 6.5 / np.sqrt(z[0].size), f"slices have a correlation of {c}")
        rec.add(1, [list(shape)], nontrivial=x.size > 1)
    rec.label("normal", case["dtype"], f"sigma {case['sigma']}")
    rec.sample({"case": case})


def check_orthogonal(case, rec):
    dt = np.dtype(case["dtype"])
    shape, s = tuple(case["shape"]), case["scale"]
    f = init.orthogonal(scale=s, column_axis=case["axis"], dtype=jnp.dtype(dt)) if case["default"] else init.orthogonal(scale=s, column_axis=case["axis"])
    call = (lambda k, sh: f(k, sh)) if case["default"] else (lambda k, sh: f(k, sh, jnp.dtype(dt)))
    key, other = jax.random.split(jax.random.PRNGKey(case["seed"]))
    W = np.asarray(call(key, shape))
    require(W.shape == shape and W.dtype == dt, f"shape {W.shape} and type {W.dtype} instead of {shape} and {dt}")
    require(np.array_equal(W, np.asarray(call(key, shape))), "two draws with the same key differ")
    tol = 1e-4 if dt.itemsize == 4 or dt == np.complex64 else 1e-9
    for k in range(shape[0]):
        A = W[k].astype(complex) / s
        if case["axis"] == -2:
            A = A.T
        G = A.conj().T @ A if A.shape[0] >= A.shape[1] else A @ A.conj().T
        close(G, np.eye(len(G)), f"overlaps of the columns of slice {k}", rtol=0, atol=tol * 10)
        rec.add(1, [k], nontrivial=min(shape[1:]) > 1)
    if max(shape[1:]) > 2:
        for k in range(1, shape[0]):
            require(not np.allclose(W[0], W[k], atol=1e-3 * s), f"slices 0 and {k} coincide")
        require(not np.allclose(W, np.asarray(call(other, shape)), atol=1e-3 * s), "draws with different keys coincide")
    try:
        f(key, tuple(case["bad"]))
    except ValueError:
        pass
    else:
        require(False, f"shape {case['bad']} was accepted")
    rec.label("orthogonal", case["dtype"], "tall" if shape[1] >= shape[2] else "wide")
    rec.sample({"case": case})


@functools.lru_cache(64)
def f_init(m):
    return jax.jit(m.init)


def check_models(case, rec):
    spec = case["spec"]
    m = models.build(spec)
    r = rng_of(case)
    x = jnp.asarray(models.random_configs(spec["space"], r, 4))
    k1, k2 = jax.random.split(jax.random.PRNGKey(case["seed"]))
    f = f_init(m)
    a, b, c, d = (jax.tree_util.tree_map(np.asarray, dict(dict(f(k, y))["params"])) for k, y in ((k1, x), (k1, x), (k2, x), (k1, x[::-1])))
    la, lb, lc, ld = (jax.tree_util.tree_leaves(t) for t in (a, b, c, d))
    require(len(la) > 0, "no parameters")
    for u, w, y in zip(la, lb, ld):
        require(np.all(np.isfinite(u)), "initial parameters are not finite")
        require(np.array_equal(u, w), "initialisations with the same key differ")
        require(np.array_equal(u, y), "initial parameters depend on the configurations")
    if spec["type"] in ("qGPS", "Plaquette", "ARqGPS", "ARqGPSFull"):
        want = np.dtype(models.dtype_of(spec))
        for u in la:
            require(u.dtype.kind == want.kind, f"parameters of type {u.dtype} instead of {want}")
    require(any(not np.array_equal(u, w) for u, w in zip(la, lc)) or all(np.ptp(np.abs(u)) == 0 for u in la), "initialisations with different keys coincide")
    rec.add(1, ["model"], nontrivial=sum(u.size for u in la) > 1)
    rec.label(spec["type"])
    rec.sample({"case": case})


# ------------------------------------------------------------------ which initialiser a model uses


def marker(offset):
    def f(key, shape, dtype=jnp.float64):
        n = int(np.prod(shape))
        return (offset + jnp.arange(n) / (n + 1)).reshape(shape).astype(dtype)

    return f


TAKES = {  # type -> {argument: name of the parameter collection it fills}
    "qGPS": {"init_fun": ""}, "Plaquette": {"init_fun": ""}, "SegGPS": {"init_fun": ""}, "ARqGPS": {"init_fun": ""},
    "ARqGPSModPhase": {"init_fun": ""}, "ARqGPSFull": {"init_fun": ""}, "ARqGPSModPhaseFull": {"init_fun": ""}, "ARPlaquette": {"init_fun": ""},
    "Slater": {"init_fun": ""}, "ASymmqGPS": {"init_fun": ""}, "ASymmqGPSProd": {"init_fun": ""}, "CPDBackflow": {"init_fun": ""}, "Jastrow": {"init_fun": ""},
    "SlaterqGPS": {"slater_init_fun": "Slater", "qGPS_init_fun": "qGPS"}, "SlaterJastrow": {"slater_init_fun": "Slater", "jastrow_init_fun": "Jastrow"},
}


@st.composite
def given_cases(draw):
    s = draw(st.one_of(specs.qgps(), specs.plaquette_gps(), specs.seg_gps(), specs.ar_model(), specs.slater(), specs.slater_product(), specs.asymm(),
                       specs.backflow(), st.builds(lambda sp, d: {"type": "Jastrow", "space": sp, "dtype": d}, specs.fermi_space(2, 4), specs.dtypes))
             .filter(lambda s: s["type"] in TAKES))
    return {"spec": s, "pair": draw(st.booleans()), "seed": draw(specs.seeds)}


def check_given(case, rec):
    """A model given an initialiser starts from what that initialiser returns."""
    spec = case["spec"]
    m = models.build(spec)
    args = TAKES[spec["type"]]
    marks = {a: marker(2.0 + 3 * k) for k, a in enumerate(args)}
    pair = None
    if case["pair"] and spec["type"] in ("Slater", "SlaterqGPS", "SlaterJastrow") and spec.get("fixed", True) and not spec.get("restricted", spec["type"] != "Slater"):
        pair = (marker(20.0), marker(30.0))
        marks["init_fun" if spec["type"] == "Slater" else "slater_init_fun"] = pair
    m = m.clone(**marks)
    x = jnp.asarray(models.random_configs(spec["space"], rng_of(case), 3))
    params = dict(m.init(jax.random.PRNGKey(case["seed"]), x))["params"]
    flat, _ = jax.tree_util.tree_flatten_with_path(params)
    require(len(flat) > 0, "no parameters")
    for path, leaf in flat:
        names = [str(getattr(q, "key", q)) for q in path]
        arg = [a for a, where in args.items() if any(n.startswith(where) for n in names[:-1]) or not where]
        require(len(arg) == 1, f"parameter {'/'.join(names)} belongs to no initialiser of {spec['type']}")
        f = marks[arg[0]]
        if isinstance(f, tuple):
            f = f[1] if names[-1].lower().endswith(("down", "dn")) else f[0]
        leaf = np.asarray(leaf)
        close(leaf, np.asarray(f(None, leaf.shape, leaf.dtype)), f"initial {'/'.join(names)} with the given initialiser", rtol=1e-12, atol=1e-12)
        rec.add(1, ["/".join(names)], nontrivial=leaf.size > 1)
    rec.label(spec["type"], "pair of initialisers" if pair else "one initialiser")
    rec.sample({"case": case})


@st.composite
def default_cases(draw):
    t = draw(st.sampled_from(["qGPS", "qGPS", "Plaquette", "SegGPS", "ARqGPS", "ARqGPSModPhase", "ARqGPSFull", "ARqGPSModPhaseFull", "ARPlaquette", "CPDBackflow"]))
    L = 4
    sp = {"kind": "fermi", "L": L, "n_elec": [2, 2]} if t in ("CPDBackflow", "SegGPS") else draw(
        st.sampled_from([{"kind": "spin", "L": L, "sz": 0}, {"kind": "fermi", "L": L, "n_elec": [2, 1]}]))
    s = {"type": t, "space": sp, "M": 150, "dtype": "real" if "ModPhase" in t else draw(specs.dtypes)}
    if "Plaquette" in t:
        s["plaquettes"] = [[(i + k) % L for k in range(L)] for i in range(L)]
    if t == "ARPlaquette":
        s["masks"] = [[1 if (p[k] < i and k > 0) else 0 for k in range(L)] for i, p in enumerate(s["plaquettes"])]
    return {"spec": s, "seed": draw(specs.seeds)}


def check_default(case, rec):
    """Without an explicit initialiser, GPS parameters follow the GPS initialiser's distribution in the model's own type."""
    spec = case["spec"]
    m = models.build(spec)
    x = jnp.asarray(models.random_configs(spec["space"], rng_of(case), 2))
    params = dict(f_init(m)(jax.random.PRNGKey(case["seed"]), x))["params"]
    sigma = 0.01 if spec["type"] == "ARPlaquette" else 0.1
    n = 0
    for path, leaf in jax.tree_util.tree_flatten_with_path(params)[0]:
        u = np.asarray(leaf)
        name = "/".join(str(getattr(q, "key", q)) for q in path)
        inner = len(path) > 1  # the phase of modulus-phase models is a real GPS
        kind = "f" if inner or spec["dtype"] == "real" else "c"
        require(u.dtype.kind == kind, f"{name} has type {u.dtype} in a model of type {spec['dtype']}")
        if u.size < 400:
            continue
        if kind == "c":
            close(np.abs(u), np.ones(u.shape), f"modulus of {name}", rtol=1e-6, atol=1e-6)
        z = ((np.angle(u) if kind == "c" else u - 1) / sigma).reshape(-1)
        require(ks_ok(z), f"{name}: {'phases' if kind == 'c' else 'deviations from one'} over {sigma} have mean {z.mean()} and standard deviation {z.std()}")
        n += 1
        rec.add(1, [name], nontrivial=True)
    require(n > 0, "no parameter tensor of the expected size")
    rec.label(spec["type"], spec["dtype"])
    rec.sample({"case": case})


SUBS = [
    Sub("given", lambda: given_cases(), check_given, quick=15, thorough=200, shards=3, weight=2),
    Sub("default", lambda: default_cases(), check_default, quick=10, thorough=100, shards=2, weight=2),
    Sub("normal", lambda: normal_cases(), check_normal, quick=40, thorough=600, shards=2, weight=1),
    Sub("orthogonal", lambda: orthogonal_cases(), check_orthogonal, quick=40, thorough=600, shards=2, weight=1),
    Sub("models", lambda: model_cases(), check_models, quick=15, thorough=400, shards=4, weight=2),
]
