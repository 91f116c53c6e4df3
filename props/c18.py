"""C18: quantum geometric tensors of the repository and the preconditioners that use them."""
import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.optimizer import SRDense, SRRMSProp, pinv
from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTJacobianDenseUniqueSamples, QGTOnTheFlyRMSProp
from GPSKet.vqs import MCStateUniqueSamples
from lib import mc, models, specs
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (space, model, state with given samples / unique samples / full summation, tensor, settings, vector). One comparison per "
    "dense matrix, product, solution or preconditioner step; non-trivial: at least three distinct samples carry weight."
)
ASSUMPTIONS = [
    "log-derivatives by automatic differentiation of full evaluations over the enumerated space",
    "RMSProp tensors: split real parameters (real or complex mode), the on-the-fly variant with real parameters, or holomorphic with one scale per complex parameter",
    "SRDense: real parameters, or holomorphic tensors",
]


@st.composite
def cases(draw, what):
    c = draw(mc.states(ar=False))
    s = c["spec"]
    c["what"] = what
    c["n"] = c["chains"] * draw(st.sampled_from([3, 4, 6, 8, 2]))
    kinds = {"rms": ["mc", "mc", "unique", "full"], "unique": ["unique"], "fly": ["mc"], "dense": ["mc", "full", "unique"], "srrms": ["mc"]}[what]
    c["state"] = draw(st.sampled_from(kinds))
    if c["state"] == "unique":
        c["n"] = c["chains"] * max(1, min(c["n"], models.n_configs(s["space"])) // c["chains"])
    real_out = s["type"] == "qGPS" and s["dtype"] == "real"
    modes = [None, "real"] if real_out else [None, "complex"]
    if s["dtype"] == "real" and not real_out:
        modes.append("real")
    if s["dtype"] == "complex" and what in ("unique", "dense"):
        modes = ["holomorphic", "hol"] if what == "dense" else modes + ["holomorphic", "hol"]
    elif what == "dense":
        modes = ["real"]
    if what == "fly":
        modes = ["hol"] if s["dtype"] == "complex" else [None]
    c["mode"] = draw(st.sampled_from(modes))
    c["shift"] = draw(st.sampled_from([0.01, 0.1, 0.5] if what != "unique" else [None, 0.0, 0.01, 0.5]))
    c["eps"] = draw(st.sampled_from([1e-8, 1e-2, 1.0]))
    c["decay"] = draw(st.sampled_from([0.9, 0.5]))
    c["scale"] = draw(st.sampled_from([0.0, 2.0]))
    c["chunk"] = draw(st.sampled_from([None, c["chains"], 1]))
    c["partial"] = draw(st.booleans())
    c["guess"] = draw(st.booleans())
    c["schedule"] = draw(st.booleans())
    c["seed"] = draw(specs.seeds)
    return c


def setup(case):
    """-> state, reference, rows, weights, mode in force, log-derivatives (rows, parameters)."""
    spec, sp = case["spec"], case["spec"]["space"]
    r = rng_of(case)
    v = models.random_variables(spec, r, spread=0.7)
    n = models.n_configs(sp)
    ref = mc.Reference(spec, v, np.eye(n))
    m = models.build(spec)
    if case["state"] == "full":
        vs = nk.vqs.FullSumState(models.space(sp), m, variables=v)
        rows = np.arange(n)
        w = np.abs(ref.psi) ** 2
        w = w / w.sum()
    elif case["state"] == "unique":
        vs = MCStateUniqueSamples(mc.sampler(case), m, n_samples=case["n"], seed=case["seed"], variables=v, max_sampling_steps=3)
        s, w = vs.samples_with_counts
        rows, w = ref.rows(mc.gather(s)), mc.gather(w)
    else:
        vs = nk.vqs.MCState(mc.sampler(case), m, n_samples=case["n"], seed=case["seed"], variables=v)
        ok = np.flatnonzero(np.abs(ref.psi) > 1e-5)
        rows = r.choice(ok, size=case["n"])
        vs._samples = jnp.asarray(mc.part(ref.basis[rows].reshape(case["chains"], -1, sp["L"])))
        w = np.full(case["n"], 1 / case["n"])
    if case["chunk"] and case["state"] != "full":
        vs.chunk_size = case["chunk"]
    real_out = spec["type"] == "qGPS" and spec["dtype"] == "real"
    mode = case["mode"] or ("real" if real_out else "complex")
    mode = "holomorphic" if mode == "hol" else mode
    O = ref.holomorphic_jacobian() if mode == "holomorphic" else ref.split_jacobian(real=mode == "real")
    ok = w > 0
    Oc = np.where(ok[:, None], O[rows], 0)
    Oc = Oc - w @ Oc
    Oc = np.where(ok[:, None], Oc, 0)
    S = (Oc.conj() * w[:, None]).T @ Oc
    if mode != "holomorphic":
        S = S.real
    return r, v, vs, ref, rows, w, mode, S


def mode_kw(case):
    if case["mode"] == "hol":
        return {"holomorphic": True}
    return {} if case["mode"] is None else {"mode": case["mode"]}


def random_like(params, r):
    return jax.tree_util.tree_map(
        lambda p: jnp.asarray(r.normal(size=p.shape) + (1j * r.normal(size=p.shape) if jnp.iscomplexobj(p) else 0), dtype=p.dtype), params)


def vec(tree, mode):
    return mc.flat_vector(tree) if mode == "holomorphic" else mc.split_vector(tree)


def compare(op, A, v, mode, r, what, dense=True):
    """to_dense, product with parameter trees and vectors."""
    scale = 1 + np.abs(A).max()
    if dense:
        close(np.asarray(op.to_dense()), A, f"{what}: dense matrix", rtol=1e-7, atol=1e-8 * scale)
    x = random_like(v["params"], r)
    y = op @ x
    require(jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(x), f"{what}: the product has another structure than its operand")
    close(vec(y, mode), A @ vec(x, mode), f"{what}: product with a vector", rtol=1e-7, atol=1e-7 * scale * len(A))


def solves(op, A, v, mode, r, what, lib, guess=False):
    """Solution of the linear system through the tensor's own solve()."""
    x = random_like(v["params"], r)
    cond = np.linalg.cond(A)
    if cond > 1e6:
        return False
    got, _ = op.solve(lib, x, x0=random_like(v["params"], r)) if guess else op.solve(lib, x)
    got = vec(got, mode)
    res = np.linalg.norm(A @ got - vec(x, mode))
    require(res <= 1e-4 * np.linalg.norm(vec(x, mode)), f"{what}: solution leaves a relative residual {res / np.linalg.norm(vec(x, mode)):.2g}")
    return True


def check(case, rec):
    r, v, vs, ref, rows, w, mode, S = setup(case)
    params = v["params"]
    P = len(S)
    nontrivial = len(set(rows[w > 1e-9])) >= 3
    what = case["what"]
    cg = lambda A, b, x0=None: jax.scipy.sparse.linalg.cg(A, b, x0=x0, tol=1e-9, maxiter=20 * P + 200)  # noqa: E731
    if what == "unique":
        kw = {} if case["shift"] is None else {"diag_shift": case["shift"]}
        if case["partial"]:
            op = QGTJacobianDenseUniqueSamples(**mode_kw(case), **kw)(vs)
        else:
            op = QGTJacobianDenseUniqueSamples(vs, **mode_kw(case), **kw)
        A = S + (case["shift"] or 0.0) * np.eye(P)
        compare(op, A, v, mode, r, "QGTJacobianDenseUniqueSamples")
        if case["shift"]:
            solves(op, A, v, mode, r, "QGTJacobianDenseUniqueSamples", cg, case.get("guess"))
    elif what in ("rms", "fly"):
        both = what == "rms"  # real and imaginary parts are parameters of their own; the holomorphic tensor has one scale per complex parameter
        ema = jax.tree_util.tree_map(
            lambda p: jnp.asarray(r.uniform(0.1, 2, size=p.shape) + (1j * r.uniform(0.1, 2, size=p.shape) if both and jnp.iscomplexobj(p) else 0), dtype=p.dtype), params)
        d = np.sqrt(vec(ema, mode)) + case["eps"]
        A = (1 - case["shift"]) * (S if what == "rms" or mode == "holomorphic" else fly_matrix(ref, rows, w)) + case["shift"] * np.diag(d)
        if what == "rms":
            if case["partial"]:
                op = QGTJacobianDenseRMSProp(**mode_kw(case), diag_shift=case["shift"], eps=case["eps"])(vs, ema)
            else:
                op = QGTJacobianDenseRMSProp(vs, ema, diag_shift=case["shift"], eps=case["eps"], **mode_kw(case))
        else:
            op = QGTOnTheFlyRMSProp(vs, ema, diag_shift=case["shift"], eps=case["eps"], **mode_kw(case))
        compare(op, A, v, mode, r, type(op).__name__)
        if what == "fly":
            x = r.normal(size=P) + (1j * r.normal(size=P) if mode == "holomorphic" else 0)
            close(np.asarray(op @ jnp.asarray(x)), A @ x, "product of the on-the-fly tensor with a flat vector", rtol=1e-7, atol=1e-7 * P)
        solves(op, A, v, mode, r, type(op).__name__, cg, case.get("guess"))
    elif what == "dense":
        lam = case["shift"]
        x = random_like(params, r)
        xs = vec(x, mode)
        qkw = {"holomorphic": True} if mode == "holomorphic" else {"mode": "real"}
        if case["state"] == "unique":
            qgt = QGTJacobianDenseUniqueSamples(**qkw, diag_shift=lam)
        else:
            qgt = nk.optimizer.qgt.QGTJacobianDense(**qkw, diag_shift=lam)
        A = S + lam * np.eye(P)
        solver = {} if case["partial"] else {"solver": lambda M, b: jnp.linalg.solve(M, b)}
        sr = SRDense(qgt, **solver)
        for k in range(2):
            out = sr(vs, x, k)
            require(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(x), "SRDense changes the structure of the gradient")
            close(vec(out, mode), np.linalg.solve(A, xs), "SRDense solution", rtol=1e-6, atol=1e-6 * (1 + np.abs(xs).max() / lam))
        # singular systems: the pseudo-inverse gives the least-norm solution
        sv = np.linalg.eigvalsh(S)
        if sv.max() > 1e-6 and not np.any((sv > 1e-15 * sv.max()) & (sv < 1e-8 * sv.max())):
            qgt0 = nk.optimizer.qgt.QGTJacobianDense(vs, **qkw) if case["state"] != "unique" else QGTJacobianDenseUniqueSamples(vs, **qkw)
            got, _ = pinv(qgt0, x)
            want = np.linalg.pinv(S, rcond=1e-10, hermitian=True) @ xs
            close(vec(got, mode), want, "pseudo-inverse solution", rtol=1e-4, atol=1e-5 * (1 + np.abs(want).max()))
            rec.label("pinv")
    else:
        ema = np.full(P, case["scale"])
        if case["scale"] and any(jnp.iscomplexobj(x) for x in jax.tree_util.tree_leaves(params)):
            ema[P // 2:] = 0.0  # the initial value is a real number for each complex parameter
        sr = SRRMSProp(params, QGTJacobianDenseRMSProp, lambda M, b, x0=None: (jnp.linalg.solve(M.to_dense(), b), None),
                       diag_shift=(lambda k: case["shift"] / (1 + k)) if case.get("schedule") else case["shift"], decay=case["decay"], eps=case["eps"], initial_scale=case["scale"], **mode_kw(case))
        for k in range(3):
            x = random_like(params, r)
            xs = mc.split_vector(x)
            ema = case["decay"] * ema + (1 - case["decay"]) * xs**2
            hat = ema / (1 - case["decay"] ** (k + 1))
            shift = case["shift"] / (1 + k) if case.get("schedule") else case["shift"]
            A = (1 - shift) * S + shift * np.diag(np.sqrt(hat) + case["eps"])
            out = mc.split_vector(sr(vs, x, k))
            res = np.linalg.norm(A @ out - xs)
            require(res <= 1e-6 * np.linalg.norm(xs), f"SRRMSProp call {k}: the result does not solve the regularised system "
                    f"(relative residual {res / np.linalg.norm(xs):.2g})")
            rec.add(1, [k], nontrivial=nontrivial)
    rec.add(1, [what], nontrivial=nontrivial)
    rec.label(what, case["state"], mode, case["spec"]["type"])
    rec.sample({"case": case})


def fly_matrix(ref, rows, w):
    O = ref.split_jacobian()[rows]
    Oc = O - w @ O
    return ((Oc.conj() * w[:, None]).T @ Oc).real


SUBS = [
    Sub("unique", lambda: cases("unique"), check, quick=9, thorough=150, shards=2, weight=2),
    Sub("rmsprop", lambda: cases("rms"), check, quick=9, thorough=150, shards=2, weight=2),
    Sub("on-the-fly", lambda: cases("fly"), check, quick=8, thorough=120, shards=1, weight=2),
    Sub("SRDense", lambda: cases("dense"), check, quick=9, thorough=150, shards=2, weight=2),
    Sub("SRRMSProp", lambda: cases("srrms"), check, quick=9, thorough=120, shards=1, weight=2),
]
