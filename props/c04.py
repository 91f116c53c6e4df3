"""C04: the ASEP operator is the tilted Markov generator of the open exclusion process."""
import netket as nk
import numpy as np
from hypothesis import strategies as st

from GPSKet.operator.hamiltonian import AsymmetricSimpleExclusionProcess
from lib.core import Sub, close, require, rng_of

RULE = (
    "Case = (sites, counting field, six rates); one comparison per row of the generator. Non-trivial: the row "
    "has an off-diagonal element, and at least two rates differ."
)
ASSUMPTIONS = [
    "row x of the operator lists the transitions x -> x'; alpha/gamma inject/remove at the left end, beta/delta "
    "inject/remove at the right end, p/q hop right/left; moves to the right carry exp(lambda), moves to the left exp(-lambda)",
]

# documented defaults of the constructor
DEFAULTS = {"lambd": 0.0, "alpha": 0.5, "beta": 0.5, "gamma": 0.5, "delta": 0.5, "p": 0.5, "q": 0.5}
rate = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 0.25]), st.floats(0.01, 3.0).map(lambda v: round(v, 3)))


@st.composite
def cases(draw):
    c = {"L": draw(st.integers(1, 6)),
         "lambd": draw(st.one_of(st.just(0.0), st.floats(-1.5, 1.5).map(lambda v: round(v, 3))))}
    for k in ("alpha", "beta", "gamma", "delta", "p", "q"):
        c[k] = draw(rate)
    sym = draw(st.sampled_from(["none", "none", "none", "sym", "sum2", "boundary", "bulk", "zero"]))
    if sym == "sym":
        c["gamma"], c["delta"], c["q"], c["lambd"] = c["alpha"], c["beta"], c["p"], 0.0
    elif sym == "sum2":
        c["alpha"], c["beta"], c["gamma"], c["delta"] = draw(st.permutations([0.25, 0.75, 0.5, 0.5]))
        c["q"], c["lambd"] = c["p"], 0.0
    elif sym == "boundary":
        c["gamma"], c["delta"] = c["alpha"], c["beta"]
    elif sym == "bulk":
        c["q"] = c["p"]
    elif sym == "zero":
        c["lambd"] = 0.0
    c["spell"] = draw(st.booleans())  # pass rates that have the default value, or leave them out
    c["dtype"] = draw(st.sampled_from(["int8", "int64", "float64"]))
    return c


def reference(c):
    L, lam = c["L"], c["lambd"]
    right, left = np.exp(lam), np.exp(-lam)
    n = 2 ** L
    W = np.zeros((n, n))
    bits = lambda k: [(k >> (L - 1 - i)) & 1 for i in range(L)]
    num = lambda b: sum(v << (L - 1 - i) for i, v in enumerate(b))

    def move(k, b2, rate_, weight):
        W[k, num(b2)] += rate_ * weight
        W[k, k] -= rate_

    for k in range(n):
        b = bits(k)
        f = list(b)
        f[0] = 1 - f[0]
        if b[0] == 0:
            move(k, f, c["alpha"], right)
        else:
            move(k, f, c["gamma"], left)
        f = list(b)
        f[-1] = 1 - f[-1]
        if b[-1] == 0:
            move(k, f, c["beta"], left)
        else:
            move(k, f, c["delta"], right)
        for i in range(L - 1):
            f = list(b)
            f[i], f[i + 1] = f[i + 1], f[i]
            if b[i] == 1 and b[i + 1] == 0:
                move(k, f, c["p"], right)
            if b[i] == 0 and b[i + 1] == 1:
                move(k, f, c["q"], left)
    return W, np.array([bits(k) for k in range(n)])


def check(c, rec):
    hilb = nk.hilbert.Qubit(c["L"])
    op = AsymmetricSimpleExclusionProcess(hilb, **{k: c[k] for k in DEFAULTS if c[k] != DEFAULTS[k] or c["spell"]})
    W, basis = reference(c)
    n = len(basis)
    x = basis.astype(c["dtype"])
    before = x.copy()
    sections = np.empty(n, dtype=np.int64)
    xp, mels = op.get_conn_flattened(x, sections)
    require((x == before).all(), "the input configurations were modified")
    got = np.zeros((n, n))
    start = 0
    w = 1 << np.arange(c["L"])[::-1]
    for k in range(n):
        for y, m in zip(np.asarray(xp)[start:sections[k]], mels[start:sections[k]]):
            y = np.asarray(y).astype(int)
            require(np.isin(y, [0, 1]).all(), f"connected configuration {y.tolist()} outside the space")
            got[k, int(y @ w)] += m
        start = int(sections[k])
    close(got, W, "generator", rtol=1e-12, atol=1e-12)
    dense = np.asarray(op.to_dense())
    order = [int(np.asarray(s).astype(int) @ w) for s in np.asarray(hilb.all_states())]
    close(dense, W[np.ix_(order, order)], "to_dense", rtol=1e-12, atol=1e-12)
    if c["lambd"] == 0.0:
        close(dense.sum(axis=1), np.zeros(n), "probability is not conserved at zero counting field", atol=1e-10)
    symmetric = np.abs(W - W.T).max() < 1e-9
    if op.is_hermitian:
        require(symmetric, f"is_hermitian is True but the generator is not symmetric (max asymmetry {np.abs(W - W.T).max():.3g})")
    elif c["lambd"] == 0.0 and c["alpha"] == c["gamma"] and c["beta"] == c["delta"] and c["p"] == c["q"]:
        require(False, "is_hermitian is False although every move and its reverse have equal rates")
    rates = {c[k] for k in ("alpha", "beta", "gamma", "delta", "p", "q")}
    off = W - np.diag(np.diag(W))
    rec.add_many([basis, W], (np.abs(off) > 0).any(axis=1) & (len(rates) > 1))
    rec.label("hermitian" if symmetric else "non-hermitian", "lambda0" if c["lambd"] == 0 else "tilted")
    rec.sample(c)


@st.composite
def large_cases(draw):
    c = draw(cases())
    c["L"] = draw(st.one_of(st.integers(7, 40), st.integers(41, 300)))
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    return c


def row(c, b):
    """One row of the generator as {configuration: rate}."""
    L = c["L"]
    right, left = np.exp(c["lambd"]), np.exp(-c["lambd"])
    out = {tuple(b): 0.0}

    def move(changes, rate_, weight):
        y = list(b)
        for i in changes:
            y[i] = 1 - y[i]
        out[tuple(y)] = out.get(tuple(y), 0.0) + rate_ * weight
        out[tuple(b)] -= rate_

    move([0], *((c["alpha"], right) if b[0] == 0 else (c["gamma"], left)))
    move([L - 1], *((c["beta"], left) if b[-1] == 0 else (c["delta"], right)))
    for i in range(L - 1):
        if (b[i], b[i + 1]) == (1, 0):
            move([i, i + 1], c["p"], right)
        if (b[i], b[i + 1]) == (0, 1):
            move([i, i + 1], c["q"], left)
    return out


def check_rows(c, rec):
    op = AsymmetricSimpleExclusionProcess(nk.hilbert.Qubit(c["L"]), **{k: c[k] for k in DEFAULTS if c[k] != DEFAULTS[k] or c["spell"]})
    r = rng_of(c)
    xs = (r.random((3, c["L"])) < np.array([0.5, 0.05, 0.95])[:, None]).astype(c["dtype"])
    sections = np.empty(3, dtype=np.int64)
    xp, mels = op.get_conn_flattened(xs, sections)
    start = 0
    for k in range(3):
        want = row(c, [int(v) for v in xs[k]])
        got = {}
        for y, m in zip(np.asarray(xp)[start:sections[k]], mels[start:sections[k]]):
            key = tuple(int(v) for v in y)
            got[key] = got.get(key, 0.0) + m
        keys = sorted(set(got) | set(want))
        close(np.array([got.get(b, 0.0) for b in keys]), np.array([want.get(b, 0.0) for b in keys]), f"row of {xs[k].astype(int).tolist()}",
              rtol=1e-11, atol=1e-11)
        start = int(sections[k])
        rec.add(1, [xs[k]], nontrivial=len(want) > 3)
    rec.label("large")
    rec.sample(c)


SUBS = [
    Sub("generator", cases, check, 60, 1500, shards=4),
    Sub("rows", large_cases, check_rows, 40, 800, shards=2),
]
