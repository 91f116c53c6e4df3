"""Vocabulary of the checks: sub-checks, verdict exceptions, per-run recording."""
import hashlib
import json
import traceback

import numpy as np

from lib import env


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


class Sub:
    """One generated check.

    strategy : zero-argument callable returning a hypothesis strategy of JSON-able cases
    check    : check(case, rec) -> None, raises Violation
    quick / thorough : cases per shard
    shards   : how many independently seeded copies run (in parallel where possible)
    explicit : fixed cases run before the generated ones (edge cases / past failures)
    """

    def __init__(self, name, strategy, check, quick, thorough, shards=1, explicit=(), tshards=None,
                 weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards or max(shards, 8)
        self.explicit = list(explicit)
        self.weight = weight


class Recorder:
    """Counts what was actually generated and compared."""

    MAX_SAMPLES = 3

    def __init__(self):
        self.cases = 0
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self._case = None

    def begin(self, case):
        self._case = case
        self.cases += 1

    def add(self, n=1, key=None, nontrivial=True):
        """n comparisons made; `key` identifies the compared input (hashed), counted if non-trivial."""
        self.evaluations += int(n)
        if nontrivial:
            self.keys.add(digest([self._case, key]))

    def add_many(self, arrays, nontrivial):
        """One comparison per leading row of `arrays` (list of equally long arrays)."""
        rows = [np.ascontiguousarray(np.asarray(a).reshape(len(a), -1)) for a in arrays]
        base = digest(self._case).encode()
        nontrivial = np.broadcast_to(np.asarray(nontrivial), (len(rows[0]),))
        for i in range(len(rows[0])):
            self.evaluations += 1
            if nontrivial[i]:
                h = hashlib.blake2b(base, digest_size=10)
                for r in rows:
                    h.update(np.round(r[i].astype(complex), 12).tobytes())
                self.keys.add(h.hexdigest())

    def label(self, *names):
        for n in map(str, names):
            self.labels[n] = self.labels.get(n, 0) + 1

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(jsonable(obj))

    def export(self):
        return {
            "cases": self.cases,
            "evaluations": self.evaluations,
            "keys": sorted(self.keys),
            "labels": self.labels,
            "samples": self.samples,
        }


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (complex, np.complexfloating)):
        return {"re": float(o.real), "im": float(o.imag)}
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (str, int, float)) or o is None:
        return o
    if hasattr(o, "shape"):
        return jsonable(np.asarray(o).tolist())
    return repr(o)


def digest(o):
    return hashlib.blake2b(
        json.dumps(jsonable(o), sort_keys=True).encode(), digest_size=10
    ).hexdigest()


def in_repo(exc):
    """True if the exception passed through code of the repository."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame in traceback.extract_tb(exc.__traceback__):
            if frame.filename.startswith(env.REPO.rstrip("/") + "/"):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def where_in_repo(exc):
    last = None
    for frame in traceback.extract_tb(exc.__traceback__):
        if frame.filename.startswith(env.REPO.rstrip("/") + "/"):
            last = f"{frame.filename[len(env.REPO):].lstrip('/')}:{frame.name}"
    return last


def run_case(sub, case, rec):
    """Run one case.  Violation -> propagates; crash inside repository code -> Violation."""
    rec.begin(case)
    try:
        sub.check(case, rec)
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if in_repo(e):
            raise Violation(
                f"valid input makes the code raise {type(e).__name__} in {where_in_repo(e)}: {str(e)[:300]}"
            ) from e
        if from_library(e):
            raise Violation(
                f"valid input makes the code raise {type(e).__name__} ({deepest(e)}): {str(e)[:300]}"
            ) from e
        if isinstance(e, (ImportError, SyntaxError, NameError)):
            raise
        # the oracles are total on results of the right kind (shapes, types, ranges): anything they cannot
        # digest is a wrong result
        raise Violation(f"the oracle cannot interpret the result: {type(e).__name__} in {deepest(e)}: {str(e)[:300]}") from e


def deepest(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    return f"{frames[-1].filename}:{frames[-1].name}" if frames else "?"


def from_library(exc):
    """Raised inside jax/netket/flax/numba while they run the code under test (custom rules, traced functions)."""
    frames = traceback.extract_tb(exc.__traceback__)
    return bool(frames) and any(
        f"/site-packages/{lib}/" in frames[-1].filename for lib in ("jax", "netket", "flax", "numba", "optax")
    )


# --------------------------------------------------------------------------- numeric helpers


def rng_of(case, *salt):
    h = hashlib.blake2b(
        json.dumps([case.get("seed", 0), *map(str, salt)]).encode(), digest_size=8
    ).digest()
    return np.random.default_rng(int.from_bytes(h, "little"))


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def close(got, want, msg, rtol=1e-8, atol=1e-8, scale=None):
    """Numerical agreement within atol + rtol*scale (scale defaults to max|want|)."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{msg}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return
    bad_nan = ~np.isfinite(got) & np.isfinite(want)
    if bad_nan.any():
        i = tuple(np.argwhere(bad_nan)[0])
        raise Violation(f"{msg}: non-finite value {got[i]} (expected {want[i]}) at {list(map(int, i))}")
    fin = np.isfinite(want)
    if scale is None:
        scale = np.max(np.abs(want[fin])) if fin.any() else 0.0
    err = np.where(fin, np.abs(np.where(fin, got, 0) - np.where(fin, want, 0)), 0.0)
    tol = atol + rtol * np.asarray(scale)
    if (err > tol).any():
        i = tuple(np.argwhere(err > tol)[0])
        raise Violation(
            f"{msg}: got {got[i]!r}, expected {want[i]!r} at {list(map(int, i))} (|diff|={err[i]:.3g})"
        )


def same_amplitude(got_log, want_log, msg, rtol=1e-7, floor=1e-9):
    """Compare log-amplitudes as amplitudes (phase modulo 2 pi), relative to the batch maximum.

    Entries whose expected amplitude is below floor*max only have to stay tiny as well.
    """
    g = np.asarray(got_log, dtype=complex).reshape(-1)
    w = np.asarray(want_log, dtype=complex).reshape(-1)
    if g.shape != w.shape:
        raise Violation(f"{msg}: {g.shape} values instead of {w.shape}")
    re = w.real[np.isfinite(w.real)]
    if re.size == 0:
        return
    ref = re.max()
    for i in range(len(w)):
        wi = 0.0 if (np.isnan(w[i]) or w[i].real == -np.inf) else np.exp(w[i] - ref)
        if np.isnan(g[i].real) or g[i].real == np.inf or (
            np.isnan(g[i].imag) and g[i].real > -np.inf
        ):
            raise Violation(f"{msg}: entry {i} is {g[i]} (expected log-amplitude {w[i]})")
        if g[i].real == -np.inf:
            gi = 0.0
        elif g[i].real - ref > 50:
            raise Violation(f"{msg}: entry {i} log-amplitude {g[i]} (expected {w[i]})")
        else:
            gi = np.exp(g[i] - ref)
        tol = rtol * abs(wi) + floor
        if abs(gi - wi) > tol:
            raise Violation(
                f"{msg}: entry {i} log-amplitude {g[i]} but expected {w[i]} (relative error {abs(gi-wi)/max(abs(wi),1e-300):.3g})"
            )
