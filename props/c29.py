"""C29: results on several MPI processes."""
from hypothesis import strategies as st

from lib import models, mpi
from lib.core import Sub, require
from props import c15, c16, c17, c18, c19, c22, c25, c27, c28

RULE = (
    "Case = (number of processes, case of the property concerned with the samples or data spread over the processes). One comparison per "
    "result and process; non-trivial as in the property concerned (several distinct samples or data on every process)."
)
ASSUMPTIONS = [
    "two or three MPI processes on one machine, connected by shared memory; every process executes the same calls",
    "numbers of samples are multiples of the number of processes; datasets of supervised fits are divided arbitrarily, at least one datum each",
    "full-summation states (C18) are not included: NetKet repeats them on every process and its Jacobian does not account for it",
    "within the assumptions of the properties concerned (C15-C19, C22, C25, C27, C28)",
]

JOBS = 4  # each worker drives up to five MPI processes


def together(module, check):
    def run(case, rec):
        out = mpi.run(case["ranks"], "run_check", module, check, case)
        for k, (n, keys, labels) in enumerate(out):
            rec.evaluations += n
            rec.keys.update(f"{k}/{a}" for a in keys)
        for name in out[0][2]:
            rec.label(name)
        rec.label(f"{case['ranks']} processes")
        rec.sample({"case": case})

    return run


ranks = st.sampled_from([2, 2, 3])


@st.composite
def spread(draw, base):
    """A case of another property with the chains and samples divided among the processes."""
    c = draw(base)
    r = c["ranks"] = draw(ranks)
    per = c["chains"]
    c["chains"] = per * r
    if "n" in c:
        c["n"] = c["n"] * r
    if c.get("batch"):
        c["batch"] = c["batch"] * r
    if "max" in c and c["max"] is None and c["n"] > models.n_configs(c["spec"]["space"]) // 2:
        c["max"] = 3  # more distinct samples than there surely are
    return c


@st.composite
def divided(draw, base):
    """A supervised fit whose data are divided among the processes."""
    c = draw(base)
    c["ranks"] = draw(ranks)
    c["n"] = max(c["n"], c["ranks"] + draw(st.integers(0, 4)))
    return c


@st.composite
def fitting_cases(draw):
    c = draw(c19.cases())
    c["ranks"] = draw(ranks)
    top = min(models.n_configs(c["spec"]["space"]), 3 * c["ranks"])
    c["D"] = draw(st.integers(c["ranks"], top))
    c["B"] = draw(st.integers(1, c["D"] // c["ranks"]))
    c["zeros"] = 0
    c["ops"] = draw(st.lists(st.sampled_from(["step", "step", "run2", "reset"]), min_size=1, max_size=3))
    return c


@st.composite
def independent_cases(draw):
    from lib import mc

    c = draw(mc.states())
    c["ranks"] = draw(ranks)
    c["chains"] = 16 * c["ranks"]
    c["n"] = 32 * c["ranks"]
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    return c


def check_independent(case, rec):
    out = mpi.run(case["ranks"], "draw", case)
    if any(o is None for o in out):
        rec.label("skipped: concentrated distribution")
        return
    for a in range(len(out)):
        for b in range(a):
            require(out[a] != out[b], f"processes {b} and {a} of {len(out)} drew exactly the same {case['n'] // case['ranks']} samples")
            rec.add(1, [a, b], nontrivial=True)
    rec.label(case["sampler"], case["spec"]["type"], f"{case['ranks']} processes")
    rec.sample({"case": case})


SUBS = [
    Sub("rmsprop-driver", lambda: spread(c16.cases()), together("c16", "check"), quick=7, thorough=80, shards=1, weight=4),
    Sub("minSR-driver", lambda: spread(c17.cases()), together("c17", "check"), quick=5, thorough=80, shards=1, weight=4),
    Sub("unique-samples", lambda: spread(c15.cases()), together("c15", "check"), quick=7, thorough=80, shards=1, weight=4),
    Sub("plain", lambda: spread(c25.plain_cases()), together("c25", "check_plain"), quick=7, thorough=80, shards=1, weight=4),
    Sub("stratified", lambda: spread(c25.strat_cases()), together("c25", "check_weights"), quick=7, thorough=80, shards=1, weight=4),
    Sub("tensors", lambda: spread(st.sampled_from(["unique", "rms", "fly", "dense", "srrms"]).flatmap(c18.cases).filter(lambda c: c["state"] != "full")), together("c18", "check"),
        quick=9, thorough=120, shards=1, weight=4),
    Sub("fitting", fitting_cases, together("c19", "check_parts"), quick=9, thorough=120, shards=1, weight=4),
    Sub("independent", independent_cases, check_independent, quick=5, thorough=80, shards=1, weight=3),
    Sub("ridge", lambda: divided(c22.cases()), together("c22", "check"), quick=60, thorough=1500, shards=1, weight=2),
    Sub("final", lambda: divided(c22.cases("final")), together("c22", "check_final"), quick=60, thorough=1500, shards=1, weight=2),
    Sub("precomputed", lambda: divided(c22.cases("precomputed")), together("c22", "check_precomputed"), quick=40, thorough=800, shards=1, weight=2),
    Sub("evidence", lambda: divided(c27.cases("evidence")), together("c27", "check_evidence"), quick=60, thorough=1500, shards=1, weight=2),
    Sub("zeros", lambda: divided(c27.cases("zeros")), together("c27", "check_zeros"), quick=30, thorough=800, shards=1, weight=2),
    Sub("noise", lambda: divided(c27.cases("noise")), together("c27", "check_noise"), quick=30, thorough=800, shards=1, weight=2),
    Sub("alpha", lambda: divided(c27.cases("alpha")), together("c27", "check_alpha"), quick=20, thorough=500, shards=1, weight=2),
    Sub("growing", lambda: divided(c27.cases("growing").filter(lambda c: c["start"] != "none")), together("c27", "check_growing"), quick=20, thorough=500, shards=1, weight=2),
    Sub("hyper", lambda: divided(c28.cases("hyper")), together("c28", "check_hyper"), quick=15, thorough=300, shards=1, weight=2),
    Sub("newton", lambda: divided(c28.cases("newton")), together("c28", "check_newton"), quick=60, thorough=1500, shards=1, weight=2),
    Sub("minimum", lambda: divided(c28.cases("minimum")), together("c28", "check_minimum"), quick=40, thorough=800, shards=1, weight=2),
]
