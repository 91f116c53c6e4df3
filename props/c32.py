"""C32: interrupted experiments resume where they stopped."""
import csv
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import exp
from lib.core import HarnessError, Sub, Violation, close, require

RULE = (
    "Case = experiment and a history of runs of the real program, each interrupted at a generated point (before a step, before its update, "
    "half way through writing a file, before a rename) and resumed from what is on disk. One comparison per executed step; non-trivial: the "
    "step belongs to a resumed run."
)
ASSUMPTIONS = [
    "an interruption is an exception that no part of the program handles; what a killed process leaves in open buffers is not modelled",
    "a row of a metrics file that is being appended when the process dies may be lost (rows are compared up to the last step of an interrupted run)",
    "random draws of a resumed run differ from those of the uninterrupted one; with the same sampler state both perform the same update",
]
seeds = st.integers(0, 2**31 - 1)
LR, LRF = 0.013, 0.0017


def faults(draw, total, every, cpd):
    kind = draw(st.sampled_from(["entry", "update", "entry", "write", "rename", None]))
    if kind in ("entry", "update"):
        return {"kind": kind, "step": draw(st.integers(1, total))}
    if kind is None:
        return None
    name = draw(st.sampled_from(["checkpoint", "best_params", "config", "best_params"] if cpd else ["checkpoint", "config"]))
    return {"kind": kind, "file": name, "nth": draw(st.integers(1, 3)) if name != "config" else 1, "piece": draw(st.integers(1, 3))}


@st.composite
def histories(draw, package):
    cpd = package == "cpd"
    T = draw(st.integers(1, 4))
    F = draw(st.sampled_from([2, 1, 0, 3])) if cpd else 0
    every = draw(st.sampled_from([2, 1, 3, 0, 5]))
    case = {"package": package, "T": T, "F": F, "every": every, "seed": draw(seeds),
            "system": draw(st.sampled_from(["hubbard", "hubbard", "hubbard", "hydrogen"] if cpd else ["hubbard", "spins", "hydrogen", "spins-metropolis"])),
            "optimizer": draw(st.sampled_from(["SRRMSProp", "kernelSR", "SR"] if cpd else ["SRRMSProp"])),
            "evaluate": draw(st.integers(0, 2)) if cpd else 0,
            "runs": [[faults(draw, T + F, every, cpd), draw(st.booleans())] for _ in range(draw(st.integers(1, 3)))],
            "again": draw(st.sampled_from([False, False, True])), "extend": 0 if cpd else draw(st.sampled_from([0, 0, 2]))}
    return case


EXPLICIT = {
    "cpd": [
        {"package": "cpd", "T": 3, "F": 3, "every": 2, "seed": 5, "system": "hubbard", "optimizer": "SRRMSProp", "evaluate": 1,
         "runs": [[{"kind": "entry", "step": 3}, True], [{"kind": "entry", "step": 6}, False]], "again": False, "extend": 0},
        {"package": "cpd", "T": 4, "F": 0, "every": 1, "seed": 8, "system": "hubbard", "optimizer": "kernelSR", "evaluate": 0,
         "runs": [[{"kind": "write", "file": "best_params", "nth": 2, "piece": 1}, True], [{"kind": "write", "file": "config", "nth": 1, "piece": 2}, False]],
         "again": False, "extend": 0},
        {"package": "cpd", "T": 3, "F": 1, "every": 2, "seed": 9, "system": "hubbard", "optimizer": "SR", "evaluate": 1,
         "runs": [[{"kind": "write", "file": "checkpoint", "nth": 1, "piece": 1}, True], [{"kind": "rename", "file": "checkpoint", "nth": 1, "piece": 1}, False]],
         "again": True, "extend": 0},
    ],
    "argps": [
        {"package": "argps", "T": 4, "F": 0, "every": 2, "seed": 6, "system": "hubbard", "optimizer": "SRRMSProp", "evaluate": 0,
         "runs": [[{"kind": "entry", "step": 3}, True], [{"kind": "update", "step": 4}, False]], "again": False, "extend": 2},
        {"package": "argps", "T": 3, "F": 0, "every": 0, "seed": 7, "system": "spins-metropolis", "optimizer": "SRRMSProp", "evaluate": 0,
         "runs": [[{"kind": "rename", "file": "checkpoint", "nth": 1, "piece": 1}, True]], "again": True, "extend": 0},
    ],
}


def configuration(case, folder):
    c = case
    common = {"variational_state.seed": c["seed"] % 10**6, "optimizer.learning_rate": LR, "checkpoint_every": c["every"], "progress_every": 1}
    if c["package"] == "cpd":
        up = {**common, "total_steps": c["T"], "optimizer_name": c["optimizer"], "optimizer": {
            "learning_rate": LR, "mode": "real", "diag_shift": 0.1, "decay": 0.9, "eps": 1e-8},
            "variational_state.n_samples": 16, "variational_state.n_discard_per_chain": 2, "sampler.n_sweeps": 3,
            "descent_finishing": {"total_steps": c["F"], "learning_rate": LRF} if c["F"] else None,
            "evaluate": {"total_steps": c["evaluate"], "n_samples": 32, "chunk_size": None} if c["evaluate"] else None}
        if c["system"] == "hubbard":
            up.update({"system.Lx": 3, "system.Ly": 1, "system.pbc": True, "system.n_elec": (2, 1)})
            return exp.configuration(folder, "config.py", "cpd_backflow.configs.fermi_hubbard", up)
        up.update({"system.n_atoms": 2, "system.basis_set": "sto-3g"})
        return exp.configuration(folder, "config.py", "cpd_backflow.configs.hsheet", up)
    up = {**common, "max_steps": c["T"], "model.M": 2, "variational_state.n_samples": 16}
    if c["system"] == "hubbard":
        up.update({"system.Lx": 3, "model_name": "ARGPS"})
        return exp.configuration(folder, "config.py", "argps.configs.hubbard1d", up)
    if c["system"] == "hydrogen":
        up.update({"system.n_atoms": 2, "system.basis_set": "sto-3g"})
        return exp.configuration(folder, "config.py", "argps.configs.hydrogen", up, "chain,local,real")
    up.update({"system.Lx": 2, "system.Ly": 2, "system.pbc": False})
    if c["system"] == "spins":
        return exp.configuration(folder, "config.py", "argps.configs.heisenberg2d", up, "ARGPS")
    return exp.configuration(folder, "config.py", "argps.configs.heisenberg2d", up, "GPS")


def rows(path):
    if not os.path.exists(path):
        return []
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def number(text):
    return complex(text.replace(" ", "")) if text not in ("", "nan") else complex("nan")


def saved_config(workdir):
    import yaml

    path = os.path.join(workdir, "config.yaml")
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return yaml.safe_load(f)


def best_of(workdir):
    from flax import serialization
    import jax

    path = os.path.join(workdir, "best_params.mpack")
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        d = serialization.msgpack_restore(f.read())
    leaves = [np.asarray(x, dtype=complex).ravel() for x in jax.tree_util.tree_leaves(d["Parameters"])]
    return float(np.real(d["Energy"])), float(np.real(d["Variance"])), np.concatenate(leaves)


def same(a, b):
    return len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)


class History:
    """What the runs so far imply about the next one."""

    def __init__(self, case):
        self.case = case
        self.T, self.F, self.every = case["T"], case["F"], case["every"]
        self.after = {0: None}
        self.options = {0}  # steps the next run may continue from
        self.best = [None]  # possible contents of the file of the best parameters
        self.rows = []  # (step, mean, certain)
        self.evals = []

    def due(self, s):
        return (self.every and s % self.every == 0) or s == self.T or s > self.T

    def run(self, k, res, fault, rec):
        recs = res["records"]
        steps = [r["step"] for r in recs]
        what = f"run {k + 1} of {self.case['package']} ({fault or 'no interruption'})"
        end = self.T + self.F
        if steps:
            f = steps[0]
            require(f - 1 in self.options, f"{what}: continues with step {f}; the state on disk allows {sorted(o + 1 for o in self.options)}")
            require(steps == list(range(f, f + len(steps))), f"{what}: executes the steps {steps}")
            require(steps[-1] <= end, f"{what}: executes step {steps[-1]} of {end}")
            if self.after[f - 1] is None:
                self.after[f - 1] = recs[0]["before"]
        for r in recs:
            s = r["step"]
            close(r["before"], self.after[s - 1], f"{what}: parameters at the beginning of step {s} are those after step {s - 1}", rtol=1e-10, atol=1e-10)
            lr = LR if s <= self.T else LRF
            close(r["after"], r["before"] - lr * r["dp"], f"{what}: update of step {s} with learning rate {lr}", rtol=1e-9, atol=1e-10)
            self.after[s] = r["after"]
            rec.add(1, key=[k, s], nontrivial=k > 0)
        done = steps[-1] if steps else max(self.options)
        fired = res["interrupted"]
        if not fired:
            require(done == end or (not steps and end in self.options), f"{what}: ends after step {done} of {end}")
        certain = not fired or fault["kind"] in ("entry", "update")
        # what is on disk now
        if not steps and not certain:
            pass
        else:
            old = max(self.options) if not steps else f - 1
            complete = steps if certain else steps[:-1]
            last = max([s for s in complete if self.due(s)], default=None)
            if last is not None:
                self.options = {s for s in range(last, done + 1)} if fired else {done}
            else:
                self.options = {s for s in range(old, done + 1)}
        # rows of the metrics
        for r in recs:
            self.rows.append((r["step"], r["mean"], certain or r is not recs[-1]))
        # best parameters
        for r in recs:
            new = []
            for b in self.best:
                if r["mean"].real < (b[0] if b else np.inf) and r["variance"] < (b[1] if b else np.inf):
                    new.append((r["mean"].real, r["variance"], r["after"]))
                    if not certain and r is recs[-1]:
                        new.append(b)
                else:
                    new.append(b)
            self.best = new
        if res["compare"] is not None:
            c = res["compare"]
            require("resumed" in c or fired, f"{what}: no update in step {c['step']}")
            if "resumed" in c:
                scale = max(np.abs(c["uninterrupted"]).max(), 1e-8)
                close(c["resumed"], c["uninterrupted"], f"{what}: update of step {c['step']} from the same samples as the uninterrupted run",
                      rtol=1e-6, atol=1e-8, scale=scale)
                rec.add(1, key=[k, "twin"])
                rec.label("twin")

    def files(self, k, workdir, what, rec):
        got = rows(os.path.join(workdir, "metrics.csv"))
        i = 0
        for step, mean, certain in self.rows:
            ok = i < len(got) and got[i].get("Step") == str(step)
            if ok:
                m = number(got[i]["Mean"])
                ok = abs(m - mean) <= 1e-6 * (1 + abs(mean)) or abs(m.real - mean.real) <= 1e-6 * (1 + abs(mean)) or np.isnan(mean)
            if ok:
                i += 1
            else:
                require(not certain, f"{what}: row {i} of the metrics is {dict(got[i]) if i < len(got) else None}, step {step} had energy {mean}")
        require(i == len(got), f"{what}: the metrics have {len(got)} rows for {len(self.rows)} executed steps")
        if self.case["package"] == "cpd":
            b = best_of(workdir)
            ok = any((b is None) == (c is None) and (c is None or (abs(b[0] - c[0]) < 1e-9 and abs(b[1] - c[1]) < 1e-9 and same(b[2], c[2]))) for c in self.best)
            require(ok, f"{what}: best parameters on disk have energy {b and b[:2]}, the runs found {[c and c[:2] for c in self.best]}"
                        + (" (parameters differ)" if b and any(c and abs(b[0] - c[0]) < 1e-9 for c in self.best) else ""))
            self.best = [b]


def check_history(case, rec):
    folder = tempfile.mkdtemp(prefix="verif-c32-")
    try:
        config = configuration(case, folder)
        workdir = os.path.join(folder, "run")
        h = History(case)
        proc = exp.process(case["package"])
        plan = [[dict(f) if f else None, bool(saved)] for f, saved in case["runs"]] + [[None, False]] + ([[None, False]] if case["again"] else [])
        reference = None
        for k, (fault, give) in enumerate(plan):
            have = saved_config(workdir)
            use = config if give or have is None else None
            before = have
            try:
                res = proc.call("run", workdir, use, dict(fault) if fault else None)
            except Violation as e:
                raise Violation(f"run {k + 1} of {len(plan)} after {[f for f, _ in plan[:k]]}: {e}") from e
            what = f"after run {k + 1} ({fault or 'complete'})"
            h.run(k, res, fault, rec)
            h.files(k, workdir, what, rec)
            now = saved_config(workdir)
            require(now is None or isinstance(now, dict), f"{what}: the saved configuration is {now!r}")
            if before is not None:
                require(now == before, f"{what}: the saved configuration changed from {before} to {now}")
            if now is not None:
                require(now["variational_state"]["seed"] == case["seed"] % 10**6, f"{what}: seed {now['variational_state']['seed']}")
                reference = now
            if not res["interrupted"]:
                require(reference is not None, f"{what}: no configuration saved")
                late = [e for e in res["evaluations"] if e["after"] == len(res["records"])]
                if case["evaluate"]:
                    require(len(late) == case["evaluate"], f"{what}: {len(late)} evaluations instead of {case['evaluate']}")
                    for e in late:
                        require(e["n"] == 32, f"{what}: evaluation with {e['n']} samples instead of 32")
                        if h.best[0] is not None:
                            close(e["parameters"], h.best[0][2], f"{what}: evaluated parameters are the best ones", rtol=1e-9)
                        rec.add(1, key=[k, "eval"])
                    h.evals += [e["mean"] for e in late]
                    got = rows(os.path.join(workdir, "evals.csv"))
                    require(len(got) == len(h.evals), f"{what}: {len(got)} rows of evaluations instead of {len(h.evals)}")
                    for g, m in zip(got, h.evals):
                        require(abs(number(g["Mean"]).real - m.real) <= 1e-6 * (1 + abs(m)), f"{what}: evaluation {g['Mean']} written for {m}")
            rec.label(case["package"], case["system"], case["optimizer"], (fault or {}).get("kind", "complete") if res["interrupted"] or not fault else "no fault reached")
        if case["extend"]:
            longer = {**case, "T": case["T"] + case["extend"]}
            config = configuration(longer, folder)
            res = proc.call("run", workdir, config, None)
            h.T = longer["T"]
            h.run(len(plan), res, None, rec)
            h.files(len(plan), workdir, "after the extended run", rec)
            rec.label("extended")
        rec.sample({k: v for k, v in case.items()})
    except HarnessError:
        raise
    finally:
        shutil.rmtree(folder, ignore_errors=True)


SUBS = [
    Sub("cpd", lambda: histories("cpd"), check_history, quick=2, thorough=20, shards=4, explicit=EXPLICIT["cpd"], tshards=8, weight=4),
    Sub("argps", lambda: histories("argps"), check_history, quick=2, thorough=20, shards=4, explicit=EXPLICIT["argps"], tshards=8, weight=3),
]
