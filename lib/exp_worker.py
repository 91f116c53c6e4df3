"""A process that runs experiments of one script package with injected interruptions.

usage: exp_worker.py argps|cpd FOLDER OWNER      (jobs = names of pickle files, one per line on standard input)
"""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env  # noqa: E402

env.install_paths()
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
import builtins  # noqa: E402
import contextlib  # noqa: E402
import io  # noqa: E402

import numpy as np  # noqa: E402


class Interrupted(BaseException):
    pass


class Machine:
    def __init__(self, package):
        import importlib

        from absl import flags, logging

        from lib import scripts

        logging.set_verbosity(logging.ERROR)
        scripts.install()
        self.main = importlib.import_module({"argps": "argps.vmc", "cpd": "cpd_backflow.vmc", "rdms": "cpd_backflow.rdms"}[package]).main
        self.flags = flags.FLAGS
        self.twin = None
        self.reset(None, None)
        self.patch()

    def reset(self, workdir, fault):
        self.workdir, self.fault, self.fired = workdir, fault or {}, False
        self.records, self.evaluations, self.samples = [], [], []
        self.compare, self.driver = None, None

    # ------------------------------------------------------------------ observation and faults

    def vector(self, tree):
        import jax

        leaves = [np.asarray(x, dtype=complex).ravel() for x in jax.tree_util.tree_leaves(tree)]
        return np.concatenate(leaves) if leaves else np.zeros(0, complex)

    def crash(self):
        self.fired = True
        raise Interrupted()

    def patch(self):
        import netket as nk

        m = self
        D = nk.driver.AbstractVariationalDriver
        iter0, update0 = D.iter, D.update_parameters
        expect0, sample0 = nk.vqs.MCState.expect, nk.vqs.MCState.sample

        def iter_(self, *a, **k):
            m.entry(self)
            yield from iter0(self, *a, **k)

        def update_(self, dp):
            step = self.step_count
            if m.fault.get("kind") == "update" and m.fault["step"] == step:
                m.crash()
            before = m.vector(self.state.parameters)
            out = update0(self, dp)
            st = self._loss_stats
            m.records.append({"step": int(step), "before": before, "dp": m.vector(dp), "after": m.vector(self.state.parameters),
                              "mean": complex(np.asarray(st.mean)), "variance": float(np.real(st.variance))})
            if m.compare is not None and "resumed" not in m.compare:
                m.compare["resumed"] = m.vector(dp)
            return out

        def expect_(self, *a, **k):
            out = expect0(self, *a, **k)
            m.evaluations.append({"after": len(m.records), "parameters": m.vector(self.parameters), "n": int(self.n_samples),
                                  "mean": complex(np.asarray(out.mean))})
            return out

        def sample_(self, *a, **k):
            out = sample0(self, *a, **k)
            m.samples.append((self, np.asarray(out), m.vector(self.parameters)))
            return out

        D.iter, D.update_parameters = iter_, update_
        nk.vqs.MCState.expect, nk.vqs.MCState.sample = expect_, sample_
        open0, rename0, replace0 = builtins.open, os.rename, os.replace

        class Torn:
            """A file whose n-th write stops half way."""

            def __init__(self, f, left):
                self.f, self.left = f, left

            def __getattr__(self, name):
                return getattr(self.f, name)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.f.close()

            def __iter__(self):
                return iter(self.f)

            def write(self, data):
                self.left -= 1
                if self.left > 0:
                    return self.f.write(data)
                self.f.write(data[: len(data) // 2])
                self.f.flush()
                self.f.close()
                m.crash()

        def mine(path, kind):
            if m.workdir is None or m.fired or m.fault.get("kind") != kind or not isinstance(path, (str, os.PathLike)):
                return False
            path = os.path.abspath(os.fspath(path))
            if not path.startswith(m.workdir + os.sep) or m.fault["file"] not in path[len(m.workdir):]:
                return False
            m.fault["nth"] -= 1
            return m.fault["nth"] == 0

        def open_(file, mode="r", *a, **k):
            f = open0(file, mode, *a, **k)
            if "w" in mode and mine(file, "write"):
                return Torn(f, m.fault["piece"])
            return f

        def rename_(orig):
            def fn(src, dst, *a, **k):
                if mine(dst, "rename"):
                    m.crash()
                return orig(src, dst, *a, **k)
            return fn

        builtins.open, os.rename, os.replace = open_, rename_(rename0), rename_(replace0)

    def entry(self, driver):
        step = driver.step_count + 1
        first = self.driver is None
        self.driver = driver
        if self.fault.get("kind") == "entry" and self.fault["step"] == step:
            self.crash()
        t, self.twin = self.twin, None
        if first and t is not None and t.step_count + 1 == step and t is not driver:
            driver.state.sampler_state = t.state.sampler_state
            driver.state.reset()
            self.compare = {"step": int(step), "uninterrupted": self.vector(t._forward_and_backward())}

    # ------------------------------------------------------------------ jobs

    def run(self, workdir, config, fault):
        """One invocation of the program, in `workdir`, with the configuration file `config` (None: the saved one)."""
        for f in ("config", "workdir"):
            self.flags[f].unparse()
        self.flags.unparse_flags()
        self.flags(["p", f"--workdir={workdir}"] + ([f"--config={config}"] if config else []))
        self.reset(workdir, fault)
        try:
            self.main(["p"])
        except Interrupted:
            pass
        self.workdir = None
        self.twin = self.driver if self.fired and self.fault.get("kind") == "entry" else None
        return {"interrupted": self.fired, "records": self.records, "evaluations": self.evaluations, "compare": self.compare}

    def rdms(self, workdir, config):
        out = self.run(workdir, config, None)
        vs = self.samples[-1][0]
        states = np.asarray(vs.hilbert.all_states())
        out["states"] = states
        out["log"] = np.asarray(vs.log_value(states))
        out["samples"] = [s.reshape(-1, states.shape[1]) for _, s, _ in self.samples]
        out["parameters"] = [p for _, _, p in self.samples]
        return out


def main():
    import signal
    import threading
    import time

    owner = int(sys.argv[3])

    def watch():
        while True:
            time.sleep(2)
            if not os.path.exists(f"/proc/{owner}"):
                os.kill(os.getpid(), signal.SIGKILL)

    threading.Thread(target=watch, daemon=True).start()
    from lib.core import from_library, in_repo

    stdout = sys.stdout
    machine = None
    print("@@ready", file=stdout, flush=True)
    for line in sys.stdin:
        job = line.strip()
        task, args = pickle.load(open(job, "rb"))
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if machine is None:
                    machine = Machine(sys.argv[1])
                res = ("ok", getattr(machine, task)(*args))
        except Exception as e:  # noqa: BLE001
            import traceback

            text = "".join(traceback.format_exception(e))
            kind = "violation" if in_repo(e) or from_library(e) else "harness"
            res = (kind, f"{type(e).__name__}: {str(e)[:300]} | {text[-700:]}")
        if machine is not None:
            machine.workdir = None
        with open(job + ".out", "wb") as f:
            pickle.dump(res, f)
        print("@@done", file=stdout, flush=True)


main()
os._exit(0)
