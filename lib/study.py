"""The molecular benchmark scripts (scripts/GPS_for_ab_initio), run in a scratch folder with an observed driver."""
import contextlib
import os
import pickle
import runpy
import sys
from unittest import mock

import jax
import netket as nk
import numpy as np
from pyscf import gto, scf

from lib import env, scripts

FOLDER = os.path.join(env.REPO, "scripts", "GPS_for_ab_initio")
# steps without improvement after which the scripts stop, steps before they watch for improvement, learning rate
LOOP = {"H2O": (200, 0, 0.05), "H50_1D": (100, 0, 0.05), "H4x4x4": (250, 1000, 0.075)}
UNIT = {"H2O": "Angstrom", "H50_1D": "Bohr", "H4x4x4": "Angstrom", "H10_amplitudes": "Bohr"}


class Interrupted(BaseException):
    pass


def vector(tree):
    leaves = [np.asarray(x, dtype=complex).ravel() for x in jax.tree_util.tree_leaves(tree)]
    return np.concatenate(leaves) if leaves else np.zeros(0, complex)


def load(name):
    with open(name, "rb") as f:
        return vector(pickle.load(f))


class Run:
    """What one execution of a script did."""

    def __init__(self, fault=None, results=None):
        self.fault = fault  # [number of steps done before, "evaluate" | "update" | "updated"]
        self.results = results  # step -> dict of the statistics
        self.builds, self.steps = [], []
        self.keep_samples = False
        self.driver, self.finished = None, False


def driver(run):
    class Observed(nk.VMC):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            run.driver = self
            self.operator = a[0] if a else k["hamiltonian"]

        def _forward_and_backward(self):
            k = len(run.steps)
            run.last = vector(self.state.parameters)
            if run.results is None or (run.fault and run.fault == [k, "evaluate"]):
                raise Interrupted()
            out = run.results(k, run.last)
            self._loss_stats = nk.stats.Stats(out["mean"], out["error"], out["variance"], out["tau"], out["rhat"])
            r = np.random.default_rng([out["seed"], 5])
            self._dp = jax.tree_util.tree_map(
                lambda x: (r.normal(size=x.shape) + (1j * r.normal(size=x.shape) if np.iscomplexobj(x) else 0)).astype(x.dtype), self.state.parameters)
            run.steps.append({"before": run.last, "dp": vector(self._dp), "after": None, **out})
            return self._dp

        def update_parameters(self, dp):
            k = len(run.steps) - 1
            if run.fault and run.fault == [k, "update"]:
                raise Interrupted()
            if run.keep_samples:
                run.steps[-1]["samples"] = np.asarray(self.state.samples)
                run.steps[-1]["tree"] = self.state.parameters
            super().update_parameters(dp)
            run.steps[-1]["after"] = vector(self.state.parameters)
            if run.fault and run.fault == [k, "updated"]:
                raise Interrupted()

    return Observed


def execute(script, argv, folder, shrink, run=None, n_samples=None):
    """Run a script in `folder`; `shrink(atoms, basis) -> (atoms, basis)` replaces the molecule."""
    run = run or Run()
    build0 = gto.Mole.build

    def build(self, *a, **k):
        given = {n: k.get(n, getattr(self, n, None)) for n in ("atom", "basis", "unit", "symmetry")}
        if isinstance(given["atom"], (list, tuple)) and given["atom"] and not getattr(self, "_replaced", False):
            self._replaced = True
            run.builds.append(given)
            k["atom"], k["basis"] = shrink(list(given["atom"]), given["basis"])
        return build0(self, *a, **k)

    class State(nk.vqs.MCState):
        def __init__(self, *a, **k):
            if n_samples:
                k["n_samples"] = n_samples
                k["n_discard_per_chain"] = 2
            super().__init__(*a, **k)

    here = os.getcwd()
    with contextlib.ExitStack() as stack:
        stack.enter_context(scripts.quiet())
        stack.enter_context(mock.patch.object(sys, "argv", [script + ".py", *map(str, argv)]))
        stack.enter_context(mock.patch.object(gto.Mole, "build", build))
        stack.enter_context(mock.patch.object(nk, "VMC", driver(run)))
        stack.enter_context(mock.patch.object(nk.vqs, "MCState", State))
        os.chdir(folder)
        try:
            runpy.run_path(os.path.join(FOLDER, script + ".py"), run_name="__main__")
            run.finished = True
        except Interrupted:
            pass
        finally:
            os.chdir(here)
    return run


def molecule(atoms, basis, unit):
    return gto.M(atom=atoms, basis=basis, unit=unit, verbose=0)


def hartree_fock(mol):
    mf = scf.RHF(mol)
    mf.verbose = 0
    mf.conv_tol = 1e-11
    return mf, mf.kernel()
