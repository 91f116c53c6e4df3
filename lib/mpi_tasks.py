"""What the ranks of an MPI group execute; every function returns picklable results of its own rank."""
import numpy as np
from mpi4py import MPI

comm = MPI.COMM_WORLD


def ping(x):
    import jax.numpy as jnp
    from netket.utils import mpi

    return float(mpi.mpi_sum_jax(jnp.asarray(float(x)))[0]), mpi.n_nodes, mpi.rank


def run_check(module, check, case):
    """A check of another property, executed on every process; it gathers the samples of all processes."""
    import importlib

    from lib.core import Recorder, Sub, run_case

    rec = Recorder()
    m = importlib.import_module("props." + module)
    run_case(Sub(check, None, getattr(m, check), 0, 0), case, rec)
    return rec.evaluations, sorted(rec.keys), rec.labels


def draw(case):
    """The samples of this process, or None where independent draws may well coincide."""
    import netket as nk

    from lib import mc, models
    from lib.core import rng_of

    spec = case["spec"]
    v = models.random_variables(spec, rng_of(case), spread=0.5)
    p = np.abs(mc.Reference(spec, v, np.zeros((models.n_configs(spec["space"]),) * 2)).psi) ** 2
    p = p / p.sum()
    if len(p) < 6 or np.sum(p**2) > 0.5:
        return None
    vs = nk.vqs.MCState(mc.sampler(case), models.build(spec), n_samples=case["n"], seed=case["seed"], variables=v)
    return np.asarray(vs.samples).astype(int).tolist()
