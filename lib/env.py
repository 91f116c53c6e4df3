"""Process environment shared by the driver and its workers.

The values mirror what the repository's own build and test commands use (CPU-only JAX, MPI as a
singleton, FrozenDict variables).  Nothing outside /verif and /repo is needed at run time except
the interpreter that has the repository's dependencies installed.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"

_SETTINGS = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONNOUSERSITE": "1",
    "JAX_PLATFORMS": "cpu",
    "JAX_TRACEBACK_FILTERING": "off",
    "NETKET_EXPERIMENTAL_SHARDING": "0",
    "NETKET_SPIN_ORDERING_WARNING": "0",
    "FLAX_RETURN_FROZENDICT": "1",
    "OMPI_MCA_ess_singleton_isolated": "1",
    "OMPI_MCA_btl": "self",
    "OMPI_MCA_pml": "ob1",
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "MPI4JAX_NO_WARN_JAX_VERSION": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "NUMBA_CACHE_DIR": "/nonexistent-numba-cache",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    # cheap XLA compilation: programs here are tiny, compile time dominates
    "XLA_FLAGS": "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
}


def child_environment():
    env = dict(os.environ)
    env.update(_SETTINGS)
    env["PYTHONPATH"] = os.pathsep.join([VERIF, REPO])
    return env


def install_paths():
    """Repository first, then the interpreter's own packages, then the tooling venv (hypothesis)."""
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    vendored = os.path.join(VERIF, "vendor")
    if os.path.isdir(vendored):
        sys.path.append(vendored)
    tooling = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(tooling):
        sys.path.append(tooling)
