"""Runs tasks on a group of MPI processes (mpirun on this machine, shared memory only)."""
import atexit
import os
import pickle
import select
import shutil
import signal
import subprocess
import tempfile
import time

from lib import env
from lib.core import HarnessError, Violation

MPIRUN = shutil.which("mpirun") or "/usr/bin/mpirun"
TIMEOUT = float(os.environ.get("VERIF_MPI_TIMEOUT", "240"))


def environment():
    e = env.child_environment()
    e.pop("OMPI_MCA_ess_singleton_isolated", None)
    e.update(
        OMPI_MCA_btl="self,vader",
        OMPI_MCA_pml="ob1",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_plm="isolated",
        OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_mpi_yield_when_idle="1",
        OMPI_MCA_hwloc_base_binding_policy="none",
        OMPI_MCA_oob_tcp_if_include="lo",
        OMPI_MCA_orte_tmpdir_base=tempfile.gettempdir(),
    )
    return e


class Group:
    def __init__(self, n):
        self.n = n
        self.dir = tempfile.mkdtemp(prefix="verif-mpi-")
        self.count = 0
        self.err = open(os.path.join(self.dir, "stderr"), "w+")
        self.p = subprocess.Popen(
            [MPIRUN, "-n", str(n), env.PYTHON, "-W", "ignore", os.path.join(env.VERIF, "lib", "mpi_worker.py"), self.dir, str(os.getpid())],
            env=environment(), cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, bufsize=1, start_new_session=True)
        if self._line(TIMEOUT) != "ready":
            err = self.stderr()
            self.close()
            raise HarnessError(f"cannot start {n} MPI processes: {err[-1500:]}")

    def stderr(self):
        self.err.flush()
        return open(self.err.name).read()

    def _line(self, timeout):
        end = time.time() + timeout
        while time.time() < end:
            ready, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if ready:
                line = self.p.stdout.readline()
                if not line:
                    return None
                if line.startswith("@@"):
                    return line[2:].strip()
            elif self.p.poll() is not None:
                return None
        return "timeout"

    def call(self, task, *args):
        """[result of task(*args) on each rank]; an exception of the code under test on any rank is a violation."""
        self.count += 1
        job = os.path.join(self.dir, f"job-{self.count}")
        with open(job, "wb") as f:
            pickle.dump((task, args), f)
        self.p.stdin.write(job + "\n")
        self.p.stdin.flush()
        line = self._line(TIMEOUT)
        out = []
        for k in range(self.n):
            try:
                out.append(pickle.load(open(f"{job}.{k}", "rb")))
            except (OSError, EOFError):
                out.append(None)
            try:
                os.unlink(f"{job}.{k}")
            except OSError:
                pass
        os.unlink(job)
        if line == "done" and all(o is not None and o[0] == "ok" for o in out):
            return [o[1] for o in out]
        self.close()
        bad = [o for o in out if o is not None and o[0] != "ok"]
        for kind in ("harness", "violation"):
            for o in bad:
                if o[0] == kind:
                    raise (HarnessError if kind == "harness" else Violation)(f"on {self.n} processes: {o[1]}")
        if line == "timeout":
            raise Violation(f"on {self.n} processes the call does not return ({[o and o[0] for o in out]})")
        raise HarnessError(f"MPI processes ended: {self.stderr()[-1500:]}")

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        _groups.pop(self.n, None)
        shutil.rmtree(self.dir, ignore_errors=True)


_groups = {}


def group(n):
    g = _groups.get(n)
    if g is None or g.p.poll() is not None:
        try:
            g = _groups[n] = Group(n)
        except HarnessError:  # a busy machine: once more
            g = _groups[n] = Group(n)
    return g


@atexit.register
def close_all():
    for g in list(_groups.values()):
        g.close()


def run(n, task, *args):
    return group(n).call(task, *args)
