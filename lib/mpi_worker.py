"""One rank of an MPI group: executes the tasks of lib/mpi_tasks.py named by job files."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env  # noqa: E402

env.install_paths()
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
import contextlib  # noqa: E402
import io  # noqa: E402

from mpi4py import MPI  # noqa: E402

comm = MPI.COMM_WORLD


def main():
    import signal
    import threading
    import time

    parent, owner = os.getppid(), int(sys.argv[2])

    def watch():  # end with mpirun
        while True:
            time.sleep(2)
            if os.getppid() != parent or not os.path.exists(f"/proc/{owner}"):
                os.kill(os.getpid(), signal.SIGKILL)

    threading.Thread(target=watch, daemon=True).start()
    from lib import mpi_tasks
    from lib.core import HarnessError, Violation, from_library, in_repo

    comm.Barrier()
    if comm.rank == 0:
        print("@@ready", flush=True)
    while True:
        job = sys.stdin.readline().strip() if comm.rank == 0 else None
        job = comm.bcast(job)
        if not job:
            return
        task, args = pickle.load(open(job, "rb"))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = ("ok", getattr(mpi_tasks, task)(*args))
        except Violation as e:
            res = ("violation", str(e))
        except HarnessError as e:
            res = ("harness", str(e))
        except Exception as e:  # noqa: BLE001
            import traceback

            text = "".join(traceback.format_exception(e))[-1500:]
            if in_repo(e) or from_library(e):
                res = ("violation", f"valid input makes the code raise {type(e).__name__}: {str(e)[:300]} | {text[-500:]}")
            else:
                res = ("harness", text)
        with open(f"{job}.{comm.rank}.tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(f"{job}.{comm.rank}.tmp", f"{job}.{comm.rank}")
        if res[0] != "ok":
            time.sleep(1.0)
            comm.Abort(1)
        comm.Barrier()
        if comm.rank == 0:
            print("@@done", flush=True)


main()
os._exit(0)
