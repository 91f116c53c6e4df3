"""Runs experiments of the script packages in a process of their own (each package owns the process's flags)."""
import atexit
import os
import pickle
import select
import shutil
import signal
import subprocess
import tempfile
import time

from lib import env
from lib.core import HarnessError, Violation

TIMEOUT = float(os.environ.get("VERIF_EXP_TIMEOUT", "300"))


class Process:
    def __init__(self, package):
        self.package = package
        self.dir = tempfile.mkdtemp(prefix="verif-exp-")
        self.count = 0
        self.err = open(os.path.join(self.dir, "stderr"), "w+")
        self.p = subprocess.Popen(
            [env.PYTHON, "-W", "ignore", os.path.join(env.VERIF, "lib", "exp_worker.py"), package, self.dir, str(os.getpid())],
            env=env.child_environment(), cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True,
            bufsize=1, start_new_session=True)
        if self._line() != "ready":
            err = open(self.err.name).read()
            self.close()
            raise HarnessError(f"cannot start the process of {package}: {err[-1500:]}")

    def _line(self):
        end = time.time() + TIMEOUT
        while time.time() < end:
            if select.select([self.p.stdout], [], [], 1.0)[0]:
                line = self.p.stdout.readline()
                if not line:
                    return None
                if line.startswith("@@"):
                    return line[2:].strip()
            elif self.p.poll() is not None:
                return None
        return "timeout"

    def call(self, task, *args):
        self.count += 1
        job = os.path.join(self.dir, f"job-{self.count}")
        with open(job, "wb") as f:
            pickle.dump((task, args), f)
        self.p.stdin.write(job + "\n")
        self.p.stdin.flush()
        line = self._line()
        if line != "done":
            err = open(self.err.name).read()
            self.close()
            if line == "timeout":
                raise Violation(f"the experiment does not end within {TIMEOUT:.0f} s")
            raise HarnessError(f"process of {self.package} ended: {err[-1500:]}")
        kind, value = pickle.load(open(job + ".out", "rb"))
        os.unlink(job)
        os.unlink(job + ".out")
        if kind == "ok":
            return value
        raise (Violation if kind == "violation" else HarnessError)(f"the experiment raises {value}")

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        _processes.pop(self.package, None)
        shutil.rmtree(self.dir, ignore_errors=True)


_processes = {}


def process(package):
    p = _processes.get(package)
    if p is None or p.p.poll() is not None:
        p = _processes[package] = Process(package)
    return p


@atexit.register
def close_all():
    for p in list(_processes.values()):
        p.close()


def configuration(folder, name, module, updates, argument=None):
    """A configuration file: the configuration of `module` with entries replaced."""
    path = os.path.join(folder, name)
    with open(path, "w") as f:
        f.write(
            f"from {module} import get_config as base\n\nUPDATES = {updates!r}\n\n\n"
            "def get_config():\n"
            f"    c = base({'' if argument is None else repr(argument)})\n"
            "    with c.unlocked(), c.ignore_type():\n"
            "        for key, value in UPDATES.items():\n"
            "            *path, last = key.split('.')\n"
            "            node = c\n"
            "            for p in path:\n"
            "                node = node[p]\n"
            "            with node.unlocked(), node.ignore_type():\n"
            "                node[last] = value\n"
            "    return c\n")
    return path
