"""Worker process: runs a list of (sub, shard) jobs of one property and reports one JSON line each.

usage: worker.py PROPERTY TIER SEED OUTDIR JOB [JOB...]      JOB = subname:shard
       worker.py PROPERTY replay FILE OUTDIR
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env  # noqa: E402

env.install_paths()
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
HIT = None
if os.environ.get("VERIF_COV"):
    from tools import cov

    HIT = cov.start(env.REPO)


def _load(prop):
    import importlib

    return importlib.import_module(f"props.{prop.lower()}")


def _check_origin():
    import GPSKet

    here = os.path.realpath(os.path.dirname(GPSKet.__file__))
    want = os.path.realpath(os.path.join(env.REPO, "GPSKet"))
    if here != want:
        raise RuntimeError(f"GPSKet imported from {here}, expected {want}")


def job_seed(seed, prop, sub, shard):
    import hashlib

    return int.from_bytes(
        hashlib.blake2b(f"{seed}/{prop}/{sub}/{shard}".encode(), digest_size=7).digest(), "big"
    )


def run_job(prop, sub, shard, tier, seed, outdir, known, budget_end):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    from lib.core import Recorder, Violation, run_case, digest, jsonable

    n = sub.quick if tier == "quick" else sub.thorough
    rec = Recorder()
    state = {"fail": None, "after": 0, "t_fail": None, "memo": {}, "stopped": False, "knownhits": {}}
    cur = os.path.join(outdir, f"current-{os.getpid()}.json")

    class Stop(Exception):
        pass

    def one(case, shrinking_allowed=True):
        case = jsonable(case)
        key = digest(case)
        if state["fail"] is not None:
            if key in state["memo"]:
                if state["memo"][key] is not None:
                    raise Violation(state["memo"][key])
                return
            if state["after"] >= 40 or time.time() - state["t_fail"] > 45:
                return
            state["after"] += 1
        elif time.time() > budget_end:
            state["stopped"] = True
            return
        with open(cur, "w") as f:
            json.dump({"property": prop, "sub": sub.name, "case": case}, f)
        try:
            run_case(sub, case, rec)
            state["memo"][key] = None
        except Violation as v:
            hit = next((k for k in known if k["sub"] == sub.name and k["match"] in str(v)), None)
            if hit is not None:
                state["knownhits"][hit["id"]] = hit["what"]
                state["memo"][key] = None
                return
            if state["fail"] is None:
                state["t_fail"] = time.time()
            state["memo"][key] = str(v)
            state["fail"] = (case, str(v))
            raise

    res = {"sub": sub.name, "shard": shard}
    try:
        if shard == 0:
            for case in sub.explicit:
                one(case)

        if n > 0:

            @hypothesis.seed(job_seed(seed, prop, sub.name, shard))
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate,) if os.environ.get("VERIF_NO_SHRINK") else (Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                print_blob=False,
            )
            @given(sub.strategy())
            def test(case):
                one(case)

            # the explicit cases may have set no failure; generation + shrinking from here
            import io
            import contextlib

            with contextlib.redirect_stdout(io.StringIO()):
                test()
        res["status"] = "inconclusive" if state["stopped"] else "ok"
    except Violation:
        res["status"] = "violation"
    except hypothesis.errors.Flaky:
        res["status"] = "violation" if state["fail"] else "error"
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is not None and isinstance(e, Exception):
            res["status"] = "violation"
        else:
            res["status"] = "error"
            res["error"] = "".join(traceback.format_exception(e))[-6000:]
    if res["status"] == "violation":
        case, msg = state["fail"]
        res["case"], res["message"] = case, msg
    res["known"] = state["knownhits"]
    res.update(rec.export())
    try:
        os.unlink(cur)
    except OSError:
        pass
    return res


def main(argv):
    prop = argv[1]
    t0 = time.time()
    if argv[2] == "replay":
        from lib.core import Recorder, Violation, run_case

        data = json.load(open(argv[3]))
        if data["case"] is None:
            try:
                _load(prop)
            except Exception:  # noqa: BLE001
                traceback.print_exc()
                print("reproduced: import fails")
                return 1
            print("not reproduced: imports")
            return 0
        _check_origin()
        mod = _load(prop)
        sub = next(s for s in mod.SUBS if s.name == data["sub"])
        try:
            run_case(sub, data["case"], Recorder())
        except Violation as v:
            print("reproduced:", v)
            return 1
        print("not reproduced: the case passes")
        return 0
    tier, seed, outdir, budget = argv[2], int(argv[3]), argv[4], float(argv[5])
    jobs = argv[6:]
    out = open(os.path.join(outdir, f"results-{os.getpid()}.jsonl"), "a")
    try:
        _check_origin()
        mod = _load(prop)
    except BaseException as e:  # noqa: BLE001
        from lib.core import in_repo

        status = "importfail" if in_repo(e) else "error"
        out.write(
            json.dumps({"sub": "import", "shard": 0, "status": status,
                        "error": "".join(traceback.format_exception(e))[-6000:],
                        "cases": 0, "evaluations": 0, "keys": [], "labels": {}, "samples": [], "known": {}})
            + "\n"
        )
        out.close()
        return 0
    known = [
        k for k in json.load(open(os.path.join(env.VERIF, "known_findings.json")))["findings"]
        if k["property"] == prop and k.get("status") == "open"
    ]
    subs = {s.name: s for s in mod.SUBS}
    for job in jobs:
        name, shard = job.rsplit(":", 1)
        t1 = time.time()
        res = run_job(prop, subs[name], int(shard), tier, seed, outdir, known, t0 + budget)
        res["wall"] = round(time.time() - t1, 2)
        out.write(json.dumps(res) + "\n")
        out.flush()
        if res["status"] == "violation":
            break
    out.close()
    return 0


if __name__ == "__main__":
    code = main(sys.argv)
    for helper in ("lib.mpi", "lib.exp"):
        if helper in sys.modules:
            sys.modules[helper].close_all()
    sys.stdout.flush()
    sys.stderr.flush()
    if HIT is not None:
        cov.save(HIT)
    os._exit(code)  # skip interpreter/MPI teardown
