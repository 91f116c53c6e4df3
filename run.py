#!/usr/bin/env python3
"""Driver:  run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUB[,SUB]] [-j N]

Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the
check itself failed.  Writes evidence/<PROPERTY>.json.
"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import env  # noqa: E402


def list_subs(prop):
    code = (
        "import sys,json;sys.path.insert(0,%r);from lib import env;env.install_paths();"
        "import importlib;m=importlib.import_module('props.%s');"
        "print('@@'+json.dumps({'rule':m.RULE,'assumptions':m.ASSUMPTIONS,'jobs':getattr(m,'JOBS',8),'subs':[[s.name,s.shards,s.tshards,s.quick,s.thorough,s.weight] for s in m.SUBS]}))"
        % (HERE, prop.lower())
    )
    p = subprocess.run([env.PYTHON, "-W", "ignore", "-c", code], env=env.child_environment(), capture_output=True,
                       text=True, cwd=HERE)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:]), None
    return None, p.stdout[-2000:] + p.stderr[-4000:]


def get_meta(prop):
    """Sub-check list of a property; cached in lib/index.json keyed by the hash of its module."""
    import hashlib

    src = os.path.join(HERE, "props", prop.lower() + ".py")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    path = os.path.join(HERE, "lib", "index.json")
    try:
        idx = json.load(open(path))
    except (OSError, ValueError):
        idx = {}
    if idx.get(prop, {}).get("hash") == h:
        return idx[prop]
    meta, err = list_subs(prop)
    if meta is None:
        raise SystemExit(f"cannot load props/{prop.lower()}.py:\n{err}")
    meta["hash"] = h
    return meta


def write_index():
    idx = {}
    for f in sorted(glob.glob(os.path.join(HERE, "props", "c[0-9]*.py"))):
        prop = os.path.basename(f)[:-3].upper()
        idx[prop] = get_meta(prop)
    with open(os.path.join(HERE, "lib", "index.json"), "w") as f:
        json.dump(idx, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    if sys.argv[1:] == ["--index"]:
        write_index()
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    cenv = env.child_environment()
    if a.replay:
        p = subprocess.run([env.PYTHON, "-W", "ignore", os.path.join(HERE, "lib/worker.py"), prop, "replay",
                            os.path.abspath(a.replay)], env=cenv, cwd=HERE)
        return p.returncode

    budget = 620.0 if a.tier == "quick" else 3.0 * 3600
    outdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    replay_dir = os.path.join(HERE, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    results, errors, violation = [], [], None
    try:
        meta = get_meta(prop)
        only = a.only.split(",") if a.only else None
        jobs = []
        for name, shards, tshards, q, t, w in meta["subs"]:
            if only and name not in only:
                continue
            n, k = (q, shards) if a.tier == "quick" else (t, tshards)
            for s in range(k):
                jobs.append((max(n, 1) * w, f"{name}:{s}"))
        nproc = min(a.j, len(jobs), meta.get("jobs", 8))
        jobs.sort(key=lambda x: (-x[0], x[1]))
        bins = [[0.0, i, []] for i in range(nproc)]
        for cost, job in jobs:  # static, deterministic assignment: longest first
            b = min(bins, key=lambda b: (b[0], b[1]))
            b[0] += cost
            b[2].append(job)
        procs = []
        for _, i, js in bins:
            log = open(os.path.join(outdir, f"log-{i}"), "w")
            procs.append(
                (subprocess.Popen(
                    [env.PYTHON, "-W", "ignore", os.path.join(HERE, "lib/worker.py"), prop, a.tier, str(a.seed),
                     outdir, str(budget), *js],
                    env=cenv, cwd=HERE, stdout=log, stderr=subprocess.STDOUT, start_new_session=True),
                 js, i))
        hard_end = t0 + (800 if a.tier == "quick" else budget + 900)
        live = list(procs)

        def read_results():
            out = []
            for f in sorted(glob.glob(os.path.join(outdir, "results-*.jsonl"))):
                for line in open(f):
                    if line.endswith("\n"):
                        out.append(json.loads(line))
            return out

        crashed = []
        while live:
            time.sleep(0.1)
            for p in list(live):
                rc = p[0].poll()
                if rc is None:
                    continue
                live.remove(p)
                if rc != 0:
                    crashed.append((p, rc))
            if any(r["status"] == "violation" for r in read_results()) or crashed or time.time() > hard_end:
                timed_out = time.time() > hard_end
                for p in live:
                    try:
                        os.killpg(p[0].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p[0].wait()
                if timed_out:
                    errors.append("hard time limit reached (a case does not terminate)")
                break
        results = read_results()
        for (p, js, i), rc in crashed:
            cur = os.path.join(outdir, f"current-{p.pid}.json")
            if -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and os.path.exists(cur):
                d = json.load(open(cur))
                results.append({"sub": d["sub"], "shard": 0, "status": "violation", "case": d["case"],
                                "message": f"the code kills the process (signal {-rc})", "cases": 0,
                                "evaluations": 0, "keys": [], "labels": {}, "samples": [], "known": {}})
            else:
                errors.append(f"worker {i} ended with {rc}: " + open(os.path.join(outdir, f"log-{i}")).read()[-3000:])
        for r in results:
            if r["status"] == "error":
                errors.append(f"{r['sub']}:{r['shard']}: {r.get('error')}")
            if r["status"] == "importfail":  # the code the property is about cannot even be imported
                r["status"], r["case"] = "violation", None
                r["message"] = "the repository's code fails on import: " + str(r.get("error"))[-1500:]
        viol = sorted((r for r in results if r["status"] == "violation"), key=lambda r: (r["sub"], r["shard"]))
        if a.v:
            for r in sorted(results, key=lambda r: r["sub"]):
                print(f"  {r['sub']:32s} shard {r['shard']} {r['status']:12s} cases {r['cases']:5d} "
                      f"comparisons {r['evaluations']:7d} nontrivial {len(r['keys']):6d} {r.get('wall')} s "
                      f"{r['labels'] if len(r['labels']) < 12 else str(len(r['labels'])) + ' labels'}")
        keys = set()
        labels, persub, samples, known = {}, {}, [], {}
        for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
            keys.update(f"{r['sub']}/{k}" for k in r["keys"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            d = persub.setdefault(r["sub"], {"cases": 0, "comparisons": 0, "nontrivial": 0})
            d["cases"] += r["cases"]
            d["comparisons"] += r["evaluations"]
            d["nontrivial"] += len(r["keys"])
            if r["samples"] and len([s for s in samples if s["sub"] == r["sub"]]) < 1:
                samples.append({"sub": r["sub"], "case": r["samples"][0]})
            known.update(r.get("known") or {})
        evidence = {
            "property": prop,
            "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(r["evaluations"] for r in results),
                "distinct_nontrivial": len(keys),
                "rule": meta["rule"],
                "samples": samples[:12],
                "generated_cases": sum(r["cases"] for r in results),
                "per_subcheck": persub,
                "distribution": dict(sorted(labels.items())),
                "inconclusive_shards": sum(r["status"] == "inconclusive" for r in results),
                "exhaustive": False,
            },
            "assumptions": meta["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
        for what in known.values():
            print(f"KNOWN-FINDING: property={prop} {what}")
        if viol:
            r = viol[0]
            path = os.path.join(replay_dir, f"{prop}-{r['sub']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r["sub"], "case": r["case"], "message": r["message"],
                           "seed": a.seed, "replay_cmd": f"python3 run.py {prop} --replay {path}"}, f, indent=1)
            print(f"[{prop}/{r['sub']}] {r['message']}")
            print(f"case: {json.dumps(r['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if errors:
            for e in errors:
                print("CHECK ERROR:", e, file=sys.stderr)
            return 2
        print(f"{prop} held: {evidence['coverage']['evaluations']} comparisons, "
              f"{len(keys)} distinct non-trivial, {evidence['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
