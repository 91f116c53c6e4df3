#!/usr/bin/env python3
"""plant.py DEFS.py [ID ...]: build seeded/<ID>/ from definitions and confirm each in turn (applies to /repo, undoes).
A definition: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)."""
import json, os, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, netket as nk
import GPSKet, GPSKet.models as gm
'''
bugs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
assert sh(f"git -C {REPO} status --porcelain").stdout == ""
for b in bugs:
    if want and b["id"] not in want:
        continue
    d = os.path.join(HERE, "seeded", b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec $PY -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        build = sh("bash /opt/vp/build.sh")
        tests = sh("bash /opt/vp/test.sh /tmp/p/t.json")
        ok = json.load(open("/tmp/p/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = ok.get("passed", ok)
        stable = all(t in passed for t in base)
        demo = sh(f"bash {d}/demo.sh", cwd=REPO)
        chk = sh(f"python3 run.py {b['property']}", cwd=HERE)
    finally:
        sh(f"git -C {REPO} checkout -- .")
    clean = sh(f"bash {d}/demo.sh", cwd=REPO)
    caught = chk.returncode == 1 and f"VIOLATION property={b['property']}" in chk.stdout
    valid = build.returncode == 0 and stable and demo.returncode != 0 and clean.returncode == 0
    print(f"{b['id']}: build {build.returncode} stable {stable} demo bug {demo.returncode} clean {clean.returncode} -> "
          f"{'VALID' if valid else 'INVALID'} {'CAUGHT' if caught else 'MISSED rc=%d' % chk.returncode}")
    print("   demo:", (demo.stdout + demo.stderr).strip().splitlines()[-1:] , "| check:", chk.stdout.strip().splitlines()[:1])
    if clean.returncode:
        print((clean.stdout + clean.stderr)[-1500:])
    sys.stdout.flush()
