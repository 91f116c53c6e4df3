#!/usr/bin/env python3
"""Refresh the "fixed" list of known_findings.json from the fix: commits of /repo (run by hand, never by a check)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # start of the commit subject (without "fix: ") -> property
    "power of a": "C01", "honour dtype": "C01", "parity of": "C02", "section boundaries": "C02", "hermiticity of": "C04",
    "argument order of": "C11", "fast update of PlaquetteqGPS": "C06", "cached configuration of Plaquette": "C06",
    "fast update of CPDBackflow": "C07", "ASymmqGPS coefficients": "C11", "fast updates of the ASymmqGPS": "C07",
    "fast updates of ARqGPSModPhaseFull": "C06", "fast updates of SlaterJastrow": "C07", "qGPS initialiser": "C24",
    "on-the-fly ab-initio": "C03", "on-the-fly Heisenberg": "C05", "autoregressive models over": "C09",
    "Pfaffian of singular": "C12", "PfaffianState sums": "C12", "derivative of the Pfaffian": "C12",
    "fast exchange sampler": "C14", "fast Metropolis sampler counts": "C14", "cached contexts": "C14",
    "fast Metropolis sampler returns": "C14",
}
try:
    exec(open(os.path.join(HERE, "tools", "fixed_more.py")).read())
except OSError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in MAP.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    out.append(f"fixed: property={p[0]} {h} {s}")
path = os.path.join(HERE, "known_findings.json")
d = json.load(open(path))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
print(len(out))
