"""Line coverage of GPSKet under the checks (VERIF_COV=DIR run.py ...; then tools/cov.py DIR REPO prints lines never executed)."""
import json
import os
import sys


def start(root):
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "verif-cov")

    def line(code, no):
        f = code.co_filename
        if f.startswith(root):
            hit.add((f[len(root):].lstrip("/"), no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return hit


def save(hit):
    d = os.environ["VERIF_COV"]
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{os.getpid()}.json"), "w") as f:
        json.dump(sorted(hit), f)


def code_lines(code, out):
    out.update(no for _, _, no in code.co_lines() if no)
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            code_lines(c, out)


if __name__ == "__main__":
    d, repo = sys.argv[1:3]
    hit = {}
    for f in os.listdir(d):
        for name, no in json.load(open(os.path.join(d, f))):
            hit.setdefault(name, set()).add(no)
    for base, _, files in os.walk(os.path.join(repo, "GPSKet")):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(base, f)
            name = os.path.relpath(path, repo)
            lines = set()
            src = open(path).read()
            code_lines(compile(src, path, "exec"), lines)
            miss = sorted(lines - hit.get(name, set()) - {0})
            if not lines or not miss:
                continue
            print(f"== {name}: {len(miss)} of {len(lines)} lines not executed")
            text = src.splitlines()
            for no in miss:
                print(f"   {no}: {text[no - 1].strip()[:110]}")
