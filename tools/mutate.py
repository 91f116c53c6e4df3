#!/usr/bin/env python3
"""mutate.py [--files REGEX] [--per-file N] [--seed N] [--par N] [--out FILE]: sample small syntactic changes of the repository and report which
checks notice them. A development tool: works on scratch copies of /repo (never on /repo), not registered in MANIFEST.json."""
import argparse, ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile

SRC = os.environ.get("MUT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
EXTRA = {"GPSKet/sampler/rules": ["C13", "C14"], "GPSKet/driver/abstract_state_fitting.py": ["C19"], "GPSKet/driver/autoreg_state_fitting.py": ["C19"],
         "GPSKet/operator/fermion.py": ["C02", "C03"], "GPSKet/hilbert/random/discrete_asep.py": ["C04"], "GPSKet/models/qGPS.py": ["C08", "C06"],
         "GPSKet/models/plaquetteqGPS.py": ["C08", "C06"], "GPSKet/models/autoreg_qGPS_full.py": ["C09", "C06", "C10"],
         "GPSKet/models/autoreg_qGPS.py": ["C09", "C10"], "GPSKet/models/autoreg_plaquetteqGPS.py": ["C09", "C10"],
         "GPSKet/supervised/supervised_qgps.py": ["C22", "C27", "C28", "C21"], "GPSKet/models/slater.py": ["C11", "C07"]}


def checks(f):
    out = [c for k, v in EXTRA.items() if f.startswith(k) for c in v]
    for p in PROPS:
        if f in p["anchors"]["files"] and p["id"] not in out:
            out.append(p["id"])
    return out


BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
DROP = {"conj", "conjugate", "copy", "transpose", "flatten", "ravel"}
DROPF = {"abs", "sqrt", "conj", "conjugate", "log", "exp", "sum", "stop_gradient", "log1p"}


def mutants(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(n.body[0].value)
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                skip.update(ast.walk(d))
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    skip.update(ast.walk(a.annotation))
            if n.returns:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "isinstance"):
            skip.update(ast.walk(n))
    out = []

    def put(node, new, kind):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, kind))

    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.JoinedStr)):
            put(n, "(" + ast.unparse(ast.BinOp(n.left, BIN[type(n.op)](), n.right)) + ")", "op")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, "(" + ast.unparse(ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)) + ")", "cmp")
        if isinstance(n, ast.BoolOp):
            put(n, "(" + ast.unparse(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)) + ")", "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
            put(n, "(" + ast.unparse(n.operand) + ")", "neg")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            put(n, repr(n.value + 1 if n.value in (0, 1) else n.value * 2), "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, repr(not n.value), "flag")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROP and not n.args:
                put(n, "(" + ast.unparse(n.func.value) + ")", "drop." + n.func.attr)
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if f in DROPF and len(n.args) == 1 and not n.keywords:
                put(n, "(" + ast.unparse(n.args[0]) + ")", "drop " + f)
            if f == "where" and len(n.args) == 3:
                put(n, ast.unparse(ast.Call(n.func, [n.args[0], n.args[2], n.args[1]], n.keywords)), "where")
            for k in n.keywords:
                if k.arg in ("axis", "keepdims", "side", "mode", "lower"):
                    put(n, ast.unparse(ast.Call(n.func, n.args, [q for q in n.keywords if q is not k])), "kw " + k.arg)
        if isinstance(n, ast.Attribute) and n.attr in ("T", "real") and isinstance(n.ctx, ast.Load):
            put(n, "(" + ast.unparse(n.value) + ")", "." + n.attr)
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "(not (" + ast.unparse(n.test) + "))", "if")
        if isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or (
                isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            put(n, "pass", "delete")
    return out


def apply(src, m):
    l0, c0, l1, c1, new, _ = m
    lines = src.encode().split(b"\n")
    pre = b"\n".join(lines[: l0 - 1] + [lines[l0 - 1][:c0]])
    post = b"\n".join([lines[l1 - 1][c1:]] + lines[l1:])
    return (pre + new.encode() + post).decode()


def run(job):
    f, src, m, jobs, *which = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(SRC + "/GPSKet", d + "/GPSKet", ignore=shutil.ignore_patterns("__pycache__"))
        for extra in ("scripts", "pyproject.toml"):
            p = os.path.join(SRC, extra)
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(d, extra))
        open(os.path.join(d, f), "w").write(m[6] if len(m) > 6 else apply(src, m))
        seg = "\n".join(src.split("\n")[m[0] - 1: m[2]])
        res = {"file": f, "line": m[0], "kind": m[5], "old": seg.strip()[:160], "new": m[4][:160], "killed": None, "ran": []}
        for c in (which or checks(f)):
            try:
                p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), c, "-j", str(jobs)], capture_output=True, text=True, timeout=900,
                                   env={**os.environ, "VERIF_REPO": d, "VERIF_NO_SHRINK": "1"})
                rc, tail = p.returncode, p.stdout[-300:]
            except subprocess.TimeoutExpired:
                rc, tail = -9, "timeout"
            res["ran"].append([c, rc])
            if rc == 1 or rc == -9:
                res["killed"], res["how"] = c, tail
                break
            if rc != 0:
                res["how"] = tail
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default=".")
    ap.add_argument("--per-file", type=int, default=6)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--par", type=int, default=3)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("--trial", help="Python file with TRIAL = [(file, old, new, property...)] instead of random changes")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    a = ap.parse_args()
    files = subprocess.run(["git", "-C", SRC, "ls-files", "GPSKet"], capture_output=True, text=True).stdout.split()
    jobs = []
    if a.trial:
        ns = {}
        exec(open(a.trial).read(), ns)
        for f, old, new, *which in ns["TRIAL"]:
            src = open(os.path.join(SRC, f)).read()
            if src.count(old) < 1:
                print("NOT FOUND", f, old)
                continue
            no = src[: src.index(old)].count("\n") + 1
            jobs.append((f, src, (no, 0, no, 0, new, "trial", src.replace(old, new, 1)), a.j, *which))
        files = []
    for f in files:
        if not f.endswith(".py") or f.endswith("__init__.py") or not re.search(a.files, f) or not checks(f):
            continue
        src = open(os.path.join(SRC, f)).read()
        ms = []
        for m in mutants(src):
            try:
                if ast.dump(ast.parse(apply(src, m))) != ast.dump(ast.parse(src)):
                    ms.append(m)
            except SyntaxError:
                pass
        r = random.Random(f"{f}{a.seed}")
        k = a.per_file if len(src.split("\n")) < 250 else 2 * a.per_file
        jobs += [(f, src, m, a.j) for m in r.sample(ms, min(k, len(ms)))]
    print(len(jobs), "mutants", flush=True)
    random.Random(a.seed).shuffle(jobs)
    with cf.ThreadPoolExecutor(a.par) as ex, open(a.out, "a") as out:
        for res in ex.map(run, jobs):
            out.write(json.dumps(res) + "\n")
            out.flush()
            print(res["killed"] or "SURVIVED", res["file"], res["line"], res["kind"], "|", res["old"][:80], "->", res["new"][:80], flush=True)


if __name__ == "__main__":
    main()
