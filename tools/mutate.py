#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--n N] [--seed S] [--file F] [--jobs J] [--scale X] [--at file:line ...]

Makes small changes to the sources by rule (comparisons, signs, constants, operands, dropped statements, ...), keeps
those that pass the existing tests, and runs the checks of the file until one reports a violation.  What survives is
written down to be looked at by hand: either the change makes no difference to behaviour or a check is missing.
Runs in copies under /tmp/mut, which it removes.
"""
import argparse, ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "generator/generator.py": "C02 C11 C16 C28 C29 C12 C04 C27 C01 C17 C10",
    "generator/amorphous_algorithms.py": "C12 C29 C28 C11",
    "molecule/molecule.py": "C11 C28 C04 C26 C27 C05",
    "prefab/prefab.py": "C17 C18 C19 C20 C28 C29",
    "prefab/wulff.py": "C21 C28",
    "scene/scene.py": "C01 C07 C08 C27 C28 C10 C05",
    "surface/adsorbate.py": "C26 C29 C28",
    "surface/alpha_shape.py": "C25 C26 C29",
    "transform/post.py": "C17 C10 C28 C29",
    "transform/strain.py": "C16 C04 C05 C11 C10 C28",
    "transform/transform.py": "C06 C05 C07 C04 C28 C11 C10 C13",
    "util/measure.py": "C23 C22 C28 C29",
    "util/misc.py": "C24 C06 C29 C18",
    "viz/viz.py": "C30",
    "volume/algebraic.py": "C13 C03 C14 C15 C05 C06 C28 C04 C11",
    "volume/volume.py": "C01 C03 C04 C05 C08 C09 C11 C15 C07 C28 C10 C27",
    "volume/voxel.py": "C13 C02 C12 C05 C15 C28 C16 C11",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["//"], ast.Pow: ["*"], ast.FloorDiv: ["/"]}
NAMES = {"logical_and": "logical_or", "logical_or": "logical_and", "any": "all", "all": "any", "min": "max", "max": "min", "argmin": "argmax",
         "argmax": "argmin", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor", "hstack": "vstack", "zeros": "ones", "ones": "zeros",
         "sum": "prod", "prod": "sum", "append": "extend", "mean": "median", "abs": "array", "unique": "array", "round": "floor"}


def sites(src):
    tree = ast.parse(src)
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    offs = [0]
    for l in src.encode().splitlines(True):
        offs.append(offs[-1] + len(l))

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def un(n):
        return "(" + ast.unparse(n) + ")"
    out = []

    def add(n, new, kind):
        out.append((n.lineno, *span(n), new, kind))
    for n in ast.walk(tree):
        p, skip = n, False
        while p in par:
            if isinstance(p, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)) or (
                    isinstance(p, ast.Expr) and isinstance(p.value, ast.Constant)) or (
                    isinstance(p, ast.Call) and getattr(p.func, "id", "") in ("print", "warn", "super")) or (
                    isinstance(p, ast.Call) and getattr(p.func, "attr", "") == "warn"):
                skip = True
            if isinstance(par[p], ast.FunctionDef) and p in par[p].decorator_list:
                skip = True
            p = par[p]
        if skip and not isinstance(n, ast.Assert):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"{un(n.left)} {o} {un(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add(n, f"({un(n.left)} {o} {un(n.right)})", "arith")
            if isinstance(n.op, (ast.MatMult, ast.Sub)):
                add(n, f"({un(n.right)} {'@' if isinstance(n.op, ast.MatMult) else '-'} {un(n.left)})", "swap")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(un(v) for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                add(n, "(" + (" and " if o == " or " else " or ").join(un(v) for i, v in enumerate(n.values) if i != k) + ")", "bool-drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, un(n.operand), "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str({0: 1, 1: 0}.get(n.value, n.value + 1)), "constant")
            if n.value > 1:
                add(n, str(n.value - 1), "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(n, repr(n.value * 2 if n.value else 1.0), "constant")
            if n.value and abs(n.value) < 1e-2:
                add(n, "0.0", "constant")
                add(n, repr(n.value * 1e4), "constant")
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            add(n, un(n.value), "transpose")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
            add(n, f"{ast.unparse(n.value)}.{NAMES[n.attr]}", "function")
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("np.copy", "copy.deepcopy", "np.abs", "abs", "np.sqrt", "np.radians", "np.linalg.inv", "np.squeeze") and n.args:
                add(n, un(n.args[0]), "unwrap")
            if f.endswith(".copy") and not n.args:
                add(n, f[:-5], "unwrap")
            for k, kw in enumerate(n.keywords):
                if kw.arg and f not in ("super", "dict"):
                    m = ast.parse(ast.unparse(n), mode="eval").body
                    del m.keywords[k]
                    add(n, ast.unparse(m), "keyword-drop")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = ast.parse(ast.unparse(n), mode="eval").body
                m.args[0], m.args[1] = m.args[1], m.args[0]
                add(n, ast.unparse(m), "args-swap")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(par[n], (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
                if isinstance(n, ast.Expr) and ast.unparse(n).startswith(("print", "warn")):
                    continue
                add(n, "pass", "drop")
        if isinstance(n, ast.If):
            add(n.test, "True", "if")
            add(n.test, "False", "if")
        if isinstance(n, ast.IfExp):
            add(n, un(n.body), "if"), add(n, un(n.orelse), "if")
        if isinstance(n, ast.Assert):
            add(n, "pass", "assert")
        if isinstance(n, ast.Raise) and not isinstance(par[n], ast.ExceptHandler):
            out.append((n.lineno, *span(n), "pass", "raise"))
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "flow")
    return out


def trial(args):
    f, line, a, b, new, kind, scale, k = args
    d = f"/tmp/mut/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("czone", "tests"):
        shutil.copytree(f"/repo/{x}", f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/czone/{f}"
    src = open(p, "rb").read()
    old = src[a:b].decode()
    open(p, "wb").write(src[:a] + new.encode() + src[b:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=d, PYTHONHASHSEED="0", CZONE_REPO=d, RV_EVIDENCE=d + "/ev", RV_FIRST="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    res = dict(file=f, line=line, kind=kind, old=old, new=new, a=a, b=b)
    try:
        try:
            compile(open(p).read(), p, "exec")
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
            if r.returncode:
                return dict(res, status="tests")
        except (SyntaxError, subprocess.TimeoutExpired):
            return dict(res, status="tests")
        und = []
        for c in CHECKS[f].split():
            try:
                r = subprocess.run([PY, "-B", HERE + "/check.py", c, "--procs", "1", "--scale", str(scale), "--tier", "quick"], cwd=d, env=env, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                und.append(c + " time")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][0]
                return dict(res, status="caught", by=c, what=v.split("what=")[-1][:150], undecided=und)
            if r.returncode:
                und.append(c + " " + (r.stdout.splitlines() or [""])[-1][:80])
        return dict(res, status="SURVIVED", undecided=und)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--file")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=.25)
    ap.add_argument("--again", help="file of results; tries those that survived")
    ap.add_argument("--count", action="store_true")
    o = ap.parse_args()
    todo = []
    if o.again:
        for l in open(o.again):
            r = json.loads(l)
            if r["status"] == "SURVIVED":
                todo.append((r["file"], r["line"], r["a"], r["b"], r["new"], r["kind"]))
    else:
        for f in CHECKS:
            if o.file and not f.startswith(o.file):
                continue
            s = sites(open(f"/repo/czone/{f}").read())
            if o.count:
                print(f, len(s))
            todo += [(f, *x) for x in s]
        random.Random(o.seed).shuffle(todo)
        done = set()
        if os.path.exists(o.out):
            for l in open(o.out):
                r = json.loads(l)
                done.add((r["file"], r["a"], r["b"], r["new"]))
        todo = [t for t in todo if (t[0], t[2], t[3], t[4]) not in done][:o.n]
    if o.count:
        print(len(todo)); return
    tot = {}
    with open(o.out, "a") as out, cf.ThreadPoolExecutor(o.jobs) as ex:
        for r in ex.map(trial, [(*t, o.scale, k) for k, t in enumerate(todo)]):
            tot[r["status"]] = tot.get(r["status"], 0) + 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(tot)


main()
