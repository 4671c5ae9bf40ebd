"""mutate.py N SEED OUT [file …] [--parallel P]   small random changes to the program, each judged by the checks in scratch copies

Not a check: a search for what the checks do not see.  OUT gets a line per change: killed by, or SURVIVED.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ROOT = "/tmp/mut"
LOGS = {"debug", "info", "warning", "error", "critical", "print", "graphics", "set_log_name"}
FIRST = {
    "exorad/exorad.py": "C16 C21 C26 C28 C22", "log/": "C26 C16 C13", "foregrounds/": "C08 C20 C09", "instruments/instrument.py": "C04 C05 C09 C02 C06 C08",
    "photometer.py": "C09 C06 C05 C03", "spectrometer.py": "C03 C09 C06 C05 C10", "noise.py": "C11 C12", "opticalElement.py": "C05 C04 C25", "opticalPath.py": "C05 C04 C10 C28",
    "signal.py": "C19 C09", "source.py": "C07 C18", "target.py": "C07 C18 C16", "targetlist.py": "C18 C02", "models/utils.py": "C04 C05",
    "output/": "C15 C16 C17 C27", "foregroundHandler.py": "C08 C20", "instrumentHandler.py": "C17 C01 C16 C25", "loadOptions.py": "C01 C02 C25", "loadSource.py": "C07",
    "targetHandler.py": "C13 C16 C12 C23", "noiseHandler.py": "C11 C12", "propagateLight.py": "C09 C08 C14", "tasks/task.py": "C23", "diffuse_light": "C10 C05",
    "exolib.py": "C06 C19 C03 C05 C10 C09", "passVal.py": "C14 C10 C20", "plotter.py": "C22", "utils/util.py": "C17 C22 C16 C18 C28 C19", "version_control.py": "C24", "__init__.py": "C24", "": "C09 C16"}


def candidates(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, z = span(n)
        return b[a:z].decode()

    out = []

    def put(n, new, kind):
        a, z = span(n)
        out.append((path, n.lineno, kind, a, z, new))

    def is_log(c):
        f = c.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return nm in LOGS

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = n.name
            if fn in ("rebin_", "_check_internet"):  # nothing calls them, or nothing uses what they give
                return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call):
                if is_log(n.value):
                    return
                put(n, "pass", "drop call")
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            put(n, "(%s) %s (%s)" % (text(n.left), sw[type(n.ops[0])], text(n.comparators[0])), "compare")
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
            if type(n.op) in sw and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                put(n, "((%s) %s (%s))" % (text(n.left), sw[type(n.op)], text(n.right)), "operator")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", "and/or")
        if isinstance(n, ast.If):
            put(n.test, "not (%s)" % text(n.test), "negate")
        if isinstance(n, ast.IfExp):
            put(n.test, "not (%s)" % text(n.test), "negate")
        if isinstance(n, ast.Constant) and fn is not None:
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "bool")
            elif isinstance(v, int) and "plotter" not in path:
                put(n, str(v + 1), "int")
            elif isinstance(v, float):
                put(n, repr(v * 1.1 if v else 0.1), "float")
        if isinstance(n, ast.AugAssign):
            put(n, "pass", "drop aug")
            put(n, "%s = %s" % (text(n.target), text(n.value)), "aug to assign")
        if isinstance(n, ast.Assign) and fn not in (None, "__init__") and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            put(n, "pass", "drop assign")
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            sw = {"max": "min", "min": "max", "ceil": "floor", "floor": "ceil", "argmax": "argmin", "argmin": "argmax", "sum": "max", "mean": "max", "sort": "abs", "sqrt": "abs", "copy": None,
                  "deepcopy": None, "maximum": "minimum", "minimum": "maximum"}
            if nm in ("deepcopy",) and n.args:
                put(n, text(n.args[0]), "no copy")
            elif nm in sw and sw[nm] and isinstance(f, ast.Attribute):
                put(f, text(f.value) + "." + sw[nm], "other function")
            if nm not in LOGS:
                for k in n.keywords:
                    if k.arg in ("fill_value", "bounds_error", "assume_sorted", "copy", "track_order", "mode", "append", "dtype", "axis", "key", "reverse", "full_output", "subsampling", "left", "right"):
                        a, z = span(k)
                        e = b[z:z + 60].decode(errors="ignore")
                        ext = len(e) - len(e.lstrip())
                        if e.lstrip().startswith(","):
                            z += len(e[:ext].encode()) + 1
                        out.append((path, n.lineno, "no " + k.arg, a, z, ""))
            elif nm in LOGS:
                return
        if isinstance(n, ast.Attribute) and n.attr == "value" and isinstance(n.ctx, ast.Load) and False:
            put(n, text(n.value), "no value")
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    walk(tree, None)
    return out


def judge(i, m, jobs):
    path, line, kind, a, z, new = m
    d = os.path.join(ROOT, "m%d" % i)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", R, d], check=True)
    try:
        p = os.path.join(d, path)
        b = open(p, "rb").read()
        nb = b[:a] + new.encode() + b[z:]
        try:
            compile(nb, path, "exec")
        except SyntaxError:
            return None, "syntax"
        open(p, "wb").write(nb)
        order = next(v for k, v in FIRST.items() if k in path).split()
        rest = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
        rest = [c for c in rest if c not in order]
        odd = []
        for c in order + (rest if "--all" in sys.argv else []):
            env = dict(os.environ, RV_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", RV_NOEVIDENCE="1")
            try:
                q = subprocess.run(["/opt/venv/bin/python", V + "/run.py", c, "--jobs", str(jobs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, cwd=V)
            except subprocess.TimeoutExpired:
                return c, "timeout"
            if q.returncode == 1:
                return c, ""
            if q.returncode:
                odd.append("%s rc%d" % (c, q.returncode))
        return None, "SURVIVED " + " ".join(odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a != "--all"]
    par = 2
    if "--parallel" in args:
        k = args.index("--parallel")
        par = int(args[k + 1])
        args = args[:k] + args[k + 2:]
    n, seed, out = int(args[0]), int(args[1]), args[2]
    files = args[3:]
    if not files:
        for root, _, fs in os.walk(os.path.join(R, "exorad")):
            files += [os.path.relpath(os.path.join(root, f), R) for f in fs if f.endswith(".py")]
    files = [f for f in sorted(files) if not f.endswith(("ascii_art.py", "__version__.py"))]
    cand = []
    for f in files:
        cand += candidates(f, open(os.path.join(R, f)).read())
    r = random.Random(seed)
    r.shuffle(cand)
    print(len(cand), "candidates", flush=True)
    os.makedirs(ROOT, exist_ok=True)
    with ThreadPoolExecutor(par) as ex, open(out, "a") as o:
        fu = {ex.submit(judge, i, m, 8 // par): (i, m) for i, m in enumerate(cand[:n])}
        for f in as_completed(fu):
            i, m = fu[f]
            try:
                c, msg = f.result()
            except Exception as e:
                c, msg = None, "failed %s" % e
            src = open(os.path.join(R, m[0]), "rb").read()
            o.write("%s:%d [%s] %r -> %r | %s %s\n" % (m[0], m[1], m[2], src[m[3]:m[4]].decode()[:70], m[5][:70], c or "", msg))
            o.flush()


main()
