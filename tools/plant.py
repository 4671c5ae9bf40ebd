"""plant.py make DEFS.py [id…]   write seeded/<id> from definitions bug(id, prop, edits, demo, needs, what)
   plant.py check [id…] [--checks C01,C02|own|all]   verify seeded bugs in scratch copies and record which checks catch them
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "b5cd8f0"
ROOT = "/tmp/plant"


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def copy(name):
    d = os.path.join(ROOT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    sh(["cp", "-a", R, d])
    return d


def make(defs, only):
    bugs = []

    def bug(bid, prop, edits, demo, needs, what):
        bugs.append((bid, prop, edits, demo, needs, what))

    exec(compile(open(defs).read(), defs, "exec"), {"bug": bug})
    for bid, prop, edits, demo, needs, what in bugs:
        if only and bid not in only:
            continue
        d = copy("mk_" + bid)
        try:
            for f, old, new in edits:
                p = os.path.join(d, f)
                s = open(p).read()
                assert s.count(old) == 1, (bid, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            rc, diff = sh("git diff", cwd=d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        o = os.path.join(V, "seeded", bid)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        shutil.copy(V + "/tools/kit.py", o + "/kit.py")
        open(o + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                        "from kit import *\n\n" + demo.strip() + "\n")
        open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(o + "/meta.json", "w"), indent=1)
        print("made", bid)


def fixed_lines():
    """lines of the current tree that BASE does not have (from fix commits)"""
    out = {}
    for f in sh(["git", "diff", "--name-only", BASE, "HEAD"], cwd=R)[1].split():
        n, s = 0, set()
        for line in sh(["git", "diff", "-U0", BASE, "HEAD", "--", f], cwd=R)[1].splitlines():
            m = re.match(r"@@ -\S+ \+(\d+)(?:,(\d+))? @@", line)
            if m:
                a, k = int(m.group(1)), int(m.group(2) or 1)
                s.update(range(a, a + k))
        out[f] = s
    return out


def check(bid, which, props, fixed, timeline):
    o = os.path.join(V, "seeded", bid)
    meta = json.load(open(o + "/meta.json"))
    d = copy(bid)
    try:
        rc, t = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (o, o), cwd=d)
        if rc:
            return bid, "patch does not apply: " + t, None
        cur = None
        touched_orig = False
        for line in open(o + "/patch.diff"):
            if line.startswith("--- a/"):
                cur = line[6:].strip()
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
            elif line.startswith("-") and not line.startswith("---"):
                if n not in fixed.get(cur, ()):
                    touched_orig = True
                else:
                    print(bid, "WARNING: touches line from a fix:", cur, n)
                n += 1
            elif line.startswith(" "):
                n += 1
        if not touched_orig:
            print(bid, "WARNING: no original line removed")
        ts = open("/opt/vp/test.sh").read().replace("/repo", d)
        open(d + ".test.sh", "w").write(ts.replace("export HOME=", "export PYTHONPATH=%s\nexport HOME=" % d, 1))
        rc, t = sh(["bash", d + ".test.sh", d + ".json"])
        m = re.search(r"(\d+) failed, (\d+) passed|(\d+) passed", t)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(d + ".json"))
        stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
        missing = stable - set(res["passed"])
        if missing:
            return bid, "tests fail: %s" % sorted(missing)[:3], None
        env = {"PYTHONPATH": ""}
        rc, t = sh(["bash", o + "/demo.sh"], cwd=d, timeout=300)
        if rc == 0:
            return bid, "demo passes with the patch: " + t[-300:], None
        demo_msg = t.strip().splitlines()[-1][:160] if t.strip() else ""
        rc, t = sh(["bash", o + "/demo.sh"], cwd=R, timeout=300)
        if rc != 0:
            return bid, "demo fails on the unchanged tree: " + t[-500:], None
        caught = []
        own = meta["property"]
        lst = [own] if which == "own" else (props if which == "all" else which.split(","))
        for c in lst:
            if not os.path.exists(os.path.join(V, "rv/checks/%s.py" % c.lower())):
                continue
            rc, t = sh(["/opt/venv/bin/python", V + "/run.py", c, "--jobs", "2"], cwd=V,
                       env={"RV_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick", "RV_NOEVIDENCE": "1"})
            if rc == 1 and "VIOLATION property=%s" % c in t:
                caught.append(c)
            elif rc != 0:
                print(bid, c, "rc", rc, t[-300:])
        return bid, "ok (%s)" % demo_msg, (lst, caught)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for e in (".test.sh", ".json"):
            if os.path.exists(d + e):
                os.remove(d + e)


def main():
    if sys.argv[1] == "make":
        return make(sys.argv[2], sys.argv[3:])
    args = sys.argv[2:]
    which = "own"
    if "--checks" in args:
        i = args.index("--checks")
        which = args[i + 1]
        args = args[:i] + args[i + 2:]
    ids = args or sorted(os.listdir(V + "/seeded"))
    props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    fixed = fixed_lines()
    pj = V + "/tools/planted.json"
    with ThreadPoolExecutor(4) as ex:
        for fu in as_completed([ex.submit(check, b, which, props, fixed, None) for b in ids]):
            bid, msg, res = fu.result()
            print(bid, json.load(open(V + "/seeded/%s/meta.json" % bid))["property"], "|", msg, "|", res and res[1], flush=True)
            if res:
                pl = json.load(open(pj)) if os.path.exists(pj) else {}
                old = set(pl.get(bid, []))
                pl[bid] = sorted((old - set(res[0])) | set(res[1]))
                json.dump(pl, open(pj, "w"), indent=1, sort_keys=True)


main()
