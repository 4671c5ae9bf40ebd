#!/opt/venv/bin/python
"""run.py CXX [--replay FILE] [--cases N] [--verbose]

Decides one property on the working tree of /repo: generates a seeded workload, runs the
real code on it under the property's monitors, in parallel worker processes, and judges
what the monitors observed.
  exit 0  held on everything observed
  exit 1  violated; prints VIOLATION property=<id> replay=<file>
  exit 2  inconclusive: the deciding monitors were not reached
  exit 3  the harness itself failed
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:") and ("property=%s " % prop) in line:
                kv = dict(x.split("=", 1) for x in line.split() if "=" in x)
                out.append((kv.get("key", ""), line.strip().split(" ", 3)[-1]))
    return out


def one(args):
    """worker: run a case under its monitors"""
    mod_name, case, limit = args
    from rv import common

    mod = importlib.import_module(mod_name)
    obs = common.Obs()
    t0 = time.time()
    harness = None
    try:
        with common.scratch() as d:
            cwd = os.path.join(d, "cwd")
            os.makedirs(cwd)
            os.chdir(cwd)
            try:
                with common.time_limit(limit):
                    mod.check(case, obs, d)
            finally:
                os.chdir("/")
    except common.SutError as e:
        obs.checks += 1
        obs.fail(str(e))
    except common.CaseTimeout as e:
        obs.checks += 1
        obs.fail("case gave no result: %s" % e)
    except (MemoryError, KeyboardInterrupt, SystemExit, BlockingIOError):
        harness = traceback.format_exc()
    except BaseException as e:  # noqa
        if isinstance(e, OSError) and not isinstance(e, FileNotFoundError):
            harness = traceback.format_exc()
        else:
            # the monitors themselves run through on every result the property allows
            obs.checks += 1
            obs.fail("the result is not one the monitors can read: %s: %s" % (type(e).__name__, str(e)[:300]),
                     trace=traceback.format_exc()[-1500:])
    return {"checks": obs.checks, "fails": obs.fails, "labels": obs.labels, "key": obs.key,
            "nontrivial": obs.nontrivial, "sample": obs.sample, "harness": harness,
            "wall": time.time() - t0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    mod_name = "rv.checks.%s" % a.prop.lower()
    mod = importlib.import_module(mod_name)
    from rv import common

    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        cases = list(mod.cases(seed, tier))
        # slices of work run on whatever the machine has: the case list is fixed by the seed
        cases = json.loads(json.dumps(cases))
        if a.cases:
            cases = cases[: a.cases]
    # everything a run leaves behind is in one place
    import shutil
    import tempfile

    top = common.SCRATCH_ROOT = tempfile.mkdtemp(prefix="rv_", dir=common.SCRATCH_ROOT)
    os.chmod(top, 0o755)
    try:
        return judge(a, mod, mod_name, cases, tier, seed, t0)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def judge(a, mod, mod_name, cases, tier, seed, t0):
    from rv import common

    try:
        common.load_package()
    except BaseException as e:  # noqa
        # the tree under test cannot even be imported
        tb = traceback.format_exc()
        rp = write_replay(a.prop, {"import": True}, [{"what": "import failed: %s" % e}])
        print(tb, file=sys.stderr)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        evidence(mod, a.prop, tier, seed, [], [], t0, 1)
        return 1
    results, broken = execute(mod_name, cases, a.jobs, getattr(mod, "LIMIT", 240), a.verbose)
    kn = known(a.prop)
    viol, hits, harness = [], {}, []
    for case, r in results:
        if r["harness"]:
            harness.append((case, r["harness"]))
        for f in r["fails"]:
            k = next((d for key, d in kn if key and f.get("key") == key), None)
            if k:
                hits[k] = hits.get(k, 0) + 1
            else:
                viol.append((case, f))
    labels = {}
    for _, r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if not a.replay:
        evidence(mod, a.prop, tier, seed, results, labels, t0, len(viol), complete=len(results) == len(cases))
    n = sum(r["checks"] for _, r in results)
    print("%s: %d cases, %d monitor evaluations, %d violations, %.1f s; observed %s"
          % (a.prop, len(results), n, len(viol), time.time() - t0,
             ", ".join("%s=%d" % kv for kv in sorted(labels.items()))))
    if viol:
        case, _ = viol[0]
        same = [f for c, f in viol if c is case]
        rp = a.replay or write_replay(a.prop, case, same)
        for c, f in viol[:6]:
            print("  " + json.dumps(f)[:600])
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if harness or broken:
        for case, h in harness[:2]:
            print(json.dumps(case)[:300], h, sep="\n", file=sys.stderr)
        if broken:
            print("worker process died: %s" % broken, file=sys.stderr)
        return 3
    if not a.replay:
        missing = [k for k in getattr(mod, "REQUIRED", ()) if not labels.get(k)]
        if missing or n == 0:
            print("INCONCLUSIVE property=%s monitors never reached: %s" % (a.prop, missing))
            return 2
    return 0


def execute(mod_name, cases, jobs, limit, verbose):
    """run cases on a pool of processes; stops early once enough violations are in hand"""
    import concurrent.futures as cf
    import multiprocessing as mp

    results, broken = [], None
    if jobs <= 1 or len(cases) == 1:
        for c in cases:
            results.append((c, one((mod_name, c, limit))))
            if verbose:
                show(results[-1])
        return results, broken
    ctx = mp.get_context("fork")
    # a group for each worker: what it started ends with it
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=os.setpgrp) as ex:
        fut = {ex.submit(one, (mod_name, c, limit)): i for i, c in enumerate(cases)}
        got, bad = {}, 0
        try:
            for f in cf.as_completed(fut):
                i = fut[f]
                got[i] = f.result()
                if verbose:
                    show((cases[i], got[i]))
                bad += bool(got[i]["fails"])
                if bad >= 4:
                    break
        except cf.process.BrokenProcessPool as e:
            broken = str(e)
        for f in fut:
            f.cancel()
        if bad >= 4:
            for p in list((getattr(ex, "_processes", None) or {}).values()):
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    p.kill()
    return [(cases[i], got[i]) for i in sorted(got)], broken


def show(cr):
    c, r = cr
    print("%6.2fs checks=%d %s %s" % (r["wall"], r["checks"], json.dumps(c)[:120], r["fails"] or r["harness"] or ""), file=sys.stderr)


def write_replay(prop, case, fails):
    import hashlib

    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "case": case, "observed": fails}, indent=1)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(body)
    return p


def evidence(mod, prop, tier, seed, results, labels, t0, violations, complete=True):
    keys = {r["key"] if r["key"] is not None else json.dumps(c, sort_keys=True)
            for c, r in results if r["nontrivial"]}
    samples = [r["sample"] for _, r in results if r["sample"] is not None][:3]
    if not samples:
        samples = [c for c, _ in results[:2]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(keys),
            "monitor_evaluations": sum(r["checks"] for _, r in results),
            "observed": labels,
            "all_generated_cases_ran": complete,
            "rule": mod.RULE,
            "samples": samples,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0" or "RV_CHILD" not in os.environ:
        os.environ["RV_CHILD"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
