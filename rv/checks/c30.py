"""A run and the program or machine it runs in leave each other alone."""
import re
import subprocess
import sys
import time

from .base import *
from .c27 import contents

LEVEL = "exploration"
RULE = ("a case counts when the same run was made by processes with other settings (of interpreter, environment, user, libraries, workers), each of its outputs "
        "was compared value by value with the one made in plain surroundings, and the settings of the process with those before")
ASSUMPTIONS = ["surroundings are those listed in the check, a few at a time", "importing may add directories to the module path and warning filters"]
VARIANTS = {
    "hash seed": {"env": {"PYTHONHASHSEED": "rand"}},
    "optimised": {"py": ["-OO"]},
    "development mode": {"py": ["-X", "dev"]},
    "plain locale": {"env": {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}},
    "no home": {"env": {"HOME": "/nonexistent", "XDG_CONFIG_HOME": "/nonexistent", "XDG_CACHE_HOME": None}},
    "time zone": {"env": {"TZ": "Pacific/Kiritimati"}},
    "numeric threads": {"env": {"OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"}},
    "no locks": {"env": {"HDF5_USE_FILE_LOCKING": "FALSE"}},
    "spectra elsewhere": {"env": {"PHOENIX_PATH": "/nonexistent"}},
    "closed streams": {"closed": True},
    "other user": {"user": True},
    "other directory": {"set": {"chdir": "@away"}},
    "relative paths": {"set": {"chdir": "@base"}, "relative": True},
    "strict umask": {"set": {"umask": "077"}},
    "few files": {"set": {"nofile": 64}},
    "spawned workers": {"set": {"start": "spawn"}, "n": 2},
    "fork server": {"set": {"start": "forkserver"}, "n": 3},
    "forked workers": {"set": {"start": "fork"}, "n": 2},
    "numpy settings": {"set": {"numpy": 1, "decimal": 1, "recursion": 1}},
    "library settings": {"set": {"h5py": 1, "pandas": 1, "pyplot": 1}, "plot": True},
    "own figures": {"set": {"pyplot": 2}, "plot": True},
    "figures": {"env": {"PYTHONHASHSEED": "rand", "TZ": "Asia/Tokyo"}, "plot": True, "twin": 4, "pixels": True},
    "unit settings": {"set": {"units": 1}},
    "host logging": {"set": {"logging": 1, "socket": 1, "signals": 1}},
    "other disk": {"set": {"listing": 7}},
    "side thread": {"set": {"thread": 1}},
    "silent": {"set": {"silent": 1}, "silent": True},
    "at the same time": {"twin": True},
    "command": {"command": True},
}
REQUIRED = list(VARIANTS) + ["settings compared", "outputs compared", "saved payload", "refusals compared", "figures compared"]
LIMIT = 300
# paths, and the descriptions of tables, which are compared as read back
GLUE = ["/file_name", "@file_name", "/ConfigPath/value", "__table_column_meta__"]


def cases(seed, tier):
    names = list(VARIANTS)
    random.Random("C30/%s" % seed).shuffle(names)
    per = 2
    n = count(tier, 15, 200)
    out = []
    for i, s in enumerate(seeds(seed, n, "C30")):
        v = [names[(per * i + j) % len(names)] for j in range(per)]
        out.append({"s": s, "v": v, "saved": i % 3 == 2,
                    "o": {"working_R": [120, 200][i % 2], "n_ch": 4 if "figures" in v else 1 + i % 2, "n_tgt": 1 + (i + 1) % 3, "n_frg": i % 3}})
    return out


SPOIL = [(r'<wl_min unit="[^"]*">', '<wl_min unit="kg">'), (r"<targetR\b", "<noTargetR"), (r"</targetR>", "</noTargetR>"), (r"<channelClass>[^<]*<", "<channelClass>Nothing<"),
         (r'<wl_max unit="[^"]*">[^<]*<', '<wl_max unit="micron">none<'), (r"<Atel\b.*?</Atel>", ""), (r"<detector>", "<retector>"), (r'<delta_pix unit="[^"]*">', '<delta_pix unit="s">')]


def spoil(r, xml, base):
    """descriptions that are refused"""
    out = []
    text = open(xml, encoding="utf-8").read()
    for i, (old, new) in enumerate(r.sample(SPOIL, 5)):
        t = re.sub(old, new, text, flags=re.S)
        if t == text:
            continue
        if "retector" in t:
            t = t.replace("</detector>", "</retector>")
        if "noTargetR" in t:
            t = re.sub(r"(</?)(no)?[tT]argetR\b", r"\1noTargetR", t)
        p = os.path.join(base, "spoiled_%d.xml" % i)
        with open(p, "w", encoding="utf-8") as f:
            f.write(t)
        out.append(p)
    return out


def start(job, v, d, name):
    p = os.path.join(d, name + ".json")
    env = dict(os.environ)
    for k, x in v.get("env", {}).items():
        env.pop(k, None)
        if x is not None:
            env[k] = str(random.Random(name).randrange(2**32)) if x == "rand" else x
    job["report"] = os.path.join(d, name + ".report")
    json.dump(job, open(p, "w"))
    os.chmod(p, 0o644)
    cmd = [sys.executable] + v.get("py", []) + [os.path.join(common.VERIF, "rv", "host.py"), p]
    out = open(os.path.join(d, name + ".out"), "w")
    kw = {"stdout": out, "stderr": subprocess.STDOUT, "stdin": subprocess.DEVNULL}
    if v.get("closed"):
        kw = {"preexec_fn": close_all}
    return subprocess.Popen(cmd, cwd=d, env=env, close_fds=True, **kw), job, name


def pixels(p):
    from matplotlib import image

    return np.asarray(image.imread(p))


def close_all():
    for i in range(3):
        os.close(i)


def finish(obs, h, d):
    p, job, name = h
    try:
        p.wait(timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        obs.fail("%s: the run does not end" % name)
        return None
    if not os.path.exists(job["report"]):
        tail = open(os.path.join(d, name + ".out")).read()[-400:]
        obs.fail("%s: the process ended with %s and no report: %s" % (name, p.returncode, tail))
        return None
    rep = json.load(open(job["report"]))
    obs.checks += 1
    if rep["error"]:
        obs.fail("%s: the run fails: %s" % (name, rep["error"]), trace=rep.get("trace"))
        return None
    return rep


def reachable(d):
    """whether a user without rights can read what the run needs"""
    code = "import os,sys; os.setgroups([]); os.setgid(65534); os.setuid(65534); sys.exit(0 if os.access(%r, os.R_OK) and os.access(%r, os.R_OK|os.X_OK) else 1)"
    q = subprocess.run([sys.executable, "-c", code % (os.path.join(common.REPO, "exorad", "__init__.py"), d)], stderr=subprocess.DEVNULL)
    return os.getuid() == 0 and q.returncode == 0


def check(case, obs, d):
    import exorad
    import exorad.tasks as T

    obs.key, obs.nontrivial = case["s"], True
    spec = gen.gen_spec(case["s"], **case["o"])
    os.chmod(d, 0o755)
    base = os.path.join(d, "in")
    extras.dress(spec, base, case["s"], obs)
    xml = gen.render_payload(spec, base)
    csv = gen.render_targets(spec, base)
    text = open(xml, encoding="utf-8").read()
    with open(xml, "w", encoding="utf-8") as f:
        f.write(re.sub(r"<root>", "<root><!-- caf\u00e9 \u03bc\u00c5 -->", text, count=1))
    src = xml
    refused = []
    for p in spoil(random.Random("C30/spoil/%s" % case["s"]), xml, base):
        try:
            common.sut("a spoiled description", T.PreparePayload(), payload_file=p, output=None)
        except common.SutError as e:
            refused.append((p, type(e.exc).__name__))
    if case["saved"]:
        obs.label("saved payload")
        src = os.path.join(base, "payload.h5")
        common.sut("saving the payload", T.PreparePayload(), payload_file=xml, output=src)
    ref = os.path.join(d, "ref", "o.h5")
    common.sut("the run in plain surroundings", exorad.standard_pipeline, src, csv, output=ref)
    want = {k: x for k, x in contents(ref).items() if not k.endswith(tuple(GLUE))}
    tables = read_output(ref)
    obs.expect(any(k.startswith("targets/") for k in want), "no target in the reference")
    ins = tree(base)
    away = os.path.join(d, "away")
    os.makedirs(away)
    os.chmod(away, 0o777)
    running = []
    for name in case["v"]:
        v = VARIANTS[name]
        s = dict(v.get("set", {}))
        if v.get("user"):
            if not reachable(base):
                obs.label("other user")
                continue
            s["uid"] = 65534
        for i in range({True: 2}.get(v.get("twin"), v.get("twin", 1))):
            nm = name.replace(" ", "_") + ("_%d" % i if i else "")
            od = os.path.join(d, "out_" + nm)
            os.makedirs(od)
            os.chmod(od, 0o777)
            if s.get("chdir") == "@away":
                s["chdir"] = away
            if s.get("chdir") == "@base":
                s["chdir"] = base
            rel = (lambda p: os.path.relpath(p, base)) if v.get("relative") else (lambda p: p)
            out = os.path.join(od, "o.h5")
            n = v.get("n", 1)
            job = {"repo": common.REPO, "settings": s, "spoiled": [] if v.get("silent") else [rel(p) for p, _ in refused]}
            if v.get("command"):
                job["argv"] = ["-p", rel(src), "-t", rel(csv), "-o", rel(out), "-n", str(n)]
            else:
                job["call"] = {"payload": rel(src), "targets": rel(csv), "output": rel(out), "n_thread": n, "plot": bool(v.get("plot"))}
            wd = od if v.get("user") else d
            running.append((name, nm, out, v, start(job, v, wd, nm), wd))
            if v.get("user"):
                for f in os.listdir(od):
                    os.chmod(os.path.join(od, f), 0o666)
    seen = {}
    for name, nm, out, v, h, wd in running:
        rep = finish(obs, h, wd)
        obs.label(name)
        if rep is None:
            continue
        obs.label("settings compared")
        if rep["import"]:
            obs.fail("%s: importing the package changes settings of the process: %s" % (name, json.dumps(rep["import"])[:300]))
        if rep["run"]:
            obs.fail("%s: a run changes settings of the process: %s" % (name, json.dumps(rep["run"])[:300]))
        if refused and not v.get("silent"):
            obs.label("refusals compared")
            obs.expect(rep.get("spoiled") == [k for _, k in refused], "%s: descriptions refused with %s end as %s" % (name, [k for _, k in refused], rep.get("spoiled")))
        if v.get("silent"):
            said = open(os.path.join(wd, nm + ".out")).read()
            lines = [x for x in said.splitlines() if "exorad" in x]
            obs.expect(not lines, "a silenced run writes %r" % lines[:3])
        if not obs.expect(os.path.exists(out), "%s: no output" % name):
            continue
        got = {k: x for k, x in contents(out).items() if not k.endswith(tuple(GLUE))}
        obs.label("outputs compared")
        miss = sorted(set(want) - set(got))[:3]
        more = sorted(set(got) - set(want))[:3]
        obs.expect(not miss and not more, "%s: the output lacks %s and has besides %s" % (name, miss, more))
        bad = [k for k in want if k in got and got[k] != want[k]]
        obs.expect(not bad, "%s: the output differs in %s" % (name, [(k, str(got[k])[:60], str(want[k])[:60]) for k in bad[:3]]))
        tg = read_output(out)
        for t in tables:
            df = diff_tables(tg[t], tables[t]) if t in tg else "missing"
            obs.expect(df is None, "%s: the table of %s: %s" % (name, t, df))
        if v.get("plot"):
            for f in ["efficiency.png"] + ["%s.png" % t for t in tables]:
                p = os.path.join(os.path.dirname(out), f)
                if obs.expect(os.path.exists(p), "%s: no figure %s" % (name, f)) and v.get("pixels"):
                    im = pixels(p)
                    ref = seen.setdefault(f, im)
                    obs.label("figures compared")
                    obs.expect(im.shape == ref.shape and np.array_equal(im, ref), "%s: %s is drawn in another way by another process" % (name, f))
        if v.get("set", {}).get("umask") == "077":
            obs.expect(not os.stat(out).st_mode & 0o077, "%s: the output can be read by others" % name)
    obs.expect(not os.listdir(away), "files left in the working directory: %s" % os.listdir(away))
    obs.expect(tree(base) == ins, "files beside the inputs changed: %s" % sorted(set(tree(base)) ^ set(ins)))
    obs.sample = {"surroundings": case["v"]}
