"""What a run leaves in its output file and directory."""
import subprocess
import sys

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a whole run was made and its output file and directory were compared with the observations of the same "
        "targets through the public tasks and with the files given in input")
ASSUMPTIONS = ["outputs are looked at after the run is over"]
REQUIRED = ["files of an earlier run", "function", "command", "process", "replaced", "kept", "fresh", "plots", "parallel", "full contributions", "nested output directory",
            "inputs beside the output", "skipped target", "several runs in a directory", "saved payload", "saved payload named as the output", "log file",
            "odd output names", "relative output", "output is a link", "targets of the same name"]


def cases(seed, tier):
    how = ["function", "command", "function", "process", "function", "command"]
    return [{"s": s, "how": how[i % len(how)], "plot": i % 8 == 3, "twice": i % 9 == 4,
             "prior": ["kept", "fresh", "replaced", "kept", "several runs in a directory"][i % 5], "o": {"working_R": 150, "n_ch": 1 + i % 3, "n_tgt": 1 + i % 4}}
            for i, s in enumerate(seeds(seed, count(tier, 36, 360), "C16"))]


def command(argv, cwd=None, process=False):
    """the exorad command, here or in a process of its own"""
    if process:
        env = dict(os.environ, PYTHONPATH=common.REPO, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.argv[0]='exorad'; from exorad.exorad import main; main()"] + argv,
                           cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        return p.returncode, p.stderr
    import exorad.exorad as mod

    old = sys.argv
    sys.argv = ["exorad"] + argv
    try:
        common.sut("the exorad command", mod.main)
    finally:
        sys.argv = old
    return 0, ""


def make_run(case, obs, r, d, exorad, payload_in, run, out, plot, full, n, prior):
    """makes the run as asked; status, and the log file or what went wrong"""
    if case["how"] == "function":
        kw, logname = {}, None
        if r.random() < 0.3:
            logname = os.path.join(d, "run.log")
            kw["log"] = logname
            obs.label("log file")
        if prior == "kept":
            kw["replace"] = False
        common.sut("a run", exorad.standard_pipeline, payload_in, run.csv, output=out, plot=plot, full_contrib=full, n_thread=n, **kw)
        unlog(logname)
        return 0, logname
    else:
        argv = [r.choice(["-p", "--payload"]), payload_in, r.choice(["-t", "--targetList"]), run.csv, *r.choice([["-o" + out], ["--output=" + out]] + ([] if out.startswith("-") else [["-o", out], ["--output", out]]))]
        if full:
            argv.append(r.choice(["-c", "--full_contrib"]))
        if plot:
            argv.append(r.choice(["-P", "--plot"]))
        if n > 1:
            argv += [r.choice(["-n", "--nThreads"]), str(n)]
        code, err = command(argv, cwd=d, process=case["how"] == "process")
        return code, err[-300:]


def check(case, obs, d):
    import h5py
    from exorad.output.hdf5 import load

    import exorad

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    obs.key, obs.nontrivial = case["s"], True
    src = os.path.join(d, "in")
    extras.dress(spec, src, case["s"], obs)
    run = pipe.Run(spec, src)
    skip = None
    if not case["twice"] and r.random() < 0.3 and len(spec["targets"]) > 1 and spec["source"]["kind"] == "planck":
        # a target whose description lacks a value
        skip = r.randrange(len(spec["targets"]))
        lines = open(run.csv).read().splitlines()
        cells = lines[1 + skip].split(",")
        cells[3] = ""  # radius
        lines[1 + skip] = ",".join(cells)
        open(run.csv, "w").write("\n".join(lines) + "\n")
        obs.label("skipped target")
    want = {}
    for i, t in enumerate(run.targets()):
        if i != skip:
            run.observe(t)
            want[str(t.name)] = t
    outdir = r.choice([os.path.join(d, "out"), os.path.join(d, "new", "deep"), src])
    obs.label("inputs beside the output" if outdir == src else "nested output directory" if outdir.endswith("deep") else "plain output directory")
    name = "result.h5"
    if not case["twice"] and case["s"] % 2:
        obs.label("odd output names")
        if outdir != src and (case["prior"] != "kept" or r.random() < 0.3):
            outdir += r.choice([" [run]", ".h5", " {x}~", " é*", " 100%d", "?#&;$HOME"])
        if case["prior"] == "kept" and r.random() < 0.5:
            # a name that is a pattern
            outdir += "" if outdir == src else " [run]"
            name = "res [ult].h5" if outdir == src else "result.h5"
        else:
            name = r.choice(["result.h5", "res [ult].h5", "result", "r.e.s", "réult 1.hdf5", "*.h5", "-n.h5"])
    out = os.path.join(outdir, name)
    full = r.random() < 0.25
    n = r.choice([1, 1, 2, 4]) if case["how"] != "process" else r.choice([1, 2])
    plot = case["plot"] and not full
    payload_in = run.xml
    prior = case["prior"]
    if case["how"] != "function" and prior == "kept":
        prior = "replaced"
    if (case["twice"] or r.random() < 0.15 or (plot and case["s"] % 3 == 0)) and skip is None:
        # a payload saved by an earlier run is as good as its description
        import exorad.tasks as T

        if not case["twice"]:
            payload_in = os.path.join(d, "saved.h5")
            common.sut("saving a payload", T.PreparePayload(), payload_file=run.xml, output=payload_in)
        else:
            # an earlier run, whose output has the name the new one will have, and other targets
            payload_in = os.path.join(d, "before", "result.h5")
            csv = gen.render_targets(spec, d, "before.csv", targets=[dict(spec["targets"][0], name="Before")])
            common.sut("a run", exorad.standard_pipeline, run.xml, csv, output=payload_in)
            obs.label("saved payload named as the output")
        saved = digest(payload_in)
        obs.label("saved payload")
        if full:
            full = False
    obs.label(case["how"], prior)
    if prior == "replaced":
        os.makedirs(outdir, exist_ok=True)
        with h5py.File(out, "w") as f:
            f.create_group("targets/old target")
            f["mine"] = 1
    if prior == "kept":
        os.makedirs(outdir, exist_ok=True)
        with h5py.File(out, "w") as f:
            f["mine/data"] = np.arange(5)
            f["mine"].attrs["note"] = "keep"
            f.create_group("targets/earlier")["x"] = 3.5
    if prior in ("replaced", "kept") and r.random() < 0.3:
        # what stands there is a link to a file elsewhere
        os.rename(out, os.path.join(d, "elsewhere.h5"))
        os.symlink(os.path.join(d, "elsewhere.h5"), out)
        obs.label("output is a link")
    if outdir != src and not case["twice"] and r.random() < 0.4:
        # files of an earlier run, by the same names
        os.makedirs(outdir, exist_ok=True)
        for a in (payload_in, run.csv):
            if os.path.basename(a) != name:
                size, alike = os.path.getsize(a), case["s"] % 2
                with open(os.path.join(outdir, os.path.basename(a)), "wb") as f:
                    # now and then they look like the ones of this run
                    f.write(b"of an earlier run\n" * 400 if not alike else (b"of an earlier run\n" * (size // 18 + 1))[:size])
                if alike:
                    st = os.stat(a)
                    os.utime(os.path.join(outdir, os.path.basename(a)), (st.st_atime, st.st_mtime))
                    obs.label("earlier files of the same size")
        obs.label("files of an earlier run")
    other = None
    if prior == "several runs in a directory":
        other = os.path.join(outdir, "first.h5")
        common.sut("a run", exorad.standard_pipeline, run.xml, run.csv, output=other)
        h0 = digest(other)
    inputs = {k: v for k, v in tree(src).items() if (not k.endswith(".h5") or "_paos" in k) and k != os.path.basename(out)}
    logname = None
    given, back = out, None
    if r.random() < 0.4:
        # as seen from the directory the run is started in
        start = r.choice([outdir, d]) if case["how"] == "function" and os.path.isdir(outdir) else d
        given = os.path.relpath(out, start)
        obs.label("relative output")
        if case["how"] != "process":
            back = os.getcwd()
            os.chdir(start)
    try:
        code, err = make_run(case, obs, r, d, exorad, payload_in, run, given, plot, full, n, prior)
    finally:
        if back:
            os.chdir(back)
    logname = err if case["how"] == "function" else None
    if not obs.expect(code == 0, "the exorad command ended with status %s: %s" % (code, err)):
        return
    for lab, on in (("plots", plot), ("parallel", n > 1), ("full contributions", full)):
        if on:
            obs.label(lab)
    # the directory
    files = sorted(os.listdir(outdir))
    expect = {os.path.basename(out), os.path.basename(payload_in), os.path.basename(run.csv)}
    if other:
        expect.add("first.h5")
        expect.add(os.path.basename(run.xml))
        obs.expect(digest(other) == h0, "the output of a previous run changed")
    if plot:
        expect |= {"efficiency.png"} | {k + ".png" for k in want}
    if outdir == src:
        expect |= {k.split("/")[0] for k in inputs}
    obs.expect(set(files) == expect, "files in the output directory are not the ones described: missing %s, unexpected %s"
               % (sorted(expect - set(files)), sorted(set(files) - expect)))
    for f in files:
        if f.endswith(".png"):
            with open(os.path.join(outdir, f), "rb") as fd:
                obs.expect(fd.read(8) == b"\x89PNG\r\n\x1a\n", "%s is not an image" % f)
    for a in (payload_in, run.csv):
        b = os.path.join(outdir, os.path.basename(a))
        if b == out:
            obs.expect(digest(a) == saved, "the saved payload changed")
        elif os.path.exists(b):
            obs.expect(digest(a) == digest(b), "the copy of %s differs from the file given" % os.path.basename(a))
    now = tree(src)
    obs.expect(all(now.get(k) == v for k, v in inputs.items()), "input files changed")
    # the file
    got = read_output(out)
    names = set(want) | ({"earlier"} if prior == "kept" else set())
    obs.expect(set(got) == names, "targets in the output: %s, expected %s" % (sorted(got), sorted(names)))
    with h5py.File(out, "r") as f:
        if prior == "kept":
            obs.expect("mine" in f and np.array_equal(f["mine/data"][()], np.arange(5)) and f["mine"].attrs.get("note") == "keep"
                       and f["targets/earlier/x"][()] == 3.5, "what the file contained was not kept")
        if prior == "replaced":
            obs.expect("mine" not in f, "what the file contained is still there")
        obs.expect(signed(f), "the output does not say which program made it")
        if payload_in is run.xml:
            chs = f["payload/channels"] if "payload/channels" in f else {}
            obs.expect(set(chs) == set(run.channels), "channels in the output: %s" % sorted(chs))
            for c in run.channels:
                if c in chs:
                    from astropy.io.misc.hdf5 import read_table_hdf5

                    df = diff_tables(read_table_hdf5(chs[c], path=c), run.channels[c].table, meta=False)
                    obs.expect(df is None, "table of channel %s in the output: %s" % (c, df))
                    obs.expect("description" in chs[c] and "built_instr" in chs[c], "channel %s lacks its description" % c)
            desc = load(f["payload/payload description"])
            for k in ("common", "optics", "channel"):
                obs.expect(k in desc, "payload description in the output has no %s" % k)
            for k in ("wl_min", "wl_max"):
                obs.expect(near(desc["common"][k]["value"], run.payload["common"][k]["value"]), "%s in the output is %s" % (k, desc["common"][k]["value"]))
        for name, t in want.items():
            if name not in f["targets"]:
                continue
            g = f["targets"][name]
            for a in ("M", "R", "D", "Teff"):
                obs.expect("star/%s" % a in g and near(quantity(g["star/" + a]), getattr(t.star, a)), "star %s of %s in the output" % (a, name))
            obs.expect("star/sed/data/value" in g and np.array_equal(g["star/sed/data/value"][()], t.star.sed.data.value),
                       "spectrum of %s in the output differs" % name)
            if any(x["kind"] == "sky" for x in spec["foregrounds"]):
                obs.expect("skyTransmission" in g, "sky transmission of %s is not in the output" % name)
    for name, t in want.items():
        if got.get(name) is None:
            continue
        if full:
            miss = [c for c in t.table.colnames if c not in got[name].colnames and not c.startswith("instrument_signal")]
            obs.expect(not miss, "%s: columns %s are not in the output" % (name, miss))
            for c in [c for c in t.table.colnames if c in got[name].colnames and not c.endswith("noise")]:
                obs.expect(same(got[name][c], t.table[c]), "%s: column %s changes with the full contributions" % (name, c))
        elif payload_in is run.xml:
            df = diff_tables(got[name], t.table)
            obs.expect(df is None, "%s in the output differs from the same target observed: %s" % (name, df))
        else:
            obs.expect(sorted(got[name].colnames) == sorted(t.table.colnames), "%s: columns differ with a saved payload" % name)
            for c in t.table.colnames:
                if c in got[name].colnames and c != "chName":
                    un = str(t.table[c].unit or "")
                    a, b = plain(got[name][c])[0], plain(t.table[c])[0]
                    obs.expect(str(got[name][c].unit or "") == un and common.close(a, b, 1e-9), "%s: column %s differs with a saved payload" % (name, c))
        obs.label("tables compared")
    if logname:
        s = open(logname).read() if os.path.exists(logname) else ""
        obs.expect(all(("observing %s" % k) in s for k in want), "the log file does not tell of every target")
    if r.random() < 0.3:
        namesakes(case, obs, r, d, exorad, spec, run)
    obs.sample = {"how": case["how"], "prior": prior, "files": files}


def namesakes(case, obs, r, d, exorad, spec, run):
    """a list where targets share a name: each of them is in the output"""
    base = spec["targets"][0]
    tg = [dict(base), dict(base, D=[base["D"][0] * 1.5, base["D"][1]]), dict(spec["targets"][-1], name="Another")]
    if r.random() < 0.5:
        tg.append(dict(base, D=[base["D"][0] * 2, base["D"][1]]))
    r.shuffle(tg)
    csv = gen.render_targets(spec, d, "namesakes.csv", targets=tg)
    out = os.path.join(d, "namesakes", "out.h5")
    common.sut("a run over targets of the same name", exorad.standard_pipeline, run.xml, csv, output=out, n_thread=r.choice([1, 3]))
    want = run.targets(csv)
    for t in want:
        run.observe(t)
    got = read_output(out)
    obs.label("targets of the same name")
    if not obs.expect(len(got) == len(want), "%d targets, %d in the output: %s" % (len(want), len(got), sorted(got))):
        return
    for t in want:
        name = str(t.name)
        alike = [k for k in got if k == name or k.startswith(name + " ") and k not in [str(x.name) for x in want]]
        obs.expect(any(diff_tables(got[k], t.table, meta=False) is None for k in alike), "one of the targets called %s is not in the output (%s)" % (name, alike))
    obs.expect({str(t.name) for t in want} <= set(got), "targets in the output: %s, expected %s" % (sorted(got), sorted({str(t.name) for t in want})))


def near(a, b):
    from astropy import units as u

    try:
        return bool(abs(u.Quantity(a).to(u.Quantity(b).unit).value - u.Quantity(b).value) <= 1e-12 * abs(u.Quantity(b).value))
    except Exception:
        return False


def quantity(g):
    from astropy import units as u

    un = g["unit"][()]
    return g["value"][()] * u.Unit(un.decode() if isinstance(un, bytes) else un)


def unlog(path):
    """detach the log file of a finished run"""
    import logging

    if path:
        lg = logging.getLogger("exorad")
        for h in list(lg.handlers):
            if getattr(h, "baseFilename", None) == os.path.abspath(path):
                lg.removeHandler(h)
                h.close()
