"""Where a run writes: its output directory and nothing else, and it lets go of what it used."""
import gc
import sys

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a whole operation ran in a process of its own with every file opened, made, renamed or removed recorded by an "
        "audit hook, and the trees of files around it compared with those before")
ASSUMPTIONS = ["caches of matplotlib and astropy live in their own directories", "log files stay open until the process ends"]
REQUIRED = ["run with output", "run without output", "command", "tasks without output", "plots of an output", "refused run", "previous output kept",
            "files beside the output", "parallel", "log file", "default log file", "plots", "saved payload", "full contributions",
            "relative paths", "writes seen", "descriptors counted"]
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
LIMIT = 200


def cases(seed, tier):
    ops = ["output", "no output", "command", "tasks", "plot", "refused", "output", "refused"]
    return [{"s": s, "op": ops[i % len(ops)], "k": i // len(ops), "o": {"working_R": 150, "n_ch": 1 + i % 2, "n_tgt": 1 + i % 3}}
            for i, s in enumerate(seeds(seed, count(tier, 48, 480), "C21"))]


class Watch:
    """records every change to the file system asked for by this process and its children"""

    def __init__(self, log, skip):
        self.fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.skip = tuple(skip)
        self.on = False

    def start(self):
        import h5py

        self.on = True
        sys.addaudithook(self.hook)
        real = h5py.File.__init__

        def init(obj, name, mode="r", *a, **k):
            if isinstance(name, (str, bytes, os.PathLike)) and mode != "r":
                self.note("hdf5 %s" % mode, os.fsdecode(name))
            real(obj, name, mode, *a, **k)

        h5py.File.__init__ = init
        self.restore = lambda: setattr(h5py.File, "__init__", real)

    def stop(self):
        self.on = False
        self.restore()

    def note(self, what, path):
        p = os.path.abspath(path)
        if p.startswith(self.skip) or p == "/dev/null":
            return
        os.write(self.fd, ("%s\t%s\n" % (what, p)).encode())

    def hook(self, event, args):
        if not self.on:
            return
        try:
            if event == "open":
                path, mode, flags = args
                if isinstance(path, (str, bytes, os.PathLike)) and ((flags or 0) & WRITE or (isinstance(mode, str) and set(mode) & set("wax+"))):
                    self.note("open", os.fsdecode(path))
            elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.utime", "os.chown", "os.setxattr", "shutil.rmtree", "os.chdir"):
                if isinstance(args[0], (str, bytes, os.PathLike)):
                    self.note(event, os.fsdecode(args[0]))
            elif event in ("os.rename", "os.link", "os.symlink", "shutil.move"):
                self.note(event, os.fsdecode(args[1]))
                if event in ("os.rename", "shutil.move"):
                    self.note(event, os.fsdecode(args[0]))
            elif event in ("subprocess.Popen", "os.system", "os.exec", "socket.connect"):
                os.write(self.fd, ("%s\t%s\n" % (event, str(args)[:200].replace("\n", " "))).encode())
        except Exception:
            pass


def descriptors():
    gc.collect()
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith("/") and not t.startswith(("/dev/", "/proc/")):
            out.add(t)
    return out


def check(case, obs, d):
    import exorad
    import exorad.tasks as T

    r = random.Random(case["s"])
    op, k = case["op"], case["k"]
    obs.key, obs.nontrivial = "%s/%d" % (op, case["s"]), True
    spec = gen.gen_spec(case["s"], **case["o"])
    src = os.path.join(d, "in")
    extras.dress(spec, src, case["s"], obs)
    run = pipe.Run(spec, src)
    for x in ("cwd", "home", "tmp", "else"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    with open(os.path.join(d, "else", "precious"), "w") as f:
        f.write("keep")
    cwd = os.path.join(d, "cwd")
    outdir = r.choice([os.path.join(d, "out"), os.path.join(d, "new", "deep"), src, os.path.join(cwd, "res")])
    out = os.path.join(outdir, "result.h5")
    allowed = {outdir}
    fails_ok = False
    payload_in, csv = run.xml, run.csv
    keep = None
    if op in ("output", "no output", "command") and k % 3 == 1:
        payload_in = os.path.join(d, "else", "saved.h5")
        common.sut("saving a payload", T.PreparePayload(), payload_file=run.xml, output=payload_in)
        obs.label("saved payload")
    if outdir != src and r.random() < 0.5:
        os.makedirs(outdir)
        with open(os.path.join(outdir, "notes.txt"), "w") as f:
            f.write("mine")
        obs.label("files beside the output")
    if r.random() < 0.3 and op in ("output", "command"):
        os.makedirs(outdir, exist_ok=True)
        common.sut("saving a payload", T.PreparePayload(), payload_file=run.xml, output=out)
    kw, logs = {}, set()
    if op in ("output", "no output"):
        if r.random() < 0.5 or k == 0:
            kw["n_thread"] = 2
            obs.label("parallel")
        if k % 3 == 0 or r.random() < 0.2:
            kw["log"] = os.path.join(d, "logs.txt") if k % 2 else True
            logs.add(os.path.join(d, "logs.txt") if k % 2 else os.path.join(cwd, "exorad.log"))
            obs.label("log file" if k % 2 else "default log file")
        if op == "output" and k % 4 == 2:
            kw["plot"] = True
            obs.label("plots")
        if payload_in == run.xml and r.random() < 0.3:
            kw["full_contrib"] = True
            obs.label("full contributions")
    rel = r.random() < 0.4 and op in ("output", "no output", "command", "plot")
    if rel:
        obs.label("relative paths")
    path = (lambda p: os.path.relpath(p, cwd)) if rel else (lambda p: p)
    if op == "output":
        obs.label("run with output")
        act = lambda: exorad.standard_pipeline(path(payload_in), path(csv), output=path(out), **kw)
    elif op == "no output":
        allowed = set()
        obs.label("run without output")
        act = lambda: exorad.standard_pipeline(path(payload_in), path(csv), output=None, **kw)
    elif op == "command":
        obs.label("command")
        flags = r.sample([["-d"], ["-n", "2"], ["-l"], ["-P"] if payload_in == run.xml and k % 2 else []], r.randint(0, 3))
        if ["-l"] in flags:
            logs.add(os.path.join(cwd, "exorad.log"))
        if ["-n", "2"] in flags:
            obs.label("parallel")
        to = [] if r.random() < 0.3 else ["-o", path(out)]
        if not to:
            allowed = set()
            flags = [f for f in flags if f != ["-P"]]
        act = lambda: cli("exorad.exorad", ["exorad", "-p", path(payload_in), "-t", path(csv)] + to + sum(flags, []))
    elif op == "tasks":
        allowed = set()
        obs.label("tasks without output")

        def act():
            payload, channels, wl = T.PreparePayload()(payload_file=run.xml, output=None)
            ts = T.LoadTargetList()(target_list=run.csv).target
            T.MergeChannelsOutput()(channels=channels)
            T.GetChannelList()(options=payload, channel_type="Photometer")
            T.LoadSource()(target=ts[0], source=payload["common"]["sourceSpectrum"], wl_range=wl)
            T.ObserveTarget()(target=ts[0], payload=payload, channels=channels, wl_range=wl)
            T.ObserveTargetlist()(targets=ts, payload=payload, channels=channels, wl_range=wl, n_thread=r.choice([1, 2]))
    elif op == "plot":
        obs.label("plots of an output")
        res = os.path.join(d, "else", "res.h5")
        common.sut("a run", exorad.standard_pipeline, run.xml, run.csv, output=res)
        act = lambda: cli("exorad.utils.plotter", ["exorad-plot", "-i", path(res), "-o", path(outdir)] + r.choice([[], ["-n", "0"], ["-t", spec["targets"][0]["name"]]]))
    else:
        # a run that cannot start
        obs.label("refused run")
        fails_ok = True
        what = ["no payload", "no list", "payload is output", "list is output", "bad format", "bad list", "no output dir"][(k + case["s"]) % 7]
        os.makedirs(outdir, exist_ok=True)
        common.sut("saving a payload", T.PreparePayload(), payload_file=run.xml, output=out)
        keep = digest(out)
        if what == "no payload":
            payload_in = os.path.join(d, "else", "missing.xml")
        elif what == "no list":
            csv = os.path.join(d, "else", "missing.csv")
        elif what == "payload is output":
            payload_in = out
        elif what == "list is output":
            out = csv
            keep = digest(csv)
            allowed = set()
        elif what == "bad format":
            payload_in = os.path.join(d, "else", "payload.json")
            open(payload_in, "w").write("{}")
            keep = None
        elif what == "bad list":
            csv = os.path.join(d, "else", "list.dat")
            open(csv, "w").write("x")
            keep = None
        else:
            out, keep, allowed = None, None, set()
            payload_in = os.path.join(d, "else", "missing.xml")
        obs.label("refused: " + what)
        act = lambda: exorad.standard_pipeline(payload_in, csv, output=out)
    log = os.path.join(d, "..", os.path.basename(d) + ".events")
    before = tree(d)
    dirs = {x for x, _, _ in os.walk(d)}
    mpl = os.environ.get("MPLCONFIGDIR", "/nonexistent")

    def child():
        import tempfile

        os.chdir(cwd)
        os.environ.update(HOME=os.path.join(d, "home"), TMPDIR=os.path.join(d, "tmp"))
        tempfile.tempdir = None
        import matplotlib.pyplot as plt

        fds, figs = descriptors(), len(plt.get_fignums())
        umask = os.umask(0o022)
        os.umask(umask)
        path0, env0 = list(sys.path), dict(os.environ)
        w = Watch(log, [mpl])
        w.start()
        err = None
        try:
            try:
                with common.contextlib.redirect_stdout(common.io.StringIO()), common.warnings.catch_warnings():
                    common.warnings.simplefilter("ignore")
                    act()
            except BaseException as e:
                err = "%s: %s" % (type(e).__name__, e)
                del e
        finally:
            w.stop()
        state = []
        if os.getcwd() != cwd:
            state.append("the working directory changed to %s" % os.getcwd())
        if sys.path != path0:
            state.append("the import path changed")
        env1 = dict(os.environ)
        if env1 != env0:
            state.append("environment variables changed: %s" % sorted(k for k in set(env0) | set(env1) if env0.get(k) != env1.get(k)))
        m = os.umask(umask)
        if m != umask:
            state.append("the file creation mask changed")
        left = {p for p in descriptors() - fds if p not in logs and not p.startswith(mpl) and os.path.abspath(p) != os.path.abspath(log) and p.startswith(d)}
        return err, state, sorted(left), len(plt.get_fignums()) - figs

    try:
        k_, v = common.forked(child)
        events = [x.split("\t", 1) for x in open(log).read().splitlines()] if os.path.exists(log) else []
    finally:
        if os.path.exists(log):
            os.remove(log)
    err, state, left, figs = v
    if fails_ok:
        obs.expect(err is not None, "a run that cannot start ended without an error")
    elif not obs.expect(err is None, "%s failed: %s" % (op, err)):
        return
    for s in state:
        obs.expect(False, "after the %s, %s" % (op, s))
    obs.checks += 4
    obs.label("descriptors counted")
    if not fails_ok:
        obs.expect(not left, "files are left open after the %s: %s" % (op, left))
        obs.expect(figs <= 0, "%d figures are left open after the %s" % (figs, op))
    inside = lambda p: any(p == a or p.startswith(a + os.sep) for a in allowed) or p in logs
    # a directory is made on the way to the output
    parents = {os.path.dirname(a) for a in allowed} | {os.path.dirname(os.path.dirname(a)) for a in allowed}
    inputs = {os.path.abspath(p) for p in (payload_in, csv)} | {os.path.join(src, f) for f in os.listdir(src) if f.startswith("data_")}
    for what, p in events:
        obs.labels["writes seen"] = obs.labels.get("writes seen", 0) + 1
        if what in ("subprocess.Popen", "os.system", "os.exec", "socket.connect"):
            obs.expect(False, "a run asks for %s %s" % (what, p))
        elif what == "os.mkdir" and p in parents:
            continue
        elif p in inputs:
            obs.expect(False, "an input is opened for writing or removed (%s %s)" % (what, os.path.relpath(p, d)))
        else:
            obs.expect(inside(p), "%s outside the output directory: %s" % (what, os.path.relpath(p, d)))
    after = tree(d)
    mine = {p: h for p, h in before.items()}
    rewritten = {os.path.relpath(x, d) for x in ([out] if out else []) + [os.path.join(outdir, os.path.basename(payload_in)), os.path.join(outdir, os.path.basename(csv))]}
    for p, h in mine.items():
        if p not in after:
            obs.expect(p in rewritten and fails_ok and keep is None, "%s was removed" % p)
        elif after[p] != h:
            full = os.path.join(d, p)
            obs.expect(not fails_ok and p in rewritten and full not in inputs or full in logs or (fails_ok and keep is None and p in rewritten),
                       "%s was changed" % p)
    for p in after:
        if p not in before:
            obs.expect(inside(os.path.join(d, p)), "%s appeared outside the output directory" % p)
    for x, _, _ in os.walk(d):
        if x not in dirs:
            obs.expect(inside(x) or x in parents, "directory %s appeared" % os.path.relpath(x, d))
    if keep is not None:
        obs.label("previous output kept")
        obs.expect(os.path.exists(out) and digest(out) == keep, "a run that cannot start took the previous output away")
    if not allowed and not logs:
        obs.expect(after == before or (fails_ok and keep is None), "files changed though no output was asked for")
    obs.sample = {"op": op, "changes asked for": len(events), "files": len(after)}


def cli(mod, argv):
    import importlib

    old = sys.argv
    sys.argv = argv
    try:
        importlib.import_module(mod).main()
    finally:
        sys.argv = old
