"""Faults while a run works: told, kept where they happen, and gone when the run is made again."""
import errno
import logging
import sys

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a whole run was first made without faults, its places where a fault can happen were numbered, and runs with a fault at chosen places "
        "and the runs made again after them were compared with the first, value by value")
ASSUMPTIONS = ["faults are errors of the file system, lack of memory, failures of a step, or the end of a process, one at a time",
               "files are looked at after the process is over", "a process ended while it writes may spoil the file it writes"]
REQUIRED = ["open", "hdf5 open", "dataset", "group", "attribute", "step", "remove", "mkdir", "copy", "error raised", "target skipped", "skipped target told",
            "process ended", "again in the same process", "again in another process", "previous output", "output added to", "parallel", "worker ended", "plots",
            "earlier targets whole", "no memory", "log file"]
LIMIT = 400
SITES = ["open", "hdf5 open", "dataset", "group", "attribute", "step", "remove", "mkdir", "copy"]
ERRORS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE, errno.EDQUOT, errno.EROFS]


def cases(seed, tier):
    prior = ["none", "replaced", "kept", "replaced"]
    out = []
    for i, s in enumerate(seeds(seed, count(tier, 16, 320), "C27")):
        out.append({"s": s, "k": i, "prior": prior[i % 4], "n": [1, 1, 1, 2][i % 4] if i % 8 != 5 else 3, "plot": i % 6 == 4, "log": i % 5 == 3, "points": 4 if tier == "quick" else 24,
                    "o": {"working_R": 120, "n_ch": 1 + i % 2, "n_tgt": 2 + i % 2}})
    return out


class Fault(RuntimeError):
    """a step fails"""


class Faults:
    """numbers the places below `d` where a fault can happen, and makes one happen"""

    def __init__(self, d, plan=None, log=None):
        self.d, self.plan, self.log = tuple(os.path.join(d, x) for x in ("in", "new", "run.log")), plan, log
        self.seen = {}
        self.on = False
        self.fired = 0
        self.pid = os.getpid()

    def point(self, site):
        if not self.on:
            return
        n = self.seen[site] = self.seen.get(site, 0) + 1
        if self.plan is None or self.plan["site"] != site or self.plan["n"] != n:
            return
        self.fired += 1
        if self.log:
            self.on = False
            fd = os.open(self.log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.write(fd, b"%d\n" % os.getpid())
            os.close(fd)
            self.on = True
        if self.plan["how"] == "end":
            os._exit(9)
        if self.plan["how"] == "memory":
            raise MemoryError("planned")
        if site == "step":
            raise Fault("planned")
        raise OSError(self.plan["errno"], os.strerror(self.plan["errno"]))

    def mine(self, p):
        try:
            return os.path.abspath(os.fsdecode(p)).startswith(self.d)
        except TypeError:
            return False

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open" and not isinstance(args[0], int) and self.mine(args[0]):
            self.point("open")
        elif event == "os.remove" and self.mine(args[0]):
            self.point("remove")
        elif event == "os.mkdir" and self.mine(args[0]):
            self.point("mkdir")
        elif event == "shutil.copyfile" and self.mine(args[1]):
            self.point("copy")

    def install(self):
        import h5py
        from exorad.tasks.task import Task

        sys.addaudithook(self.hook)

        def before(cls, name, site, cond=lambda *a: True):
            real = getattr(cls, name)

            def call(obj, *a, **k):
                if cond(*a):
                    self.point(site)
                return real(obj, *a, **k)

            setattr(cls, name, call)

        before(h5py.File, "__init__", "hdf5 open", lambda *a: bool(a) and isinstance(a[0], (str, bytes, os.PathLike)) and self.mine(a[0]))
        before(h5py.Group, "create_dataset", "dataset")
        before(h5py.Group, "create_group", "group")
        before(h5py.AttributeManager, "__setitem__", "attribute")
        before(Task, "__call__", "step")


def contents(path):
    """{name: value} of everything an HDF5 file holds"""
    import h5py

    out = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            v = o[()]
            out[name] = (str(o.dtype), o.shape, v.tobytes() if hasattr(v, "tobytes") and o.dtype.kind != "O" else repr(v))
        else:
            out[name] = "group"
        for k, v in o.attrs.items():
            if k != "file_time":
                out[name + "@" + k] = repr(v)

    with h5py.File(path, "r") as f:
        f.visititems(visit)
        for k, v in f.attrs.items():
            if k != "file_time":
                out["@" + k] = repr(v)
    return {k: v for k, v in out.items() if not k.endswith("/file_time")}


def different(a, b, below=None):
    """a name whose value differs"""
    ks = [k for k in sorted(set(a) | set(b)) if below is None or (k + "/").startswith(below + "/") or k.startswith(below + "@")]
    for k in ks:
        if a.get(k) != b.get(k):
            return "%s is %s" % (k, "missing" if k not in a else "new" if k not in b else "another")
    return None


def check(case, obs, d):
    import shutil

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    for f in spec["foregrounds"]:
        f.pop("custom_map_file", None)
    obs.key, obs.nontrivial = case["s"], True
    src, out_dir = os.path.join(d, "in"), os.path.join(d, "new", "out")
    extras.dress(spec, src, case["s"], obs, grid=False, sky=False)
    run = pipe.Run(spec, src)
    inputs = tree(src)
    out = os.path.join(out_dir, "result.h5")
    names = [str(t.name) for t in run.targets()]
    msgs, hits = os.path.join(d, "messages"), os.path.join(d, "hits")
    logname = os.path.join(d, "run.log") if case["log"] else None

    def prepare():
        shutil.rmtree(os.path.join(d, "new"), ignore_errors=True)
        if logname and os.path.exists(logname):
            os.remove(logname)
        for p in (msgs, hits):
            open(p, "w").close()
        if case["prior"] != "none":
            import h5py

            os.makedirs(out_dir)
            with h5py.File(out, "w") as f:
                f["mine/data"] = np.arange(5)
                f["mine"].attrs["note"] = "keep"
                f["targets/earlier/x"] = 3.5

    def work(plan, again):
        """in a process of its own: a run with a fault, and maybe the run made again"""
        import exorad

        h = logging.FileHandler(msgs)
        h.setLevel(logging.WARNING)
        logging.getLogger("exorad").addHandler(h)
        fl = Faults(d, plan, hits)
        fl.install()
        kw = {"replace": False} if case["prior"] == "kept" else {}
        if logname:
            kw["log"] = logname

        def go():
            with common.warnings.catch_warnings():
                common.warnings.simplefilter("ignore")
                exorad.standard_pipeline(run.xml, run.csv, output=out, plot=case["plot"], n_thread=case["n"], **kw)

        res = {"error": None, "again": None}
        held = []
        fl.on = True
        try:
            go()
        except BaseException as e:
            # whoever looks into an error keeps it
            held.append(e)
            res["error"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        fl.on = False
        res["seen"], res["fired"] = fl.seen, fl.fired
        res["open"] = opened()
        # what the fault left, before anything else is done
        res["left"] = look()
        if again:
            if case["prior"] == "kept":
                prepare_kept()
            try:
                go()
            except BaseException as e:
                held.append(e)
                res["again"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            res["open"] += opened()
        return res

    def opened():
        """files of the run that are still open"""
        out = []
        for f in os.listdir("/proc/self/fd"):
            try:
                p = os.path.realpath("/proc/self/fd/" + f)
            except OSError:
                continue
            # an image is mapped for as long as the payload of the last run lives
            if p.startswith((os.path.join(d, "new"), src)) and not p.endswith(".fits"):
                out.append(os.path.basename(p))
        return out

    def prepare_kept():
        # a run adds to a file that does not hold its targets
        import h5py

        if os.path.exists(out):
            os.remove(out)
        os.makedirs(out_dir, exist_ok=True)
        with h5py.File(out, "w") as f:
            f["mine/data"] = np.arange(5)
            f["mine"].attrs["note"] = "keep"
            f["targets/earlier/x"] = 3.5

    def look():
        res = {"files": sorted(tree(out_dir)) if os.path.isdir(out_dir) else None, "h5": None, "unreadable": None,
               "copies": {k: v for k, v in (tree(out_dir) if os.path.isdir(out_dir) else {}).items() if not k.endswith((".h5", ".png"))}}
        if os.path.exists(out):
            try:
                res["h5"] = contents(out)
            except Exception as e:
                res["unreadable"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        return res

    prepare()
    k, ref = common.forked(lambda: work(None, False))
    if not obs.expect(ref["error"] is None, "a run without faults failed: %s" % ref["error"]):
        return
    base = ref["left"]
    want = [n for n in names if "targets/" + n in base["h5"]]
    obs.expect(want == names, "a run without faults skipped targets: %s" % sorted(set(names) - set(want)))
    old = {k for k in base["h5"] if k.split("/")[0].split("@")[0] == "mine" or k.startswith("targets/earlier")}
    if case["prior"] == "replaced":
        obs.expect(not old, "the previous output is still there")
        obs.label("previous output")
    if case["prior"] == "kept":
        obs.expect(len(old) >= 4, "what the file contained was not kept")
        obs.label("output added to")
    if case["plot"]:
        obs.label("plots")
    if case["n"] > 1:
        obs.label("parallel")
    if logname:
        obs.label("log file")
    seen = dict(ref["seen"])
    if case["n"] > 1:
        # steps and files of the workers are numbered from the ones before them
        seen["step"] = seen.get("step", 0) + 8
    obs.labels["places numbered"] = sum(seen.values())
    pts = [(s, n) for s in SITES for n in range(1, seen.get(s, 0) + 1)]
    # one of each kind, and more
    plans = []
    kinds = [s for s in SITES if seen.get(s)]
    for i in range(case["points"]):
        site = kinds[(i + case["k"] * 3) % len(kinds)] if i % 3 != 2 else "step"
        if i == 1 and seen.get("mkdir") and case["k"] % 8 == 0:
            site = "mkdir"
        n = r.randint(1, seen[site])
        if case["n"] > 1 and i == 0:
            site, n = "step", seen["step"] - r.randint(1, 7)
        how = "error" if (i + case["k"] // 4) % 4 or case["prior"] == "kept" else "end"
        if how == "error" and (i + case["k"]) % 7 == 3:
            how = "memory"
        plans.append({"site": site, "n": n, "how": how, "errno": r.choice(ERRORS)})
    if case["k"] % 4 == 1:
        # while the last target is written
        plans.append({"site": "dataset", "n": seen["dataset"] - r.randint(0, 20), "how": "error", "errno": r.choice(ERRORS)})
    for plan in plans:
        what = "%s at %s %d of %d" % ({"error": os.strerror(plan["errno"]) if plan["site"] != "step" else "failure", "end": "end of the process",
                                       "memory": "lack of memory"}[plan["how"]], plan["site"], plan["n"], seen[plan["site"]])
        prepare()
        same_process = r.random() < 0.5
        res = None
        try:
            k, res = common.forked(lambda: work(plan, same_process))
        except RuntimeError as e:
            if "no answer" not in str(e):
                raise
        fired = len(open(hits).read().split())
        if not fired:
            obs.label("place not reached")
            continue
        obs.label(plan["site"])
        obs.expect({k: v for k, v in tree(src).items()} == inputs, "%s: the input files changed" % what)
        told = open(msgs).read()
        if res is None:
            obs.label("process ended")
            obs.expect(plan["how"] == "end", "%s: the process of the run died" % what)
        else:
            judge(case, obs, plan, what, res, base, names, told, old)
            obs.expect(not res["open"], "%s: after the run %s is still open" % (what, res["open"]))
            if plan["how"] == "memory":
                obs.label("no memory")
            if plan["how"] == "end":
                obs.label("worker ended")
                obs.expect(res["error"] is not None or any("targets/" + n not in (res["left"]["h5"] or {}) for n in names) or res["left"]["h5"] == base["h5"],
                           "%s: a worker ended and nothing was told" % what)
        if res is not None and same_process:
            obs.label("again in the same process")
            obs.expect(res["again"] is None, "%s: the run made again in the same process failed: %s" % (what, res["again"]))
        else:
            obs.label("again in another process")
            if case["prior"] == "kept":
                prepare_kept()
            k, res2 = common.forked(lambda: work(None, False))
            obs.expect(res2["error"] is None, "%s: the run made again failed: %s" % (what, res2["error"]))
        now = look()
        obs.expect(now["unreadable"] is None, "%s: the output of the run made again cannot be read: %s" % (what, now["unreadable"]))
        if now["h5"] is not None:
            df = different(now["h5"], base["h5"])
            obs.expect(df is None, "%s: the output of the run made again differs: %s" % (what, df))
        obs.expect(now["files"] == base["files"] and now["copies"] == base["copies"], "%s: the files of the run made again are %s, without faults %s" % (what, now["files"], base["files"]))
        obs.expect(tree(src) == inputs, "%s: the input files changed when the run was made again" % what)
    obs.sample = {"places": ref["seen"], "faults": [(p["site"], p["n"], p["how"]) for p in plans[:6]]}


def judge(case, obs, plan, what, res, base, names, told, old):
    """what a run with a fault left"""
    left = res["left"]
    got = left["h5"]
    if left["unreadable"]:
        obs.expect(plan["how"] == "end", "%s: the output cannot be read: %s" % (what, left["unreadable"]))
        return
    there = [n for n in names if got is not None and "targets/" + n in got]
    if res["error"] is None:
        gone = [n for n in names if n not in there]
        for n in gone:
            obs.label("target skipped")
            obs.expect("target %s skipped" % n in told or (n in told and "skip" in told), "%s: target %s is missing and no message tells it" % (what, n))
            obs.label("skipped target told")
        for n in there:
            df = different(got, base["h5"], "targets/" + n)
            obs.expect(df is None, "%s: the run ended well but target %s differs: %s" % (what, n, df))
        rest = {k: v for k, v in (got or {}).items() if not any((k + "/").startswith("targets/%s/" % n) for n in names)}
        full = {k: v for k, v in base["h5"].items() if not any((k + "/").startswith("targets/%s/" % n) for n in names)}
        if not there:
            rest, full = ({k: v for k, v in x.items() if k != "targets" and not k.startswith(("targets@", "targets/"))} for x in (rest, full))
        df = different(rest, full)
        obs.expect(df is None, "%s: the run ended well but the output differs: %s" % (what, df))
        files = [f for f in base["files"] if f not in [n + ".png" for n in gone]]
        # the image of a target may be there before its fault
        have = [f for f in left["files"] or [] if f not in [n + ".png" for n in gone]]
        obs.expect(have == files, "%s: the run ended well but left the files %s instead of %s" % (what, have, files))
        obs.expect(left["copies"] == base["copies"], "%s: the run ended well but the copies of its inputs differ" % what)
        return
    obs.label("error raised")
    if got is None:
        obs.expect(case["prior"] != "kept", "%s: the file to add to is gone" % what)
        return
    if case["prior"] == "kept":
        for k in old:
            obs.expect(got.get(k) == base["h5"][k], "%s: %s, that was in the file before, %s" % (what, k, "is gone" if k not in got else "changed"))
    if case["prior"] == "replaced" and "mine/data" in got:
        obs.expect(not there and not any(k.startswith("payload") for k in got), "%s: the output holds results of this run and of another" % what)
    for n in there[:-1]:
        df = different(got, base["h5"], "targets/" + n)
        obs.expect(df is None, "%s: target %s, written before, is not whole: %s" % (what, n, df))
        obs.label("earlier targets whole")
    if there:
        extra = [k for k, v in got.items() if k.startswith("targets/%s/" % there[-1]) and base["h5"].get(k) != v and v != "group"]
        obs.expect(not extra, "%s: target %s holds wrong values: %s" % (what, there[-1], extra[:3]))
