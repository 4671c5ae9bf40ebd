"""host.py JOB.json   a program that uses the package, with settings of its own; run as a process by the checks.

JOB: {"repo", "settings": {...}, "argv" | "call": {...}, "report": path}
"""
import json
import os
import sys


def apply_before(s):
    """what the program set up before it imports the package"""
    if s.get("chdir"):
        os.chdir(s["chdir"])
    if "umask" in s:
        os.umask(int(s["umask"], 8))
    if s.get("nofile"):
        import resource

        resource.setrlimit(resource.RLIMIT_NOFILE, (s["nofile"], s["nofile"]))
    if s.get("uid"):
        os.setgroups([])
        os.setgid(s["uid"])
        os.setuid(s["uid"])
    if s.get("numpy"):
        import numpy as np

        np.set_printoptions(precision=2, threshold=3, suppress=True)
        np.seterr(all="ignore")
        np.random.seed(99)
    if s.get("h5py"):
        import h5py

        h5py.get_config().track_order = True
    if s.get("pandas"):
        import pandas as pd

        pd.set_option("display.precision", 1)
        pd.set_option("mode.copy_on_write", True)
    if s.get("units"):
        import astropy.units as u
        from astropy.units import imperial

        u.add_enabled_units([imperial])
        u.set_enabled_equivalencies(u.dimensionless_angles())
    if s.get("decimal"):
        import decimal

        decimal.getcontext().prec = 3
    if s.get("pyplot"):
        import matplotlib

        if s["pyplot"] == 2:
            # a program that draws figures of its own, in another format, has one open
            import matplotlib.pyplot as plt

            plt.switch_backend("svg")
            plt.figure()
        matplotlib.rcParams.update({"figure.figsize": (3, 3), "axes.grid": True, "savefig.dpi": 40, "lines.linewidth": 4, "savefig.format": "pdf"})
    if s.get("logging"):
        import logging

        logging.basicConfig(level=logging.CRITICAL, format="host: %(message)s", stream=open(os.devnull, "w"))
    if s.get("socket"):
        import socket

        socket.setdefaulttimeout(17.5)
    if s.get("signals"):
        import signal

        signal.signal(signal.SIGTERM, mine)
        signal.signal(signal.SIGUSR1, mine)
    if s.get("start"):
        import multiprocessing

        multiprocessing.set_start_method(s["start"])
    if s.get("listing"):
        import random

        disk(random.Random(s["listing"]))
    if s.get("recursion"):
        sys.setrecursionlimit(700)


def disk(r):
    """directories are listed in another order, as on another disk"""
    scan, lst = os.scandir, os.listdir

    class Entries:
        def __init__(self, *a):
            with scan(*a) as it:
                self.e = list(it)
            r.shuffle(self.e)
            self.i = iter(self.e)

        def __iter__(self):
            return self.i

        def __next__(self):
            return next(self.i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

    def names(*a):
        n = list(lst(*a))
        r.shuffle(n)
        return n

    os.scandir, os.listdir = Entries, names


def mine(*a):
    pass


def world():
    """settings of the whole process that belong to the program, not to the package"""
    import decimal
    import hashlib
    import locale
    import logging
    import random
    import signal
    import socket
    import threading

    import numpy as np

    st = np.random.get_state()
    m = os.umask(0)
    os.umask(m)
    out = {"directory": os.getcwd(), "environment": hashlib.sha1(repr(sorted(kv for kv in os.environ.items() if kv[0] != "MPLCONFIGDIR")).encode()).hexdigest(), "umask": m, "numpy errors": np.geterr(),
           "numpy printing": {k: str(v) for k, v in np.get_printoptions().items()}, "numpy random state": hashlib.sha1(st[1].tobytes() + repr(st[2:]).encode()).hexdigest(),
           "random state": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(), "recursion limit": sys.getrecursionlimit(), "locale": locale.setlocale(locale.LC_ALL),
           "socket timeout": socket.getdefaulttimeout(), "signals": {str(x): str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE, signal.SIGALRM)},
           "decimals": decimal.getcontext().prec, "root logger": [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable],
           "streams": [sys.stdout is sys.__stdout__, sys.stderr is sys.__stderr__, sys.stdin is sys.__stdin__], "hooks": [sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__],
           "threads": sorted(t.name for t in threading.enumerate() if not t.daemon), "arguments": list(sys.argv)}
    h = sys.modules.get("h5py")
    if h:
        c = h.get_config()
        out["h5py"] = [c.track_order, str(c.complex_names), str(c.bool_names), c.default_file_mode]
    p = sys.modules.get("pandas")
    if p:
        out["pandas"] = [p.get_option("display.precision"), p.get_option("display.max_rows"), p.get_option("mode.copy_on_write")]
    mp = sys.modules.get("multiprocessing")
    if mp:
        out["start method"] = str(mp.get_start_method(allow_none=True)) if mp.get_start_method(allow_none=True) else None
    if "matplotlib" in sys.modules:
        import matplotlib

        out["figures"] = {k: str(v) for k, v in matplotlib.rcParams.items() if k in ("figure.figsize", "axes.grid", "savefig.dpi", "lines.linewidth", "savefig.format", "font.size", "text.usetex", "axes.prop_cycle", "backend")
                          and k != "backend"}
        # not asked before it is chosen
        out["backend"] = str(dict.__getitem__(matplotlib.rcParams, "backend")).lower()
        if "matplotlib.pyplot" in sys.modules:
            out["open figures"] = len(sys.modules["matplotlib.pyplot"].get_fignums())
    if "astropy.units" in sys.modules:
        import astropy.units as u

        out["units"] = [len(u.get_current_unit_registry().all_units) > 0, len(u.get_current_unit_registry().equivalencies)]
    return out


def main():
    job = json.load(open(sys.argv[1]))
    s = job["settings"]
    sys.path.insert(0, job["repo"])
    sys.argv = ["host"] + job.get("argv", [])
    apply_before(s)
    import random

    random.seed(5)
    import numpy  # noqa: F401  the settings asked about must exist

    first = world()
    rep = {"error": None}
    try:
        import exorad

        where = os.path.dirname(os.path.dirname(os.path.abspath(exorad.__file__)))
        if where != os.path.abspath(job["repo"]):
            raise RuntimeError("imported from %s" % where)
        import exorad.tasks  # noqa: F401
        from exorad.exorad import standard_pipeline, main as command

        second = world()
        if s.get("silent"):
            import exorad.log

            exorad.log.disableLogging()

        def work():
            if "call" in job:
                c = job["call"]
                standard_pipeline(c["payload"], c["targets"], **{k: v for k, v in c.items() if k not in ("payload", "targets")})
            else:
                command()

        if s.get("thread"):
            import threading

            box = []

            def inside():
                try:
                    work()
                except BaseException as e:  # noqa: B902
                    box.append(e)

            t = threading.Thread(target=inside)
            t.start()
            t.join()
            if box:
                raise box[0]
        else:
            work()
        for x in job.get("spoiled", []):
            # what is refused elsewhere is refused here too
            try:
                exorad.tasks.PreparePayload()(payload_file=x, output=None)
                rep.setdefault("spoiled", []).append("accepted")
            except Exception as e:
                rep.setdefault("spoiled", []).append(type(e).__name__)
        third = world()
        rep["import"] = {k: [first[k], second.get(k)] for k in first if second.get(k) != first[k]}
        rep["run"] = {k: [second[k], third.get(k)] for k in second if third.get(k) != second[k]}
    except BaseException as e:  # noqa: B902
        import traceback

        rep["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        rep["trace"] = traceback.format_exc()[-1500:]
    with open(job["report"], "w") as f:
        json.dump(rep, f, default=str)


if __name__ == "__main__":
    main()
