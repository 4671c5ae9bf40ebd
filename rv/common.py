"""Shared machinery: sandboxed import of the package, recording, verdicts, evidence."""
import contextlib
import io
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
SCRATCH_ROOT = os.environ.get("RV_SCRATCH", "/tmp")


def setup_env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    if not os.environ.get("MPLCONFIGDIR"):
        d = "/opt/vp/cache/mpl"
        os.environ["MPLCONFIGDIR"] = d if os.path.isdir(d) and os.access(d, os.W_OK) else tempfile.mkdtemp(prefix="rvmpl", dir=SCRATCH_ROOT)
    # a private copy of the matplotlib cache keeps /opt/vp untouched
    priv = os.path.join(tempfile.gettempdir(), "rv_mpl_%d" % os.getuid())
    os.makedirs(priv, exist_ok=True)
    src = os.environ["MPLCONFIGDIR"]
    if src != priv:
        with contextlib.suppress(Exception):
            for f in os.listdir(src):
                if not os.path.exists(os.path.join(priv, f)) and os.path.isfile(os.path.join(src, f)):
                    shutil.copy(os.path.join(src, f), priv)
        os.environ["MPLCONFIGDIR"] = priv


@contextlib.contextmanager
def no_network():
    import socket

    real = socket.socket.connect

    def refuse(self, *a, **k):
        raise OSError("network disabled by the harness")

    socket.socket.connect = refuse
    t = socket.getdefaulttimeout()
    try:
        yield
    finally:
        socket.socket.connect = real
        socket.setdefaulttimeout(t)


_pkg = None


def load_package():
    """import exorad from REPO's working tree, once, without network"""
    global _pkg
    if _pkg is None:
        setup_env()
        if REPO in sys.path:
            sys.path.remove(REPO)
        sys.path.insert(0, REPO)
        warnings.simplefilter("ignore")
        with no_network(), contextlib.redirect_stdout(io.StringIO()):
            import exorad
        where = os.path.dirname(os.path.abspath(exorad.__file__))
        if os.path.dirname(where) != os.path.abspath(REPO):
            raise RuntimeError("imported exorad from %s, not %s" % (where, REPO))
        import exorad.tasks  # noqa

        quiet()
        _pkg = exorad
    return _pkg


def quiet():
    """silence the console handler without touching the logger level under test"""
    for h in logging.getLogger("exorad").handlers:
        if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
            h.setStream(open(os.devnull, "w"))


class SutError(Exception):
    """the code under test raised on an input for which a result is owed"""

    def __init__(self, what, exc):
        tb = traceback.extract_tb(exc.__traceback__)
        loc = next((f for f in reversed(tb) if REPO in f.filename), tb[-1] if tb else None)
        self.where = "%s:%s" % (os.path.relpath(loc.filename, REPO), loc.lineno) if loc else "?"
        super().__init__("%s raised %s: %s (at %s)" % (what, type(exc).__name__, str(exc)[:200], self.where))
        self.exc = exc


said = io.StringIO()  # what the last call printed


def sut(what, fn, *a, **k):
    """call into the code under test; any exception becomes SutError"""
    global said
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except (KeyboardInterrupt, MemoryError):
        raise
    except CaseTimeout as e:
        raise SutError(what, e)
    except BaseException as e:  # noqa
        raise SutError(what, e)


def forked(fn):
    """runs fn in a child process and returns what it returned"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            try:
                out = ("ok", fn())
            except SutError as e:
                out = ("sut", str(e))
            except BaseException:
                out = ("harness", traceback.format_exc())
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child process gave no answer")
    k, v = pickle.loads(data)
    if k == "harness":
        raise RuntimeError(v)
    return k, v


class CaseTimeout(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def h(*_):
        raise CaseTimeout("no result within %d s" % seconds)

    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="rv_", dir=SCRATCH_ROOT)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Obs:
    """what one case's monitors saw"""

    def __init__(self):
        self.checks = 0
        self.fails = []
        self.labels = {}
        self.skipped = 0
        self.key = None
        self.nontrivial = False
        self.sample = None

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def expect(self, ok, msg, **info):
        self.checks += 1
        if not ok:
            self.fail(msg, **info)
        return ok

    def fail(self, msg, **info):
        if len(self.fails) < 8:
            self.fails.append({"what": msg, **{k: jsonable(v) for k, v in info.items()}})


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def close(got, want, rtol=1e-6, atol=0.0):
    """elementwise agreement; NaN matches NaN, inf matches inf"""
    import numpy as np

    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    return bool(ok.all())


def near(got, want, rtol=1e-6, atol=0.0):
    import numpy as np

    with np.errstate(invalid="ignore"):
        return np.isclose(np.asarray(got, float), np.asarray(want, float), rtol=rtol, atol=atol, equal_nan=True)


def worst(got, want):
    import numpy as np

    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return "shapes %s vs %s" % (got.shape, want.shape)
    if not got.size:
        return "nothing to compare"
    with np.errstate(all="ignore"):
        e = np.abs(got - want) / np.where(want == 0, 1, np.abs(want))
    e = np.where(np.isnan(e), np.where(np.isnan(got) == np.isnan(want), 0, np.inf), e)
    i = int(np.argmax(e)) if e.size else 0
    return "row %d: got %r, expected %r (relative %.3g)" % (i, float(got.flat[i]), float(want.flat[i]), float(e.flat[i]))
