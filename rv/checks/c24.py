"""Neither the network nor the checkout keeps the package from working; new versions are told."""
import logging
import re
import subprocess
import sys

from .. import net
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the package was imported in a fresh process, or a version looked for, under a network with a planned behaviour that was "
        "asked something, or when a whole run was watched for connections; faults are injected in sockets and at the HTTP transport")
ASSUMPTIONS = ["HTTP is spoken through requests", "change logs follow keepachangelog headings"]
REQUIRED = ["import", "import faulty", "checkout branch", "checkout detached", "checkout packed", "checkout linked", "checkout none", "no connection", "no request",
            "bad status", "bad body", "up to date", "newer told", "newer forced", "several newer", "unreleased ignored", "look-alike versions", "run without network"]
LIMIT = 200
CONNECT = ["OSError", "ConnectionRefusedError", "timeout", "PermissionError", "gaierror", "ConnectionResetError", "BlockingIOError"]
SEND = ["requests.ConnectionError", "requests.Timeout", "requests.SSLError", "requests.TooManyRedirects", "requests.ChunkedEncodingError", "requests.ProxyError",
        "requests.ContentDecodingError", "requests.ReadTimeout", "OSError", "timeout", "ConnectionResetError", "requests.InvalidURL", "requests.RequestException"]
STATUS = [403, 404, 429, 500, 503, 301, 204]
BODY = ["", "not json", "[]", "null", "7", "{}", '{"content": null}', '{"content": 7}', '{"content": "!!!"}', '{"content": "a"}', '"content"', '{"content": ""}',
        '{"content": "/w=="}', "[1, 2", b"\xff\xfe\x00", '{"content": []}', '{"message": "API rate limit exceeded"}', '{"content": {"a": 1}}',
        '{"content": "\\u20ac"}', "<html></html>"]
CHECKOUT = ["branch", "detached", "packed", "linked", "none"]


def cases(seed, tier):
    n = count(tier, 60, 600)
    kinds = ["fault", "versions", "fault", "versions", "import", "versions"]
    out = [{"s": s, "i": i // 6, "k": i // 6 * 3 + i % 6 // 2, "kind": kinds[i % 6]} for i, s in enumerate(seeds(seed, n, "C24"))]
    return out + [{"s": s, "k": 0, "i": 0, "kind": "run"} for s in seeds(seed, count(tier, 3, 12), "C24r")]


def plans():
    out = [("no connection", {"connect": e}) for e in CONNECT]
    out += [("no request", {"send": e}) for e in SEND]
    out += [("bad status", {"status": s, "body": "{}"}) for s in STATUS]
    out += [("bad body", {"body": b}) for b in BODY]
    return out


def plan_of(case):
    ps = plans()
    return ps[(case["s"] * 7 + case["i"]) % len(ps)]


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.got = []

    def emit(self, rec):
        self.got.append((rec.levelno, rec.getMessage()))


def look(plan, **kw):
    """looks for a new version under a planned network: (error, messages, calls)"""
    from exorad.utils.version_control import VersionControl

    h, log = Records(), logging.getLogger("exorad")
    log.addHandler(h)
    err = None
    try:
        with net.Net(plan) as n, common.contextlib.redirect_stdout(common.io.StringIO()):
            VersionControl(**kw)
    except common.CaseTimeout:
        raise
    except BaseException as e:  # noqa: B902
        err = e
    finally:
        log.removeHandler(h)
    return err, h.got, n.calls


def bounded(obs, calls, what):
    for kind, to, limit in calls:
        if kind != "resolve":
            obs.expect(limit is not None and 0 < limit <= 30, "%s waits for %s without limit (%s)" % (what, to, limit))
        if kind == "get":
            obs.expect(to.startswith("GET https://") and "/ExObsSim/ExoRad2-public/" in to, "%s asks for %s" % (what, to))


def check(case, obs, d):
    r = random.Random(case["s"])
    obs.nontrivial = True
    obs.key = "%s/%d" % (case["kind"], case["s"])
    globals()["do_" + case["kind"]](case, obs, d, r)


def do_fault(case, obs, d, r):
    """whatever the network does, nothing is said of versions and nothing fails"""
    ps = plans()
    step = r.randrange(len(ps))
    mine = [ps[(case["k"] * 5 + j + step) % len(ps)] for j in range(5)] + [r.choice([p for p in ps if p[0] == lab]) for lab in ("no connection", "no request", "bad status", "bad body")]
    for lab, plan in mine:
        for force in (False, True):
            err, said, calls = look(plan, force=force)
            obs.label(lab)
            what = "looking for a new version with %s" % (plan,)
            obs.expect(err is None, "%s fails: %s: %s" % (what, type(err).__name__, err))
            obs.expect(calls, "%s does not use the network" % what)
            obs.expect(not [m for lv, m in said if lv >= logging.WARNING], "%s says %s" % (what, [m for lv, m in said if lv >= logging.WARNING][:2]))
            bounded(obs, calls, what)
    obs.sample = {"plans": [p for _, p in mine][:3]}


def changelog(r, versions, unreleased):
    """text of a change log, newest first"""
    out = ["# Changelog", "", "All notable changes, see [Keep a Changelog](https://keepachangelog.com/en/1.0.0/)", ""]
    notes = {}
    if unreleased:
        out += ["## [Unreleased]", ""] + (["### Added", "- not yet out", ""] if r.random() < 0.5 else [])
    for i, v in enumerate(versions):
        out.append("## [%s]%s" % (v, r.choice(["", " - 2024-0%d-1%d" % (r.randint(1, 9), r.randint(0, 9))])))
        notes[v] = ["- change %d of %s" % (j, "x" * (i + 1)) for j in range(r.randint(1, 3))]
        out += ["### Fixed"] + notes[v] + [""] * r.randint(0, 2)
    return "\n".join(out) + "\n", notes


def do_versions(case, obs, d, r):
    """what is told of the versions online"""
    from exorad.utils.version_control import VersionError

    for rnd in range(4):
        look_alike = (case["k"] + rnd) % 3 == 0
        if look_alike:
            vs = ["2.1.%d" % x for x in (112, 110, 12, 11, 1)]
            obs.label("look-alike versions")
        else:
            vs = sorted({(r.randint(0, 3), r.randint(0, 12), r.randint(0, 130)) for _ in range(6)}, reverse=True)
            vs = ["%d.%d.%d" % v for v in vs]
            if (case["k"] + rnd) % 3 == 1:
                # numbers of versions yet to be settled
                vs = [v + r.choice(["", "-rc1", "-beta.2", "b1", ".dev3", "-rc2", ".post1"]) for v in vs]
                obs.label("version with a suffix")
        at = [0, 1, len(vs) - 1, 2][(case["k"] + rnd) % 4]
        unreleased = r.random() < 0.6
        text, notes = changelog(r, vs, unreleased)
        if r.random() < 0.2:
            text = text.replace("\n", "\r\n")
        force = r.random() < 0.4 or (case["i"] + rnd) % 2 == 0
        err, said, calls = look({"body": net.answer(text)}, current_version=vs[at], force=force)
        warn = "\n".join(m for lv, m in said if lv >= logging.WARNING)
        what = "with version %s here and %s online" % (vs[at], vs)
        bounded(obs, calls, what)
        if unreleased:
            obs.label("unreleased ignored")
        if at == 0:
            obs.label("up to date")
            obs.expect(err is None and not warn, "%s: %s %s" % (what, err, warn[:200]))
            continue
        obs.label("newer told")
        obs.expect(vs[0] in warn and vs[at] in warn, "%s the new version is not told: %s" % (what, warn[:200]))
        # besides the list of changes, what is said of the version itself
        known = {x.strip() for x in text.splitlines()}
        own = " ".join(x for x in warn.splitlines() if x.strip() not in known)
        words = set(re.split(r"[^\w.+-]+", own))
        obs.expect(vs[0] in words, "%s the number told is another: %s" % (what, own[:200]))
        obs.expect("not yet out" not in warn, "%s unreleased changes are told" % what)
        lines = set(warn.splitlines())
        for i, v in enumerate(vs):
            told = [x for x in notes[v] if x in lines]
            if i < at:
                obs.expect(told == notes[v], "%s the changes of %s are not told" % (what, v))
                if i:
                    obs.label("several newer")
            else:
                obs.expect(not told, "%s the changes of %s are told as new" % (what, v))
        if force:
            obs.label("newer forced")
            obs.expect(isinstance(err, VersionError), "%s the use of the old version is not prevented when asked to: %r" % (what, err))
        else:
            obs.expect(err is None, "%s: %r" % (what, err))
    obs.sample = {"online": vs, "here": vs[at]}


CHILD = """
import sys, json, os
sys.path[:0] = [%(verif)r]
sys.dont_write_bytecode = True
from rv import net
import logging
n = net.Net(json.loads(%(plan)r))
with n:
    sys.path.insert(0, %(base)r)
    import exorad
    import exorad.tasks
    res = exorad.tasks.LoadOptions()(filename=%(xml)r)
print()
print("ANSWER " + json.dumps({"file": exorad.__file__, "version": exorad.__version__ if isinstance(exorad.__version__, str) else exorad.__version__.__version__, "url": exorad.__url__, "commit": exorad.__commit__, "calls": n.calls,
                  "loaded": res["a"]["value"]}))
"""


def do_import(case, obs, d, r):
    """a fresh process imports the package under a faulty network, from checkouts of several kinds"""
    kind = CHECKOUT[case["i"] % len(CHECKOUT)]
    lab, plan = plan_of(case)
    if isinstance(plan.get("body"), bytes):
        plan = {"send": "requests.Timeout"}
    base = os.path.join(d, "tree")
    os.makedirs(base)
    os.symlink(os.path.join(common.REPO, "exorad"), os.path.join(base, "exorad"))
    sha = "%040x" % r.getrandbits(160)
    g = os.path.join(base, ".git")
    obs.label("checkout " + kind)
    if kind == "linked":
        open(g, "w").write("gitdir: /nowhere/.git/worktrees/x\n")
    elif kind != "none":
        os.makedirs(os.path.join(g, "refs", "heads"))
        open(os.path.join(g, "HEAD"), "w").write(sha + "\n" if kind == "detached" else "ref: refs/heads/work\n")
        if kind == "packed":
            open(os.path.join(g, "packed-refs"), "w").write("%s refs/heads/work\n" % sha)
        elif kind == "branch":
            open(os.path.join(g, "refs", "heads", "work"), "w").write(sha + "\n")
    xml = os.path.join(d, "o.xml")
    open(xml, "w").write("<root><a>7</a></root>")
    before = tree(g) if os.path.isdir(g) else None
    code = CHILD % {"verif": common.VERIF, "plan": json.dumps(plan), "base": base, "xml": xml}
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "RV_CHILD")}
    p = subprocess.run([sys.executable, "-B", "-c", code], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150, stdin=subprocess.DEVNULL)
    obs.label("import")
    obs.label("import faulty")
    out = p.stdout.decode()
    line = next((x for x in out.splitlines() if x.startswith("ANSWER ")), None)
    if not obs.expect(p.returncode == 0 and line, "the package is not imported from a checkout (%s) with %s: %s" % (kind, plan, p.stderr.decode()[-400:])):
        return
    a = json.loads(line[7:])
    if not a["file"].startswith(base):
        raise RuntimeError("imported %s" % a["file"])
    import importlib.metadata

    obs.expect(a["version"] == importlib.metadata.version("exorad"), "the package says it is version %s" % a["version"])
    obs.expect(a["loaded"] == 7, "the package imported with %s does not load options" % plan)
    obs.expect(a["commit"] in ((sha,) if kind == "branch" else (None, sha)), "commit %s of a checkout (%s) of %s" % (a["commit"], kind, sha))
    bounded(obs, a["calls"], "importing the package")
    if before is not None:
        obs.expect(tree(g) == before, "importing the package changed the checkout")
    obs.sample = {"plan": plan, "checkout": kind, "asked": a["calls"]}


def do_run(case, obs, d, r):
    """a whole run does not use the network"""
    import exorad

    spec = gen.gen_spec(case["s"], working_R=150, n_ch=2, n_tgt=2)
    x, c = gen.render_payload(spec, d), gen.render_targets(spec, d)
    with net.Net({"connect": "OSError"}) as n:
        common.sut("a run without network", exorad.standard_pipeline, x, c, output=os.path.join(d, "out", "o.h5"))
    obs.label("run without network")
    obs.expect(not n.calls, "a run uses the network: %s" % n.calls[:3])
    obs.expect(list(read_output(os.path.join(d, "out", "o.h5"))) == [t["name"] for t in spec["targets"]], "a run without network gives no result")
