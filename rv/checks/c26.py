"""Messages: the level chosen stays chosen, log files hold every message once, skipped targets are told."""
import io
import logging

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a random sequence of logging operations, runs and observations ran in a process of its own and, after each, marked messages "
        "of every level were sent and looked for on the screen and in every log file")
ASSUMPTIONS = ["one rank"]
REQUIRED = ["level set", "disabled", "enabled", "enabled after disabled", "log file", "same file again", "second file", "observed", "observed in parallel", "skipped target told",
            "run", "run with log", "debug run", "messages on screen", "messages hidden", "messages in files", "refused operation", "steps in the log",
            "run while silent", "nothing printed", "file of an earlier process", "default file", "run with default log", "file removed and opened again"]
LIMIT = 200
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


def cases(seed, tier):
    return [{"s": s, "k": i, "o": {"working_R": 120, "n_ch": 1, "n_tgt": 3}} for i, s in enumerate(seeds(seed, count(tier, 40, 400), "C26"))]


def check(case, obs, d):
    obs.key, obs.nontrivial = case["s"], True
    k, v = common.forked(lambda: history(case, d))
    if k == "sut":
        obs.checks += 1
        obs.fail(v)
        return
    obs.checks += v["checks"]
    for f in v["fails"]:
        obs.fail(f)
    for a, b in v["labels"].items():
        obs.labels[a] = obs.labels.get(a, 0) + b
    obs.sample = v["sample"]


def history(case, d):
    import exorad
    import exorad.log as L
    import exorad.tasks as T
    from exorad.log.logger import Logger

    obs = common.Obs()
    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    run = pipe.Run(spec, os.path.join(d, "in"))
    bad = r.randrange(3)
    root = logging.getLogger("exorad")
    screen = io.StringIO()
    con = [h for h in root.handlers if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler)]
    obs.expect(len(con) == 1, "%d handlers write on the screen" % len(con))
    for h in con:
        h.setStream(screen)
    outer = io.StringIO()
    logging.getLogger().addHandler(logging.StreamHandler(outer))

    class Speaker(Logger):
        pass

    class Worker(T.LoadOptions):
        pass

    spk = [Speaker(), Speaker()]
    w = Worker()
    w.set_log_name()
    spk.append(w)
    st = {"level": logging.INFO, "off": False}
    held = {}  # path -> what an earlier process left in it
    files = {}  # path -> marks that must be in it
    n = [0]

    def threshold():
        return max(logging.ERROR, st["level"]) if st["off"] else st["level"]

    def marks(when):
        """messages of every level: who sees them"""
        for lv in LEVELS:
            s = r.choice(spk)
            n[0] += 1
            m = "mark-%d-%s" % (n[0], r.choice(["é", "x %s" % lv, "50%", "{}"]))
            screen.seek(0)
            screen.truncate()
            getattr(s, logging.getLevelName(lv).lower())(m)
            on = screen.getvalue().count("mark-%d-" % n[0])
            want = int(lv >= threshold())
            obs.expect(on == want, "%s, a message of level %s is %d times on the screen (chosen level %s%s)"
                       % (when, logging.getLevelName(lv), on, logging.getLevelName(st["level"]), ", disabled" if st["off"] else ""))
            obs.label("messages on screen" if want else "messages hidden")
            if want:
                line = screen.getvalue()
                obs.expect(m in line and logging.getLevelName(lv) in line and type(s).__name__ in line, "a message %r of %s is written %r" % (m, type(s).__name__, line))
            for f in files:
                files[f].append((m, logging.getLevelName(lv), type(s).__name__))

    def observe(parallel, debug=False):
        ts = run.targets()
        ts[bad].star.R = None
        screen.seek(0)
        screen.truncate()
        before = {f: open(f).read() for f in files}
        got = common.sut("observing a list", T.ObserveTargetlist(), targets=ts, payload=run.payload, channels=run.channels, wl_range=run.wl_range,
                         n_thread=2 if parallel else 1, debug=debug)
        obs.expect(set(got) == {t.name for i, t in enumerate(ts) if i != bad}, "targets observed: %s" % sorted(got))
        name = str(ts[bad].name)
        told = [x for x in screen.getvalue().splitlines() if "WARNING" in x and "skipped" in x and name in x]
        if not parallel:
            obs.expect(len(told) == int(threshold() <= logging.WARNING), "the target skipped is told %d times: %s" % (len(told), told[:2]))
            obs.label("skipped target told")
            others = [x for x in screen.getvalue().splitlines() if "skipped" in x and name not in x]
            obs.expect(not others, "targets observed are told skipped: %s" % others[:2])
        for f in files:
            new = open(f).read()[len(before[f]):].splitlines()
            obs.expect(open(f).read().startswith(before[f]), "a log file lost what it held")
            for i, t in enumerate(ts):
                starts = [x for x in new if x.split(" - ")[-1] == "observing %s" % t.name]
                skips = [x for x in new if "target %s skipped" % t.name in x]
                obs.label("steps in the log")
                obs.expect(len(starts) == 1, "the log says %d times that %s is observed" % (len(starts), t.name))
                obs.expect(len(skips) == int(i == bad), "the log says %d times that %s is skipped" % (len(skips), t.name))

    def fresh(f):
        """a log file that this process did not open yet, sometimes left by an earlier one"""
        if f not in files and not os.path.exists(f) and r.random() < 0.5:
            held[f] = "2026-01-01 00:00:00,000 - exorad - INFO - an earlier run\n" * r.randint(1, 3)
            with open(f, "w") as h:
                h.write(held[f])
            obs.label("file of an earlier process")
        return f

    def verify():
        for f, ms in files.items():
            text = open(f, encoding="utf-8", errors="replace").read() if os.path.exists(f) else ""
            obs.expect(text.startswith(held.get(f, "")), "the log file %s lost what an earlier process left in it" % os.path.basename(f))
            lines = text.splitlines()
            for m, lv, cls in ms:
                key = m.split("-", 2)[1]
                hit = [x for x in lines if "mark-%s-" % key in x]
                obs.label("messages in files")
                if obs.expect(len(hit) == 1, "a message of level %s is %d times in the log file %s" % (lv, len(hit), os.path.basename(f))):
                    obs.expect(lv in hit[0] and cls in hit[0] and m in hit[0], "a message %r of %s, level %s, is recorded as %r" % (m, cls, lv, hit[0]))

    ops = ["level", "disable", "enable", "file", "again", "observe", "parallel", "run", "run log", "debug run", "refused", "disable", "enable", "level", "default", "removed"]
    first = [ops[(case["k"] + j) % len(ops)] for j in range(3)]
    plan = first + [r.choice(ops + ["file"]) for _ in range(5)]
    done = []
    marks("at the start")
    for op in plan:
        if op in ("observe", "parallel", "run", "run log", "debug run") and st["off"]:
            obs.label("run while silent")
        if op == "level":
            lv = r.choice(LEVELS)
            L.setLogLevel(lv)
            st.update(level=lv, off=False)
            obs.label("level set")
        elif op == "disable":
            for _ in range(r.choice([1, 1, 2])):
                L.disableLogging()
            st["off"] = True
            obs.label("disabled")
        elif op == "enable":
            if st["off"]:
                obs.label("enabled after disabled")
            for _ in range(r.choice([1, 1, 2])):
                L.enableLogging()
            st["off"] = False
            obs.label("enabled")
        elif op == "default":
            os.chdir(d)
            f = fresh(os.path.join(d, "exorad.log"))
            L.addLogFile()
            files.setdefault(f, [])
            obs.label("default file")
        elif op in ("file", "again", "removed"):
            f = os.path.join(d, "log%d.txt" % r.randrange(3))
            if op == "file" and r.random() < 0.6:
                f = next((x for x in (os.path.join(d, "log%d.txt" % j) for j in range(3)) if x not in files), f)
            f = fresh(f)
            if op == "removed" and files:
                f = r.choice(sorted(files))
                os.remove(f)
                files[f] = []
                held.pop(f, None)
                obs.label("file removed and opened again")
                obs.label("log file")
                L.addLogFile(f)
            elif op == "again" and files:
                f = r.choice(sorted(files))
                obs.label("same file again")
                os.chdir(d)
                alias = r.choice([f, os.path.relpath(f, d), os.path.join(d, ".", os.path.basename(f)), os.path.join(d, "in", "..", os.path.basename(f))])
                L.addLogFile(alias)
            else:
                L.addLogFile(f)
            if f not in files:
                files[f] = []
                obs.label("log file")
                if len(files) > 1:
                    obs.label("second file")
        elif op == "observe":
            observe(False)
            obs.label("observed")
        elif op == "parallel":
            observe(True)
            obs.label("observed in parallel")
        elif op in ("run", "run log", "debug run"):
            kw = {}
            if op == "run log":
                if r.random() < 0.4:
                    os.chdir(d)
                    f = fresh(os.path.join(d, "exorad.log"))
                    kw["log"] = True
                    obs.label("run with default log")
                else:
                    f = kw["log"] = fresh(os.path.join(d, "log%d.txt" % r.randrange(3)))
                files.setdefault(f, [])
                obs.label("run with log")
            if op == "debug run":
                kw["debug"] = True
                st.update(level=logging.DEBUG, off=False)
                obs.label("debug run")
            before = {f: len(open(f).read()) if os.path.exists(f) else 0 for f in files}
            common.sut("a run", exorad.standard_pipeline, run.xml, run.csv, output=r.choice([None, os.path.join(d, "out", "o.h5")]), **kw)
            obs.label("run")
            obs.label("nothing printed")
            obs.expect(common.said.getvalue() == "", "a run prints %r, whatever level was chosen" % common.said.getvalue()[:100])
            for f in files:
                new = open(f).read()[before[f]:].splitlines()
                for t in spec["targets"]:
                    c = len([x for x in new if x.split(" - ")[-1] == "observing %s" % t["name"]])
                    obs.expect(c == 1, "the log of a run says %d times that %s is observed" % (c, t["name"]))
                obs.expect(any("code version" in x for x in new) or "log" in kw, "the log of a run does not say the version of the code")
        else:
            obs.label("refused operation")
            for fn in (lambda: T.LoadOptions()(filename=os.path.join(d, "none.xml")), lambda: T.PreparePayload()(nothing=1),
                       lambda: T.ObserveTarget()(target=None, payload={}, channels={}, wl_range=None)):
                try:
                    fn()
                except Exception:  # noqa: B902
                    pass
        done.append(op)
        marks("after %s" % done)
        verify()
    obs.expect(outer.getvalue() == "", "messages also go to the handlers of other programs: %r" % outer.getvalue()[:200])
    return {"checks": obs.checks, "fails": [f["what"] for f in obs.fails], "labels": obs.labels, "sample": {"operations": done}}
