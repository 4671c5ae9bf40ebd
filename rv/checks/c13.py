"""Campaigns over target lists: parallel = serial = one at a time; failures stay local."""
import copy
import time

import numpy as np

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the same target list was observed one target at a time, serially, and by several worker counts with "
        "injected delays, and every result table of every campaign was compared bit by bit")
ASSUMPTIONS = ["schedules are steered by random delays inside each worker, not enumerated"]
REQUIRED = ["serial", "parallel", "broken targets", "all good", "reordered list", "observed again", "more workers than targets", "targets of the same name", "name like a told apart one", "results kept"]


def cases(seed, tier):
    v = [{"working_R": 150, "n_ch": 2, "n_tgt": k} for k in (3, 5, 7, 4)]
    return spread(seed, count(tier, 24, 240), "C13", v)


def broken(r, t):
    """makes a target impossible to observe"""
    from astropy import units as u

    k = r.randrange(4)
    if k == 0:
        t.star.D = 3.0 * u.s
    elif k == 1:
        t.star.R = 1.0 * u.kg
    elif k == 2:
        del t.star.__dict__["R"]
    else:
        t.star.D = None


def slow(r_seed, log):
    """every observation starts after a delay of its own and leaves its start and end in a log"""
    import exorad.tasks as T

    real = T.ObserveTarget.execute

    def execute(self):
        name = str(getattr(self.get_task_param("target"), "name", "?"))
        rr = random.Random("%s/%s" % (r_seed, name))
        time.sleep(rr.choice([0, 0, 0.01, 0.05, 0.12]))
        note(log, "start", name)
        try:
            return real(self)
        finally:
            time.sleep(rr.choice([0, 0.02, 0.08]))
            note(log, "end", name)

    T.ObserveTarget.execute = execute
    return real


def note(log, what, name):
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, ("%s\t%s\t%d\n" % (what, name, os.getpid())).encode())
    os.close(fd)


def plain_tables(t):
    """what a result says, as plain data"""
    tab = t.table
    out = {"column " + c: np.asarray(getattr(tab[c], "value", tab[c])).tolist() for c in tab.colnames}
    out.update({"metadata " + str(k): str(v) for k, v in tab.meta.items()})
    out.update({"star " + a: str(getattr(t.star, a, None)) for a in ("name", "M", "R", "D", "Teff")})
    out["name"] = str(t.name)
    return out


def check(case, obs, d):
    import exorad.tasks as T

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    obs.key, obs.nontrivial = case["s"], True
    obs.label("source " + spec["source"]["kind"])
    extras.dress(spec, d, case["s"], obs)
    n = len(spec["targets"])
    if r.random() < 0.45:
        # different stars under one name
        same_name = r.choice(spec["targets"])["name"]
        for i in r.sample(range(n), r.choice([2, 2, 3])):
            spec["targets"][i]["name"] = same_name
        if r.random() < 0.8:
            # one whose own name is what the second of them may be told apart by
            rest = [i for i in range(n) if spec["targets"][i]["name"] != same_name]
            if rest:
                spec["targets"][r.choice(rest)]["name"] = same_name + " (2)"
                obs.label("name like a told apart one")
        if sum(t["name"] == same_name for t in spec["targets"]) > 1:
            obs.label("targets of the same name")
    run = pipe.Run(spec, d)
    bad = set(r.sample(range(n), r.choice([0, 1, 1, 2]))) if r.random() < 0.7 else set()
    obs.label("broken targets" if bad else "all good")
    brk = r.randrange(10**6)

    def targets():
        ts = run.targets()
        rr = random.Random(brk)
        for i in sorted(bad):
            broken(rr, ts[i])
        return list(ts)

    def shuffled():
        """the targets in another order, and which of the list each of them is"""
        ts, order = targets(), list(range(n))
        r.shuffle(order)
        return [ts[i] for i in order], order

    # one at a time
    ref = {}
    for i, t in enumerate(targets()):
        if i not in bad:
            run.observe(t)
            ref[i] = t
        elif r.random() < 0.5:
            try:
                with common.warnings.catch_warnings():
                    T.ObserveTarget()(target=t, payload=run.payload, channels=run.channels, wl_range=run.wl_range)
            except Exception:
                obs.label("broken target refused when alone")

    def campaign(ts, what, order=None, **kw):
        order = order or list(range(n))
        res = common.sut("observing a target list (%s)" % what, T.ObserveTargetlist(), targets=ts, payload=run.payload,
                         channels=run.channels, wl_range=run.wl_range, **kw)
        names = [spec["targets"][i]["name"] for i in order]
        want = [i for i in order if i in ref]
        got = [str(k) for k in res]
        # targets of the same name are told apart by what follows it
        ok = len(got) == len(want) and all(k == spec["targets"][i]["name"] or (names.count(spec["targets"][i]["name"]) > 1 and k.startswith(spec["targets"][i]["name"] + " "))
                                           for k, i in zip(got, want))
        obs.expect(ok, "%s: observed targets are not those of the list that can be observed, in the order of the list" % what,
                   got=got, expected=[spec["targets"][i]["name"] for i in want])
        if not ok:
            return res
        for k, i in zip(res, want):
            t, w = res[k], ref[i]
            obs.expect(str(t.name) == str(k), "%s: %s is returned under the name %s" % (what, t.name, k))
            obs.expect(hasattr(t, "table"), "%s: %s has no table" % (what, k))
            if hasattr(t, "table"):
                df = diff_tables(t.table, w.table, meta=str(k) == str(w.name))
                obs.expect(df is None, "%s: %s differs from the same target observed alone: %s" % (what, k, df))
                obs.expect(str(t.table.meta.get("name")) == str(k), "%s: the table of %s is named %s" % (what, k, t.table.meta.get("name")))
            for a in ("M", "R", "D", "Teff"):
                obs.expect(same(getattr(t.star, a), getattr(w.star, a)), "%s: star %s of %s changed" % (what, a, k))
            obs.label("compared results")
        return res

    campaign(targets(), "serial", **({"n_thread": 1} if r.random() < 0.5 else {}))
    obs.label("serial")
    ts, od = shuffled()
    kept = campaign(ts, "reordered list", od, n_thread=1)
    held = {k: (t, plain_tables(t)) for k, t in kept.items()}
    campaign(ts, "list observed again", od, n_thread=1)
    obs.label("reordered list", "observed again")
    # results in hand do not change with what is done with the list afterwards
    few = dict(list(run.channels.items())[:1])
    common.sut("observing the list with one channel", T.ObserveTargetlist(), targets=ts, payload=run.payload, channels=few,
               wl_range=run.wl_range, n_thread=1)
    for t in ts:
        t.star.M = 3 * t.star.M
        t.star.name = "another"
    for k, (t, was) in held.items():
        df = [a for a, b in plain_tables(t).items() if repr(was.get(a)) != repr(b)]
        obs.expect(not df and len(plain_tables(t)) == len(was), "the result %s changed when its list was observed again and its stars were altered" % k, changed=df)
        obs.label("results kept")
    log = os.path.join(d, "events")
    real = slow(case["s"], log)
    try:
        for k in ([2, 3, 8] if n < 8 else [2, 4]):
            open(log, "w").close()
            ts, od = shuffled()
            campaign(ts, "%d workers" % k, od, n_thread=k)
            ev = [x.split("\t") for x in open(log).read().splitlines()]
            ends = [e[1] for e in ev if e[0] == "end"]
            obs.label("parallel")
            if k > n:
                obs.label("more workers than targets")
            order = [str(t.name) for t in ts]
            if ends != [x for x in order if x in ends]:
                obs.label("finished out of order")
            if len({e[2] for e in ev}) > 1:
                obs.label("ran in several processes")
            obs.labels["observations seen"] = obs.labels.get("observations seen", 0) + len(ends)
    finally:
        T.ObserveTarget.execute = real
    obs.sample = {"targets": [t["name"] for t in spec["targets"]], "broken": sorted(bad), "last end order": ends}
