"""Repeatability: results depend on the inputs alone, not on what was done before."""
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a random history of loads, builds, observations and reloads over several payloads ran in one process, "
        "each result was compared bit by bit with the one of a process that did nothing else, and the inputs were compared with their "
        "state before every operation")
ASSUMPTIONS = ["histories are sequences in a single thread", "processes of a case are forked from one that has run nothing of the package but its import"]
REQUIRED = ["load", "build", "observe", "observe again", "observe elsewhere", "default resolution", "sky left behind", "merge", "run", "reload", "interleaved payloads", "refused operation", "twins", "nearly equal payloads", "edited in place",
            "psf fits", "psf dir", "psf pixel", "psf pixdir", "psf paos", "stellar grid", "sky map", "spectrum on disk"]
LIMIT = 300


def cases(seed, tier):
    v = [{"n_pay": 2, "n_ops": 14, "bare": True}, {"n_pay": 3, "n_ops": 16, "twins": 1}, {"n_pay": 2, "n_ops": 9, "default_R": True}, {"n_pay": 4, "n_ops": 16, "twins": 4},
         {"n_pay": 3, "n_ops": 14, "twins": 2, "inplace": "grid"}, {"n_pay": 2, "n_ops": 14, "twins": 2, "inplace": "spectrum"}, {"n_pay": 2, "n_ops": 12, "twins": 99, "small": 1e-4}]
    return spread(seed, count(tier, 25, 250), "C14", v)


def snapshot(x, depth=0):
    """comparable deep copy of nested inputs"""
    from astropy.table import Table

    if isinstance(x, dict):
        return ("dict", [(str(k), snapshot(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("list", [snapshot(v, depth + 1) for v in x])
    if isinstance(x, Table):
        return ("table", [(c, snapshot(np.asarray(getattr(x[c], "value", x[c]))), str(x[c].unit)) for c in x.colnames],
                snapshot(dict(x.meta), depth + 1))
    v = getattr(x, "value", x)
    un = str(getattr(x, "unit", ""))
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes() if v.dtype.kind != "O" else str(v.tolist()), un)
    if isinstance(v, (int, float, str, bool, np.number, bytes)) or v is None:
        return (type(v).__name__, repr(v), un)
    return ("object", type(v).__name__)


def first_diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("dict",):
        kb = dict(b[1])
        lost = [k for k, _ in a[1] if k not in kb]
        if lost:
            return "%s: %s removed" % (path or "top", lost)
        # building completes a description with defaults: entries may be added, not changed
        for k, x in a[1]:
            if x != kb[k]:
                df = first_diff(x, kb[k], path + "/" + k)
                if df:
                    return df
        return None
    return "%s: %s became %s" % (path, str(a)[:120], str(b)[:120])


def world():
    import logging
    import warnings

    return {"cwd": os.getcwd(), "environment": dict(os.environ), "numpy errors": dict(np.geterr()),
            "random state": hashlib_(np.random.get_state()), "warning filters": len(warnings.filters),
            "umask": _umask()}


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def hashlib_(st):
    import hashlib

    return hashlib.sha1(st[1].tobytes() + str(st[2:]).encode()).hexdigest()


def packed(table):
    """a table as plain picklable data"""
    return ([(c,) + plain(table[c]) for c in table.colnames], {k: plain(v) for k, v in table.meta.items()})


def unequal(a, b):
    ca, cb = [c[0] for c in a[0]], [c[0] for c in b[0]]
    if ca != cb:
        return "columns %s against %s" % (ca, cb)
    for (n, va, ua), (_, vb, ub) in zip(a[0], b[0]):
        if ua != ub:
            return "unit of %s: %s against %s" % (n, ua, ub)
        if isinstance(va, list):
            if va != vb:
                return "column %s" % n
        elif va.shape != vb.shape or not bool(np.all((va == vb) | ((va != va) & (vb != vb)))):
            return "column %s: %s" % (n, common.worst(va, vb))
    ma, mb = a[1], b[1]
    for k in set(ma) | set(mb):
        if (k in ma) != (k in mb):
            return "metadata %s" % k
        (va, ua), (vb, ub) = ma[k], mb[k]
        if ua != ub or (va != vb if isinstance(va, list) else not np.array_equal(va, vb)):
            return "metadata %s: %s against %s" % (k, va, vb)
    return None


def check(case, obs, d):
    r = random.Random(case["s"])
    o = case["o"]
    specs = []
    twins = o.get("twins", 0)
    for i in range(o["n_pay"]):
        if twins and i:
            # a payload that differs in few values from the first
            tw, changed = gen.twin(specs[0], r, twins, o.get("small", 1.0))
            specs.append(tw)
            obs.label("nearly equal payloads" if "small" in o else "twins")
            for k in changed:
                obs.label("twin " + k)
            continue
        kw = {"working_R": r.choice([150, 211, 300]), "n_ch": r.choice([1, 2]), "n_tgt": 2}
        if o.get("bare"):
            kw["n_frg"] = 0 if i else r.choice([2, 3])
        specs.append(gen.gen_spec(case["s"] * 10 + i, **kw))
        if o.get("default_R") and i == 1:
            specs[-1]["working_R"] = None
            obs.label("default resolution")
    # same names in different payloads: state keyed by name would leak
    if r.random() < 0.7 and not twins and not any("tag" in c for s in specs for c in s["channels"]):
        for s in specs[1:]:
            for a, b in zip(specs[0]["targets"], s["targets"]):
                b["name"] = a["name"]
            for a, b in zip(specs[0]["channels"], s["channels"]):
                old = b["name"]
                b["name"] = a["name"]
                q = b["detector"]["qe"]
                if isinstance(q, dict) and old != a["name"]:
                    q["table"][a["name"]] = q["table"].pop(old)
    dirs = [os.path.join(d, "p%d" % i) for i in range(len(specs))]
    # data files on disk: same name in every payload of a case, not the same content
    often = {"p_psf": 0.95, "p_phoenix": 0.9 * (o["inplace"] == "grid"), "p_map": 0.9, "p_sed": 0.9} if o.get("inplace") else {}
    plan_x = extras.plan(random.Random(case["s"] + 5), specs, **often)
    plan_x["vary"] = bool(often)
    if often and plan_x["map"]:
        for s in specs:
            if not any(f["kind"] == "zodi" for f in s["foregrounds"]):
                s["foregrounds"].insert(0, {"kind": "zodi", "name": "zodiacal"})
    salts = [case["s"] if twins and not often and r.random() < 0.5 else case["s"] + i for i in range(len(specs))]

    def render(i, p):
        for lab in extras.write(specs[i], plan_x, p, salts[i]):
            obs.label(lab)
        return gen.render_payload(specs[i], p), gen.render_targets(specs[i], p)

    files = [render(i, p) for i, p in enumerate(dirs)]
    before = {p: tree(p) for p in dirs}
    place = os.path.join(d, "place")

    def edit(i):
        """in place: the files of every payload are written, one after another, under the same names"""
        if o.get("inplace"):
            files[i] = render(i, place)

    def T():
        import exorad.tasks as t

        return t

    def load(i):
        return common.sut("loading payload %d" % i, T().LoadOptions(), filename=files[i][0])

    def build(p):
        return common.sut("building channels", T().BuildChannels(), payload=p, write=False, output=None)

    def wl(p):
        return (p["common"]["wl_min"]["value"], p["common"]["wl_max"]["value"])

    def reference():
        out = {}
        for i in range(len(specs)):
            k, v = common.forked(lambda: alone(i))
            if k == "sut":
                raise common.SutError("reference", Exception(v))
            out[i] = v
        return out

    def alone(i):
        p = load(i)
        ch = build(p)
        ts = T().LoadTargetList()(target_list=files[i][1]).target
        res = {"channels": {k: packed(ch[k].table) for k in ch}, "merged": packed(T().MergeChannelsOutput()(channels=ch))}
        for j, t in enumerate(ts):
            common.sut("observing", T().ObserveTarget(), target=t, payload=p, channels=ch, wl_range=wl(p))
            res["t%d" % j] = packed(t.table)
        for k in range(len(specs)):
            if k != i:
                edit(k)
                t = T().LoadTargetList()(target_list=files[k][1]).target[0]
                edit(i)
                common.sut("observing", T().ObserveTarget(), target=t, payload=p, channels=ch, wl_range=wl(p))
                res["of %d" % k] = packed(t.table)
        return res

    ref = reference()
    plan = [(r.choice(["load", "build", "observe", "observe", "observe", "observe again", "observe elsewhere", "merge", "reload", "run", "refused"]),
             r.randrange(len(specs)), r.randrange(2), r.random()) for _ in range(o["n_ops"])]
    if twins:
        # each of them is seen at least once before the random part
        plan = [(r.choice(["build", "observe"]), i, r.randrange(2), r.random()) for i in r.sample(range(len(specs)), len(specs))] + plan

    if o.get("bare"):
        # from under a sky to none, and back
        plan = [("observe", 0, 0, 0.1), ("observe elsewhere", 1, 0, 0.1), ("observe again", 0, 0, 0.1)] + plan
        obs.label("sky left behind")

    def history():
        checks, fails, labels, seen = 0, [], {}, []
        st = {i: {} for i in range(len(specs))}
        shared = {}  # tasks kept and used again

        def task(name, x):
            if x < 0.5:
                return shared.setdefault(name, getattr(T(), name)())
            return getattr(T(), name)()

        def lab(x):
            labels[x] = labels.get(x, 0) + 1

        def expect(ok, msg):
            nonlocal checks
            checks += 1
            if not ok and len(fails) < 6:
                fails.append(msg)

        import io, contextlib, warnings

        warnings.simplefilter("ignore")
        w0 = world()

        def payload(i):
            if "payload" not in st[i]:
                edit(i)
                st[i]["payload"] = load(i)
            return st[i]["payload"]

        def channels(i):
            if "channels" not in st[i]:
                st[i]["channels"] = build(payload(i))
            return st[i]["channels"]

        def target(i, j):
            if "targets" not in st[i]:
                edit(i)
                st[i]["targets"] = T().LoadTargetList()(target_list=files[i][1]).target
            return st[i]["targets"][j]

        last, done = None, []
        with contextlib.redirect_stdout(io.StringIO()):
            for n, (op, i, j, x) in enumerate(plan):
                what = "step %d of %s: %s of payload %d" % (n, done, op, i)
                snap = {}
                if o.get("inplace"):
                    edit(i)
                    lab("edited in place")
                for k in st:
                    if "payload" in st[k]:
                        snap[k, "payload"] = snapshot(st[k]["payload"])
                    if "channels" in st[k]:
                        for c in st[k]["channels"]:
                            snap[k, "channel " + c] = snapshot(st[k]["channels"][c].table)
                    for m, t in enumerate(st[k].get("targets", ())):
                        snap[k, "target %d" % m] = snapshot({a: getattr(t.star, a) for a in ("name", "M", "R", "D", "Teff", "magk")})
                if op == "load":
                    st[i] = {}
                    payload(i)
                elif op == "build":
                    st[i].pop("channels", None)
                    ch = channels(i)
                    for c in ch:
                        df = unequal(packed(ch[c].table), ref[i]["channels"][c])
                        expect(df is None, "%s: channel %s is not what it is in a fresh process: %s" % (what, c, df))
                elif op in ("observe", "observe again"):
                    ch = channels(i)
                    t = target(i, j)
                    p = payload(i)
                    for _ in range(2 if op == "observe again" else 1):
                        res = common.sut(what, task("ObserveTarget", x), target=t, payload=p, channels=ch, wl_range=wl(p))
                        df = unequal(packed(res.table), ref[i]["t%d" % j])
                        expect(df is None, "%s: target %d is not what it is in a fresh process: %s" % (what, j, df))
                    seen.append((i, j))
                    if len({a for a, _ in seen[-2:]}) > 1:
                        lab("interleaved payloads")
                elif op == "observe elsewhere":
                    # a target already observed with one payload, now with another
                    k = (i + 1 + j) % len(specs) if len(specs) > 2 else 1 - i
                    if k == i:
                        k = (i + 1) % len(specs)
                    t = target(k, 0)
                    if o.get("inplace"):
                        edit(i)
                    res = common.sut(what, task("ObserveTarget", x), target=t, payload=payload(i), channels=channels(i), wl_range=wl(payload(i)))
                    df = unequal(packed(res.table), ref[i]["of %d" % k])
                    expect(df is None, "%s: a target of payload %d is not what it is in a fresh process: %s" % (what, k, df))
                elif op == "merge":
                    df = unequal(packed(task("MergeChannelsOutput", x)(channels=channels(i))), ref[i]["merged"])
                    expect(df is None, "%s: merged table is not what it is in a fresh process: %s" % (what, df))
                elif op == "reload":
                    # saved and loaded again, used in place of the original from now on
                    h5 = os.path.join(d, "h%d_%d.h5" % (os.getpid(), n))
                    common.sut(what, task("PreparePayload", x), payload_file=files[i][0], output=h5)
                    p, ch, _ = common.sut(what, task("PreparePayload", x), payload_file=h5, output=None)
                    st[i] = {"payload": p, "channels": ch}
                elif op == "run":
                    import exorad

                    out = os.path.join(d, "run%d_%d" % (os.getpid(), n), "o.h5")
                    common.sut(what, exorad.standard_pipeline, files[i][0], files[i][1], output=out)
                    got = read_output(out)
                    for m, t in enumerate(specs[i]["targets"]):
                        if t["name"] in got:
                            df = unequal(packed(got[t["name"]])[:1] + ({},), ref[i]["t%d" % m][:1] + ({},))
                            expect(df is None, "%s: target %d written is not what it is in a fresh process: %s" % (what, m, df))
                else:
                    lab("refused operation")
                    for kw in ({"target": None, "payload": payload(i), "channels": channels(i), "wl_range": wl(payload(i))},
                               {"target": target(i, j), "payload": {"common": {}}, "channels": channels(i), "wl_range": None}):
                        try:
                            task("ObserveTarget", x)(**kw)
                        except Exception:
                            pass
                    try:
                        T().LoadOptions()(filename=os.path.join(d, "missing.xml"))
                    except Exception:
                        pass
                done.append("%s %d" % (op, i))
                lab(op)
                # nothing that was in the user's hands changed
                for (k, name), was in snap.items():
                    if name == "payload" and "payload" in st[k] and not (k == i and op in ("load", "reload")):
                        df = first_diff(was, snapshot(st[k]["payload"]))
                        expect(df is None, "%s changed the description of payload %d: %s" % (what, k, df))
                    if name.startswith("channel ") and "channels" in st[k] and not (k == i and op in ("load", "reload", "build")):
                        c = name[8:]
                        df = first_diff(was, snapshot(st[k]["channels"][c].table))
                        expect(df is None, "%s changed the table of %s of payload %d: %s" % (what, name, k, df))
                    if name.startswith("target ") and "targets" in st[k] and not (k == i and op in ("load", "reload")):
                        t = st[k]["targets"][int(name[7:])]
                        df = first_diff(was, snapshot({a: getattr(t.star, a) for a in ("name", "M", "R", "D", "Teff", "magk")}))
                        expect(df is None, "%s changed what the list says of a target: %s" % (what, df))
                w1 = world()
                for a in w0:
                    if a == "warning filters":
                        continue
                    expect(w0[a] == w1[a], "%s changed the process' %s" % (what, a))
        return checks, fails, labels

    k, v = common.forked(history)
    if k == "sut":
        obs.checks += 1
        obs.fail(v)
        return
    checks, fails, labels = v
    obs.checks += checks
    for f in fails:
        obs.fail(f)
    for a, b in labels.items():
        obs.labels[a] = obs.labels.get(a, 0) + b
    for p in dirs:
        obs.expect(tree(p) == before[p], "input files changed: %s" % sorted(set(tree(p).items()) ^ set(before[p].items()))[:4])
    obs.key, obs.nontrivial = case["s"], True
    obs.sample = {"history": ["%s p%d t%d" % (a, b, c) for a, b, c, _ in plan]}
