"""Tasks: parameters taken exactly, nothing kept between calls, composed tasks equal their steps."""
import copy

from .base import *
from .c14 import snapshot, first_diff

LEVEL = "exploration"
RULE = ("a case counts when a random sequence of calls to random user-made tasks agreed with what their declarations say, or when every composed "
        "task of a generated payload was compared bit by bit with its steps and every task refused a parameter it does not have")
ASSUMPTIONS = ["tasks are used from a single thread"]
REQUIRED = ["made tasks", "refused parameter", "default taken", "value given", "call after a refusal", "inherited", "two instances", "failing task",
            "steps of an observation", "steps of a list", "steps of a payload", "steps of the foregrounds", "steps of the noise", "channels listed", "single channel listed", "build one", "payload in hand", "channels written",
            "loaded channel built",
            "table updated", "max signal", "real task refuses", "options after other options", "default after explicit", "public tasks"]
LIMIT = 200


def cases(seed, tier):
    kinds = ["made", "steps", "steps", "made", "steps", "memory"]
    return [{"s": s, "k": i // len(kinds), "kind": kinds[i % len(kinds)], "o": {"working_R": 150, "n_ch": 1 + (i + i // len(kinds)) % 3, "n_tgt": 2}}
            for i, s in enumerate(seeds(seed, count(tier, 60, 900), "C23"))]


def check(case, obs, d):
    obs.key, obs.nontrivial = "%s/%d" % (case["kind"], case["s"]), True
    {"made": made, "steps": steps, "memory": memory}[case["kind"]](case, obs, d, random.Random(case["s"]))


# ------------------------------------------------------------------------------ tasks made for the occasion
def made(case, obs, d, r):
    from exorad.tasks.task import Task

    obs.label("made tasks")
    calls = []

    def build(name, base, base_pars, pars, fails, shape):
        def init(self):
            if base is not None:
                base.__init__(self)
            for p, dv in pars:
                if dv is NO and shape == "short":
                    self.addTaskParam(p, "the parameter %s" % p)
                else:
                    self.addTaskParam(p, "the parameter %s" % p, None if dv is NO else dv)

        allp = dict(base_pars)
        allp.update({p: (None if dv is NO else dv) for p, dv in pars})

        def execute(self):
            got = {p: self.get_task_param(p) for p in allp}
            calls.append((name, got))
            if fails and fails in got and got[fails] == "fail":
                raise RuntimeError("made to fail")
            self.set_output((name, got))

        return type(name, (base or Task,), {"__init__": init, "execute": execute}), allp, fails

    NO = object()
    val = lambda: r.choice([0, 1, -3, 2.5, "", "x", "fail", True, False, None, (1, 2), "default"])  # noqa: E731
    kinds = []
    for i in range(r.randint(2, 4)):
        base = r.choice(kinds) if kinds and r.random() < 0.5 else None
        names = r.sample(["a", "b", "payload", "output", "target", "_x", "default"], r.randint(1, 4))
        pars = [(p, NO if r.random() < 0.4 else val()) for p in names]
        kinds.append(build("Made%d" % i, base[0] if base else None, base[1] if base else {}, pars, r.choice([None] + names), r.choice(["short", "long"])))
        if base:
            obs.label("inherited")
    pool = []
    last_out = {}
    refused_before = set()
    for step in range(40):
        if len(pool) < 2 or r.random() < 0.2:
            k = r.randrange(len(kinds))
            pool.append((k, common.sut("making a task", kinds[k][0])))
        n = r.randrange(len(pool))
        k, t = pool[n]
        cls, allp, fails = kinds[k]
        given = {p: val() for p in r.sample(sorted(allp), r.randint(0, len(allp)))}
        unknown = r.random() < 0.25
        kw = dict(given)
        if unknown:
            u = r.choice([p for p in ["z", "Payload", "a ", "targets", "b", "a", "output"] if p not in allp])
            kw[u] = val()
            items = list(kw.items())
            r.shuffle(items)
            kw = dict(items)
        want = {p: given.get(p, allp[p]) for p in allp}
        before = len(calls)
        err = out = None
        try:
            out = t(**kw)
        except Exception as e:  # noqa: B902
            err = e
        ran = calls[before:]
        what = "call %d of %s(%s)" % (step, cls.__name__, sorted(kw))
        if unknown:
            obs.label("refused parameter")
            obs.expect(isinstance(err, ValueError), "%s: a parameter that does not exist gives %r" % (what, err or out))
            obs.expect(not ran, "%s ran in spite of a parameter that does not exist" % what)
            refused_before.add(n)
            continue
        if n in refused_before:
            obs.label("call after a refusal")
        if len({i for i, (q, _) in enumerate(pool) if q == k}) > 1:
            obs.label("two instances")
        obs.expect(len(ran) == 1 and ran[0] == (cls.__name__, want) and all(type(ran[0][1][p]) is type(want[p]) for p in want),
                   "%s ran with %s, expected %s" % (what, ran, want))
        obs.label("default taken") if len(given) < len(allp) else None
        obs.label("value given") if given else None
        if fails and want.get(fails) == "fail":
            obs.label("failing task")
            obs.expect(isinstance(err, RuntimeError), "%s: the error of the task is lost: %r" % (what, err or out))
            continue
        obs.expect(err is None and out == (cls.__name__, want) and t.get_output() == out, "%s gives %r" % (what, err or out))
    obs.sample = {"tasks": [sorted(k[1]) for k in kinds]}


# ------------------------------------------------------------------------------ the package's own tasks
def equal(obs, a, b, what):
    df = diff_tables(a, b)
    obs.expect(df is None, "%s: %s" % (what, df))


def saved(obs, d, r, run):
    """channels written one by one, or all by the tasks that do, are the same in the file and when loaded"""
    import h5py
    import exorad.tasks as T
    from exorad.output.hdf5 import HDF5Output, load

    sut = common.sut
    pl, ch = run.payload, run.channels
    files = {k: os.path.join(d, k + ".h5") for k in ("one", "all", "prepared")}
    single = "channelClass" in pl["channel"]
    with HDF5Output(files["one"]) as o:
        g = o.create_group("payload")
        g.store_dictionary(pl, group_name="payload description")
        g = g.create_group("channels")
        for c in ch:
            desc = pl["channel"] if single else pl["channel"][c]
            sut("building and writing one instrument", T.BuildInstrument(), type=desc["channelClass"]["value"].lower(), name=c, description=desc,
                payload=pl, write=True, output=g)
    with HDF5Output(files["all"]) as o:
        sut("building and writing channels", T.BuildChannels(), payload=pl, write=True, output=o)
    sut("preparing and writing a payload", T.PreparePayload(), payload_file=run.xml, output=files["prepared"])
    obs.label("channels written")
    got = {}
    for k, f in files.items():
        with h5py.File(f, "r") as h:
            got[k] = snapshot(load(h["payload"]))
            if k == "all":
                p, back = sut("loading a payload", T.LoadPayload(), input=h)
    for k in ("all", "prepared"):
        # one description was completed by building it before it was written, the other was not
        df = first_diff(got[k], got["one"]) or (first_diff(got["one"], got[k]) if k == "all" else None)
        obs.expect(df is None, "channels written one by one differ from those of the %s task: %s" % ("preparing" if k == "prepared" else "building", df))
    p4, ch4, wl4 = sut("preparing a saved payload", T.PreparePayload(), payload_file=r.choice(list(files.values())))
    for res, what in ((back, "loaded"), (ch4, "prepared from its file")):
        obs.expect(sorted(res) == sorted(ch), "a saved payload has channels %s when %s" % (list(res), what))
        for c in res:
            equal_but(obs, res[c].table, ch[c].table, set(), "channel %s %s is not the one that was saved" % (c, what))
            # built already, from a description that may have lost its order
            try:
                res[c].build()
                obs.expect(False, "channel %s is built again after it was %s" % (c, what))
            except ValueError:
                obs.expect(True, "")
            obs.label("loaded channel built")


def steps(case, obs, d, r):
    import exorad.tasks as T
    from astropy import units as u
    from astropy.table import QTable

    spec = gen.gen_spec(case["s"], **case["o"])
    extras.dress(spec, os.path.join(d, "in"), case["s"], obs)
    run = pipe.Run(spec, os.path.join(d, "in"))
    pl, ch, wl = run.payload, run.channels, run.wl_range
    sut = common.sut
    # a payload, and the channels one by one
    p2, ch2, wl2 = sut("preparing the payload", T.PreparePayload(), payload_file=run.xml)
    obs.label("steps of a payload")
    df = first_diff(snapshot(pl), snapshot(p2))
    obs.expect(df is None, "preparing a payload loads another description: %s" % df)
    obs.expect(list(ch2) == list(ch) and tuple(wl2) == tuple(wl), "preparing a payload gives channels %s over %s" % (list(ch2), wl2))
    for c in ch:
        equal(obs, ch2[c].table, ch[c].table, "channel %s of a prepared payload is not the one built" % c)
    single = "channelClass" in pl["channel"]
    for c in ch:
        desc = pl["channel"] if single else pl["channel"][c]
        one = sut("building one instrument", T.BuildInstrument(), type=desc["channelClass"]["value"].lower(), name=c, description=desc, payload=pl,
                  **r.choice([{}, {"write": False}, {"write": False, "output": None}]))
        obs.label("build one")
        equal(obs, one.table, ch[c].table, "instrument %s built alone is not the one of the channels" % c)
        obs.expect(type(one) is type(ch[c]) and one.name == c, "instrument %s is a %s named %s" % (c, type(one).__name__, one.name))
    if r.random() < 0.5:
        # the description in hand does as well as the file
        p3, ch3, wl3 = sut("preparing a payload in hand", T.PreparePayload(), payload_file=pl)
        obs.label("payload in hand")
        obs.expect(list(ch3) == list(ch) and tuple(wl3) == tuple(wl) and p3 is pl, "preparing a payload in hand gives channels %s over %s" % (list(ch3), wl3))
        for c in ch3:
            equal(obs, ch3[c].table, ch[c].table, "channel %s of a payload prepared in hand is not the one of the file" % c)
    if r.random() < 0.5:
        saved(obs, d, r, run)
    # which channel is what
    kinds = {"Photometer": [], "Spectrometer": []}
    for c in spec["channels"]:
        kinds[c["cls"]].append(c["name"])
    for k, want in kinds.items():
        got = sut("listing channels", T.GetChannelList(), options=pl, channel_type=r.choice([k, k.lower(), k.upper()]))
        obs.label("channels listed" if len(spec["channels"]) > 1 else "single channel listed")
        obs.expect(list(got) == want, "%ss listed: %s, the payload has %s" % (k, got, want))
    # an observation, step by step
    a, b = run.targets()[0], run.targets()[0]
    run.observe(a)
    t = sut("preparing the target", T.PrepareTarget(), target=b, channels=ch)
    obs.expect(t is b and hasattr(t, "table"), "a prepared target is not the one given, with a table")
    equal_but(obs, t.table, run.merged(), {"name", "ExoRad version"}, "the table of a prepared target is not that of its channels")
    frg = pl["common"].get("foreground")
    if frg is not None:
        e = run.targets()[0]
        fs = [frg] if "value" in frg else list(frg.values())
        for f in fs:
            if f["value"] == "zodiacal":
                sut("estimating the zodi", T.EstimateZodi(), zodi=f, target=e, wl_range=wl)
            else:
                sut("estimating a layer", T.EstimateForeground(), foreground=f, target=e, wl_range=wl)
        t = sut("estimating the foregrounds", T.EstimateForegrounds(), foregrounds=frg, target=t, wl_range=wl)
        obs.label("steps of the foregrounds")
        obs.expect(list(e.foreground) == list(t.foreground), "foregrounds %s one by one, %s together" % (list(e.foreground), list(t.foreground)))
        for n in set(e.foreground) & set(t.foreground):
            obs.expect(np.array_equal(e.foreground[n].data, t.foreground[n].data) and np.array_equal(e.foreground[n].wl_grid, t.foreground[n].wl_grid),
                       "the radiance of %s depends on how the foregrounds are estimated" % n)
        obs.expect(hasattr(e, "skyTransmission") == hasattr(t, "skyTransmission") and
                   (not hasattr(e, "skyTransmission") or np.array_equal(e.skyTransmission.data, t.skyTransmission.data)),
                   "the transmission of the sky depends on how the foregrounds are estimated")
        t = sut("propagating the foregrounds", T.PropagateForegroundLight(), channels=ch, target=t)
    t, sed = sut("loading the source", T.LoadSource(), target=t, source=pl["common"]["sourceSpectrum"], wl_range=wl)
    obs.expect(np.array_equal(sed.data, t.star.sed.data), "the source returned is not the one of the target")
    t = sut("propagating the star", T.PropagateTargetLight(), channels=ch, target=t)
    held = t.table.copy()
    t = sut("estimating the noise", T.EstimateNoise(), target=t, channels=ch)
    obs.label("steps of an observation")
    equal(obs, a.table, t.table, "observing a target is not the sum of its steps")
    # a step made twice
    e = copy.deepcopy(t)
    e = sut("propagating the star again", T.PropagateTargetLight(), channels=ch, target=e)
    e = sut("estimating the noise again", T.EstimateNoise(), target=e, channels=ch)
    obs.label("steps made twice")
    for k in a.table.colnames:
        obs.expect(k in e.table.colnames and same(u.Quantity(e.table[k]) if e.table[k].dtype.kind == "f" else e.table[k],
                                                  u.Quantity(a.table[k]) if a.table[k].dtype.kind == "f" else a.table[k]),
                   "%s changes when the star is propagated and the noise estimated twice" % k)
    # the noise, channel by channel, on the table reached before it
    c = run.targets()[0]
    c.table = held
    c = sut("estimating the brightest pixel", T.EstimateMaxSignal(), target=c)
    obs.label("max signal")
    cols = [k for k in held.colnames if k.endswith("_MaxSignal_inPixel")]
    tot = sum(np.asarray(held[k].to(u.ct / u.s).value) for k in cols)
    obs.expect("MaxSignal_inPixel" in c.table.colnames and common.close(c.table["MaxSignal_inPixel"].to(u.ct / u.s).value, tot, 1e-12),
               "the brightest pixel is not the sum of %s" % cols)
    names = np.array([str(x) for x in t.table["chName"]])
    for n in ch:
        # it picks the rows by the name the description has
        desc = dict(ch[n].description, value=n) if r.random() < 0.5 or ch[n].description["value"] != n else ch[n].description
        tab = sut("estimating the noise in a channel", T.EstimateNoiseInChannel(), target=c, channel=desc, payload=ch[n].payload)
        obs.label("steps of the noise")
        for k in tab.colnames:
            w = t.table[k][names == n]
            obs.expect(same(u.Quantity(tab[k]), u.Quantity(w)), "%s of %s alone is not that of the whole table" % (k, n))
        alone = sut("estimating the noise without payload", T.EstimateNoiseInChannel(), target=c, channel=desc)
        lost = [x["name"] + "_noise" for x in spec["custom_noise"]]
        obs.expect([k for k in tab.colnames if k not in lost] == [k for k in alone.colnames if k not in lost] , "noise terms of %s without the payload: %s against %s" % (n, alone.colnames, tab.colnames))
        for k in alone.colnames:
            if k in tab.colnames and k not in ("total_noise",) + tuple(lost):
                obs.expect(same(u.Quantity(alone[k]), u.Quantity(tab[k])), "%s of %s depends on the payload given" % (k, n))
    # a table put into the target's
    g = run.targets()[0]
    g.table = held.copy()
    new = QTable()
    k = r.choice([x for x in held.colnames if x not in ("chName",)])
    new[k] = held[k] * 2 if hasattr(held[k], "unit") and held[k].unit is not None else np.asarray(held[k]) * 2
    new["extra"] = np.arange(len(held)) * u.s
    new.meta["by"] = "me"
    g.table.meta["by"], g.table.meta["kept"] = "somebody else", 1
    g = sut("updating a table", T.UpdateTargetTable(), target=g, table=new)
    obs.label("table updated")
    obs.expect(sorted(g.table.colnames) == sorted(held.colnames + ["extra"]), "an updated table has columns %s" % g.table.colnames)
    for x in g.table.colnames:
        w = new[x] if x in new.colnames else held[x]
        obs.expect(same(g.table[x], w), "column %s of an updated table is not the %s one" % (x, "new" if x in new.colnames else "old"))
    obs.expect(g.table.meta.get("by") == "me" and g.table.meta.get("kept") == 1 and all(x in g.table.meta for x in held.meta), "the metadata of an updated table are lost")
    # a list
    res = sut("observing a list", T.ObserveTargetlist(), targets=run.targets(), payload=pl, channels=ch, wl_range=wl)
    obs.label("steps of a list")
    want = [t_["name"] for t_ in spec["targets"]]
    obs.expect(list(res) == want, "the list observed holds %s, expected %s" % (list(res), want))
    if a.name in res:
        equal(obs, res[a.name].table, a.table, "a target of a list is not what it is alone")
    refuse(case, obs, d, r, run, a)
    obs.sample = {"columns": t.table.colnames[:8]}


def equal_but(obs, a, b, extra, what):
    df = diff_tables(a, b, meta=False)
    obs.expect(df is None, "%s: %s" % (what, df))
    obs.expect(set(a.meta) - extra == set(b.meta), "%s: metadata %s" % (what, sorted(a.meta)))


def refuse(case, obs, d, r, run, a):
    """a parameter no task has is refused before anything happens"""
    import exorad.tasks as T
    from exorad.tasks.task import Task

    seen = [v for k, v in vars(T).items() if isinstance(v, type) and issubclass(v, Task) and v is not Task]
    obs.label("public tasks")
    obs.expect(len(seen) >= 15, "%d public tasks" % len(seen))
    out = os.path.join(d, "never.h5")
    known = {"payload_file": run.xml, "output": out, "filename": run.xml, "payload": run.payload, "channels": run.channels, "target": a,
             "wl_range": run.wl_range, "target_list": run.csv, "targets": [a], "options": run.payload, "channel_type": "photometer",
             "source": run.payload["common"]["sourceSpectrum"], "n_thread": 1}
    before = (snapshot(run.payload), {c: run.channels[c].table.copy() for c in run.channels}, a.table.copy(), tree(d))
    for cls in r.sample(seen, min(8, len(seen))):
        t = cls()
        kw = {k: v for k, v in known.items() if k in (getattr(t, "_task_params", None) or {})} if r.random() < 0.7 else {}
        kw[r.choice(["nThreads", "Target", "payloadfile", "wlrange", "verbose", "target_name"])] = 1
        err = None
        try:
            with common.contextlib.redirect_stdout(common.io.StringIO()):
                t(**kw)
        except Exception as e:  # noqa: B902
            err = e
        obs.label("real task refuses")
        obs.expect(isinstance(err, ValueError), "%s with a parameter it does not have gives %r" % (cls.__name__, err))
    after = (snapshot(run.payload), {c: run.channels[c].table for c in run.channels}, a.table, tree(d))
    obs.expect(before[0] == after[0] and before[3] == after[3], "a refused task changed the payload or wrote files")
    for c in before[1]:
        equal(obs, after[1][c], before[1][c], "a refused task changed channel %s" % c)
    equal(obs, after[2], before[2], "a refused task changed the target")


def memory(case, obs, d, r):
    """one instance of a task called with other parameters in turn"""
    import exorad.tasks as T

    sut = common.sut
    spec = gen.gen_spec(case["s"], **case["o"])
    extras.dress(spec, os.path.join(d, "in"), case["s"], obs)
    run = pipe.Run(spec, os.path.join(d, "in"))
    # options from two places: a path given for one call is not that of the next
    other = os.path.join(d, "other")
    os.makedirs(other)
    f = os.path.join(d, "conf.xml")
    home, away = os.path.join(d, "home"), os.path.join(d, "away")
    with open(f, "w") as x:
        x.write("<root><ConfigPath>%s</ConfigPath><thing>__ConfigPath__/f</thing></root>" % home)
    bare = os.path.join(d, "bare.xml")
    with open(bare, "w") as x:
        x.write("<root><thing>7</thing></root>")
    load = T.LoadOptions()
    for kw, want in r.sample([({}, home), ({"config_path": away}, away), ({"config_path": None}, home), ({"config_path": other}, other)] * 2, 8):
        got = sut("loading options", load, filename=f, **kw)
        obs.label("options after other options")
        obs.expect(got["thing"]["value"] == want + "/f", "options loaded with %s hold %s" % (kw, got["thing"]["value"]))
        if r.random() < 0.4:
            got = sut("loading options", load, filename=bare)
            obs.expect(got == {"thing": {"value": 7}}, "a second description is mixed with the first: %s" % got)
        if r.random() < 0.3:
            try:
                load(filename=os.path.join(d, "none.xml"))
                obs.expect(False, "missing options are loaded")
            except OSError:
                obs.checks += 1
    # an output asked for once is not written again
    prep = T.PreparePayload()
    out = os.path.join(d, "a.h5")
    sut("preparing a payload", prep, payload_file=run.xml, output=out)
    h = digest(out)
    _, ch, _ = sut("preparing a payload", prep, payload_file=run.xml)
    obs.label("default after explicit")
    obs.expect(digest(out) == h, "a payload prepared without output was written in the previous one")
    build = T.BuildChannels()
    from exorad.output.hdf5 import HDF5Output

    b = os.path.join(d, "b.h5")
    with HDF5Output(b) as o:
        sut("building channels", build, payload=run.payload, write=True, output=o)
    ch3 = sut("building channels", build, payload=run.payload)
    for c in run.channels:
        equal(obs, ch[c].table, run.channels[c].table, "channel %s prepared without output differs" % c)
        equal(obs, ch3[c].table, run.channels[c].table, "channel %s built after another call differs" % c)
    # a list observed with plots and workers, then plainly
    task = T.ObserveTargetlist()
    args = {"payload": run.payload, "channels": run.channels, "wl_range": run.wl_range}
    pd = os.path.join(d, "plots")
    os.makedirs(pd)
    first = sut("observing a list", task, targets=run.targets(), n_thread=1 + case["k"] % 2, plot=True, out_dir=pd, debug=True, **args)
    t0 = tree(d)
    again = sut("observing a list", task, targets=run.targets(), **args)
    obs.expect(tree(d) == t0, "a list observed without plots writes %s" % sorted(set(tree(d)) ^ set(t0)))
    obs.expect(list(first) == list(again), "targets %s, then %s" % (list(first), list(again)))
    for n in set(first) & set(again):
        equal(obs, first[n].table, again[n].table, "target %s depends on the call before" % n)
    src = T.LoadSource()
    res = []
    for source in ({"value": "planck"}, {"value": "Planck"}, "planck"):
        t = run.targets()[0]
        _, sed = sut("loading a source", src, target=t, source=source, wl_range=run.wl_range)
        res.append(np.asarray(sed.data.value))
    obs.expect(all(np.array_equal(x, res[0]) for x in res), "the same source described in other ways differs")
    import matplotlib.pyplot as plt

    plt.close("all")
    obs.sample = {"payload": [c["name"] for c in spec["channels"]]}
