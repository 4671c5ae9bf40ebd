"""A saved payload is as good as the description it was made from."""
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a payload was saved, loaded from the file (once or twice over), and its channels and observations were "
        "compared with those of the payload built from its description")
ASSUMPTIONS = ["floating point results agree to 1e-12 relative"]
REQUIRED = ["photometer", "spectrometer", "source planck", "source custom", "sky", "zodi", "no foreground", "qe table", "element table", "R table",
            "from a run", "built again", "mixed with others", "single channel", "appended", "channel selection", "in hand", "steps after loading"]


def cases(seed, tier):
    v = [{"working_R": 150}, {"working_R": 211, "n_ch": 1}, {"working_R": 300, "n_frg": 0}, {"working_R": 150, "n_frg": 3, "p_dup": 0.4}]
    return spread(seed, count(tier, 48, 480), "C17", v)


def in_hand(r, tree, u):
    """a description changed by a program: some quantities in other units, the text that named the first one left as it is"""
    n = 0
    for k, v in tree.items():
        if isinstance(v, dict):
            n += in_hand(r, v, u)
        elif k == "value" and isinstance(v, u.Quantity) and r.random() < 0.5:
            for un in (u.nm, u.ms, u.arcmin, u.mm**2):
                if v.unit != u.dimensionless_unscaled and v.unit.is_equivalent(un):
                    tree[k] = v.to(un)
                    n += 1
    return n


def agree(a, b):
    """None or what differs, up to rounding; the order of columns is free"""
    if set(a.colnames) != set(b.colnames):
        return "columns %s" % sorted(set(a.colnames) ^ set(b.colnames))
    if len(a) != len(b):
        return "%d rows against %d" % (len(a), len(b))
    for c in b.colnames:
        (va, ua), (vb, ub) = plain(a[c]), plain(b[c])
        if ua != ub:
            return "unit of %s is '%s' instead of '%s'" % (c, ua, ub)
        if isinstance(vb, list):
            if [str(x.decode() if isinstance(x, bytes) else x) for x in va] != [str(x) for x in vb]:
                return "column %s" % c
        elif not common.close(va, vb, 1e-12):
            return "column %s %s" % (c, common.worst(va, vb))
    return None


def check(case, obs, d):
    import exorad.tasks as T

    import exorad

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    extras.dress(spec, os.path.join(d, "extras"), case["s"], obs)
    c = Case(case, obs, d, spec=spec)
    run = c.run
    if len(c.spec["channels"]) == 1:
        obs.label("single channel")
    if r.random() < 0.35:
        h5 = os.path.join(d, "run.h5")
        common.sut("a run", exorad.standard_pipeline, run.xml, run.csv, output=h5)
        obs.label("from a run")
    else:
        h5 = os.path.join(d, "saved." + r.choice(["h5", "hdf5"]))
        if r.random() < 0.3:
            import h5py

            with h5py.File(h5, "w") as f:
                f["mine"] = 1
            obs.label("appended")
        common.sut("saving a payload", T.PreparePayload(), payload_file=run.xml, output=h5)
    before = digest(h5)

    def load(p):
        return common.sut("loading a saved payload", T.PreparePayload(), payload_file=p, output=None)

    payload, channels, rng = load(h5)
    if r.random() < 0.3:
        # build again from the loaded description
        ch1 = common.sut("building channels from a loaded payload", T.BuildChannels(), payload=payload, write=False, output=None)
        for k in run.channels:
            df = agree(ch1[k].table, run.channels[k].table) if k in ch1 else "missing"
            obs.expect(df is None, "channel %s built from a loaded description: %s" % (k, df))
        channels = ch1
        obs.label("built again")
    if r.random() < 0.4:
        # another payload, described with another grid, is used in between
        s2 = gen.gen_spec(case["s"] + 5, working_R=97, n_ch=1)
        r2 = pipe.Run(s2, os.path.join(d, "other"))
        r2.observe(r2.targets()[0])
        obs.label("mixed with others")
    obs.expect(list(channels) == list(run.channels), "channels of the loaded payload", got=list(channels), expected=list(run.channels))
    for a, b in zip(rng, run.wl_range):
        obs.expect(bool(abs((a / b).to("").value - 1) < 1e-12), "wavelength range loaded as %s instead of %s" % (a, b))
    for k in run.channels:
        if k in channels:
            df = agree(channels[k].table, run.channels[k].table)
            obs.expect(df is None, "table of channel %s of the loaded payload: %s" % (k, df))
    a, b = run.targets(), run.targets()
    for i in range(len(a)):
        run.observe(a[i])
        t = common.sut("observing with a loaded payload", T.ObserveTarget(), target=b[i], payload=payload, channels=channels, wl_range=rng)
        df = agree(t.table, a[i].table)
        obs.expect(df is None, "target observed with the loaded payload: %s" % df)
        for k in a[i].table.meta:
            obs.expect(k in t.table.meta and same(t.table.meta[k], a[i].table.meta[k]), "metadata %s differs with the loaded payload" % k)
    if r.random() < 0.4:
        # loaded after another payload, and used step by step: what the steps need comes with it
        s2 = gen.gen_spec(case["s"] + 6, working_R=r.choice([97, 1000]), n_ch=1)
        r2 = pipe.Run(s2, os.path.join(d, "before"))
        r2.observe(r2.targets()[0])
        p5, ch5, rng5 = load(h5)
        i = r.randrange(len(a))
        t = run.targets()[i]
        sut = common.sut
        t = sut("preparing a target", T.PrepareTarget(), target=t, channels=ch5)
        if "foreground" in p5["common"]:
            t = sut("estimating the foregrounds", T.EstimateForegrounds(), foregrounds=p5["common"]["foreground"], target=t, wl_range=rng5)
            t = sut("propagating the foregrounds", T.PropagateForegroundLight(), channels=ch5, target=t)
        t, _ = sut("loading the source", T.LoadSource(), target=t, source=p5["common"]["sourceSpectrum"], wl_range=rng5)
        t = sut("propagating the star", T.PropagateTargetLight(), channels=ch5, target=t)
        t = sut("estimating the noise", T.EstimateNoise(), target=t, channels=ch5)
        df = agree(t.table, a[i].table)
        obs.expect(df is None, "target observed step by step with a payload loaded after another one: %s" % df)
        obs.label("steps after loading")
    if r.random() < 0.5:
        # a description in hand is saved as it is
        from astropy import units as u

        desc = common.sut("loading the description", T.LoadOptions(), filename=run.xml)
        n = in_hand(r, desc, u)
        p3 = os.path.join(d, "in hand.h5")
        _, ch3, rng3 = common.sut("saving a payload in hand", T.PreparePayload(), payload_file=desc, output=p3)
        _, ch4, rng4 = load(p3)
        obs.expect(list(ch3) == list(ch4), "channels of the payload in hand", got=list(ch4), expected=list(ch3))
        for a3, b3 in zip(rng3, rng4):
            obs.expect(bool(abs((b3 / a3).to("").value - 1) < 1e-12), "wavelength range %s of the payload in hand loaded as %s" % (a3, b3))
        for k in ch3:
            df = agree(ch4[k].table, ch3[k].table) if k in ch4 else "missing"
            obs.expect(df is None, "table of channel %s of a payload in hand (%d quantities in other units), saved and loaded: %s" % (k, n, df))
        obs.label("in hand")
    for kind in ("Photometer", "Spectrometer"):
        got = common.sut("listing channels", T.GetChannelList(), options=payload, channel_type=kind)
        want = [ch["name"] for ch in c.spec["channels"] if ch["cls"] == kind]
        obs.expect(list(got) == want, "%s channels listed as %s instead of %s" % (kind, got, want))
        got = common.sut("listing channels", T.GetChannelList(), options=run.payload, channel_type=kind.lower())
        obs.expect(list(got) == want, "%s channels listed as %s instead of %s" % (kind, got, want))
        obs.label("channel selection")
    obs.expect(digest(h5) == before, "loading a saved payload changed its file")
    obs.sample = {"channels": list(channels), "bins": len(a[0].table)}
