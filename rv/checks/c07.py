"""Source spectra: Planck, PHOENIX grid and custom files."""
import contextlib
import copy
import shutil
import warnings

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the spectrum, luminosity and identity of a loaded star were compared with its description, or an "
        "unusable description was refused")
ASSUMPTIONS = ["PHOENIX libraries are full grids of temperature, gravity and metallicity; the requested star is clearly nearest to one of them",
               "PHOENIX spectra end on zero flux: whether their very last sample counts is left open"]
REQUIRED = ["planck", "custom", "phoenix", "phoenix out of range", "unknown kind", "phoenix by environment", "phoenix by file name", "updated with no source", "phoenix missing", "phoenix empty",
            "incomplete star", "phoenix between models", "phoenix tied models", "custom without temperature", "custom unsorted", "range plain numbers", "range other unit", "range reversed",
            "through the pipeline", "metadata", "source replaced"]
KINDS = ["planck", "custom", "phoenix", "phoenix", "unknown", "refused", "pipeline"]


def cases(seed, tier):
    return [{"s": s, "kind": KINDS[i % len(KINDS)]} for i, s in enumerate(seeds(seed, count(tier, 105, 900), "C07"))]


def star(r):
    t = gen.gen_targets(r, 1)[0]
    t["Teff"][0] = round(t["Teff"][0], 1)
    return t


def logg(t):
    from astropy import constants as cc
    from astropy import units as u

    g = cc.G.si.value * gen.val(t["M"], "kg") / gen.val(t["R"], "m") ** 2
    return float(np.log10(g * 100))


@contextlib.contextmanager
def listed(r):
    """directories are listed in another order, as on another disk"""
    scan, lst = os.scandir, os.listdir

    class Entries:
        def __init__(self, *a):
            with scan(*a) as it:
                self.e = list(it)
            r.shuffle(self.e)
            self.i = iter(self.e)

        def __iter__(self):
            return self.i

        def __next__(self):
            return next(self.i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

    def names(*a):
        n = list(lst(*a))
        r.shuffle(n)
        return n

    os.scandir, os.listdir = Entries, names
    try:
        yield
    finally:
        os.scandir, os.listdir = scan, lst


def phoenix_library(r, d, t, covered=True):
    """full grid of spectra around (or away from) star t; returns (path, spectrum expected, its file name)"""
    from astropy.io import fits

    lg = logg(t)
    Tm = T0 = int(round(t["Teff"][0] / 100))
    if covered and r.random() < 0.35:
        # between the temperatures of two models
        off, step = r.choice([-1, 1]), r.choice([1, 1, 2])
        t["Teff"][0] = round(T0 * 100 + off * r.uniform(1, 45), 1)
        Ts, Tm = [T0 - step, T0 + step] + ([T0 + step + 2] if r.random() < 0.5 else []), T0 + off * step
        t["between"] = True
    elif covered:
        t["Teff"][0] = round(T0 * 100 + r.uniform(-45, 45), 1)
        Ts = sorted({T0, T0 + r.choice([2, 4]), max(T0 - 3, 1)} | ({T0 + 10} if r.random() < 0.5 else set()))
        k = r.random()
        if k < 0.4:
            # the star is at an end of the library
            Ts = [x for x in Ts if (x >= T0 if k < 0.2 else x <= T0)]
    else:
        off = r.choice([-6, 6])
        Ts = sorted({T0 + off, T0 + 2 * off if off > 0 else T0 + off - 2})
    g0 = round(lg * 2) / 2
    if abs(lg * 2 - round(lg * 2)) > 0.44:
        g0 = None
    gs = [g0 - 0.5, g0, g0 + 0.5] if g0 is not None else [np.floor(lg) - 1, np.floor(lg + 1) + 1.2]
    gs = [round(g, 1) for g in gs if g > 0] or [1.0]
    zs = [0.0, 0.5] if r.random() < 0.5 else [0.0]
    p = os.path.join(d, "phoenix")
    os.makedirs(p)
    best = None
    n = r.choice([30, 400])
    wu, fu = r.choice([("um", "W / (m2 um)"), ("um", "W / (m2 um)"), ("nm", "W / (m2 um)"), ("Angstrom", "erg / (s cm2 Angstrom)")])
    from astropy import units as u

    gbest = min(gs, key=lambda g: abs(g - lg))
    if sorted(abs(g - lg) for g in gs)[:2] and len(gs) > 1:
        a, b = sorted(abs(g - lg) for g in gs)[:2]
        if b - a < 1e-3:
            gs = [gbest]
    for T in Ts:
        for g in gs:
            for z in zs:
                fn = "lte%05.1f-%.1f-%.1fa+0.0.BT-Settl.spec.fits.gz" % (T, g, z)
                wl = np.array([0.05] + sorted(r.uniform(0.1, 30) for _ in range(n - 2)) + [31.0])
                fl = np.array([r.uniform(1e3, 1e7) for _ in range(n)])
                fl[-2:] = 0
                if r.random() < 0.3:  # duplicated wavelength
                    k = n // 2
                    wl[k], fl[k] = wl[k + 1], fl[k + 1]
                k1, k2 = u.Unit("um").to(wu), u.Unit("W / (m2 um)").to(fu)
                h = fits.BinTableHDU.from_columns([
                    fits.Column(name="Wavelength", format="D", unit=wu, array=wl * k1),
                    fits.Column(name="Flux", format="D", unit=fu, array=fl * k2)])
                h.header["PHXLUM"] = 1e26
                fits.HDUList([fits.PrimaryHDU(), h]).writeto(os.path.join(p, fn))
                if T == Tm and g == gbest and z == 0.0:
                    best = (wl, fl, fn)
    return p, best


def one(r, d, kind, t, wl):
    """(source description, function of the grid giving (sed, luminosity), model label)"""
    R, D = gen.val(t["R"], "m"), gen.val(t["D"], "m")
    spec = {"wl_min": [min(wl), "um"], "wl_max": [max(wl), "um"], "source": {"kind": "planck"}}
    if kind == "custom":
        src = {"kind": "custom", "table": gen.gen_table(r, 0.5 * min(wl), 1.3 * max(wl), {"Sed": (1e4, 5e7)}, n=r.choice([5, 60, 2000]),
                                                        order=r.choice(["asc", "desc", "shuf"]))}
        if r.random() < 0.4:
            # a star that is dark in places
            v = src["table"]["Sed"]
            for i in r.sample(range(len(v)), max(1, len(v) // 4)):
                v[i] = 0.0
        p = os.path.join(d, "sed.csv")
        cols, units = dict(src["table"]), {"Wavelength": "um", "Sed": "W / (m2 um)"}
        if r.random() < 0.3:
            cols["Wavelength"] = [x * 1000 for x in cols["Wavelength"]]
            units["Wavelength"] = "nm"
        gen.write_ecsv(p, cols, units)
        order = np.argsort(src["table"]["Wavelength"])
        src["table"] = {k: list(np.array(v)[order]) for k, v in src["table"].items()}
        sp = dict(spec, source=src)
        return {"value": r.choice(["custom", "Custom", "CUSTOM"]), "CustomSed": {"value": p}}, lambda g: model.source_sed(sp, t, g), "Custom"
    if kind == "phoenix":
        p, (w, f, fn) = phoenix_library(r, d, t)

        def want(g):
            keep = np.append(np.diff(w) > 0, True)
            L = 4 * np.pi * R**2 * np.trapz(f[keep], x=w[keep]) / model.LSUN
            return model.rebin(g, w[keep], f[keep] * (R / D) ** 2), L, fn

        return {"value": r.choice(["phoenix", "Phoenix"]), "StellarModels": {"value": p}}, want, fn
    return {"value": kind}, lambda g: model.source_sed(spec, t, g), "Planck"


def check(case, obs, d):
    import exorad.tasks as T
    from astropy import units as u

    r = random.Random(case["s"])
    obs.key, obs.nontrivial = case["s"], True
    kind = case["kind"]
    t = star(r)
    lo = gen.rnd(r, 0.4, 0.9, 4)
    wl = [lo, gen.rnd(r, lo * 1.5, 9, 4)]
    if kind == "pipeline":
        return pipeline(case, obs, d, r)
    if kind == "refused":
        return refused(case, obs, d, r, t, wl)
    name = kind
    if kind == "unknown":
        name = r.choice(["blackbody", "nonsense", "PlancK"])
    obs.label("unknown kind" if kind == "unknown" else kind)
    out_of_range = False
    if kind == "phoenix" and r.random() < 0.3:
        out_of_range = True
        p, _ = phoenix_library(r, d, t, covered=False)
        src, want, label = one(r, d, "planck", t, wl)
        src = {"value": "phoenix", "StellarModels": {"value": p}}
        obs.label("phoenix out of range")
    else:
        src, want, label = one(r, d, name if kind != "unknown" else "planck", t, wl)
        if kind == "unknown":
            src["value"] = name
    if kind in ("planck", "phoenix", "unknown") and r.random() < 0.3:
        # entries left of another kind of source
        src["CustomSed"] = {"value": os.path.join(d, "nowhere.csv")}
        obs.label("entries of another source")
    env = None
    if kind == "phoenix" and r.random() < 0.4:
        env = src.pop("StellarModels")["value"]
        obs.label("phoenix by environment")
    tg = load(T, d, t, drop=("Teff", "M") if kind == "custom" and r.random() < 0.5 else ())
    if kind == "custom" and not hasattr(tg.star, "Teff"):
        obs.label("custom without temperature")
    if kind == "custom":
        obs.label("custom unsorted")
    rng = list(wl)
    if r.random() < 0.3:
        rng = rng[::-1]
        obs.label("range reversed")
    k = r.random()
    if k < 0.3:
        obs.label("range plain numbers")
    elif k < 0.6:
        un = r.choice(["nm", "m", "AA"])
        rng = [(x * u.um).to(un) for x in rng]
        obs.label("range other unit")
    else:
        rng = [x * u.um for x in rng]
    if r.random() < 0.4:
        from astropy.table import QTable

        # a table that tells of another star
        tg.table = QTable({"Wavelength": [1.0] * u.um}, meta={"name": "kept", "starTeff": 1 * u.K, "starL": 9 * u.L_sun, "starModel": "old", "starR": 7 * u.R_sun})
        obs.label("table of another star")
    given = src["value"] if (set(src) == {"value"} and r.random() < 0.3) else src
    before = copy.deepcopy(src)
    old = os.environ.pop("PHOENIX_PATH", None)
    try:
        if env:
            os.environ["PHOENIX_PATH"] = env
        with listed(r):
            out, sed = common.sut("loading the source", T.LoadSource(), target=tg, source=given, wl_range=tuple(rng))
    finally:
        os.environ.pop("PHOENIX_PATH", None)
        if old is not None:
            os.environ["PHOENIX_PATH"] = old
    obs.expect(src == before, "loading a source alters its description")
    grid = np.asarray(sed.wl_grid.to(u.um).value)
    obs.expect(abs(grid[0] / wl[0] - 1) < 1e-9 and abs(grid[-1] / wl[1] - 1) < 1e-9, "the spectrum does not span the requested range",
               got=[grid[0], grid[-1]], expected=wl)
    ratio = grid[1:] / grid[:-1]
    obs.expect(bool(np.all(np.abs(ratio / ratio.mean() - 1) < 1e-9)), "the spectrum is not sampled at constant resolving power")
    ws, L, _ = want(grid)
    got = sed.data.to("W / (m2 um)").value
    ok = common.near(got, ws, 1e-6, 1e-12 * np.abs(ws).max())
    obs.expect(bool(ok[1:-1].all()), "%s spectrum deviates from its description: %s" % (kind, common.worst(got[1:-1], ws[1:-1])))
    # the very ends of the range may be rounded out of it
    obs.expect(bool((ok[[0, -1]] | (got[[0, -1]] == 0) | (ws[[0, -1]] == 0)).all()), "%s spectrum deviates at the ends of the range" % kind)
    gotL = out.star.luminosity.to(u.L_sun).value
    obs.expect(common.close(gotL, L, 1e-6), "luminosity deviates: got %r, expected %r Lsun" % (float(gotL), float(L)))
    obs.expect(out is tg and same(out.star.sed.data, sed.data), "the star does not carry the spectrum that was returned")
    if hasattr(tg, "table"):
        m = out.table.meta
        obs.expect(m.get("name") == "kept" and str(m["starModel"]) == label and common.close(m["starL"].to(u.L_sun).value, L, 1e-6)
                   and common.close(m["starR"].to(u.m).value, gen.val(t["R"], "m"), 1e-9)
                   and (not hasattr(tg.star, "Teff") or common.close(m["starTeff"].to(u.K).value, gen.val(t["Teff"], "K"), 1e-9)),
                   "the metadata of the table do not tell of the star: %s" % dict(m))
    obs.expect(str(out.star.model) == label, "the star reports model %r, expected %r" % (out.star.model, label))
    if kind == "phoenix" and not out_of_range:
        if "between" in t:
            obs.label("phoenix between models")
        p = env or src["StellarModels"]["value"]
        by_name(obs, r, p, t)
        if r.random() < 0.5:
            tied(obs, r, d, p, t, wl)
    obs.sample = {"kind": kind, "L [Lsun]": float(gotL), "model": str(out.star.model), "samples": len(grid)}


def tied(obs, r, d, p, t, wl):
    """two models as near as each other: the choice is the same wherever the library stands"""
    import exorad.tasks as T
    from astropy import units as u

    fn = r.choice(sorted(os.listdir(p)))
    q = os.path.join(d, "tied")
    os.makedirs(q)
    T0 = int(round(t["Teff"][0] / 100))
    names = ["lte%05.1f%s" % (x, fn[fn.index("-"):]) for x in (T0 - 1, T0 + 1)]
    for n in names:
        shutil.copy(os.path.join(p, fn), os.path.join(q, n))
    got = set()
    for _ in range(5):
        t2 = dict(t, Teff=[T0 * 100.0, "K"])
        with listed(r):
            out, _s = common.sut("loading the source", T.LoadSource(), target=load(T, d, t2), source={"value": "phoenix", "StellarModels": {"value": q}},
                                 wl_range=tuple(x * u.um for x in wl))
        got.add(str(out.star.model))
    obs.label("phoenix tied models")
    obs.expect(len(got) == 1 and got <= set(names), "the model picked among two as near depends on how the directory is listed: %s" % sorted(got))


def by_name(obs, r, p, t):
    """a model of the library asked for by its file name, whatever the star"""
    from astropy import units as u
    from astropy.io import fits
    from exorad.models.source import Star

    fn = r.choice(sorted(os.listdir(p)))
    with fits.open(os.path.join(p, fn)) as h:
        tab = h[1]
        w = (np.array(tab.data["Wavelength"], float) * u.Unit(tab.columns["Wavelength"].unit)).to("um").value
        f = (np.array(tab.data["Flux"], float) * u.Unit(tab.columns["Flux"].unit)).to("W / (m2 um)").value
    q = lambda k: t[k][0] * u.Unit(t[k][1])  # noqa: E731
    s = common.sut("a star with a given model", Star, p, q("D"), q("Teff"), logg(t), 0.0, q("R"), phoenix_model_filename=fn)
    obs.label("phoenix by file name")
    keep = np.append(np.diff(w) > 0, True)
    R, D = gen.val(t["R"], "m"), gen.val(t["D"], "m")
    L = 4 * np.pi * R**2 * np.trapz(f[keep], x=w[keep]) / model.LSUN
    obs.expect(str(s.model) == fn, "a star given model %r reports %r" % (fn, s.model))
    obs.expect(common.close(s.luminosity.to(u.L_sun).value, L, 1e-6), "the luminosity of a star with a given model is %r instead of %r Lsun"
               % (float(s.luminosity.to(u.L_sun).value), float(L)))
    inside = np.linspace(0.2, 25, 50)
    got = np.interp(inside, s.sed.wl_grid.to("um").value, s.sed.data.to("W / (m2 um)").value)
    want = np.interp(inside, w[keep], f[keep] * (R / D) ** 2)
    obs.expect(common.close(got, want, 1e-6), "the spectrum of a star with a given model is another: %s" % common.worst(got, want))


def load(T, d, t, drop=()):
    """the star as a target, optionally without some of its columns"""
    from astropy import units as u
    from astropy.table import QTable

    q = QTable()
    q["star name"] = [t["name"]]
    for c in ("M", "Teff", "R", "D"):
        if c not in drop:
            q["star " + c] = [t[c][0]] * u.Unit(t[c][1])
    return common.sut("loading the target", T.LoadTargetList(), target_list=q).target[0]


def refused(case, obs, d, r, t, wl):
    """descriptions that cannot be followed raise instead of giving a made-up spectrum"""
    import exorad.tasks as T
    from astropy import units as u

    rng = (wl[0] * u.um, wl[1] * u.um)
    what = ["incomplete star", "phoenix missing", "phoenix empty", "phoenix unset"][case["s"] % 4]
    obs.label(what)
    drop, err = (), OSError
    if what == "incomplete star":
        src = one(r, d, "planck", t, wl)[0]
        drop, err = (r.choice(["M", "Teff", "R", "D"]),), AttributeError
        if r.random() < 0.4:
            src = one(r, d, "custom", t, wl)[0]
            drop = (r.choice(["R", "D"]),)
    elif what == "phoenix missing":
        src = {"value": "phoenix", "StellarModels": {"value": os.path.join(d, "nowhere")}}
    elif what == "phoenix empty":
        os.makedirs(os.path.join(d, "void"))
        src = {"value": "phoenix", "StellarModels": {"value": os.path.join(d, "void")}}
    else:
        src = {"value": "phoenix"}
    tg = load(T, d, t, drop)
    old = os.environ.pop("PHOENIX_PATH", None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            T.LoadSource()(target=tg, source=src, wl_range=rng)
        obs.expect(False, "%s: a spectrum is made up instead of refusing the description" % what)
    except err:
        obs.expect(True, "")
    except Exception as e:
        obs.expect(False, "%s: raised %s instead of %s" % (what, type(e).__name__, err.__name__))
    finally:
        if old is not None:
            os.environ["PHOENIX_PATH"] = old
    obs.expect(not hasattr(tg.star, "sed"), "%s: the star received a spectrum all the same" % what)
    # what is no source does not become one
    was = dict(vars(tg.star))
    try:
        tg.update_target(r.choice([3, "Planck", None, {"sed": 1}, tg]))
    except Exception as e:
        obs.expect(False, "updating a target with what is no source raised %s: %s" % (type(e).__name__, e))
    obs.label("updated with no source")
    obs.expect(set(vars(tg.star)) == set(was) and all(vars(tg.star)[k] is was[k] for k in was), "what is no source changed the star")


def pipeline(case, obs, d, r):
    """the same spectra observed through a payload"""
    from astropy import units as u

    kind = r.choice(["planck", "custom", "phoenix", "phoenix"])
    spec = gen.gen_spec(case["s"], p_slit=0.1, working_R=300, n_ch=2, n_frg=1, source={"kind": "planck"})
    t = spec["targets"][0]
    t["Teff"][0] = round(t["Teff"][0], 1)
    src, want, label = one(r, d, kind, t, [gen.val(spec["wl_min"], "um"), gen.val(spec["wl_max"], "um")])
    spec["source"] = {"kind": "planck"} if kind == "planck" else (
        {"kind": "custom", "path": src["CustomSed"]["value"]} if kind == "custom" else {"kind": "phoenix", "path": src["StellarModels"]["value"]})
    c = Case(case, obs, d, spec=spec)
    pm = model.PayloadModel(spec)
    c.observe(sed=want(pm.grid)[0])
    obs.label("through the pipeline")
    c.compare(["starFlux", "starSignal", "star_signal_inAperture", "star_MaxSignal_inPixel"])
    m = c.table.meta
    obs.label("metadata")
    for key, val, un in (("starM", t["M"], "kg"), ("starTeff", t["Teff"], "K"), ("starR", t["R"], "m"), ("starDistance", t["D"], "m")):
        obs.expect(key in m and common.close(u.Quantity(m[key]).to(un).value, gen.val(val, un), 1e-9), "result metadata %s is wrong" % key,
                   got=str(m.get(key)), expected=val)
    obs.expect(str(m.get("starName")) == t["name"] and str(m.get("name")) == t["name"], "result metadata names another target",
               got=[str(m.get("starName")), str(m.get("name"))], expected=t["name"])
    obs.expect(str(m.get("starModel")) == label, "result metadata report model %r, expected %r" % (m.get("starModel"), label))
    L = want(pm.grid)[1]
    obs.expect(common.close(u.Quantity(m["starL"]).to(u.L_sun).value, L, 1e-6), "result metadata luminosity is wrong")
    obs.expect(common.close(float(u.Quantity(m.get("starMagK", np.nan)).value), t["magk"], 1e-9), "result metadata K magnitude is wrong", got=str(m.get("starMagK")))
    # the observed target is given another source by hand: spectrum and metadata are those of the new one
    import exorad.tasks as T

    lo, hi = gen.val(spec["wl_min"], "um"), gen.val(spec["wl_max"], "um")
    os.makedirs(os.path.join(d, "second"))
    src2, want2, label2 = one(r, os.path.join(d, "second"), r.choice([k for k in ("planck", "custom") if k != kind]), t, [lo, hi])
    _, sed = common.sut("another source for an observed target", T.LoadSource(), target=c.target, source=src2, wl_range=(lo * u.um, hi * u.um))
    grid = np.asarray(sed.wl_grid.to(u.um).value)
    ws, L2, _ = want2(grid)
    obs.label("source replaced")
    obs.expect(common.close(sed.data.to("W / (m2 um)").value[1:-1], ws[1:-1], 1e-6), "the second source of a target has not the spectrum asked for")
    m = c.target.table.meta
    obs.expect(str(m.get("starModel")) == label2 and str(c.target.star.model) == label2,
               "a target given another source reports model %r, expected %r" % (m.get("starModel"), label2))
    obs.expect(common.close(u.Quantity(m["starL"]).to(u.L_sun).value, L2, 1e-6), "a target given another source reports the luminosity of the one before")
