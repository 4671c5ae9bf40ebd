"""Spectral signals: units on the way in, resampling, and what comes out."""
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a signal was built from a random spectrum in random units, resampled on several grids, and compared with "
        "an independent resampling and with the algebraic laws resampling obeys")
ASSUMPTIONS = ["grids hold distinct wavelengths and at least two of them", "a sample never falls exactly on the edge of a resampling interval",
               "signals do not depend on time",
               "the first and last wavelength of a signal's own grid may fall outside it by rounding"]
REQUIRED = ["averaged", "interpolated", "descending samples", "shuffled samples", "descending grid", "partial coverage", "unit converted",
            "numbers", "table column", "refused unit", "refused size", "refused shape", "signal over time", "constant", "straight line", "linear", "same grid", "gap of missing values", "missing wavelengths", "repeated samples", "to_dict", "flawed new grid", "refused new grid",
            "Signal", "Sed", "Radiance", "CountsPerSeconds", "CustomSignal", "Noise"]

LENGTHS = ["um", "nm", "m", "Angstrom", "mm"]
KINDS = {
    "Signal": ["", "percent"],
    "Sed": ["W / (m2 um)", "erg / (s cm2 um)", "W / m3", "mW / (m2 nm)"],
    "Radiance": ["W / (m2 um sr)", "erg / (s cm2 um sr)", "W / (m3 sr)"],
    "CountsPerSeconds": ["ct / s", "ct / h", "ct / ms"],
    "CustomSignal": ["K", "mK"],
    "Noise": ["h(1/2)", "s(1/2)", "min(1/2)"],
}


def cases(seed, tier):
    return [{"s": s} for s in seeds(seed, count(tier, 400, 8000), "C19")]


def spectrum(r):
    n = r.choice([2, 3, 5, 20, 200, 2000])
    lo = r.uniform(0.3, 2)
    hi = lo * r.uniform(1.2, 6)
    k = r.randrange(3)
    wl = np.linspace(lo, hi, n) if k == 0 else np.geomspace(lo, hi, n) if k == 1 else np.sort([r.uniform(lo, hi) for _ in range(n)])
    # samples closer than that amplify the rounding of unit conversions
    wl = wl[np.append(True, np.diff(wl) > 1e-5 * (hi - lo))]
    if len(wl) < 2:
        wl = np.array([lo, hi])
    v = np.array([r.uniform(0, 1) for _ in wl]) * 10 ** r.uniform(-12, 12)
    return wl, v


def target_grid(r, wl):
    lo, hi = wl.min(), wl.max()
    w = hi - lo
    k = r.randrange(4)
    if k == 0:  # inside
        a, b = lo + w * r.uniform(0, 0.4), lo + w * r.uniform(0.6, 1)
    elif k == 1:  # around
        a, b = lo * r.uniform(0.6, 1), hi * r.uniform(1, 1.5)
    elif k == 2:
        a, b = lo * r.uniform(0.6, 1), lo + w * r.uniform(0.3, 0.9)
    else:
        a, b = lo + w * r.uniform(0.1, 0.7), hi * r.uniform(1, 1.5)
    n = r.choice([2, 3, 8, 50, 400, 3000])
    g = np.linspace(a, b, n) if r.random() < 0.5 else np.geomspace(a, b, n)
    # a little noise keeps the edges of the intervals away from the samples
    return g * (1 + 1e-7 * np.array([r.random() for _ in g])) if n < 400 else g


def check(case, obs, d):
    from astropy import units as u
    from astropy.table import QTable, Table
    from exorad.models import signal as sg
    from exorad.models.noise import Noise

    r = random.Random(case["s"])
    obs.key, obs.nontrivial = case["s"], True
    name = r.choice(sorted(KINDS))
    obs.label(name)
    un = KINDS[name][0]
    klass = Noise if name == "Noise" else getattr(sg, name)
    kw = {"data_unit": u.Unit(un) if r.random() < 0.5 else un} if name == "CustomSignal" else {}
    wl, v = spectrum(r)
    order = r.choice(["asc", "descending samples", "shuffled samples"])
    idx = np.arange(len(wl))
    if order == "descending samples":
        idx = idx[::-1]
    if order == "shuffled samples":
        idx = np.array(r.sample(range(len(wl)), len(wl)))
    if order != "asc":
        obs.label(order)
    wlo, vo = wl[idx], v[idx]

    def build(values):
        how = r.choice(["quantity", "quantity", "number", "column", "column"])
        uw, ud = r.choice(LENGTHS), r.choice(KINDS[name])
        if how == "number":
            obs.label("numbers")
            a, b = r.choice([list(wlo), np.array(wlo), wlo * u.um]), r.choice([list(values), np.array(values)])
        else:
            if uw != "um" or ud != un:
                obs.label("unit converted")
            a = (wlo * u.um).to(uw)
            b = (values * u.Unit(un)).to(ud)
            if how == "column":
                obs.label("table column")
                t = r.choice([QTable, Table])({"Wavelength": a, "v": b})
                a, b = t["Wavelength"], t["v"]
        keep = (np.array(getattr(a, "value", a), float).copy(), np.array(getattr(b, "value", b), float).copy())
        s = common.sut("building a %s" % name, klass, a, b, **kw)
        return s, (a, b), keep

    s, given, keep = build(vo)

    def untouched(when):
        for x, k in zip(given, keep):
            obs.expect(np.array_equal(np.array(getattr(x, "value", x), float), k), "%s changed the values given" % when)

    obs.expect(str(s.wl_grid.unit) == "um" and u.Unit(s.data.unit) == u.Unit(un), "%s holds %s against %s" % (name, s.data.unit, s.wl_grid.unit))
    obs.expect(common.close(s.wl_grid.value, wlo, 1e-12), "wavelengths changed on the way in: %s" % common.worst(s.wl_grid.value, wlo))
    obs.expect(common.close(s.data.value, vo, 1e-12), "values changed on the way in: %s" % common.worst(s.data.value, vo))
    obs.expect(not s.time_dependent, "a static signal claims to depend on time")
    dic = common.sut("converting a signal to a dictionary", s.to_dict)
    obs.label("to_dict")
    for k, ref in (("wl_grid", s.wl_grid), ("data", s.data)):
        obs.expect(k in dic and common.close(u.Quantity(dic[k]["value"], dic[k]["unit"]).to(ref.unit).value, ref.value, 1e-12),
                   "%s is not in the dictionary of the signal" % k)
    untouched("building")

    def rebinned(values, grid):
        x, g_, k_ = build(values)
        g = grid * u.um
        common.sut("resampling", x.spectral_rebin, g)
        obs.expect(np.array_equal(g.value, grid), "resampling changed the grid given")
        for q, k in zip(g_, k_):
            obs.expect(np.array_equal(np.array(getattr(q, "value", q), float), k), "resampling changed the values given")
        obs.expect(u.Unit(x.data.unit) == u.Unit(un), "resampling turns %s into %s" % (un, x.data.unit))
        ok = x.wl_grid.shape == grid.shape and common.close(x.wl_grid.to(u.um).value, grid, 1e-12) and x.data.shape == grid.shape
        obs.expect(ok, "after resampling the signal is not on the grid asked for")
        return np.asarray(x.data.value, float) if ok else None

    for _ in range(3):
        g = target_grid(r, wl)
        if r.random() < 0.3:
            g = g[::-1].copy()
            obs.label("descending grid")
        lo, hi = g.min(), g.max()
        # resampling with no sample anywhere near the grid is not defined
        if not ((wl > 0.9 * lo) & (wl < 1.1 * hi)).any() and not (wl.min() < lo and wl.max() > hi):
            continue
        if on_edge(g, wl):
            continue
        got = rebinned(vo, g)
        if got is None:
            return
        want = model.rebin(g, wl, v)
        avg = averaging(g, wl)
        obs.label("averaged" if avg else "interpolated")
        if lo < wl.min() or hi > wl.max():
            obs.label("partial coverage")
        scale = v.max()
        if not obs.expect(common.close(got, want, 1e-9, 1e-12 * scale), "resampled values deviate: %s" % common.worst(got, want)):
            obs.fails[-1]["grid"] = [float(g[0]), float(g[-1]), len(g)]
            return
        obs.expect(bool(np.all(np.isfinite(got))), "resampling gives values that are not numbers")
        obs.expect(bool(np.all(got <= scale * (1 + 1e-12)) and np.all(got >= -1e-12 * scale)), "resampled values leave the range of the samples")
        # laws
        inside = (g >= wl.min()) & (g <= wl.max())
        c = rebinned(np.full(len(wl), 3.25), g)
        obs.label("constant")
        obs.expect(bool(np.all(np.isclose(c, 3.25) | np.isclose(c, 0))), "a constant does not stay constant")
        if not avg:
            obs.expect(bool(np.all(np.isclose(c[inside], 3.25)) and np.all(c[~inside] == 0)), "a constant is lost inside, or found outside, the sampled range")
            ln = rebinned(2 * wlo + 1, g)
            obs.label("straight line")
            obs.expect(common.close(ln[inside], 2 * g[inside] + 1, 1e-9), "interpolation bends a straight line")
        v2 = np.array([r.uniform(0, 1) for _ in wl]) * scale
        a = r.uniform(0.1, 5)
        both = rebinned(vo + a * v2[idx], g)
        one = rebinned(v2[idx], g)
        obs.label("linear")
        obs.expect(common.close(both, got + a * one, 1e-9, 1e-11 * scale * (1 + a)), "resampling is not linear")
        flawed(obs, r, klass, un, kw, wl, v, idx, g, got, avg, scale)
    if len(wl) > 1:
        got = rebinned(vo, wl)
        obs.label("same grid")
        if got is not None:
            # a conversion of units may leave the grid's ends just outside the samples
            ends = np.zeros(len(v), bool)
            ends[[0, -1]] = True
            got = np.where(ends & (got == 0), v, got)
        obs.expect(got is None or common.close(got, v, 1e-9, 1e-8 * v.max()), "resampling on its own grid changes a signal")
    # refusals
    other = u.Unit(r.choice([x for x in ("s", "kg", "K3", "W", "ct2") if not u.Unit(x).is_equivalent(u.Unit(un))]))
    refused(obs, "refused unit", "data in %s" % other, lambda: klass(wl * u.um, v * other, **kw), u.UnitConversionError)
    refused(obs, "refused unit", "wavelengths in %s" % other, lambda: klass(wl * other, v * u.Unit(un), **kw), u.UnitConversionError)
    n = len(wl)
    refused(obs, "refused size", "%d values for %d wavelengths" % (n + 1, n), lambda: klass(wl * u.um, np.append(v, 1) * u.Unit(un), **kw), ValueError)
    refused(obs, "refused shape", "a wavelength matrix", lambda: klass(np.array([wl, wl]) * u.um, v * u.Unit(un), **kw), ValueError)
    refused(obs, "refused shape", "a data cube", lambda: klass(wl * u.um, np.zeros((n, 2, 2)) * u.Unit(un), **kw), ValueError)
    nt = r.randrange(2, 6)
    times = np.arange(1, nt + 1) * u.hr
    for k in sorted({1, nt - 1, nt + 1, 2 * nt}):
        refused(obs, "refused size", "%d values for %d times" % (k, nt), lambda: klass(wl * u.um, np.ones((n, k)) * u.Unit(un), time_grid=times, **kw), ValueError)
    refused(obs, "refused size", "one value for %d times" % nt, lambda: klass(wl * u.um, np.ones(n) * u.Unit(un), time_grid=times, **kw), (ValueError, IndexError))
    refused(obs, "refused size", "%d values for %d wavelengths" % (n - 1, n), lambda: klass(wl * u.um, v[:-1] * u.Unit(un), **kw), ValueError)
    refused(obs, "refused shape", "a matrix of times", lambda: klass(wl * u.um, np.ones((n, nt)) * u.Unit(un), time_grid=np.array([times.value] * 2) * u.hr, **kw), ValueError)
    refused(obs, "refused unit", "times in um", lambda: klass(wl * u.um, np.ones((n, nt)) * u.Unit(un), time_grid=times.value * u.um, **kw), u.UnitConversionError)
    try:
        m = common.sut("a signal over time", klass, wl * u.um, np.ones((n, nt)) * u.Unit(un), time_grid=times.to(u.min), **kw)
        obs.label("signal over time")
        obs.expect(m.data.shape == (n, nt) and m.time_grid.unit == u.hr and np.allclose(m.time_grid.value, times.value, rtol=1e-12, atol=0), "a signal over time: %s, %s" % (m.data.shape, m.time_grid))
    except common.SutError as e:
        obs.fail("a signal over time: %s" % e)
    refused(obs, "refused size", "several times without a time grid", lambda: klass(wl * u.um, np.zeros((n, 3)) * u.Unit(un), **kw), ValueError)
    obs.sample = {"kind": name, "samples": n, "order": order}


def flawed(obs, r, klass, un, kw, wl, v, idx, g, got, avg, scale):
    """samples that carry nothing, or nothing new, add nothing: values are neither invented nor lost"""

    def resample(a, b):
        x = common.sut("building a signal", klass, a * u.um, b * u.Unit(un), **kw)
        common.sut("resampling", x.spectral_rebin, g * u.um)
        return np.asarray(x.data.value, float)

    from astropy import units as u

    if len(wl) > 4 and not avg:
        i = r.randrange(1, len(wl) - 2)
        j = min(len(wl) - 2, i + r.choice([0, 1, 3, len(wl) // 3]))
        gap = v.copy()
        gap[i:j + 1] = np.nan
        f = resample(wl[idx], gap[idx])
        hole = (g > wl[i - 1] * (1 + 1e-9)) & (g < wl[j + 1] * (1 - 1e-9))
        clear = (g < wl[i - 1] * (1 - 1e-9)) | (g > wl[j + 1] * (1 + 1e-9))
        obs.label("gap of missing values")
        obs.expect(bool(np.all((f[hole] == 0) | np.isnan(f[hole]))), "resampling invents values where the samples are missing")
        obs.expect(common.close(f[clear], got[clear], 1e-9, 1e-12 * scale), "missing samples spoil the resampling elsewhere")
    k = r.randint(1, 3)
    obs.label("missing wavelengths")
    pos = [r.randint(0, len(wl)) for _ in range(k)]
    f = resample(np.insert(wl[idx], pos, np.nan), np.insert(v[idx], pos, scale))
    obs.expect(common.close(f, got, 1e-9, 1e-12 * scale), "samples without a wavelength change the resampling: %s" % common.worst(f, got))
    obs.label("repeated samples")
    twice = np.array([r.randrange(len(wl)) for _ in range(k)])
    o = np.append(np.arange(len(wl))[idx], twice)
    f = resample(wl[o], v[o])
    obs.expect(common.close(f, got, 1e-9, 1e-12 * scale), "samples given twice change the resampling: %s" % common.worst(f, got))
    # the same of the new grid: what is missing or repeated is dropped, and the signal stays on a grid of its size
    bad = list(g)
    for _ in range(k):
        i = r.randint(0, len(bad))
        bad.insert(i, np.nan if r.random() < 0.5 else bad[min(i, len(bad) - 1)])
    x = common.sut("building a signal", klass, wl[idx] * u.um, v[idx] * u.Unit(un), **kw)
    gq = np.array(bad) * u.um
    common.sut("resampling on a grid with missing and repeated values", x.spectral_rebin, gq)
    obs.label("flawed new grid")
    obs.expect(np.array_equal(gq.value, bad, equal_nan=True), "resampling changed the grid given")
    gx, gd = np.asarray(x.wl_grid.to(u.um).value), np.asarray(x.data.value, float)
    if obs.expect(gx.shape == gd.shape, "on a grid with missing and repeated values a signal has %s values for %s wavelengths" % (gd.shape, gx.shape)):
        keep = np.isfinite(gx)
        want = [float(got[np.argmin(abs(g - w))]) for w in gx[keep]]
        obs.expect(set(np.round(g, 9)) == set(np.round(gx[keep], 9)), "resampling on a grid with missing and repeated values loses wavelengths")
        obs.expect(common.close(gd[keep], want, 1e-9, 1e-12 * scale), "missing and repeated values of the new grid change the resampling: %s" % common.worst(gd[keep], want))
    far = u.Unit(r.choice(["s", "kg", "K"]))
    x = common.sut("building a signal", klass, wl[idx] * u.um, v[idx] * u.Unit(un), **kw)
    refused(obs, "refused new grid", "a new grid in %s" % far, lambda: x.spectral_rebin(g * far), (ValueError, u.UnitsError))
    obs.expect(np.array_equal(x.wl_grid.value, wl[idx]) and common.close(x.data.value, v[idx], 1e-12), "a refused grid changed the signal")


def on_edge(g, wl):
    """whether a sample sits, but for rounding, on the last edge of the intervals"""
    g = np.sort(g)
    last = g[-1] + (g[-1] - g[-2]) / 4
    return bool(np.min(np.abs(wl - last)) < 1e-5 * np.diff(g).min() + 1e-6 * last)


def averaging(g, wl):
    """whether the samples next to the grid are finer than the grid everywhere"""
    near = np.flatnonzero((wl > 0.9 * g.min()) & (wl < 1.1 * g.max()))
    if near.size:
        i, j = near[0], near[-1]
    else:
        j = np.searchsorted(wl, g.min()) - 1
        i = j + 1
    s = wl[max(i - 1, 0): j + 2]
    return bool(np.diff(s).max() < np.abs(np.diff(g)).min())


def refused(obs, label, what, fn, err):
    obs.label(label)
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except err:
        obs.expect(True, "")
    except Exception as e:
        obs.expect(False, "%s: raises %s instead of %s" % (what, type(e).__name__, getattr(err, "__name__", "ValueError")))
    else:
        obs.expect(False, "%s: accepted" % what)
