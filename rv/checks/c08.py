"""Sky radiance: the zodiacal model and the layers, in the direction of the target."""
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the radiance of every foreground and the sky transmission built for a target were compared, over the "
        "whole working grid, with the description and the direction of the target")
ASSUMPTIONS = ["the nearest point of a zodiacal map is unambiguous for the directions drawn"]
REQUIRED = ["zodi factor", "zodi map", "zodi custom map", "zodi without map point", "zodi map unreadable", "zodi map without coordinates",
            "no zodi option", "near the pole", "across ra zero", "zero coordinate", "layers", "observed", "single foreground", "coordinates in radians"]
KINDS = ["factor", "map", "map", "custom", "custom", "broken", "nocoord", "none", "layers", "layers"]


def cases(seed, tier):
    return [{"s": s, "kind": KINDS[i % len(KINDS)], "dir": {1: "zero", 2: "wrap", 3: "pole", 4: "zero"}.get(i % len(KINDS))} for i, s in enumerate(seeds(seed, count(tier, 80, 800), "C08"))]


def unit_vector(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)


def nearest(ra, dec, t):
    """(coefficient of the map point nearest on the sky, how clearly it is the nearest)"""
    d = ((unit_vector(t["ra_icrs"], t["dec_icrs"]) - unit_vector(ra, dec)) ** 2).sum(-1)
    o = np.argsort(d)
    return float(t["zodi_coeff"][o[0]]), d[o[1]] - d[o[0]], float(t["zodi_coeff"][o[1]])


def bundled():
    import exorad
    import h5py

    p = os.path.join(os.path.dirname(exorad.__file__), "data", "Zodi_map.hdf5")
    with h5py.File(p, "r") as f:
        k = next(k for k in f if "__table_column_meta__" not in k)
        a = f[k][:]
    return {c: np.array(a[c], float) for c in ("ra_icrs", "dec_icrs", "zodi_coeff")}


def direction(r, obs, want):
    k = r.random()
    if want and k < 0.6:
        k = {"zero": 0.05, "pole": 0.2, "wrap": 0.3}[want]
    if k < 0.1:
        # a coordinate that is nothing but zero
        obs.label("zero coordinate")
        return r.choice([(0.0, gen.rnd(r, -80, 80, 4)), (gen.rnd(r, 0, 360, 4), 0.0), (0.0, 0.0)])
    if k < 0.25:
        obs.label("near the pole")
        return gen.rnd(r, 0, 360, 4), r.choice([-1, 1]) * gen.rnd(r, 84, 89.95, 4)
    if k < 0.45:
        obs.label("across ra zero")
        return r.choice([gen.rnd(r, 0, 1.0, 4), gen.rnd(r, 359, 359.99, 4)]), gen.rnd(r, -80, 80, 4)
    return gen.rnd(r, 0, 360, 4), gen.rnd(r, -89, 89, 4)


def check(case, obs, d):
    import astropy.units as u
    import exorad.tasks as T

    obs.key, obs.nontrivial = case["s"], True
    r = random.Random(case["s"])
    kind = case["kind"]
    spec = gen.gen_spec(case["s"], p_slit=0.2, working_R=r.choice([150, 300, 701]), n_ch=2, cls="Photometer" if r.random() < .7 else None,
                        n_frg=r.choice([1, 2, 3]) if kind == "layers" else 0)
    coeff, ra = None, None
    if kind != "layers":
        z = {"kind": "zodi", "name": "zodiacal"}
        if kind != "none" and r.random() < (1.0 if kind in ("factor", "broken", "nocoord") else 0.6):
            z["factor"] = gen.rnd(r, 0.1, 8, 3)
        if kind in ("map", "custom", "broken", "nocoord"):
            z["map"] = True
        elif kind == "factor" and r.random() < 0.5:
            z["map"] = False
        if kind == "none":
            obs.label("no zodi option")
        pos = r.random()
        more = gen.gen_foregrounds(r, gen.val(spec["wl_min"], "um"), gen.val(spec["wl_max"], "um"), n=r.choice([0, 0, 1, 2]), zodi=False)
        spec["foregrounds"] = [z] + more if pos < 0.6 else more + [z]
        t = spec["targets"][0]
        if kind not in ("nocoord",) and (kind != "factor" or r.random() < 0.5):
            for _ in range(50):
                ra, dec = direction(r, obs, case["dir"])
                if kind == "custom":
                    n = r.choice([2, 6, 40])
                    tab = {"ra_icrs": np.array([gen.rnd(r, 0, 360, 3) for _ in range(n)]), "dec_icrs": np.array([gen.rnd(r, -90, 90, 3) for _ in range(n)]),
                           "zodi_coeff": np.array([gen.rnd(r, 0.1, 9, 4) for _ in range(n)])}
                    if r.random() < 0.3:
                        # a sky without zodiacal light in places
                        tab["zodi_coeff"][::2] = 0.0
                        obs.label("zodi map with zeros")
                else:
                    tab = bundled()
                coeff, margin, second = nearest(ra, dec, tab)
                if margin > 1e-9 or coeff == second:
                    break
            t["ra"], t["dec"] = ra, dec
        if kind == "custom":
            from astropy.table import Table

            p = os.path.join(d, "zmap.hdf5")
            Table(tab).write(p, format="hdf5", path="table", serialize_meta=True)
            z["map_file"] = p
            obs.label("zodi custom map")
        if kind == "map":
            obs.label("zodi map")
        if kind == "broken":
            p = os.path.join(d, "zmap.hdf5")
            with open(p, "wb") as f:
                f.write(b"not a map" * r.randint(1, 200))
            z["map_file"] = p
            coeff = None
            obs.label("zodi map unreadable")
        if kind == "nocoord":
            obs.label("zodi map without coordinates")
        if kind in ("factor", "none"):
            coeff = None
            obs.label("zodi factor" if kind == "factor" else "zodi without map point")
        if coeff is None:
            # without a usable map the factor holds, and no factor means no zodiacal light
            coeff = z.get("factor", 0)
    if len(spec["foregrounds"]) == 1:
        obs.label("single foreground")
    run = pipe.Run(spec, d)
    if ra is not None and r.random() < 0.3:
        from astropy.table import QTable

        t = spec["targets"][0]
        q = QTable()
        q["star name"] = [t["name"]]
        for c in ("M", "Teff", "R", "D"):
            q["star " + c] = [t[c][0]] * u.Unit(t[c][1])
        q["star ra"], q["star dec"] = ([t["ra"]] * u.deg).to(u.rad), ([t["dec"]] * u.deg).to(u.rad)
        target = run.targets(q)[0]
        obs.label("coordinates in radians")
    else:
        target = run.targets()[0]
    pm = model.PayloadModel(spec)
    if r.random() < 0.5:
        target = common.sut("estimating foregrounds", T.EstimateForegrounds(), foregrounds=run.payload["common"]["foreground"], target=target,
                            wl_range=run.wl_range)
    else:
        run.observe(target)
        obs.label("observed")
        want = pm.observe(spec["targets"][0], zodi_coeff=coeff)
        alt = model.PayloadModel(spec, include_edge=True).observe(spec["targets"][0], zodi_coeff=coeff)
        cols = [k for k in want if k.endswith(("_signal", "_MaxSignal_inPixel")) and not k.startswith(("instrument", "star"))]
        pipe.compare(obs, target.table, want, cols, alt=alt)
    if kind == "factor" and coeff is not None and r.random() < 0.5:
        # over any range of wavelengths
        a = gen.logrnd(r, 0.1, 30, 4)
        b = gen.rnd(r, 1.2 * a, 8 * a, 4)
        alone = run.targets()[0]
        for c in ("ra", "dec"):
            alone.star.__dict__.pop(c, None)
        z = {"value": "zodiacal", "zodiacFactor": {"value": coeff}}
        alone = common.sut("estimating the zodiacal light", T.EstimateZodi(), zodi=z, target=alone, wl_range=(a * u.um, b * u.um))
        f = alone.foreground["zodi"]
        g = f.wl_grid.to(u.um).value
        w = model.zodi(coeff, g)
        got = np.squeeze(f.data.to("W/(m2 um sr)").value)
        obs.expect(common.close(g[0], a, 1e-9) and common.close(g[-1], b, 1e-9), "the zodiacal light does not span %s-%s um" % (a, b))
        obs.expect(bool(common.near(got, w, 1e-6, 1e-12 * np.abs(w).max()).all()), "zodiacal radiance over %s-%s um deviates: %s" % (a, b, common.worst(got, w)))
        obs.label("zodi over another range")
    layers = pm.layers(zodi_coeff=coeff)
    obs.expect(list(target.foreground) == [n for n, _, _ in layers], "foregrounds of the target: %s, described: %s"
               % (list(target.foreground), [n for n, _, _ in layers]))
    lo, hi = pm.lo, pm.hi
    grid = pm.grid
    for n, rad, tr in layers:
        f = target.foreground.get(n)
        if f is None:
            continue
        got = f.data.to("W/(m2 um sr)").value
        g = np.asarray(f.wl_grid.to(u.um).value)
        obs.expect(g.shape == grid.shape and common.close(g, grid, 1e-9), "foreground %s is not sampled over the payload's range" % n)
        ok = common.near(got, rad, 1e-6, 1e-12 * max(np.abs(rad).max(), 1e-300))
        obs.expect(bool(ok.all()), "radiance of %s deviates: %s" % (n, common.worst(got, rad)))
        if tr is not None:
            obs.label("layers")
            obs.expect(common.close(f.transmission, tr, 1e-6), "transmission of %s deviates: %s" % (n, common.worst(np.asarray(f.transmission, float), tr)))
    sky = pm.sky_transmission()
    if sky is None:
        obs.expect(not hasattr(target, "skyTransmission"), "a sky without absorbing layers has a transmission")
    else:
        obs.expect(common.close(target.skyTransmission.data.value, sky, 1e-6), "sky transmission is not the product of its layers: %s"
                   % common.worst(target.skyTransmission.data.value, sky))
    obs.sample = {"kind": kind, "coefficient": coeff, "layers": [n for n, _, _ in layers]}
