"""Point spread functions and extraction windows."""
from .. import psf
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the extraction windows and the brightest-pixel share of every channel were compared with those "
        "that follow from the described optics, point spread function and window options")
ASSUMPTIONS = ["PSF images are sampled with the same step along both axes", "paths of PSF directories end with a slash",
               "an encircled-energy aperture is reachable: it needs more than one F-lambda unit and less than the whole image"]
REQUIRED = ["psf airy", "psf fits", "psf dir", "psf pixel", "psf pixdir", "psf paos", "aperture EnE", "WFE", "EncE", "window scale",
            "window spatial pixels", "window spectral pixels", "photometer", "spectrometer", "paos interpolated", "paos extrapolated"]
COLS = ["WindowSize", "starSignal", "star_signal_inAperture", "star_MaxSignal_inPixel"]
KINDS = ["airy", "fits", "dir", "pixel", "pixdir", "paos"]


def cases(seed, tier):
    v = [{"p_slit": 0, "working_R": 150, "n_frg": 0, "n_ch": 2}, {"p_slit": 0.1, "working_R": 300, "n_frg": 1, "n_ch": 3}]
    return spread(seed, count(tier, 64, 640), "C06", v)


def wavelengths(cm):
    if cm.ch["cls"] == "Photometer":
        return [float(cm.wl[0])]
    return list(np.linspace(cm.pwl.min(), cm.pwl.max(), 10))


def prepare(case, obs, d):
    spec = gen.gen_spec(case["s"], **case["o"])
    r = random.Random(case["s"] + 17)
    images = {}
    for i, ch in enumerate(spec["channels"]):
        kind = KINDS[(case["s"] + i) % len(KINDS)]
        ene = ch["cls"] == "Photometer" and r.random() < 0.5
        if ene:
            # an aperture of a few units wants a finely sampled focal plane
            lam = 0.5 * (gen.val(ch["wl_min"], "um") + gen.val(ch["wl_max"], "um"))
            ch["Fnum_x"], ch["Fnum_y"] = round(r.uniform(0.8, 2.5) / lam, 4), round(r.uniform(0.8, 2.5) / lam, 4)
            ch["detector"]["delta_pix"] = gen.q(round(r.uniform(0.5, 2), 4), "um")
            ch["aperture"].setdefault("radius", 2.0)
        cm = model.ChannelModel(spec, ch)
        wls = wavelengths(cm)
        if kind != "airy":
            for attempt in range(20):
                desc, im = psf.make(r, kind, d, "%s_%d" % (ch["name"], attempt), wls)
                if min(im.margin(w) for w in wls) > 1e-6:
                    break
            ch["PSF"], images[ch["name"]] = desc, im
            if kind == "paos":
                ws = [p[0] for p in im.planes]
                for w in wls:
                    obs.label("paos extrapolated" if not min(ws) <= w <= max(ws) else "paos exact" if w in ws else "paos interpolated")
        obs.label("psf " + kind)
        if ene:
            im = images.get(ch["name"])
            P = model.prf(ch["Fnum_x"], ch["Fnum_y"], wls[0], cm.delta, im)[0]
            fx, fy = (1, 1) if kind.startswith("pix") else (ch["Fnum_x"] * wls[0], ch["Fnum_y"] * wls[0])
            first = model.encircled(P, fx, fy)
            if first < 0.8 and P.min() > -1e-9 * P.max():
                e = round(r.uniform(first + 0.03, 0.95), 4)
                ch["aperture"] = {"EnE": e} if r.random() < 0.7 else {"EnE": e, "apertureCorrection": 0.7}
                obs.label("aperture EnE")
    return spec, images


def check(case, obs, d):
    spec, images = prepare(case, obs, d)
    c = Case(case, obs, d, spec=spec)
    c.pm = model.PayloadModel(spec, images=images)
    target = c.run.targets()[0]
    c.run.observe(target)
    c.table = target.table
    c.want = c.pm.observe(spec["targets"][0])
    c.alt = model.PayloadModel(spec, images=images, include_edge=True).observe(spec["targets"][0])
    if not c.rows_ok():
        return
    # encircled energies are integrated here on subpixels
    fine = np.array(["EnE" not in next(x for x in spec["channels"] if x["name"] == n).get("aperture", {}) for n in c.names()])
    cn = custom_noise_columns(spec)
    w, got = c.want["WindowSize"], c.col("WindowSize")
    obs.expect(common.close(got[~fine], w[~fine], 1e-2), "aperture enclosing the requested energy deviates: %s" % common.worst(got[~fine], w[~fine]))
    obs.expect(common.close(got[fine], w[fine], 1e-6), "extraction window deviates: %s" % common.worst(got[fine], w[fine]))
    pipe.compare(obs, c.table, c.want, COLS[1:], cn, alt=c.alt)
    # diffuse light that reaches a photometer's pixel is collected by as many pixels as its window holds
    tot, mx = c.col("instrument_signal"), c.col("instrument_MaxSignal_inPixel")
    for n, ch in ((x["name"], x) for x in spec["channels"]):
        k = c.names() == n
        if ch["cls"] == "Photometer" and not any(e["type"] == "slit" for e in ch["optics"]):
            obs.expect(common.close(tot[k], (mx * got)[k], 1e-9), "channel %s does not collect diffuse light over its window" % n)
    # built channels hand the same windows over before any target is seen
    obs.expect(same(c.run.merged()["WindowSize"], c.table["WindowSize"]), "extraction windows change with the observed target")
    c.sample(COLS)
