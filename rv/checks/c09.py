"""Star light: flux and photon rates in every bin."""
import copy
import os
import random

import numpy as np

from .. import psf
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the stellar flux and photo-electron rates of an observed target were compared with the integral of "
        "its spectrum through the described throughput, and the scaling relations were evaluated on a second observation")
ASSUMPTIONS = ["a grid sample or pixel falling exactly on a bin edge may be counted on either side"]
REQUIRED = ["photometer", "spectrometer", "source planck", "source custom", "edges forced", "edges free", "sky", "aperture correction", "scaled",
            "psf file", "off-centre psf", "aperture EnE", "both aperture options"]
COLS = ["starFlux", "starSignal", "star_signal_inAperture", "star_MaxSignal_inPixel"]


def cases(seed, tier):
    v = [{"p_slit": 0.2, "working_R": 300}, {"p_slit": 0.2, "working_R": 1200, "n_ch": 2}, {"p_slit": 0.1, "working_R": 701, "p_cut": 0.5}]
    return spread(seed, count(tier, 64, 500), "C09", v)


def images(spec, r, d, obs):
    """gives channels PSFs of their own, not always centred"""
    out = {}
    for ch in spec["channels"]:
        kind = r.choice(["airy", "fits", "dir", "pixel", "pixdir", "paos"])
        if kind == "airy":
            continue
        cm = model.ChannelModel(spec, ch)
        wls = [float(cm.wl[0])] if ch["cls"] == "Photometer" else list(np.linspace(cm.pwl.min(), cm.pwl.max(), 10))
        for attempt in range(20):
            desc, im = psf.make(r, kind, d, "%s_%d" % (ch["name"], attempt), wls)
            if min(im.margin(w) for w in wls) > 1e-6:
                break
        else:
            continue
        ch["PSF"], out[ch["name"]] = desc, im
        obs.label("psf file")
        P = im(ch["Fnum_x"], ch["Fnum_y"], wls[0], cm.delta)[0]
        if P.max() > P[P.shape[0] // 2, P.shape[1] // 2] * 1.0001:
            obs.label("off-centre psf")
    return out


def enclosing(spec, r, images, obs):
    """gives photometers apertures that are to hold a fraction of the light"""
    for ch in spec["channels"]:
        if ch["cls"] != "Photometer" or r.random() < 0.4:
            continue
        # an aperture of a few units wants a finely sampled focal plane
        lam = 0.5 * (gen.val(ch["wl_min"], "um") + gen.val(ch["wl_max"], "um"))
        im = images.get(ch["name"])
        if im is None:
            ch["Fnum_x"], ch["Fnum_y"] = round(r.uniform(0.8, 2.5) / lam, 4), round(r.uniform(0.8, 2.5) / lam, 4)
            ch["detector"]["delta_pix"] = gen.q(round(r.uniform(0.5, 2), 4), "um")
        cm = model.ChannelModel(spec, dict(ch, aperture={"radius": 2.0}))
        wl = float(cm.wl[0])
        P = model.prf(ch["Fnum_x"], ch["Fnum_y"], wl, cm.delta, im)[0]
        pixels = im is not None and im.fmt == "pixel_based"
        first = model.encircled(P, *((1, 1) if pixels else (ch["Fnum_x"] * wl, ch["Fnum_y"] * wl)))
        if first < 0.8 and P.min() > -1e-9 * P.max():
            ch["aperture"] = {"EnE": round(r.uniform(first + 0.03, 0.95), 4)}
            if r.random() < 0.5:
                ch["aperture"]["apertureCorrection"] = round(r.uniform(0.3, 0.9), 3)
                obs.label("both aperture options")
            obs.label("aperture EnE")


def check(case, obs, d):
    spec = gen.gen_spec(case["s"], **case["o"])
    im = images(spec, random.Random(case["s"] + 9), d, obs) if case["s"] % 2 else {}
    if case["s"] % 4 < 3:
        enclosing(spec, random.Random(case["s"] + 11), im, obs)
    c = Case(case, obs, d, spec=spec)
    c.observe()
    if im:
        c.pm = model.PayloadModel(c.spec, images=im)
        c.want = c.pm.observe(c.target_spec)
        c.alt = model.PayloadModel(c.spec, images=im, include_edge=True).observe(c.target_spec)
    c.compare(COLS)
    before = {k: c.col(k) for k in COLS}
    for k in COLS:
        obs.expect(bool(np.all(before[k] >= 0)), "%s is negative" % k)
    # light scales with collecting area and star's angular size
    r = random.Random(case["s"])
    s2 = copy.deepcopy(c.spec)
    fa, fd, fr = [round(r.uniform(0.3, 3), 3) for _ in range(3)]
    s2["Atel"][0] *= fa
    t = s2["targets"][0]
    t["D"][0] *= fd
    t["R"][0] *= fr
    run2 = pipe.Run(s2, os.path.join(d, "scaled"))
    tg = run2.targets()[0]
    run2.observe(tg)
    obs.label("scaled")
    g = (fr / fd) ** 2
    for k in COLS:
        got = pipe.column(tg.table, k, model.unit_of(k))
        f = g if k == "starFlux" else g * fa
        want = before[k] * f
        obs.expect(common.close(got, want, 1e-9, 1e-12 * max(want.max(), 1e-300)),
                   "%s does not scale with area x%g, distance x%g, radius x%g: %s" % (k, fa, fd, fr, common.worst(got, want)))
    c.sample(COLS)
