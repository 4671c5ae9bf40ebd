"""Data files a payload may lean on besides its tables: point spread functions, a stellar grid, a sky map.

The same plan written for two payloads gives the same file names with other contents."""
import os
import random
import shutil

import numpy as np

from . import gen, model, psf

KINDS = ["fits", "dir", "pixel", "pixdir", "paos"]


def plan(r, specs, p_psf=0.6, p_phoenix=0.35, p_map=0.5, p_sed=0.0):
    out = {"psf": {}, "phoenix": r.random() < p_phoenix, "map": r.random() < p_map}
    out["sed"] = r.random() < p_sed and not out["phoenix"]
    for s in specs:
        for ch in s["channels"]:
            if ch["name"] not in out["psf"]:
                out["psf"][ch["name"]] = r.choice(KINDS) if r.random() < p_psf else None
    return out


def write(spec, pl, d, salt):
    """writes the files in d, under names that depend on the plan alone, and points the description to them; returns labels"""
    os.makedirs(d, exist_ok=True)
    labels = []
    for ch in spec["channels"]:
        kind = pl["psf"].get(ch["name"])
        if not kind:
            continue
        r = random.Random("%s %s" % (salt, ch["name"]))
        shutil.rmtree(os.path.join(d, ch["name"] + "_psfs"), ignore_errors=True)
        lo, hi = gen.val(ch["wl_min"], "um"), gen.val(ch["wl_max"], "um")
        wls = [0.5 * (lo + hi)] if ch["cls"] == "Photometer" else [lo, hi]
        ch["PSF"] = psf.make(r, kind, d, ch["name"], wls)[0]
        labels.append("psf " + kind)
    if pl["phoenix"]:
        stellar_grid(random.Random("%s grid" % salt), os.path.join(d, "phoenix"), pl.get("vary"))
        spec["source"] = {"kind": "phoenix", "path": os.path.join(d, "phoenix")}
        labels.append("stellar grid")
    if pl.get("sed"):
        rs = random.Random("%s sed" % salt)
        lo, hi = gen.val(spec["wl_min"], "um"), gen.val(spec["wl_max"], "um")
        t = gen.gen_table(rs, 0.5 * lo, 1.3 * hi, {"Sed": (1e4, 5e7)}, n=80)
        gen.write_ecsv(os.path.join(d, "star.csv"), t, {"Wavelength": "um", "Sed": "W / (m2 um)"})
        spec["source"] = {"kind": "custom", "path": os.path.join(d, "star.csv"), "table": t}
        labels.append("spectrum on disk")
    if pl["map"]:
        for f in spec.get("foregrounds") or []:
            if f["kind"] == "zodi":
                sky_map(random.Random("%s map" % salt), os.path.join(d, "map.hdf5"))
                f["map"], f["map_file"] = True, os.path.join(d, "map.hdf5")
                labels.append("sky map")
                for i, t in enumerate(spec["targets"]):
                    t.setdefault("ra", (37.5 + 91.25 * i) % 360)
                    t.setdefault("dec", (11.5 + 41.25 * i) % 180 - 90)
    return labels


def stellar_grid(r, p, vary=False):
    from astropy.io import fits

    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    wl = np.linspace(0.1, 60, 400)
    Ts = (5, 25, 45, 65, 120, 400)
    if vary:
        # other models each time: what the folder holds is part of the inputs
        Ts = (5,) + tuple(sorted(r.sample(range(20, 110), 8))) + (400,)
    for T in Ts:
        for g in (2.5, 4.0, 5.5):
            fl = model.planck(wl, T * 100.0) * np.pi * (1 + 0.3 * np.sin(wl * r.uniform(0.5, 4)))
            h = fits.BinTableHDU.from_columns([fits.Column(name="Wavelength", format="D", unit="um", array=wl),
                                               fits.Column(name="Flux", format="D", unit="W / (m2 um)", array=fl)])
            h.header["PHXLUM"] = 3.8e26
            fits.HDUList([fits.PrimaryHDU(), h]).writeto(
                os.path.join(p, "lte%05.1f-%.1f-0.0a+0.0.BT-Settl.spec.fits.gz" % (T, g)), overwrite=True)


def sky_map(r, p):
    from astropy.table import Table

    n = 60
    Table({"ra_icrs": [r.uniform(0, 360) for _ in range(n)], "dec_icrs": [r.uniform(-90, 90) for _ in range(n)],
           "zodi_coeff": [r.uniform(0.2, 5) for _ in range(n)]}).write(p, format="hdf5", path="table", serialize_meta=True, overwrite=True)


def dress(spec, d, seed, obs, p=0.4, grid=True, sky=True):
    """with probability p, makes the payload lean on data files of all kinds, written in d"""
    r = random.Random("dress %s" % seed)
    if r.random() >= p:
        return
    pl = plan(r, [spec])
    pl["phoenix"] &= grid
    pl["map"] &= sky
    for lab in write(spec, pl, d, seed):
        obs.label(lab)
