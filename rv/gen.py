"""Workload generator: random payloads, auxiliary data files and target lists.

A *spec* is a plain JSON-serialisable dict describing one payload + target list in
canonical units.  `render_payload` writes the XML and auxiliary files the way a user
would; `model.py` predicts results from the spec alone (it never looks at what the code
under test parsed).  Quantities are [value, unit] pairs.
"""
import math
import os
import random

import numpy as np
from astropy import units as u

MODTRAN = "/repo/examples/modtran_38km_sun_180az_55zd_los_45zd.csv"


def q(v, unit):
    return [v, unit]


def val(pair, unit):
    """value of a [v, unit] pair in `unit`"""
    if pair is None:
        return None
    v, un = pair
    if un == unit:
        return float(v)
    return float((v * u.Unit(un)).to(unit).value)


def rnd(r, lo, hi, nd=6):
    return round(r.uniform(lo, hi), nd)


def logrnd(r, lo, hi, nd=8):
    return float("%.*g" % (nd, math.exp(r.uniform(math.log(lo), math.log(hi)))))


# ----------------------------------------------------------------------------- optics
def gen_table(r, lo, hi, cols, n=None, order=None):
    """wavelength table with the given column generators"""
    n = n or r.choice([3, 5, 8, 15, 40])
    wl = sorted(rnd(r, lo, hi) for _ in range(n))
    if n < 5:
        wl[0], wl[-1] = round(lo, 6), round(hi, 6)
    wl = [round(w + 1e-4 * i, 6) for i, w in enumerate(wl)]
    data = {"Wavelength": wl}
    for name, (a, b) in cols.items():
        data[name] = [rnd(r, a, b) for _ in wl]
    order = order or r.choice(["asc", "asc", "desc", "shuf"])
    idx = list(range(n))
    if order == "desc":
        idx = idx[::-1]
    elif order == "shuf":
        r.shuffle(idx)
    return {k: [v[i] for i in idx] for k, v in data.items()}


def gen_element(r, name, lo, hi, kind=None, warm=None):
    kind = kind or r.choice(
        ["const", "const", "const", "refl", "both", "both_bounds", "bounds", "table",
         "table_use", "none"]
    )
    e = {"name": name, "type": r.choice(["surface", "surface", "filter", "mirror"])}
    if r.random() < 0.85:
        e["temperature"] = q(rnd(r, 90, 330, 3) if (warm is None or warm) else rnd(r, 30, 80, 3), "K")
    if kind in ("const", "bounds"):
        e["transmission"] = rnd(r, 0.4, 0.99)
    elif kind == "refl":
        e["reflectivity"] = rnd(r, 0.4, 0.99)
    elif kind in ("both", "both_bounds"):
        e["transmission"] = rnd(r, 0.3, 0.99)
        e["reflectivity"] = rnd(r, 0.3, 0.99)
        e["use"] = r.choice(["transmission", "reflectivity"])
    elif kind in ("table", "table_use"):
        cols = {"Transmission": (0.2, 1.0), "Emissivity": (0.0, 0.4)}
        if kind == "table_use":
            cols["Reflectivity"] = (0.2, 1.0)
            e["use"] = r.choice(["Transmission", "Reflectivity"])
            if r.random() < 0.4:
                # any column will do
                e["use"] = r.choice(["tCold", "coatedLayer", "band_TWO", "throughput"])
                cols[e["use"]] = (0.2, 1.0)
        elif r.random() < 0.3:
            cols = {"Reflectivity": (0.2, 1.0), "Emissivity": (0.0, 0.4)}
        # the table may cover only part of the grid
        a, b = (0.7 * lo, 1.3 * hi) if r.random() < 0.7 else (lo + 0.2 * (hi - lo), lo + 0.9 * (hi - lo))
        e["table"] = gen_table(r, a, b, cols)
        k = r.random()
        if k < 0.15:
            e["wl_col"] = "wavelength"
        elif k < 0.3:
            e["wl_col"] = r.choice(["lambda", "wl"])
        if r.random() < 0.2:
            e["em_col"] = "emissivity"
    if kind in ("bounds", "both_bounds") or (kind == "refl" and r.random() < 0.5):
        w = hi - lo
        if r.random() < 0.8:
            e["wl_min"] = q(rnd(r, lo + 0.02 * w, lo + 0.4 * w), "um")
        if r.random() < 0.8:
            e["wl_max"] = q(rnd(r, lo + 0.6 * w, lo + 0.98 * w), "um")
        if r.random() < 0.2 and "transmission" in e and kind == "bounds":
            e["use"] = "transmission"
    if "table" not in e and r.random() < 0.9:
        e["emissivity"] = rnd(r, 0.005, 0.5)
    if r.random() < 0.15 and "temperature" in e:
        e["solid_angle"] = q(rnd(r, 0.001, 2.0), "sr")
    return e


def gen_optics(r, prefix, lo, hi, n, boxes, slit_width=None):
    els = []
    for i in range(n):
        els.append(gen_element(r, "%s%d" % (prefix, i), lo, hi))
    if slit_width is not None:
        s = {"name": prefix + "slit", "type": "slit", "width": slit_width}
        k = int(round(val(slit_width, "um"))) % 10
        # the slit may be warm, and let through less than all
        if k < 5:
            s["temperature"], s["emissivity"] = q(140.0 + 11.5 * k, "K"), 0.11 + 0.05 * k
        if 3 <= k < 6:
            s["transmission"] = 0.9 + 0.033 * (k - 3)
        els.insert(r.randint(0, len(els)), s)
    if boxes:
        if r.random() < 0.8:
            b = {"name": prefix + "box", "type": "optics box",
                 "temperature": q(rnd(r, 60, 180, 3), "K"), "emissivity": rnd(r, 0.3, 1.0)}
            if int(b["temperature"][0] * 1000) % 5 == 0:
                del b["emissivity"]
            els.insert(len(els) - (1 if els and r.random() < 0.2 else 0), b)
        if r.random() < 0.8:
            d = {"name": prefix + "det", "type": "detector box",
                 "temperature": q(rnd(r, 40, 140, 3), "K")}
            if r.random() < 0.6:
                d["emissivity"] = rnd(r, 0.3, 1.0)
            if int(d["temperature"][0] * 1000) % 5 == 2:
                d["transmission"] = 0.93
            els.append(d)
    for e in els:
        # a box may be seen under an angle of its own
        if e["type"] in ("optics box", "detector box") and int(e["temperature"][0] * 1000) % 7 == 3:
            e["solid_angle"] = q(round(0.05 + int(e["temperature"][0] * 100) % 40 / 20, 4), "sr")
        if "temperature" in e and "table" not in e:
            k = int(e["temperature"][0] * 1000)
            # what emits nothing says so
            if k % 9 == 4:
                e["emissivity"] = 0.0
            # a name is no type
            if k % 13 in (5, 8):
                e["name"] = {0: "detector ", 1: "slit ", 2: "optics box "}[k % 3] + e["name"]
    return els


# --------------------------------------------------------------------------- channels
def pixel_grid(ch):
    """(wl of pixel centres, bandwidth, coords) predicted from the description (um)"""
    sol = ch["wl_solution"]
    w = np.array(sol["Wavelength"], float)
    x = np.array(sol["x"], float)
    o = np.argsort(w)
    w, x = w[o], x[o]

    def to_x(l):
        return lin_extrap(l, w, x)

    ox = np.argsort(x)
    xs, ws = x[ox], w[ox]

    def to_wl(p):
        return lin_extrap(p, xs, ws)

    delta = val(ch["detector"]["delta_pix"], "um")
    a = float(to_x(val(ch["wl_min"], "um")))
    b = float(to_x(val(ch["wl_max"], "um")))
    if b < a:
        a, b = b, a
    pix = np.arange(a, b, delta)[::-1]
    wl = to_wl(pix)
    bw = np.abs(to_wl(pix - 0.5 * delta) - to_wl(pix + 0.5 * delta))
    return wl, bw, pix, to_x, (b - a) / delta


def lin_extrap(x, xp, fp):
    """piecewise-linear interpolation of increasing xp with linear extrapolation"""
    x = np.asarray(x, float)
    i = np.clip(np.searchsorted(xp, x) - 1, 0, len(xp) - 2)
    x0, x1, f0, f1 = xp[i], xp[i + 1], fp[i], fp[i + 1]
    return f0 + (f1 - f0) * ((x - x0) / (x1 - x0))


def fixed_edges(lo, hi, R):
    s = 1.0 + 1.0 / R
    n = math.ceil(math.log(hi / lo) / math.log(s)) + 1
    return lo * s ** np.arange(n)


def bins_have_pixels(edges_l, edges_r, wlpix):
    """every bin holds a pixel centre, and none sits on an edge"""
    for a, b in zip(edges_l, edges_r):
        if not np.any((wlpix > a + 1e-9) & (wlpix < b - 1e-9)):
            return False
    return True


def gen_detector(r, ch, lo, hi, cut=False):
    w = hi - lo
    d = {
        "delta_pix": q(r.choice([15.0, 18.0, 10.0, rnd(r, 8, 25, 3)]), "um"),
        "read_noise": q(rnd(r, 1, 40, 3), "count"),
        "dark_current": q(rnd(r, 0.001, 50, 4), "count/s"),
        "well_depth": q(r.choice([100000, 60000, rnd(r, 1e4, 5e5, 1)]), "count"),
        "f_well_depth": q(r.choice([1.0, 0.8, rnd(r, 0.1, 1.0, 3)]), ""),
        "wl_min": q(rnd(r, 0.5 * lo, 0.9 * lo), "um"),
        "cut_off": q(rnd(r, 1.1 * hi, 1.6 * hi), "um"),
        "freqNDR": q(r.choice([0.0, 0.0, rnd(r, 0.01, 20, 4)]), "Hz"),
    }
    if cut and r.random() < 0.5:
        d["cut_off"] = q(rnd(r, lo + 0.5 * w, lo + 0.95 * w), "um")
    elif cut:
        d["wl_min"] = q(rnd(r, lo + 0.05 * w, lo + 0.4 * w), "um")
    if r.random() < 0.35:
        d["frame_time"] = q(logrnd(r, 0.01, 500, 5), "s")
    if r.random() < 0.3:
        d["multiaccumM"] = r.choice([1, 2, 4, 16])
    if r.random() < 0.5:
        d["qe"] = rnd(r, 0.2, 0.95)
    else:
        a, b = (0.6 * lo, 1.8 * hi) if r.random() < 0.7 else (lo + 0.1 * w, lo + 0.8 * w)
        n = r.choice([2, 4, 10, 40, 3000]) if r.random() < 0.15 else r.choice([2, 4, 10, 40])
        t = gen_table(r, a, b, {ch: (0.1, 0.95)}, n=n)
        # a response that is all on one side of the window says nothing of it
        ws = t["Wavelength"]
        if min(ws) > lo + 0.3 * w:
            ws[ws.index(min(ws))] = round(a, 6)
        if max(ws) < lo + 0.45 * w:
            ws[ws.index(max(ws))] = round(b, 6)
        t["otherChannel"] = [0.123] * len(t["Wavelength"])
        # detectors of other channels, called alike
        t = {"Wavelength": t["Wavelength"], ch + "0": [0.234] * len(t["Wavelength"]), ch.swapcase() + "~": [0.345] * len(t["Wavelength"]), **t}
        d["qe"] = {"table": t}
        if r.random() < 0.2:
            d["qe"]["wl_col"] = "wavelength"
    return d


def gen_channel(r, name, cls, lo, hi, opts):
    """one channel inside [lo, hi] um"""
    span = hi - lo
    for _ in range(50):
        a = rnd(r, lo + 0.01 * span, lo + 0.8 * span, 5)
        b = rnd(r, a * 1.04, min(hi - 0.005 * span, a * (1.35 if cls == "Photometer" else 2.2)), 5)
        if b > a * 1.03:
            break
    else:
        a, b = round(lo + 0.2 * span, 5), round(lo + 0.6 * span, 5)
    ch = {"name": name, "cls": cls, "wl_min": q(a, "um"), "wl_max": q(b, "um"),
          "Fnum_x": rnd(r, 5, 60, 3), "Fnum_y": rnd(r, 5, 60, 3)}
    if r.random() < 0.1:
        ch["Fnum_y"] = ch["Fnum_x"]
    else:
        # nearly round beams are not round
        rf = random.Random("beam %s %s" % (name, ch["Fnum_x"]))
        if rf.random() < 0.2:
            ch["Fnum_y"] = round(ch["Fnum_x"] * (1 + rf.choice([-1, 1]) * rf.choice([4e-4, 1e-3, 4e-3])), 6)
    if r.random() < 0.6:
        ch["NoiseX"] = rnd(r, 0.0, 1.5, 4)
    det = gen_detector(r, name, a, b, cut=r.random() < opts.get("p_cut", 0.15))
    ch["detector"] = det
    if r.random() < 0.4:
        ch["custom_noise"] = gen_noises(r, name, r.choice([1, 1, 2, 3]))
    slit = None
    if cls == "Photometer":
        ap = {"radius": rnd(r, 1.5, 12, 4)}
        if r.random() < 0.6:
            ap["apertureCorrection"] = rnd(r, 0.3, 1.0, 4)
        ch["aperture"] = ap
        # keep the PSF kernel of moderate size
        lam = 0.5 * (a + b)
        for k in ("Fnum_x", "Fnum_y"):
            kk = val(det["delta_pix"], "um") / (ch[k] * lam * 8 / 255.0)
            if kk > 70:
                ch[k] = round(val(det["delta_pix"], "um") / (70 * lam * 8 / 255.0), 3)
    else:
        npix = r.choice([40, 60, 100, 160, 240])
        for k in ("Fnum_x", "Fnum_y"):
            kk = val(det["delta_pix"], "um") / (ch[k] * a * 8 / 255.0)
            if kk > 40:
                ch[k] = round(val(det["delta_pix"], "um") / (40 * a * 8 / 255.0), 3)
        for attempt in range(60):
            d = val(det["delta_pix"], "um")
            n = r.choice([3, 5, 9, 30])
            wl = np.linspace(a * rnd(r, 0.85, 0.995), b * rnd(r, 1.005, 1.15), n)
            if r.random() < 0.1:  # solution narrower than the channel: extrapolated
                wl = np.linspace(a + 0.03 * (b - a), b - 0.03 * (b - a), n)
            t = (wl - a) / (b - a)
            curve = rnd(r, -0.3, 0.3, 4)
            x = (t + curve * t * (1 - t)) * npix * d + rnd(r, -3000, 3000, 3)
            if r.random() < 0.5:
                x = -x
            idx = list(range(n))
            o = r.choice(["asc", "desc", "shuf"])
            if o == "desc":
                idx = idx[::-1]
            elif o == "shuf":
                r.shuffle(idx)
            ch["wl_solution"] = {
                "Wavelength": [round(float(wl[i]), 7) for i in idx],
                "x": [round(float(x[i]), 5) for i in idx],
            }
            if len(set(np.sign(np.diff(x)))) != 1:
                continue
            wlp, bw, pix, _, frac = pixel_grid(ch)
            if not (0.03 < frac % 1 < 0.97) or len(wlp) < 20:
                continue
            mode = opts.get("Rmode") or r.choice(["fixed", "fixed", "fixed", "native", "absent", "data"])
            maxR = a / (3.2 * bw.max())
            if mode in ("fixed", "data") and maxR < 4:
                mode = "native"
            if mode == "fixed":
                R = rnd(r, 3, max(3.5, maxR), 3)
                e = fixed_edges(a, b, R)
                ratio = math.log(b / a) / math.log(1 + 1 / R)
                if not (0.02 < ratio % 1 < 0.98) or not bins_have_pixels(e[:-1], e[1:], wlp):
                    continue
                ch["targetR"] = R
            elif mode == "native":
                ch["targetR"] = "native"
            elif mode == "absent":
                ch.pop("targetR", None)
            else:
                nw = r.choice([2, 4, 8])
                W = np.linspace(a * 0.9, b * 1.6, nw)
                tab = {"W": [round(float(w), 5) for w in W],
                       "R": [rnd(r, 3, max(3.5, maxR), 3) for _ in W]}
                e = data_edges(a, b, tab)
                if e is None or not bins_have_pixels(e[:-1], e[1:], wlp):
                    continue
                ch["targetR"] = {"data": tab}
            break
        else:
            return gen_channel(r, name, cls, lo, hi, opts)
        if r.random() < 0.3:
            ch["WFErms"] = q(rnd(r, 0.01, 0.3, 4), "um")
        k = r.random()
        if k < 0.25:
            ch["window_spatial_scale"] = rnd(r, 0.3, 3, 3)
            if int(ch["window_spatial_scale"] * 1000) % 5 == 0:
                ch["window_spatial_pixel"] = 2.5 + int(ch["window_spatial_scale"] * 100) % 7
        elif k < 0.4:
            ch["window_spatial_pixel"] = r.choice([3, 5, rnd(r, 2, 20, 2)])
        if r.random() < 0.12:
            ch["window_spectral_pixel"] = r.choice([2, 4, rnd(r, 2, 9, 2)])
        if r.random() < 0.2:
            n = r.choice([2, 4, 8])
            w = np.linspace(a * 0.9, b * 1.3, n)
            ch["EncE"] = {"Wavelength": [round(float(z), 5) for z in w],
                          "EE": [rnd(r, 0.6, 3.0, 4) for _ in w]}
            if int(ch["EncE"]["EE"][0] * 10000) % 3 == 0:
                # radii known over part of the range: the trend goes on
                ch["EncE"] = {"Wavelength": [round(float(z), 5) for z in np.linspace(a + 0.25 * (b - a), b - 0.25 * (b - a), n)],
                              "EE": [round(1.1 + 0.4 * i / (n - 1), 5) for i in range(n)]}
        if r.random() < opts.get("p_slit", 0.45):
            m = r.randint(2, 15) + rnd(r, 0.1, 0.9, 3)
            slit = q(round(m * val(det["delta_pix"], "um") / 1000.0, 6), "mm")
    glo, ghi = val(det["wl_min"], "um"), val(det["cut_off"], "um")
    ch["optics"] = gen_optics(r, name + "e", glo, ghi, r.randint(0, 4), True, slit)
    return ch


def data_edges(a, b, tab):
    """edges for wavelength-dependent resolving power; None where decisions are marginal"""
    W, R = np.array(tab["W"]), np.array(tab["R"])
    e = [a]
    w = a
    while w < b:
        w = float(np.round(w + w / np.interp(w, W, R), 4))
        e.append(w)
        if abs(w - b) < 1e-3:
            return None
    if len(e) < 4:
        return None
    small, lim = b - e[-2], (e[-2] - e[-3]) / 2.0
    if abs(small - lim) < 1e-3:
        return None
    if small < lim:
        e[-2] = b
        e = e[:-1]
    return np.array(e)


def gen_noises(r, tag, n):
    vals = r.sample(range(1, 400), n)
    out = []
    for i, v in enumerate(vals):
        v = v if r.random() < 0.5 else round(v + r.uniform(0.1, 0.9), 3)
        out.append({"name": "%s_cn%d" % (tag, i), "ppm": v})
    # names and values used more than once: each term still counts
    if n > 1 and r.random() < 0.3:
        for k in (["name"], ["ppm"], ["name", "ppm"])[r.randrange(3)]:
            a, b = r.sample(range(n), 2)
            out[a][k] = out[b][k]
    return out


# ------------------------------------------------------------------------ foregrounds
def gen_foregrounds(r, lo, hi, n=None, zodi=None):
    n = r.choice([1, 1, 2, 2, 3, 4]) if n is None else n
    out, have_zodi = [], False
    for i in range(n):
        if not have_zodi and (zodi if zodi is not None else r.random() < 0.5):
            have_zodi = True
            f = {"kind": "zodi", "name": "zodiacal"}
            k = r.random()
            if k < 0.75:
                f["factor"] = rnd(r, 0.1, 8, 3)
            if k < 0.2:
                f["map"] = False
            out.append(f)
        else:
            a, b = (0.7 * lo, 1.4 * hi) if r.random() < 0.75 else (lo + 0.1 * (hi - lo), lo + 0.9 * (hi - lo))
            scale = logrnd(r, 1e-6, 1e1, 3)
            t = gen_table(r, a, b, {"Transmission": (0.2, 1.0), "Radiance": (0.0, 1.0)})
            t["Radiance"] = [float("%.8g" % (v * scale)) for v in t["Radiance"]]
            out.append({"kind": "sky", "name": r.choice(["skyFilter", "atm", "layer", "cloud", "exozodi", "Zodiacal"]) + str(i),
                        "table": t})
    return out


# ---------------------------------------------------------------------------- targets
def gen_targets(r, n, planets=False, prefix="T"):
    out = []
    for i in range(n):
        t = {"name": "%s%d%s" % (prefix, i, r.choice(["", " b", "-c", "_x"])),
             "M": q(rnd(r, 0.08, 3, 4), "M_sun"), "Teff": q(rnd(r, 2300, 12000, 2), "K"),
             "R": q(rnd(r, 0.1, 4, 4), "R_sun"), "D": q(rnd(r, 1.5, 500, 3), "pc"),
             "magk": rnd(r, 0, 14, 3)}
        if r.random() < 0.5:
            t["M"][0] = int(t["M"][0]) + 1
        out.append(t)
    return out


# ------------------------------------------------------------------------------- spec
def gen_spec(seed, **opts):
    """a whole payload + targets.  opts: n_ch, working_R, n_frg, source, force_edge ..."""
    r = random.Random(seed)
    lo = rnd(r, 0.4, 0.8, 5)
    hi = rnd(r, max(2.0, lo * 2.5), 9.0, 5)
    spec = {"seed": seed}
    spec["working_R"] = opts.get("working_R") or r.choice([150, 300, 701, 1200, 3000])
    cut_common = r.random() < 0.1
    spec["wl_min"], spec["wl_max"] = q(lo, "um"), q(hi, "um")
    clo, chi = lo * 1.02, hi * 0.98
    spec["source"] = opts.get("source") or {"kind": r.choice(["planck", "planck", "custom"])}
    if spec["source"]["kind"] == "custom" and "table" not in spec["source"]:
        t = gen_table(r, lo * 0.8, hi * 1.2, {"Sed": (1e4, 5e7)}, n=r.choice([5, 60, 4000]),
                      order="asc")
        spec["source"]["table"] = t
    spec["foregrounds"] = gen_foregrounds(r, lo, hi, n=opts.get("n_frg"))
    spec["custom_noise"] = gen_noises(r, "com", r.choice([0, 0, 1, 2, 3]))
    spec["force_edge"] = opts.get("force_edge", r.random() < 0.5)
    spec["Atel"] = q(rnd(r, 0.05, 5, 4), "m**2")
    spec["common_optics"] = gen_optics(r, "M", lo, hi, r.randint(0, 3), False)
    p_dup = opts.get("p_dup", 0.1)
    n_ch = opts.get("n_ch") or r.choice([2, 2, 3, 4])
    chs = []
    for i in range(n_ch):
        cls = opts.get("cls") or r.choice(["Photometer", "Spectrometer"])
        if i == 0 and n_ch > 1 and not opts.get("cls"):
            cls = r.choice(["Photometer", "Spectrometer"])
        nm = ("Ph" if cls[0] == "P" else "Sp") + r.choice(["", "ot", "X"]) + str(i)
        chs.append(gen_channel(r, nm, cls, clo, chi, opts))
    spec["channels"] = chs
    own = [n for c in chs for n in c.get("custom_noise", [])]
    if own and spec["custom_noise"] and r.random() < 0.2:
        r.choice(own)["name"] = r.choice(spec["custom_noise"])["name"]
    # names used more than once: each element and each layer still counts
    if r.random() < p_dup:
        for ch in chs:
            for e in ch["optics"]:
                if r.random() < 0.5 and spec["common_optics"]:
                    e["name"] = r.choice(spec["common_optics"])["name"]
    if r.random() < p_dup:
        for els in [spec["common_optics"]] + [c["optics"] for c in chs]:
            if len(els) > 1:
                els[-1]["name"] = els[0]["name"]
        sky = [f for f in spec["foregrounds"] if f["kind"] == "sky"]
        for f in sky[1:]:
            f["name"] = sky[0]["name"]
    spec["targets"] = gen_targets(r, opts.get("n_tgt", 1))
    spec["style"] = {"seed": r.randint(0, 10**9)}
    # channels called the same: each one still counts
    r2 = random.Random("same %s" % seed)
    if r2.random() < opts.get("p_same", 0.08):
        same_names(spec, r2)
    elif r2.random() < opts.get("p_odd", 0.1):
        ch = r2.choice(chs)
        rename_channel(ch, ch["name"] + r2.choice([" 0.55", ".1", " 1.2-2.0 um", "-µ", "'s"]))
    return spec


def rename_channel(ch, name):
    qe = ch["detector"]["qe"]
    if isinstance(qe, dict) and ch["name"] in qe["table"]:
        qe["table"][name] = qe["table"].pop(ch["name"])
    ch["name"] = name


def same_names(spec, r, p=0.8):
    """channels the description calls the same: 'tag' is what is written, 'name' the numbered one they get. -> {new: old}"""
    tag = r.choice(spec["channels"])["name"]
    new = {}
    for ch in spec["channels"]:
        old = ch["name"]
        if old == tag or r.random() < p:
            ch["tag"] = tag
            n = sum(k.split(" (")[0] == tag for k in new)
            rename_channel(ch, tag if not n else "%s (%d)" % (tag, n + 1))
        new[ch["name"]] = old
    return new


# --------------------------------------------------------------------------- rendering
class Writer:
    def __init__(self, rnd_, fuzz=True):
        self.r = rnd_
        self.out = []
        self.fuzz = fuzz

    def text(self, t):
        t = str(t)
        if not self.fuzz:
            return t
        return self.r.choice([t, " " + t + " ", t + "\n      ", "\n    " + t])

    def leaf(self, tag, value, unit=None, kids="", **attrs):
        a = "" if unit is None else " unit=%s%s%s" % (('"', unit, '"') if self.r.random() < 0.5 else ("'", unit, "'"))
        for k, v in attrs.items():
            a += ' %s="%s"' % (k, v)
        c = "<comment>a <!-- nested --> note</comment>" if self.fuzz and self.r.random() < 0.15 else ""
        return "<%s%s>%s%s%s</%s>\n" % (tag, a, self.text(value), kids, c, tag)

    def quant(self, tag, pair):
        return self.leaf(tag, fmt(pair[0]), unit=pair[1])


def fmt(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    return str(v)


class Units:
    """units to write quantities in; where several are admitted, one is drawn every time"""

    def __init__(self, units, r):
        self.units, self.r = units, r

    def get(self, kind, default=None):
        v = self.units.get(kind, default)
        return self.r.choice(v) if isinstance(v, list) else v


def write_ecsv(path, cols, units, delimiter=","):
    names = list(cols)
    with open(path, "w") as f:
        f.write("# %ECSV 0.9\n# ---\n# delimiter: ','\n# datatype:\n")
        for n in names:
            un = units.get(n)
            f.write("# - {name: %s, %sdatatype: float64}\n" % (n, ("unit: %s, " % un) if un else ""))
        f.write(",".join(names) + "\n")
        for row in zip(*[cols[n] for n in names]):
            f.write(",".join(repr(float(x)) for x in row) + "\n")


def render_payload(spec, d, name="payload.xml", fuzz=True, fixed_order=True):
    """write XML + data files in directory d; returns the XML path"""
    os.makedirs(d, exist_ok=True)
    r = random.Random(spec.get("style", {}).get("seed", 0))
    w = Writer(r, fuzz)
    ctr = [0]
    ru = random.Random(spec.get("style", {}).get("seed", 0) + 1)
    un = Units(spec.get("units", {}), ru)

    def U(kind, pair):
        """re-express a pair in the unit chosen for that kind, if any"""
        target = un.get(kind)
        if not target or pair is None:
            return pair
        if target == "bare":
            return [pair[0], None]
        return [float((pair[0] * u.Unit(pair[1])).to(target).value), target]

    def datafile(cols, units, tag="datafile", sep=None, rename=()):
        ctr[0] += 1
        fn = "data_%d.csv" % ctr[0]
        p = os.path.join(d, fn)
        if sep:
            with open(p, "w") as f:
                f.write(sep.join(cols) + "\n")
                for row in zip(*cols.values()):
                    f.write(sep.join(repr(float(x)) for x in row) + "\n")
        else:
            c2, u2 = dict(cols), dict(units)
            tw = un.get("table_wl")
            if tw and "Wavelength" in c2:
                k = u.Unit(u2.get("Wavelength", "um")).to(tw)
                c2["Wavelength"] = [x * k for x in c2["Wavelength"]]
                u2["Wavelength"] = tw
            tr = un.get("radiance")
            if tr and "Radiance" in c2:
                k = u.Unit(u2["Radiance"]).to(tr)
                c2["Radiance"] = [x * k for x in c2["Radiance"]]
                u2["Radiance"] = tr
            ts = un.get("sed")
            if ts and "Sed" in c2:
                k = u.Unit(u2["Sed"]).to(ts)
                c2["Sed"] = [x * k for x in c2["Sed"]]
                u2["Sed"] = ts
            tx = un.get("x")
            if tx and "x" in c2:
                k = u.Unit(u2["x"]).to(tx)
                c2["x"] = [x * k for x in c2["x"]]
                u2["x"] = tx
            rn = dict(rename)
            if ru.random() < 0.35:
                # columns are known by their names
                ks = list(c2)
                ru.shuffle(ks)
                c2 = {k: c2[k] for k in ks}
            write_ecsv(p, {rn.get(k, k): v for k, v in c2.items()}, {rn.get(k, k): v for k, v in u2.items()})
        ref = ("__ConfigPath__/" + fn) if not un.get("abs_paths") else p
        return "<%s>%s</%s>\n" % (tag, w.text(ref) if tag == "datafile" else ref, tag)

    def element(e):
        s = w.leaf("type", e["type"])
        if e.get("temperature") is not None:
            s += w.quant("temperature", U("temp", e["temperature"]))
        for k in ("emissivity", "transmission", "reflectivity"):
            if e.get(k) is not None:
                s += w.leaf(k, fmt(e[k]))
        for k in ("wl_min", "wl_max"):
            if e.get(k) is not None:
                s += w.quant(k, U("el_wl", e[k]))
        if e.get("use"):
            s += "<use>%s</use>" % e["use"]
        if e.get("solid_angle"):
            s += w.quant("solid_angle", U("angle", e["solid_angle"]))
        if e.get("width"):
            s += w.quant("width", U("slit", e["width"]))
        if e.get("table"):
            if e.get("wl_col", "wavelength") != "wavelength":
                s += "<wl_col_name>%s</wl_col_name>" % e["wl_col"]
            s += datafile(e["table"], {"Wavelength": "um"},
                          rename={"Wavelength": e.get("wl_col", "Wavelength"), "Emissivity": e.get("em_col", "Emissivity")})
        return w.leaf("opticalElement", e["name"], kids=s)

    def noises(ns):
        return "".join(w.leaf("customNoise", fmt(n["ppm"]), kids="<name>%s</name>" % w.text(n["name"])) for n in ns)

    o = ["<root>\n"]
    o.append("<ConfigPath>%s</ConfigPath>\n" % w.text(d))
    o.append("<fileName>payload_%s</fileName>\n" % spec.get("seed", 0))
    o.append("<common>\n")
    if spec.get("working_R") is not None:
        o.append(w.leaf("working_R", spec["working_R"]))
    src = spec["source"]
    kids = ""
    if src["kind"] == "custom":
        if "path" in src:
            kids = "<CustomSed>%s</CustomSed>" % src["path"]
        else:
            kids = datafile(src["table"], {"Wavelength": "um", "Sed": src.get("unit", "W / (m2 um)")}, tag="CustomSed")
    if src["kind"] == "phoenix":
        kids = "<StellarModels>%s</StellarModels>" % src["path"]
    o.append("<sourceSpectrum>%s%s</sourceSpectrum>\n" % (w.text(src.get("text", src["kind"])), kids))
    o.append(w.quant("wl_min", U("common_wl", spec["wl_min"])))
    o.append(w.quant("wl_max", U("common_wl2", U("common_wl", spec["wl_max"]))))
    for f in spec["foregrounds"]:
        if f["kind"] == "zodi":
            k = ""
            if f.get("factor") is not None:
                k += w.leaf("zodiacFactor", fmt(f["factor"]))
            if f.get("map") is not None:
                k += w.leaf("zodiacalMap", fmt(bool(f["map"])))
            if f.get("map_file"):
                k += "<custom_map_file>%s</custom_map_file>" % f["map_file"]
            o.append(w.leaf("foreground", "zodiacal", kids=k))
        else:
            o.append(w.leaf("foreground", f["name"], kids=datafile(
                f["table"], {"Wavelength": "um", "Radiance": "W / (m2 um sr)"})))
    o.append(noises(spec["custom_noise"]))
    o.append("</common>\n<optics>\n")
    o.append(w.leaf("ForceChannelWlEdge", fmt(bool(spec["force_edge"]))))
    o.append(w.quant("Atel", U("area", spec["Atel"])))
    o += [element(e) for e in spec["common_optics"]]
    o.append("</optics>\n")
    for ch in spec["channels"]:
        k = w.leaf("channelClass", r.choice([ch["cls"], ch["cls"].lower()]))
        k += w.quant("wl_min", U("ch_wl", ch["wl_min"])) + w.quant("wl_max", U("ch_wl2", U("ch_wl", ch["wl_max"])))
        for key in ("Fnum_x", "Fnum_y"):
            k += w.quant(key, [ch[key], ch.get("dimless", "")])
        if "NoiseX" in ch:
            k += w.quant("NoiseX", [ch["NoiseX"], ""]) if r.random() < 0.6 else w.leaf("NoiseX", fmt(ch["NoiseX"]))
        if "aperture" in ch:
            k += "<aperture>" + "".join(w.quant(a, [v, ""]) for a, v in ch["aperture"].items()) + "</aperture>"
        if "PSF" in ch:
            k += "<PSF>%s%s</PSF>" % (ch["PSF"]["path"], "<format>%s</format>" % ch["PSF"]["format"] if ch["PSF"].get("format") else "")
        if "wl_solution" in ch:
            k += "<wlSolution>%s</wlSolution>" % datafile(ch["wl_solution"], {"Wavelength": "um", "x": "um"})
        if "targetR" in ch:
            tR = ch["targetR"]
            if isinstance(tR, dict):
                k += "<targetR>%s</targetR>" % datafile(tR["data"], {}, tag="data", sep="\t")
            elif tR == "native":
                k += "<targetR>native</targetR>"
            else:
                k += w.quant("targetR", [tR, ""])
        if "WFErms" in ch:
            k += w.quant("WFErms", U("wfe", ch["WFErms"]))
        for key in ("window_spatial_scale", "window_spatial_pixel", "window_spectral_pixel"):
            if key in ch:
                k += w.leaf(key, fmt(ch[key]))
        if "EncE" in ch:
            k += "<EncESolution>%s</EncESolution>" % datafile(ch["EncE"], {"Wavelength": "um"})
        k += noises(ch.get("custom_noise", []))
        k += "<optics>" + "".join(element(e) for e in ch["optics"]) + "</optics>\n"
        det = ch["detector"]
        dk = []
        for key, v in det.items():
            if key == "qe":
                if isinstance(v, dict):
                    dk.append('<qe unit="">%s</qe>\n' % datafile(
                        v["table"], {"Wavelength": "um"}, rename={"Wavelength": v.get("wl_col", "Wavelength")}))
                else:
                    dk.append(w.quant("qe", [v, ""]))
            elif key == "multiaccumM":
                dk.append(w.leaf(key, v))
            else:
                dk.append(w.quant(key, U({"delta_pix": "pix", "wl_min": "det_wl", "cut_off": "det_wl2" if un.get("det_wl2") else "det_wl",
                                          "frame_time": "time", "freqNDR": "freq",
                                          "dark_current": "dark"}.get(key, key), v)))
        k += "<detector>" + "".join(dk) + "</detector>\n"
        o.append(w.leaf("channel", ch.get("tag", ch["name"]), kids="\n" + k))
    o.append("</root>\n")
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("".join(o))
    return p


def render_targets(spec, d, name="targets.csv", targets=None, units=None):
    un = Units(units or spec.get("units", {}), random.Random(spec.get("seed", 0)))
    cols = [("M", un.get("t_M", "M_sun")), ("Teff", un.get("t_T", "K")),
            ("R", un.get("t_R", "R_sun")), ("D", un.get("t_D", "pc"))]
    p = os.path.join(d, name)
    ts = targets if targets is not None else spec["targets"]
    extra = [c for c in ("ra", "dec") if any(c in t for t in ts)]
    with open(p, "w") as f:
        f.write(",".join(["star name"] + ["star %s [%s]" % c for c in cols] + ["star magk"]
                         + ["star %s [deg]" % c for c in extra]) + "\n")
        for t in ts:
            row = [t["name"]]
            for c, unit in cols:
                v = t[c]
                row.append(fmt(v[0] if v[1] == unit else float((v[0] * u.Unit(v[1])).to(unit).value)))
            row.append(fmt(t["magk"]))
            row += [fmt(t[c]) for c in extra]
            f.write(",".join(row) + "\n")
    return p


# ------------------------------------------------------------------------------ twins
def twin(spec, r, n=1, small=1.0):
    """a copy of the spec in which `n` values differ: what forgets one of its inputs takes them for the same.
    With a small factor they differ by little: what rounds its inputs takes them for the same"""
    import copy

    s = copy.deepcopy(spec)
    skip = {"wl_min", "wl_max", "cut_off", "wl_solution", "Wavelength", "W", "targetR", "seed", "name", "width", "M", "magk", "ra", "dec"}
    groups = {}

    def walk(x, path):
        it = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
        for k, v in it:
            if k in skip:
                continue
            if isinstance(v, float):
                key = tuple(p for p in path + (k,) if isinstance(p, str))[:3]
                groups.setdefault(key, []).append((x, k))
            else:
                walk(v, path + (k,))

    walk(s, ())
    names = r.sample(sorted(groups), min(n, len(groups)))
    for key in names:
        leaves = groups[key]
        # of a table every value changes
        if "table" in key:
            for x, k in leaves:
                x[k] *= 1 - 0.03 * small
        else:
            x, k = r.choice(leaves)
            x[k] *= 1 - (0.07 if "temperature" not in key else 0.03) * small
    return s, ["/".join(k) for k in names]


def twin_channel(ch, r, name, n=1):
    """a copy of a channel under another name in which `n` values differ"""
    s, changed = twin(ch, r, n)
    rename_channel(s, name)
    return s, changed
