"""Independent reference model of what a payload + target must produce.

Plain numpy on spec dictionaries (see gen.py); wavelengths in um, everything else SI.
Shares no code with the package under test.
"""
import math

import numpy as np
from astropy import constants as const
from astropy import units as u
from scipy.interpolate import make_interp_spline
from scipy.signal import fftconvolve
from scipy.special import j1

from .gen import data_edges, fixed_edges, lin_extrap, pixel_grid, val

H = const.h.si.value
C = const.c.si.value
RSUN = u.R_sun.to("m")
PC = u.pc.to("m")
LSUN = u.L_sun.to("W")
PA, PB = 1.191042768e8, 14387.7516


def planck(wl, T):
    with np.errstate(over="ignore"):
        return PA / wl**5 / (np.exp(PB / (wl * T)) - 1.0)


def interp(x, xp, fp, outside=0.0):
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    o = np.argsort(xp, kind="stable")
    return np.interp(x, xp[o], fp[o], left=outside, right=outside)


def logspace(lo, hi, n):
    return np.logspace(np.log10(lo), np.log10(hi), int(n))


def rebin(x, xp, fp):
    """resample fp(xp) on x: averages if xp is finer than x everywhere, else interpolates

    Either grid may come in any order; samples bracketing the window take part.
    """
    x, xp, fp = (np.asarray(a, float) for a in (x, xp, fp))
    if x[0] > x[-1]:
        return rebin(x[::-1], xp, fp)[::-1]
    o = np.argsort(xp, kind="stable")
    xp, fp = xp[o], fp[o]
    inside = np.flatnonzero((xp > 0.9 * x.min()) & (xp < 1.1 * x.max()))
    if inside.size:
        i, j = inside[0], inside[-1]
    else:
        j = np.searchsorted(xp, x.min()) - 1
        i = j + 1
    sl = slice(max(i - 1, 0), min(j + 2, len(xp)))
    xp, fp = xp[sl], fp[sl]
    if np.diff(xp).max() < np.diff(x).min():
        mid = 0.5 * (x[1:] + x[:-1])
        e = np.concatenate([[x[0] - (mid[0] - x[0]) / 2], mid, [x[-1] + (x[-1] - mid[-1]) / 2]])
        k = np.searchsorted(e, xp, side="right") - 1
        k[xp == e[-1]] = len(x) - 1
        ok = (k >= 0) & (k < len(x))
        s = np.bincount(k[ok], weights=fp[ok], minlength=len(x))
        n = np.bincount(k[ok], minlength=len(x))
        return np.divide(s, n, out=np.zeros(len(x)), where=n > 0)
    return np.nan_to_num(interp(x, xp, fp), nan=0.0)


def solid_angle(fx, fy):
    """on-axis solid angle of an elliptical aperture with half-axes 1/2F at unit distance"""
    a, b = 0.5 / fx, 0.5 / fy
    phi = np.arange(4096) * (2 * np.pi / 4096)
    rho2 = 1.0 / ((np.cos(phi) / a) ** 2 + (np.sin(phi) / b) ** 2)
    s = np.sqrt(1 + rho2)
    # 1 - 1/s written without cancellation
    return float(np.mean(rho2 / (s * (1 + s))) * 2 * np.pi)


_airy = {}


def airy():
    if not _airy:
        x = np.linspace(-4.0, 4.0, 256)
        xx, yy = np.meshgrid(x, x)
        r = np.pi * np.sqrt(xx**2 + yy**2) + 1e-10
        im = (2 * j1(r) / r) ** 2
        _airy["im"] = im / im.sum()
        _airy["dx"] = x[1] - x[0]
    return _airy["im"], _airy["dx"]


def pixel_kernel(kx, ky):
    fx, ix = math.modf(kx)
    fy, iy = math.modf(ky)
    k = np.ones((int(iy) + 2, int(ix) + 2))
    k[:, 0] *= 0.5 * fx
    k[:, -1] *= 0.5 * fx
    k[0, :] *= 0.5 * fy
    k[-1, :] *= 0.5 * fy
    return k


def prf(fx, fy, wl, delta, image=None):
    """(pixel response convolved PSF, kernel).  image: (array, cdelt_x, cdelt_y)"""
    if callable(image):
        return image(fx, fy, wl, delta)
    if image is None:
        im, dx = airy()
        dx = dy = dx
    else:
        im, dx, dy = image
    k = pixel_kernel(delta / (fx * wl * dx), delta / (fy * wl * dy))
    return fftconvolve(im, k, mode="same"), k


def encircled(im, a, b, sub=20):
    """fraction of the image inside the ellipse of half-axes a (x), b (y) about its central pixel"""
    ny, nx = im.shape
    cy, cx = ny // 2, nx // 2
    o = (np.arange(sub) + 0.5) / sub - 0.5
    x2 = (((np.arange(nx) - cx)[:, None] + o) ** 2 / a**2).ravel()
    y2 = (((np.arange(ny) - cy)[:, None] + o) ** 2 / b**2).ravel()
    m = (y2[:, None] + x2[None, :] <= 1).reshape(ny, sub, nx, sub).mean(axis=(1, 3))
    return float((im * m).sum() / im.sum())


def aperture_radius(im, ene, fx, fy):
    """radius, in steps of one unit linearly interpolated, that encloses the fraction `ene`"""
    last, i = 0.0, 0
    while True:
        i += 1
        e = encircled(im, i * fx, i * fy)
        if e >= ene:
            return i - 1 + (ene - last) / (e - last)
        last = e


# ----------------------------------------------------------------------------- optics
class Element:
    def __init__(self, e, wl):
        self.name, self.type, self.d = e["name"], e["type"], e
        n = len(wl)
        t = e.get("table")
        if t:
            col = e.get("use") or ("Transmission" if "Transmission" in t else "Reflectivity")
            tr = interp(wl, t["Wavelength"], t[col])
            em = interp(wl, t["Wavelength"], t["Emissivity"])
        else:
            if e.get("transmission") is not None and e.get("reflectivity") is not None:
                v = e[e["use"]]
            elif e.get("transmission") is not None:
                v = e["transmission"]
            elif e.get("reflectivity") is not None:
                v = e["reflectivity"]
            else:
                v = None
            tr = np.ones(n) * (1.0 if v is None else v)
            if v is not None:
                if e.get("wl_min"):
                    tr[wl < val(e["wl_min"], "um")] = 0.0
                if e.get("wl_max"):
                    tr[wl > val(e["wl_max"], "um")] = 0.0
            if e.get("emissivity") is not None:
                em = np.ones(n) * e["emissivity"]
            else:
                em = np.ones(n) if e["type"] == "detector box" else np.zeros(n)
        self.tr, self.em = tr, em
        self.T = val(e["temperature"], "K") if e.get("temperature") else None
        self.omega = val(e["solid_angle"], "sr") if e.get("solid_angle") else None


def unique(names):
    """names as the results carry them: repeated ones are numbered"""
    out = []
    for n in names:
        k, i = n, 1
        while k in out:
            i += 1
            k = "%s (%d)" % (n, i)
        out.append(k)
    return out


class ChannelModel:
    """instrument-side prediction for one channel"""

    def __init__(self, spec, ch, image=None, include_edge=False):
        # a pixel centred on the very edge of a bin may fall on either side of it:
        # include_edge picks the side, compare() accepts both
        self.edge = 1e-9 if include_edge else -1e-9
        self.spec, self.ch = spec, ch
        self.R = spec.get("working_R") or 6000
        self.name = ch["name"]
        self.image = image
        det = ch["detector"]
        self.a, self.b = val(ch["wl_min"], "um"), val(ch["wl_max"], "um")
        self.delta = val(det["delta_pix"], "um")
        self.grid = logspace(val(det["wl_min"], "um"), val(det["cut_off"], "um"), self.R)
        self._bins()
        self._qe()
        self._path()
        self._windows()
        self._emission()

    # -- bins
    def _bins(self):
        ch = self.ch
        if ch["cls"] == "Photometer":
            self.wl = np.array([0.5 * (self.a + self.b)])
            self.bw = np.array([self.b - self.a])
            self.edges = np.array([self.a, self.b])
        else:
            self.pwl, self.pbw, self.pix, self.to_x, _ = pixel_grid(ch)
            tR = ch.get("targetR", "native")
            if tR == "native":
                o = np.argsort(self.pwl)
                self.wl, self.bw = self.pwl[o], self.pbw[o]
                self.edges = np.append(self.wl - 0.5 * self.bw, self.wl[-1] + 0.5 * self.bw[-1])
            else:
                self.edges = (data_edges(self.a, self.b, tR["data"]) if isinstance(tR, dict)
                              else fixed_edges(self.a, self.b, tR))
                self.wl = 0.5 * (self.edges[1:] + self.edges[:-1])
                self.bw = np.diff(self.edges)
        self.left, self.right = self.wl - 0.5 * self.bw, self.wl + 0.5 * self.bw

    def _inside(self, a, b):
        return (self.pwl > a * (1 - self.edge)) & (self.pwl < b * (1 + self.edge))

    # -- throughput
    def at_bins(self, v):
        """mean of the values at the bin centres that lie in each bin (its own, normally)"""
        return np.array([v[(self.wl >= a) & (self.wl < b)].mean() for a, b in zip(self.left, self.right)])

    def out_of_band(self, wl):
        return (wl < self.a * (1 - self.edge)) | (wl > self.b * (1 + self.edge))

    def _qe(self):
        qe = self.ch["detector"]["qe"]
        if isinstance(qe, dict):
            self.qe_wl = np.array(qe["table"]["Wavelength"])
            self.qe_v = np.array(qe["table"][self.name])
        else:
            self.qe_wl, self.qe_v = self.grid, np.full(len(self.grid), float(qe))
        self.QE = self.at_bins(interp(self.wl, self.qe_wl, self.qe_v))

    def _path(self):
        self.elements = [Element(e, self.grid) for e in self.spec["common_optics"]]
        if not self.elements:
            self.elements = [Element({"name": "noElement", "type": "surface"}, self.grid)]
        own = [Element(e, self.grid) for e in self.ch["optics"]]
        if not own and self.elements[0].name != "noElement":
            own = [Element({"name": "noElement", "type": "surface"}, self.grid)]
        common, mine = unique([e.name for e in self.elements]), unique([e.name for e in own])
        self.elements += own
        for e, n in zip(self.elements, unique(common + mine)):
            e.name = n
        self.tr_raw = np.prod([e.tr for e in self.elements], axis=0)
        self.tr = self.tr_raw.copy()
        self.TR = self.at_bins(interp(self.wl, self.grid, self.tr_raw))
        if self.spec["force_edge"]:
            self.tr[(self.grid < self.a) | (self.grid > self.b)] = 0.0
            self.TR = np.where(self.out_of_band(self.wl), 0.0, self.TR)

    # -- windows / PSF
    def _windows(self):
        ch = self.ch
        if ch["cls"] == "Photometer":
            P, k = prf(ch["Fnum_x"], ch["Fnum_y"], self.wl[0], self.delta, self.image)
            self.prf = P
            self.prf_max = P.max()
            # apertures are given in units of F lambda, in pixels when the PSF is a detector image
            unit = (1.0 if getattr(self.image, "fmt", "") == "pixel_based"
                    else ch["Fnum_x"] * ch["Fnum_y"] * self.wl[0] ** 2 / self.delta**2)
            if "radius" in ch["aperture"]:
                self.window = np.array([ch["aperture"]["radius"] ** 2 * unit])
            else:
                self.aperture_unit = unit
                fx, fy = (1, 1) if unit == 1.0 else (ch["Fnum_x"] * self.wl[0], ch["Fnum_y"] * self.wl[0])
                self.window = np.array([math.pi * aperture_radius(P, ch["aperture"]["EnE"], fx, fy) ** 2 * unit])
            self.spatial = None
        else:
            n = 10
            g = np.linspace(self.pwl.min(), self.pwl.max(), n)
            gain = np.empty(n)
            for i, w in enumerate(g):
                P, k = prf(ch["Fnum_x"], ch["Fnum_y"], w, self.delta, self.image)
                gain[i] = P.sum(axis=0).max() / k.sum(axis=0).max()
                if "WFErms" in ch:
                    gain[i] *= math.exp(-((2 * math.pi * val(ch["WFErms"], "um") / w) ** 2))
            self.gain = make_interp_spline(g, gain, k=3)
            radius = 1.22
            if "EncE" in ch:
                o = np.argsort(ch["EncE"]["Wavelength"])
                radius = lin_extrap(self.wl, np.array(ch["EncE"]["Wavelength"])[o], np.array(ch["EncE"]["EE"])[o])
            spat = 2 * radius * ch["Fnum_y"] * self.wl / self.delta
            if "window_spatial_scale" in ch:
                spat = spat * ch["window_spatial_scale"]
            if "window_spatial_pixel" in ch:
                spat = np.full(len(self.wl), float(ch["window_spatial_pixel"]))
            spec = np.abs(np.diff(self.to_x(self.edges))) / self.delta
            if "window_spectral_pixel" in ch:
                spec = np.full(len(self.wl), float(ch["window_spectral_pixel"]))
            self.spatial, self.spectral = spat, spec
            self.window = spat * spec

    # -- diffuse light
    def _pixel_factor(self, wl, qe):
        return (self.delta * 1e-6) ** 2 * qe * wl * 1e-6 / (H * C)

    def _through_slit(self, rad_wl, rad, omega, qe_wl, qe_v, width):
        f = rebin(self.pwl, rad_wl, rad)
        f = f * omega * self._pixel_factor(self.pwl, interp(self.pwl, qe_wl, qe_v)) * self.pbw
        m = int(width / self.delta)
        s = np.convolve(f, np.ones(m), "same")
        sig, mx = [], []
        for a, b, w in zip(self.left, self.right, self.spatial):
            k = self._inside(a, b)
            sig.append(s[k].sum() * w)
            mx.append(s[k].max())
        return np.array(sig), np.array(mx)

    def _direct(self, wl, rad, omega, qe):
        tot = np.trapz(rad * omega * self._pixel_factor(wl, qe), x=wl)
        return tot * self.window, np.full(len(self.wl), tot)

    def _emission(self):
        self.omega = solid_angle(self.ch["Fnum_x"], self.ch["Fnum_y"])
        self.el_signal, self.el_max, self.el_rad = {}, {}, {}
        qe_g = rebin(self.grid, self.qe_wl, self.qe_v)
        for i, e in enumerate(self.elements):
            if e.T is None:
                continue
            rad = e.em * planck(self.grid, e.T)
            width = None
            for o in self.elements[i + 1:]:
                rad = rad * o.tr
                if o.type == "slit":
                    width = val(o.d["width"], "um")
            om = e.omega
            if width is not None:
                s, m = self._through_slit(self.grid, rad, om if om is not None else self.omega, self.grid, qe_g, width)
            else:
                if om is None:
                    om = {"detector box": math.pi, "optics box": math.pi - self.omega}.get(e.type, self.omega)
                s, m = self._direct(self.grid, rad, om, qe_g)
            self.el_signal[e.name], self.el_max[e.name], self.el_rad[e.name] = s, m, rad
        n = len(self.wl)
        self.instrument = sum(self.el_signal.values(), np.zeros(n))
        self.instrument_max = sum(self.el_max.values(), np.zeros(n))

    # -- sky layers
    def foregrounds(self, layers, grid):
        """layers: ordered far -> near list of (name, radiance, transmission|None) on grid"""
        out = {}
        tr = rebin(grid, self.grid, self.tr)
        width = self.slit_width()
        for name, rad, t in reversed(layers):
            r = rad * tr
            if width is not None:
                out[name] = self._through_slit(grid, r, self.omega, self.qe_wl, self.qe_v, width)
            else:
                out[name] = self._direct(grid, r, self.omega, rebin(grid, self.qe_wl, self.qe_v))
            if t is not None:
                tr = tr * t
        return out

    def slit_width(self):
        w = None
        for e in self.elements:
            if e.type == "slit":
                w = val(e.d["width"], "um")
        return w

    # -- star
    def star(self, grid, sed, sky_tr):
        """sed in W/m2/um on grid"""
        area = val(self.spec["Atel"], "m2")
        qe = rebin(grid, self.qe_wl, self.qe_v)
        tr = rebin(grid, self.grid, self.tr)
        if sky_tr is not None:
            tr = tr * sky_tr
        ww = np.ones(len(grid))
        if self.spec["force_edge"]:
            out = (grid < self.a) | (grid > self.b)
            tr = np.where(out, 0, tr)
            ww = np.where(out, 0, ww)
        dens = area * qe * tr * sed * grid * 1e-6 / (H * C)
        if self.ch["cls"] == "Photometer":
            flux = np.array([np.trapz(ww * sed, x=grid)])
            s = np.array([np.trapz(dens, x=grid)])
            ap = self.ch["aperture"]
            f = ap.get("apertureCorrection", ap.get("EnE", 1.0))
            return flux, s, s * f, s * self.prf_max
        flux, s, mx = [], [], []
        p = rebin(self.pwl, grid, dens) * self.pbw * self.gain(self.pwl)
        for a, b in zip(self.left, self.right):
            m = ((grid >= a) & (grid < b)).astype(float)
            flux.append(np.trapz(ww * sed * m, x=grid))
            s.append(np.trapz(dens * m, x=grid))
            k = self._inside(a, b)
            mx.append(p[k].max())
        s = np.array(s)
        return np.array(flux), s, s, np.array(mx)


def gains(det, t_frame):
    """read and shot gain factors for the up-the-ramp readout"""
    f = val(det["freqNDR"], "Hz")
    with np.errstate(invalid="ignore"):
        n = np.floor(np.float64(t_frame) * f)
    n = n if not n < 2 else np.float64(2)
    m = det.get("multiaccumM", 1)
    return 12.0 * (n - 1) / (n * n + n) / m, 6.0 * (n * n + 1) / (5.0 * (n * n + n))


def source_sed(spec, target, grid):
    """(sed on grid [W/m2/um], luminosity in Lsun, label) for planck/custom sources"""
    R = val(target["R"], "m")
    D = val(target["D"], "m")
    src = spec["source"]
    if src["kind"] == "custom":
        wl, s = np.array(src["table"]["Wavelength"]), np.array(src["table"]["Sed"])
        k = u.Unit(src.get("unit", "W / (m2 um)")).to("W / (m2 um)")
        s = s * k
        L = 4 * np.pi * R**2 * np.trapz(s, x=wl) / LSUN
        return rebin(grid, wl, s * (R / D) ** 2), L, "Custom"
    lo, hi = grid[0], grid[-1]
    lo, hi = sorted((val(spec["wl_min"], "um"), val(spec["wl_max"], "um")))
    wl = np.linspace(lo, hi, 10000)
    s = np.pi * (R / D) ** 2 * planck(wl, val(target["Teff"], "K"))
    L = 4 * np.pi * D**2 * np.trapz(s, x=wl) / LSUN
    return rebin(grid, wl, s), L, "Planck"


def zodi(A, wl):
    return A * (3.5e-14 * planck(wl, 5500.0) + 3.58e-8 * planck(wl, 270.0))


class PayloadModel:
    def __init__(self, spec, images=None, include_edge=False):
        self.spec = spec
        self.R = spec.get("working_R") or 6000
        self.lo, self.hi = val(spec["wl_min"], "um"), val(spec["wl_max"], "um")
        self.grid = logspace(self.lo, self.hi, self.R)
        images = images or {}
        self.channels = [ChannelModel(spec, c, images.get(c["name"]), include_edge) for c in spec["channels"]]

    def layers(self, target=None, zodi_coeff=None):
        out = []
        for f in self.spec["foregrounds"]:
            if f["kind"] == "zodi":
                A = zodi_coeff if zodi_coeff is not None else f.get("factor", 0)
                out.append(("zodi", zodi(A, self.grid), None))
            else:
                t = f["table"]
                rad = interp(self.grid, t["Wavelength"], t["Radiance"])
                tr = interp(self.grid, t["Wavelength"], t["Transmission"], outside=1.0)
                out.append((f["name"], rad, tr))
        return [(n, rad, tr) for n, (_, rad, tr) in zip(unique([o[0] for o in out]), out)]

    def sky_transmission(self):
        tr = [t for _, _, t in self.layers() if t is not None]
        return np.prod(tr, axis=0) if tr else None

    def observe(self, target, sed=None, zodi_coeff=None, full_contrib=False):
        """predicted columns, {column: array over all rows}; NaN where undefined"""
        cols = {}
        rows = []
        layers = self.layers(zodi_coeff=zodi_coeff)
        sky = self.sky_transmission()
        if sed is None:
            sed, self.L, self.label = source_sed(self.spec, target, self.grid)
        for cm in self.channels:
            r = {"chName": np.array([cm.name] * len(cm.wl)), "Wavelength": cm.wl, "Bandwidth": cm.bw,
                 "LeftBinEdge": cm.left, "RightBinEdge": cm.right, "QE": cm.QE,
                 "WindowSize": cm.window, "TR": cm.TR}
            if full_contrib:
                for k, v in cm.el_signal.items():
                    r[k + " signal"] = v
            else:
                r["instrument_signal"] = cm.instrument
            r["instrument_MaxSignal_inPixel"] = cm.instrument_max
            for name, (s, m) in cm.foregrounds(layers, self.grid).items():
                r[name + "_signal"], r[name + "_MaxSignal_inPixel"] = s, m
            if sky is not None:
                t = cm.at_bins(interp(cm.wl, self.grid, sky))
                if self.spec["force_edge"]:
                    t = np.where(cm.out_of_band(cm.wl), 0.0, t)
                r["foreground_transmission"] = t
            r["starFlux"], r["starSignal"], r["star_signal_inAperture"], r["star_MaxSignal_inPixel"] = cm.star(self.grid, sed, sky)
            self._noise(cm, r, layers, full_contrib)
            rows.append(r)
        names = []
        for r in rows:
            names += [k for k in r if k not in names]
        for k in names:
            cols[k] = np.concatenate([r[k] if k in r else np.zeros(len(r["Wavelength"])) for r in rows])
        return cols

    def _noise(self, cm, r, layers, full):
        det = cm.ch["detector"]
        mx = sum(v for k, v in r.items() if k.endswith("_MaxSignal_inPixel"))
        r["MaxSignal_inPixel"] = mx
        with np.errstate(divide="ignore"):
            sat = val(det["well_depth"], "count") / mx
        r["saturation_time"] = sat
        t = val(det["frame_time"], "s") if "frame_time" in det else val(det["f_well_depth"], "") * sat.min()
        r["frameTime"] = np.full(len(sat), t)
        rg, sg = gains(det, t)
        cm.nread_margin = abs((t * val(det["freqNDR"], "Hz") + 0.5) % 1 - 0.5) if np.isfinite(t) else 0.0
        sigs = ["star_signal_inAperture"] + [n + "_signal" for n, _, _ in layers]
        sigs += [k + " signal" for k in cm.el_signal] if full else ["instrument_signal"]
        ph = np.zeros(len(sat))
        for k in sigs:
            r[k + "_noise"] = np.sqrt(sg * r[k] / 3600.0)
            ph = ph + sg * r[k] / 3600.0
        r["darkcurrent_noise"] = np.sqrt(sg * cm.window * val(det["dark_current"], "count/s") / 3600.0)
        r["read_noise"] = np.sqrt(rg * val(det["read_noise"], "count") ** 2 * cm.window / r["frameTime"] / 3600.0)
        var = r["darkcurrent_noise"] ** 2 + r["read_noise"] ** 2 + (1 + cm.ch.get("NoiseX", 0.0)) * ph
        s = np.where(r["star_signal_inAperture"] == 0, np.nan, r["star_signal_inAperture"])
        tot2 = var / s**2
        for n in list(self.spec["custom_noise"]) + list(cm.ch.get("custom_noise", [])):
            v = n["ppm"] * 1e-6
            k = n["name"] + "_noise"
            r[k] = np.hypot(r[k], v) if k in r else np.full(len(sat), v)
            tot2 = tot2 + v**2
        r["total_noise"] = np.sqrt(tot2)


UNITS = {
    "Wavelength": "um", "Bandwidth": "um", "LeftBinEdge": "um", "RightBinEdge": "um",
    "starFlux": "W/m2", "starSignal": "ct/s", "saturation_time": "s", "frameTime": "s",
    "total_noise": "hr0.5", "QE": "", "TR": "", "WindowSize": "", "foreground_transmission": "",
}


def unit_of(col, custom=()):
    if col in UNITS:
        return UNITS[col]
    if col in custom:
        return "hr0.5"
    if col.endswith("_noise") and not col.endswith("custom_noise"):
        return "ct/s hr0.5"
    return "ct/s"
