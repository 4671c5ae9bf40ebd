"""Point spread functions on disk (FITS, directories of FITS, detector images, PAOS) and what they mean."""
import os

import numpy as np

from . import model


def blob(r, ny, nx, norm=True):
    """an off-centre, asymmetric image"""
    y, x = np.mgrid[:ny, :nx]
    cy, cx = ny // 2 + r.uniform(-1, 1), nx // 2 + r.uniform(-1, 1)
    sy, sx = r.uniform(0.08, 0.2) * ny, r.uniform(0.08, 0.2) * nx
    im = np.exp(-0.5 * (((x - cx) / sx) ** 2 + ((y - cy) / sy) ** 2))
    im *= 1 + 0.3 * np.cos(x * r.uniform(0.2, 0.9)) * np.sin(1 + y * r.uniform(0.2, 0.9))
    return im / im.sum() if norm else im * r.uniform(0.5, 2)


def write_fits(path, im, cdelt=None, wavelen=None):
    from astropy.io import fits

    h = fits.PrimaryHDU(im)
    if cdelt is not None:
        h.header["CDELT1"] = h.header["CDELT2"] = cdelt
        h.header["CRPIX1"], h.header["CRPIX2"] = im.shape[1] / 2, im.shape[0] / 2
    if wavelen is not None:
        h.header["WAVELEN"] = wavelen
    h.writeto(path, overwrite=True)


class Image:
    """what the instrument should make of a PSF description, at any wavelength"""

    def __init__(self, fmt, planes):
        # planes: list of (wavelength|None, image, sampling)
        self.fmt, self.planes = fmt, planes

    def plane(self, wl):
        if len(self.planes) == 1:
            return self.planes[0]
        return min(self.planes, key=lambda p: abs(p[0] - wl))

    def margin(self, wl):
        """how close the choice of plane is to a tie"""
        if len(self.planes) < 2 or self.fmt == "paos":
            return 1.0
        d = sorted(abs(p[0] - wl) for p in self.planes)
        return d[1] - d[0]

    def __call__(self, fx, fy, wl, delta):
        if self.fmt == "pixel_based":
            return self.plane(wl)[1], np.ones((1, 1))
        if self.fmt == "paos":
            im, dx, dy = self.paos(wl)
            k = model.pixel_kernel(delta / dx, delta / dy)
            return model.fftconvolve(im, k, mode="same"), k
        _, im, cd = self.plane(wl)
        return model.prf(fx, fy, wl, delta, (im, cd, cd))

    def paos(self, wl):
        ps = sorted(self.planes)
        ws = [p[0] for p in ps]
        for p in ps:
            if p[0] == wl:
                return p[1] ** 2, p[2][0], p[2][1]
        # the two wavelengths that bracket it, or the two nearest outside the range
        i = min(max(int(np.searchsorted(ws, wl)) - 1, 0), len(ws) - 2)
        a, b = ps[i], ps[i + 1]
        f = (wl - a[0]) / (b[0] - a[0])
        return (a[1] ** 2 * (1 - f) + b[1] ** 2 * f,) + tuple(p * (1 - f) + q * f for p, q in zip(a[2], b[2]))


def make(r, kind, d, name, wls):
    """write a PSF of `kind` for a channel working at `wls`; returns (description, Image)"""
    lo, hi = min(wls), max(wls)
    ny, nx = r.choice([(31, 31), (41, 33), (24, 50)])
    cd = round(r.uniform(0.05, 0.4), 4)
    if kind == "fits":
        im = blob(r, ny, nx)
        p = os.path.join(d, name + "_psf.fits")
        write_fits(p, im, cd)
        return {"path": p}, Image("standard", [(None, im, cd)])
    if kind == "pixel":
        im = blob(r, r.choice([9, 12]), r.choice([9, 15]))
        p = os.path.join(d, name + "_pix.fits")
        write_fits(p, im)
        return {"path": p, "format": "pixel_based"}, Image("pixel_based", [(None, im, None)])
    if kind in ("dir", "pixdir"):
        p = os.path.join(d, name + "_psfs") + "/"
        os.makedirs(p)
        planes = []
        n = r.choice([2, 3, 5])
        ws = [round(r.uniform(0.9 * lo, 1.1 * hi), 4) for _ in range(n)]
        for i, w in enumerate(ws):
            im = blob(r, ny, nx)
            c = round(r.uniform(0.05, 0.4), 4)
            write_fits("%spsf_%s.fits" % (p, "cabde"[i]), im, c if kind == "dir" else None, w)
            planes.append((w, im, c))
        if kind == "pixdir":
            return {"path": p, "format": "pixel_based"}, Image("pixel_based", planes)
        return {"path": p}, Image("standard", planes)
    if kind == "paos":
        import h5py

        p = os.path.join(d, name + "_paos.h5")
        planes = []
        n = r.choice([2, 3, 4])
        span = [0.9 * lo, 1.1 * hi] if r.random() < 0.7 else [lo + 0.3 * (hi - lo), lo + 0.6 * (hi - lo) + 0.2]
        ws = sorted(round(r.uniform(*span), 4) for _ in range(n))
        ws = [w + 0.01 * i for i, w in enumerate(ws)]
        ws = [round(w, 4) for w in ws]
        if r.random() < 0.4 and len(wls) == 1:
            ws[-1] = wls[0]
            ws = sorted(set(ws))
            if len(ws) < 2:
                ws.insert(0, round(wls[0] * 0.8, 4))
        k = r.uniform(1.5e-6, 6e-6)
        ky = k * r.choice([1, 1.7, 0.4])  # sampling may differ along the two axes
        with h5py.File(p, "w") as f:
            f.create_group("info").create_dataset("file_name", data="x")
            for w in ws:
                g = f.create_group(str(w))
                am = np.sqrt(blob(r, ny, nx))
                dx, dy = k * w, ky * w
                for s in ("S01", "S02"):
                    q = g.create_group(s)
                    q.create_dataset("amplitude", data=am if s == "S02" else np.ones_like(am))
                    q.create_dataset("dx", data=dx if s == "S02" else 1.0)
                    q.create_dataset("dy", data=dy if s == "S02" else 1.0)
                    q.create_dataset("extent", data=np.array([-dx, dx, -dy, dy]))
                    q.create_dataset("fratio", data=20.0)
                planes.append((w, am, (dx * 1e6, dy * 1e6)))
        return {"path": p, "format": "paos"}, Image("paos", planes)
    raise ValueError(kind)
