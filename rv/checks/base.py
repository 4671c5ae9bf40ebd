"""Pieces the property checks share."""
import hashlib
import json
import os
import random

import numpy as np

from .. import common, extras, gen, model, pipe


def seeds(seed, n, salt):
    """n case seeds derived from VERIF_SEED; different properties draw different ones"""
    h = int(hashlib.sha256(("%s/%s" % (salt, seed)).encode()).hexdigest()[:10], 16)
    return [h + i for i in range(n)]


def spread(seed, n, salt, variants):
    """n cases cycling through option dictionaries"""
    return [{"s": s, "o": variants[i % len(variants)]} for i, s in enumerate(seeds(seed, n, salt))]


def count(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


def custom_noise_columns(spec):
    return list(dict.fromkeys([n["name"] + "_noise" for n in spec["custom_noise"]] + [
        n["name"] + "_noise" for c in spec["channels"] for n in c.get("custom_noise", [])]))


def features(spec):
    """labels of the situations a payload exercises"""
    out = set()
    for c in spec["channels"]:
        out.add(c["cls"].lower())
        if "tag" in c:
            out.add("channels of one name")
        tR = c.get("targetR", "absent") if c["cls"] == "Spectrometer" else None
        if tR is not None:
            out.add("R table" if isinstance(tR, dict) else "R native" if tR == "native" else "R absent" if tR == "absent" else "R fixed")
        if any(e["type"] == "slit" for e in c["optics"]):
            out.add("slit")
        for e in c["optics"] + spec["common_optics"]:
            if e["type"] in ("optics box", "detector box"):
                out.add(e["type"])
            if e.get("table"):
                out.add("element table")
            if e.get("wl_min") or e.get("wl_max"):
                out.add("element bounds")
            if e.get("use"):
                out.add("element use")
            if e.get("solid_angle"):
                out.add("element solid angle")
                if e["type"] in ("optics box", "detector box"):
                    out.add("box solid angle")
            if e.get("reflectivity") is not None and e.get("transmission") is None:
                out.add("element reflectivity")
        out.add("qe table" if isinstance(c["detector"]["qe"], dict) else "qe constant")
        for k, lab in (("WFErms", "WFE"), ("EncE", "EncE"), ("window_spatial_scale", "window scale"),
                       ("window_spatial_pixel", "window spatial pixels"), ("window_spectral_pixel", "window spectral pixels"),
                       ("custom_noise", "channel custom noise"), ("NoiseX", "NoiseX")):
            if k in c:
                out.add(lab)
        if "aperture" in c and "apertureCorrection" in c["aperture"]:
            out.add("aperture correction")
        d = c["detector"]
        for k, lab in (("frame_time", "frame time set"), ("multiaccumM", "multiaccum")):
            if k in d:
                out.add(lab)
        out.add("NDR" if d["freqNDR"][0] else "no NDR")
    out.add("edges forced" if spec["force_edge"] else "edges free")
    ks = [f["kind"] for f in spec["foregrounds"]]
    if ks.count("sky") >= 2:
        out.add("stacked layers")
    if "zodi" in ks and "sky" in ks:
        out.add("zodi before layers" if ks.index("zodi") < len(ks) - 1 and "sky" in ks[ks.index("zodi"):] else "zodi after layers")
    for k in ks:
        out.add(k)
    if not ks:
        out.add("no foreground")
    out.add("source " + spec["source"]["kind"])
    if spec["custom_noise"]:
        out.add("common custom noise")
    names = [e["name"] for e in spec["common_optics"]]
    for c in spec["channels"]:
        own = [e["name"] for e in c["optics"]]
        if len(set(names + own)) < len(names + own):
            out.add("repeated element names")
    return out


class Case:
    """one payload observed through the real pipeline and predicted by the model"""

    def __init__(self, case, obs, d, targets=None, spec=None):
        self.obs, self.dir = obs, d
        self.spec = spec or gen.gen_spec(case["s"], **case.get("o", {}))
        obs.key = case.get("s")
        obs.nontrivial = True
        obs.label(*sorted(features(self.spec)))
        self.run = pipe.Run(self.spec, d)

    def observe(self, i=0, **kw):
        self.target_spec = self.spec["targets"][i]
        self.target = self.run.targets()[i]
        self.run.observe(self.target)
        self.table = self.target.table
        self.pm = model.PayloadModel(self.spec)
        self.want = self.pm.observe(self.target_spec, **kw)
        self.alt = model.PayloadModel(self.spec, include_edge=True).observe(self.target_spec, **kw)
        n = len(self.want["Wavelength"])
        self.obs.label("rows")
        self.obs.labels["rows"] = self.obs.labels.get("rows", 0) + n - 1
        return self.table

    def model(self):
        if not hasattr(self, "pm"):
            self.pm = model.PayloadModel(self.spec)
        return self.pm

    def rows_ok(self):
        names = [str(x) for x in self.table["chName"]]
        want = [str(x) for x in self.want["chName"]]
        return self.obs.expect(names == want, "rows of the result do not follow the channels and their bins",
                               got=names[:40], expected=want[:40])

    def compare(self, cols, **kw):
        if not self.rows_ok():
            return
        pipe.compare(self.obs, self.table, self.want, cols, custom_noise_columns(self.spec), alt=self.alt, **kw)

    def col(self, name, unit=None):
        return pipe.column(self.table, name, unit if unit is not None else model.unit_of(name, custom_noise_columns(self.spec)))

    def names(self):
        return np.array([str(x) for x in self.table["chName"]])

    def sample(self, cols):
        self.obs.sample = {"channels": [c["name"] for c in self.spec["channels"]],
                           "row 0": {c: float(self.col(c)[0]) for c in cols if c in self.table.colnames}}


def plain(x):
    """value of a cell or attribute with its unit, comparable across runs"""
    v = getattr(x, "value", x)
    un = str(getattr(x, "unit", "") or "")
    v = np.asarray(v)
    if v.dtype.kind in "SUO":
        return (np.char.decode(v, "utf-8").tolist() if v.dtype.kind == "S" else v.astype(str).tolist(), un)
    return (v, un)


def same(a, b):
    """bit-identical value and unit"""
    (va, ua), (vb, ub) = plain(a), plain(b)
    if ua != ub:
        return False
    if isinstance(va, (list, str)) or isinstance(vb, (list, str)):
        va, vb = (np.asarray(x).tolist() for x in (va, vb))
        return va == vb
    return va.shape == vb.shape and va.dtype.kind == vb.dtype.kind and bool(np.all((va == vb) | ((va != va) & (vb != vb))))


def diff_tables(a, b, meta=True, order=True):
    """what two result tables differ in, or None"""
    ca, cb = list(a.colnames), list(b.colnames)
    if (ca != cb) if order else (sorted(ca) != sorted(cb)):
        return "columns differ: only first %s, only second %s" % (sorted(set(ca) - set(cb)), sorted(set(cb) - set(ca))) \
            if set(ca) != set(cb) else "columns are in another order"
    if len(a) != len(b):
        return "%d rows against %d" % (len(a), len(b))
    for c in ca:
        if not same(a[c], b[c]):
            (va, ua), (vb, ub) = plain(a[c]), plain(b[c])
            k = ""
            if not isinstance(va, list) and not isinstance(vb, list):
                k = common.worst(va, vb)
            return "column %s differs %s (units '%s', '%s')" % (c, k, ua, ub)
    if meta:
        for k in set(a.meta) | set(b.meta):
            if (k in a.meta) != (k in b.meta) or not same(a.meta[k], b.meta[k]):
                return "metadata %s differs: %s against %s" % (k, a.meta.get(k), b.meta.get(k))
    return None


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree(d):
    """{relative path: digest} of every file below d"""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = digest(p)
    return out


def read_output(path):
    """targets stored in an output file: {name: (table, raw star group as dict)} in file order"""
    import h5py
    from astropy.io.misc.hdf5 import read_table_hdf5

    out = {}
    with h5py.File(path, "r") as f:
        if "targets" in f:
            for n in f["targets"]:
                g = f["targets"][n]
                out[n] = read_table_hdf5(g["table"], path="table") if "table" in g else None
    return out


def signed(f):
    """an HDF5 file says which program wrote it, and its version"""
    import importlib.metadata as m

    return "info" in f and str(f.attrs.get("program_version")) == m.version("exorad") and "exorad" in str(f.attrs.get("program_name")).lower()


def pick(case, key, options):
    return options[case["s"] % len(options)]


__all__ = [k for k in globals() if not k.startswith("_")]
