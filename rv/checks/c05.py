"""Instrument self-emission."""
import numpy as np
from astropy import units as u

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the thermal signal of a payload with warm optics was compared with the sum of the described "
        "elements' greybody emission, each through the optics that follows it")
ASSUMPTIONS = ["photon radiance of an element: emissivity times Planck function, over the pixel's view of the element"]
REQUIRED = ["photometer", "spectrometer", "slit", "optics box", "detector box", "element solid angle", "box solid angle", "warm", "elements", "repeated element names", "nearly round beam"]
COLS = ["instrument_signal", "instrument_MaxSignal_inPixel"]


def cases(seed, tier):
    v = [{"n_frg": 0, "working_R": 300}, {"n_frg": 0, "working_R": 701, "p_slit": 0.9}, {"n_frg": 0, "working_R": 300, "p_dup": 0.6, "p_cut": 0.4}]
    return spread(seed, count(tier, 72, 600), "C05", v)


def check(case, obs, d):
    c = Case(case, obs, d)
    pm = c.model()
    alt = model.PayloadModel(c.spec, include_edge=True)
    merged = c.run.merged()
    names = np.array([str(x) for x in merged["chName"]])
    for m, m2 in zip(pm.channels, alt.channels):
        k = names == m.name
        for col, w, w2 in (("instrument_signal", m.instrument, m2.instrument),
                           ("instrument_MaxSignal_inPixel", m.instrument_max, m2.instrument_max)):
            for src, tab in (("merged", merged[k]), ("channel", c.run.channels[m.name].table)):
                got = pipe.column(tab, col, "ct/s")
                a = 1e-12 * max(np.max(np.abs(w)), 1e-300)
                ok = got.shape == w.shape and (common.close(got, w, 1e-6, a) or common.close(got, w2, 1e-6, a) or
                                               bool(np.all(common.near(got, w, 1e-6, a) | common.near(got, w2, 1e-6, a))))
                obs.expect(ok, "%s %s of %s deviates: %s" % (src, col, m.name, common.worst(got, w)))
                obs.expect(bool(np.all(got >= 0)), "%s of %s is negative" % (col, m.name))
        ch = next(x for x in c.spec["channels"] if x["name"] == m.name)
        if m.el_signal and 0 < abs(ch["Fnum_x"] - ch["Fnum_y"]) < 0.01 * ch["Fnum_x"]:
            obs.label("nearly round beam")
        if m.el_signal:
            obs.label("warm")
            obs.labels["elements"] = obs.labels.get("elements", 0) + len(m.el_signal)
    obs.sample = {m.name: {"elements": {k: float(v[0]) for k, v in m.el_signal.items()}} for m in pm.channels}
