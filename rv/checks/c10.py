"""Diffuse foregrounds through the layers posed before them, the optics and the slit."""
import numpy as np

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when each foreground's signal in each bin, and in the brightest pixel, was compared with its described "
        "radiance seen through the nearer layers and the described optics")
ASSUMPTIONS = ["foregrounds are listed from the farthest to the nearest, as documented"]
REQUIRED = ["photometer", "spectrometer", "slit", "zodi", "sky", "stacked layers", "zodi before layers", "no foreground", "layer columns"]


def cases(seed, tier):
    v = [{"n_frg": 2, "working_R": 300}, {"n_frg": 3, "working_R": 300, "p_slit": 0.8}, {"n_frg": 4, "working_R": 150, "p_dup": 0.4},
         {"n_frg": 2, "working_R": 701, "p_slit": 0.9}, {"n_frg": 1, "working_R": 1200}, {"n_frg": 0, "working_R": 150}]
    return spread(seed, count(tier, 78, 600), "C10", v)


def check(case, obs, d):
    c = Case(case, obs, d)
    c.observe()
    layers = [n for n, _, _ in c.pm.layers()]
    cols = [n + s for n in layers for s in ("_signal", "_MaxSignal_inPixel")]
    c.compare(cols)
    obs.labels["layer columns"] = obs.labels.get("layer columns", 0) + len(cols)
    extra = [k for k in c.table.colnames if k.endswith("_MaxSignal_inPixel") and k not in cols
             and k not in ("instrument_MaxSignal_inPixel", "star_MaxSignal_inPixel")]
    obs.expect(not extra, "foregrounds that the payload does not list: %s" % extra)
    c.sample(cols)
