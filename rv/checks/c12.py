"""Saturation and frame time, per channel."""
import numpy as np

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the brightest-pixel rate, saturation time and frame time of every channel were recomputed from the "
        "contributions in the same result and the described detector")
ASSUMPTIONS = []
REQUIRED = ["photometer", "spectrometer", "frame time set", "well-driven frame", "several bins", "contributions", "estimated again"]


def cases(seed, tier):
    v = [{"working_R": 150, "n_frg": 2, "n_ch": 3}, {"working_R": 150, "n_frg": 0}, {"working_R": 300, "n_frg": 4, "n_ch": 4}, {"working_R": 150, "cls": "Spectrometer"}]
    return spread(seed, count(tier, 72, 600), "C12", v)


def check(case, obs, d):
    c = Case(case, obs, d)
    c.target_spec = c.spec["targets"][0]
    tg = c.run.targets()[0]
    c.run.observe(tg)
    tab = c.table = tg.table
    layers = model.unique(["zodi" if f["kind"] == "zodi" else f["name"] for f in c.spec["foregrounds"]])
    parts = ["star", "instrument"] + layers
    missing = [p for p in parts if p + "_MaxSignal_inPixel" not in tab.colnames]
    if not obs.expect(not missing, "brightest-pixel contributions missing: %s" % missing):
        return
    tot = sum(c.col(p + "_MaxSignal_inPixel") for p in parts)
    obs.labels["contributions"] = obs.labels.get("contributions", 0) + len(parts)
    got = c.col("MaxSignal_inPixel")
    obs.expect(common.close(got, tot, 1e-9), "MaxSignal_inPixel is not the sum of the contributions: %s" % common.worst(got, tot))
    names = c.names()
    for ch in c.spec["channels"]:
        k = names == ch["name"]
        det = ch["detector"]
        if k.sum() > 1:
            obs.label("several bins")
        with np.errstate(divide="ignore"):
            sat = gen.val(det["well_depth"], "count") / tot[k]
        g = c.col("saturation_time")[k]
        obs.expect(common.close(g, sat, 1e-9), "saturation time of %s: %s" % (ch["name"], common.worst(g, sat)))
        if "frame_time" in det:
            want = gen.val(det["frame_time"], "s")
        else:
            want = gen.val(det["f_well_depth"], "") * sat.min()
            obs.label("well-driven frame")
        g = c.col("frameTime")[k]
        obs.expect(common.close(g, np.full(k.sum(), want), 1e-9), "frame time of %s: %s" % (ch["name"], common.worst(g, np.full(k.sum(), want))))
        if "frame_time" not in det:
            # without light the well never fills
            filled = np.where(tot[k] > 0, g, 0) * tot[k]
            obs.expect(bool(np.all(filled <= gen.val(det["well_depth"], "count") * gen.val(det["f_well_depth"], "") * (1 + 1e-9))),
                       "a frame of %s overfills the well" % ch["name"])
    # estimated once more, nothing changes
    was = {x: c.col(x).copy() for x in ("MaxSignal_inPixel", "saturation_time", "frameTime")}
    import exorad.tasks as T

    tg = common.sut("estimating the noise again", T.EstimateNoise(), target=tg, channels=c.run.channels)
    obs.label("estimated again")
    for x in was:
        got = pipe.column(tg.table, x, "ct/s" if x[0] == "M" else "s")
        obs.expect(common.close(got, was[x], 1e-12), "%s changes when estimated again: %s" % (x, common.worst(got, was[x])))
    c.sample(["MaxSignal_inPixel", "saturation_time", "frameTime"])
