"""Throughput: optics transmission, quantum efficiency and sky transmission in the result."""
import numpy as np

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when transmission and quantum efficiency of all the channels were compared, bin by bin, with the product "
        "of the described optical elements and the described detector response")
ASSUMPTIONS = ["a bin centre closer to the channel edge than 1 part in 1e9 may fall on either side of it"]
REQUIRED = ["photometer", "spectrometer", "edges forced", "edges free", "qe table", "qe constant", "element table", "element bounds",
            "element use", "element reflectivity", "edge zeroed", "sky transmission", "repeated element names"]
COLS = ["QE", "TR"]


def cases(seed, tier):
    v = [{"p_slit": 0.2, "working_R": 300}, {"p_slit": 0.2, "working_R": 701, "n_frg": 2},
         {"p_slit": 0, "force_edge": True, "working_R": 300, "p_dup": 0.5}, {"p_slit": 0, "n_frg": 3, "force_edge": True, "working_R": 1200}]
    return spread(seed, count(tier, 72, 600), "C04", v)


def check(case, obs, d):
    c = Case(case, obs, d)
    c.observe()
    cols = COLS + (["foreground_transmission"] if "foreground_transmission" in c.want else [])
    c.compare(cols)
    if "foreground_transmission" in c.want:
        obs.label("sky transmission")
    else:
        obs.expect("foreground_transmission" not in c.table.colnames, "a sky transmission is reported for a sky with no absorbing layer")
    for k in cols:
        v = c.col(k)
        obs.expect(bool(np.all((v >= 0) & (v <= 1 + 1e-12))), "%s leaves [0, 1]" % k)
    # the same throughput before any target is observed
    merged = c.run.merged()
    obs.expect(common.close(pipe.column(merged, "TR", ""), c.col("TR"), 1e-12) and common.close(pipe.column(merged, "QE", ""), c.col("QE"), 1e-12),
               "the instrument throughput changes with the observed target")
    if c.spec["force_edge"] and np.any(c.want["TR"] == 0):
        obs.label("edge zeroed")
    c.sample(cols)
