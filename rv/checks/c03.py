"""Spectral sampling: every channel's bins are those its description asks for."""
import numpy as np

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when at least one channel's bin table was compared with the sampling computed from the "
        "payload description alone, and its tiling invariants were evaluated on the observed table")
ASSUMPTIONS = ["pixel positions within 3% of a pixel of the channel edge, and bins with no pixel in them, are not generated",
               "tabulated resolving powers are in units of micrometres, as their files carry no units"]
REQUIRED = ["photometer", "R fixed", "R native", "R absent", "R table", "tiled", "resolving power"]


def cases(seed, tier):
    v = [{"n_frg": 0, "working_R": 150, "p_slit": 0, "n_ch": 2, "Rmode": m, "cls": "Spectrometer"}
         for m in ("fixed", "native", "absent", "data")] + [{"n_frg": 0, "working_R": 150, "n_ch": 4}]
    return spread(seed, count(tier, 80, 600), "C03", v)


def check(case, obs, d):
    c = Case(case, obs, d)
    merged = c.run.merged()
    pm = c.model()
    names = np.array([str(x) for x in merged["chName"]])
    want_names = np.concatenate([[m.name] * len(m.wl) for m in pm.channels])
    if not obs.expect(list(names) == list(want_names), "rows of the merged table are not the channels' bins in payload order",
                      got=list(names)[:30], expected=list(want_names)[:30]):
        return
    for m, ch in zip(pm.channels, c.spec["channels"]):
        t = c.run.channels[m.name].table
        for src, tab in (("channel", t), ("merged", merged[names == m.name])):
            wl, bw, lo, hi = [pipe.column(tab, k, "um") for k in ("Wavelength", "Bandwidth", "LeftBinEdge", "RightBinEdge")]
            for k, got, want in (("Wavelength", wl, m.wl), ("Bandwidth", bw, m.bw), ("LeftBinEdge", lo, m.left), ("RightBinEdge", hi, m.right)):
                obs.expect(common.close(got, want, 1e-9), "%s %s of %s deviates: %s" % (src, k, m.name, common.worst(got, want)))
        obs.expect(bool(np.all(bw > 0) and np.all(np.diff(wl) > 0)), "%s: bins are not in increasing wavelength" % m.name)
        obs.expect(common.close(lo + bw, hi, 1e-12) and common.close(0.5 * (lo + hi), wl, 1e-12), "%s: centre, width and edges disagree" % m.name)
        a, b = gen.val(ch["wl_min"], "um"), gen.val(ch["wl_max"], "um")
        mode = ch.get("targetR", "native") if ch["cls"] == "Spectrometer" else "phot"
        if mode == "phot":
            obs.expect(len(wl) == 1 and common.close([lo[0], hi[0]], [a, b], 1e-12), "%s: photometric band is not the one requested" % m.name)
        elif mode != "native":
            obs.label("tiled")
            obs.expect(common.close(lo[1:], hi[:-1], 1e-12), "%s: bins leave gaps or overlap" % m.name)
            obs.expect(abs(lo[0] / a - 1) < 1e-12, "%s: first bin does not start at the lower edge" % m.name)
            if not isinstance(mode, dict):
                obs.label("resolving power")
                obs.expect(common.close(lo / bw, np.full(len(bw), mode), 1e-9), "%s: bins do not have the requested resolving power" % m.name)
                obs.expect(hi[-1] >= b * (1 - 1e-12), "%s: channel not covered up to its upper edge" % m.name)
                obs.expect(lo[-1] < b, "%s: the last bin lies outside the channel" % m.name)
        else:
            delta = gen.val(ch["detector"]["delta_pix"], "um")
            obs.expect(bool(np.all(wl > a - 2 * bw.max()) and np.all(wl < b + 2 * bw.max())), "%s: pixels outside the channel" % m.name)
    obs.sample = {"channels": {m.name: [float(m.wl[0]), float(m.wl[-1]), len(m.wl)] for m in pm.channels}}
