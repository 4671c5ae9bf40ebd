"""Noise budget: each term from its signal, and all of them in the total."""
import numpy as np

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when every noise column of the result was recomputed from the signals of the same result and the "
        "described detector, and the total from all the terms")
ASSUMPTIONS = ["a frame time within 1e-9 of a whole number of reads may count either number"]
REQUIRED = ["photometer", "spectrometer", "NDR", "no NDR", "multiaccum", "NoiseX", "common custom noise", "channel custom noise",
            "curve noise", "photon terms", "dark sky", "repeated noise name",
            "noise of the channel named as a common one", "repeated noise value", "channels of one name"]


def cases(seed, tier):
    v = [{"working_R": 150, "p_same": 0.3}, {"working_R": 300, "n_frg": 3}, {"working_R": 150, "n_frg": 0}, {"working_R": 150, "n_frg": 4, "p_dup": 0.3}]
    return spread(seed, count(tier, 80, 600), "C11", v)


def curve_noise(r, spec):
    """tabulated noise, already in hr^1/2"""
    lo, hi = gen.val(spec["wl_min"], "um"), gen.val(spec["wl_max"], "um")
    n = r.choice([2, 3, 10])
    a, b = (0.5 * lo, 1.5 * hi) if r.random() < 0.6 else (lo + 0.2 * (hi - lo), lo + 0.7 * (hi - lo))
    wl = np.sort([r.uniform(a, b) for _ in range(n)])
    return {"Wavelength": [float(round(w, 6)) for w in wl], "v": [round(r.uniform(0, 400), 3) * 1e-6 for _ in wl],
            "name": "curve%d" % r.randint(0, 99)}


def add_curve(xml, d, noise, where, channel=None):
    """place a tabulated noise in the payload the way a user writes it"""
    import os
    import re

    fn = noise["name"] + ".ecsv"
    gen.write_ecsv(os.path.join(d, fn), {"Wavelength": noise["Wavelength"], noise["name"]: noise["v"]},
                   {"Wavelength": "um", noise["name"]: "h(1/2)"})
    tag = "<customNoise>%s<datafile>__ConfigPath__/%s</datafile></customNoise>\n" % (noise["name"], fn)
    s = open(xml).read()
    if where == "common":
        s = s.replace("</common>", tag + "</common>")
    else:
        i = s.index("<channelClass>", s.index(re.search(r"<channel>\s*%s\b" % re.escape(channel), s).group(0)))
        s = s[:i] + tag + s[i:]
    open(xml, "w").write(s)


def check(case, obs, d):
    import random

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    obs.key, obs.nontrivial = case["s"], True
    obs.label(*sorted(features(spec)))
    import os

    os.makedirs(d, exist_ok=True)
    curves = []
    run = None
    if r.random() < 0.4:
        ch = next((c["name"] for c in r.sample(spec["channels"], len(spec["channels"])) if "tag" not in c), None)
        for where in [("common", None)] if ch is None else ([("common", None)], [("channel", ch)], [("common", None), ("channel", ch)])[r.randrange(3)]:
            cn = curve_noise(r, spec)
            if cn["name"] in [x[0]["name"] for x in curves]:
                continue
            curves.append((cn, where[1]))
    real = gen.render_payload

    def rendered(s, dd, *a, **k):
        p = real(s, dd, *a, **k)
        for cn, where in curves:
            add_curve(p, dd, cn, "channel" if where else "common", where)
        return p

    gen.render_payload = rendered
    try:
        run = pipe.Run(spec, d)
    finally:
        gen.render_payload = real
    tg = run.targets()[0]
    run.observe(tg)
    verify(obs, spec, tg.table, curves)
    obs.sample = {"total_noise": float(pipe.column(tg.table, "total_noise", "hr0.5")[0]),
                  "noise columns": [k for k in tg.table.colnames if k.endswith("_noise")]}


def verify(obs, spec, tab, curves=(), instrument=("instrument_signal",)):
    def col(k):
        return pipe.column(tab, k, model.unit_of(k, custom))

    custom = custom_noise_columns(spec) + [c["name"] + "_noise" for c, _ in curves]
    names = np.array([str(x) for x in tab["chName"]])
    layers = model.unique(["zodi" if f["kind"] == "zodi" else f["name"] for f in spec["foregrounds"]])
    inst = [k for k in tab.colnames if k.endswith(" signal")] if instrument is None else list(instrument)
    sigs = ["star_signal_inAperture"] + inst + [n + "_signal" for n in layers]
    missing = [k for s in sigs for k in (s, s + "_noise") if k not in tab.colnames]
    missing += [k for k in custom + ["darkcurrent_noise", "read_noise", "total_noise"] if k not in tab.colnames]
    if not obs.expect(not missing, "columns missing from the result: %s" % missing):
        return
    if not layers:
        obs.label("dark sky")
    unknown = [k for k in tab.colnames if k.endswith("_noise") and k not in custom + [s + "_noise" for s in sigs]
               + ["darkcurrent_noise", "read_noise", "total_noise"]]
    obs.expect(not unknown, "noise terms that nothing describes: %s" % unknown)
    wl, win = col("Wavelength"), col("WindowSize")
    for ch in spec["channels"]:
        k = names == ch["name"]
        if not obs.expect(bool(k.any()), "channel %s has no row" % ch["name"]):
            continue
        det = ch["detector"]
        t = col("frameTime")[k]
        nr = t[0] * gen.val(det["freqNDR"], "Hz")
        options = [model.gains(det, t[0])]
        if np.isfinite(nr) and abs(nr - round(nr)) < 1e-9 * max(nr, 1):
            options += [model.gains(det, t[0] * (1 + 1e-8)), model.gains(det, t[0] * (1 - 1e-8))]
        best = None
        for rg, sg in options:
            bad = []
            photon = np.zeros(k.sum())
            for s in sigs:
                v = sg * col(s)[k] / 3600.0
                photon = photon + v
                got = col(s + "_noise")[k]
                if not common.close(got, np.sqrt(v), 1e-9, 1e-300):
                    bad.append("%s_noise of %s: %s" % (s, ch["name"], common.worst(got, np.sqrt(v))))
            dark = np.sqrt(sg * win[k] * gen.val(det["dark_current"], "count/s") / 3600.0)
            if not common.close(col("darkcurrent_noise")[k], dark, 1e-9):
                bad.append("darkcurrent_noise of %s: %s" % (ch["name"], common.worst(col("darkcurrent_noise")[k], dark)))
            read = np.sqrt(rg * gen.val(det["read_noise"], "count") ** 2 * win[k] / t / 3600.0)
            if not common.close(col("read_noise")[k], read, 1e-9):
                bad.append("read_noise of %s: %s" % (ch["name"], common.worst(col("read_noise")[k], read)))
            sig = col("star_signal_inAperture")[k]
            with np.errstate(all="ignore"):
                tot2 = (dark**2 + read**2 + (1 + ch.get("NoiseX", 0.0)) * photon) / np.where(sig == 0, np.nan, sig) ** 2
            terms = {}
            com, own = list(spec["custom_noise"]), list(ch.get("custom_noise", []))
            for l in (com, own):
                if len({n["name"] for n in l}) < len(l):
                    obs.label("repeated noise name")
                if len({n["ppm"] for n in l}) < len(l):
                    obs.label("repeated noise value")
            if {n["name"] for n in com} & {n["name"] for n in own}:
                obs.label("noise of the channel named as a common one")
            for n in com + own:
                tot2 = tot2 + (n["ppm"] * 1e-6) ** 2
                terms.setdefault(n["name"], []).append(n["ppm"] * 1e-6)
            for n, vs in terms.items():
                # same-named terms add up like all the others
                want = np.full(k.sum(), np.sqrt(np.sum(np.square(vs))))
                got = col(n + "_noise")[k]
                if not common.close(got, want, 1e-9):
                    bad.append("%s_noise of %s: %s" % (n, ch["name"], common.worst(got, want)))
            for cn, where in curves:
                if where in (None, ch["name"]):
                    want = np.interp(wl[k], cn["Wavelength"], cn["v"], left=0, right=0)
                    tot2 = tot2 + want**2
                    got = col(cn["name"] + "_noise")[k]
                    if not common.close(got, want, 1e-9, 1e-15):
                        bad.append("tabulated noise %s of %s: %s" % (cn["name"], ch["name"], common.worst(got, want)))
            if not common.close(col("total_noise")[k], np.sqrt(tot2), 1e-9):
                bad.append("total_noise of %s: %s" % (ch["name"], common.worst(col("total_noise")[k], np.sqrt(tot2))))
            if best is None or len(bad) < len(best):
                best = bad
        obs.labels["photon terms"] = obs.labels.get("photon terms", 0) + len(sigs)
        obs.checks += len(sigs) + 3
        for b in best:
            obs.fail(b)
        # a noise listed in another channel is none of this one's
        for other in spec["channels"]:
            if other["name"] != ch["name"]:
                for n in other.get("custom_noise", []):
                    if n["name"] in terms:
                        continue
                    obs.expect(bool(np.all(col(n["name"] + "_noise")[k] == 0)), "%s of %s affects %s" % (n["name"], other["name"], ch["name"]))
        for cn, where in curves:
            obs.label("curve noise")
            if where not in (None, ch["name"]):
                obs.expect(bool(np.all(col(cn["name"] + "_noise")[k] == 0)), "%s of %s affects %s" % (cn["name"], where, ch["name"]))
