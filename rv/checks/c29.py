"""The details a built payload keeps: throughput, radiances, windows and sampling, channel by channel."""
from .base import *
from .c06 import prepare

LEVEL = "exploration"
RULE = ("a case counts when everything kept with every built channel (transmissions and radiances of each element over the wavelength grid, signals of each "
        "element, quantum efficiency, pixel sampling, windows, point spread function) was compared with the description, and again after saving and loading")
ASSUMPTIONS = ["PSF images are sampled with the same step along both axes", "samples on the very edge of a range may be on either side of it"]
REQUIRED = ["photometer", "spectrometer", "slit", "edges forced", "edges free", "qe table", "qe constant", "element table", "element bounds", "repeated element names",
            "transmissions", "radiances", "element signals", "windows", "prf", "gains", "pixels", "loaded", "read from the file", "psf paos", "psf airy", "R native", "R fixed", "R table", "run output"]


def cases(seed, tier):
    v = [{"n_frg": 0, "working_R": 150, "n_ch": 2, "n_tgt": 1}, {"n_frg": 0, "working_R": 301, "n_ch": 3, "p_slit": 0.6, "n_tgt": 1},
         {"n_frg": 1, "working_R": 150, "n_ch": 2, "p_dup": 0.6, "p_cut": 0.4, "n_tgt": 1}]
    return spread(seed, count(tier, 36, 600), "C29", v)


def arr(x, unit=None):
    """numbers, however they are kept: quantity, column, or dictionary of value and unit"""
    from astropy import units as u

    un = None
    if isinstance(x, dict):
        un = x.get("unit")
        x = x["value"]
    un = getattr(x, "unit", None) or un
    v = np.asarray(getattr(x, "value", x), float)
    if unit and un not in (None, ""):
        v = (v * u.Unit(un)).to(u.Unit(unit)).value
    elif unit is None and un not in (None, "", u.dimensionless_unscaled):
        v = (v * u.Unit(un)).to("").value
    return v


def check(case, obs, d):
    import exorad
    import exorad.tasks as T
    import h5py

    spec, images = prepare(case, obs, d)
    obs.key, obs.nontrivial = case["s"], True
    obs.label(*sorted(features(spec)))
    run = pipe.Run(spec, os.path.join(d, "in"))
    pms = [model.PayloadModel(spec, images=images), model.PayloadModel(spec, images=images, include_edge=True)]
    for m, m2 in zip(pms[0].channels, pms[1].channels):
        details(obs, run.channels[m.name].built_instr, m, m2, spec, "built")
    f = os.path.join(d, "payload.h5")
    if case["s"] % 3:
        common.sut("saving the payload", T.PreparePayload(), payload_file=run.xml, output=f)
    else:
        obs.label("run output")
        common.sut("a run", exorad.standard_pipeline, run.xml, run.csv, output=f)
    _, loaded, _ = common.sut("loading the payload", T.PreparePayload(), payload_file=f)
    obs.expect(sorted(loaded) == sorted(run.channels), "channels loaded: %s" % sorted(loaded))
    for m, m2 in zip(pms[0].channels, pms[1].channels):
        if m.name in loaded:
            obs.label("loaded")
            details(obs, loaded[m.name].built_instr, m, m2, spec, "loaded")
    with h5py.File(f, "r") as h:
        for m in pms[0].channels:
            g = "payload/channels/%s/built_instr/" % m.name
            obs.label("read from the file")
            for key, want in (("transmission_data/wl_grid", m.grid), ("transmission_data/data", None), ("window_size_px", m.window)):
                if not obs.expect(g + key in h, "the file lacks %s" % (g + key)):
                    continue
                if want is not None:
                    # what has no unit may be kept as plain numbers
                    x = h[g + key]
                    got = np.asarray(x["value"] if isinstance(x, h5py.Group) else x, float)
                    rt = 1e-2 if "EnE" in m.ch.get("aperture", {}) and key.startswith("window") else 1e-6
                    obs.expect(common.close(got, want, rt), "%s in the file deviates: %s" % (g + key, common.worst(got, want)))
    obs.sample = {m.name: sorted(run.channels[m.name].built_instr) for m in pms[0].channels}


def details(obs, b, m, m2, spec, src):
    who = "of %s (%s)" % (m.name, src)

    def near(what, got, want, rt=1e-6, at=0.0, want2=None):
        want = np.asarray(want, float)
        ok = got.shape == want.shape and (bool(np.all(common.near(got, want, rt, at) | common.near(got, want2, rt, at))) if want2 is not None
                                          else common.close(got, want, rt, at))
        obs.expect(ok, "%s %s deviates: %s" % (what, who, common.worst(got, want)))

    op = b["optical_path"]
    tt = op["transmission_table"]
    names = [e.name for e in m.elements]
    obs.expect([str(x) for x in tt.colnames] == ["Wavelength"] + names + ["total"], "transmissions kept %s are those of %s, of the elements %s" % (who, tt.colnames, names))
    # a bound that falls on a sample, but for rounding
    edges = [gen.val(e.d[k], "um") for e in m.elements for k in ("wl_min", "wl_max") if e.d.get(k)] + [m.a, m.b]
    clear = np.ones(len(m.grid), bool)
    for x in edges:
        clear &= np.abs(m.grid / x - 1) > 1e-9
    obs.label("transmissions")
    near("the wavelength grid", arr(tt["Wavelength"], "um"), m.grid, 1e-9)
    for e in m.elements:
        if e.name in tt.colnames:
            near("transmission of %s" % e.name, arr(tt[e.name])[clear], e.tr[clear], 1e-9, 1e-12)
    near("total transmission", arr(tt["total"])[clear], m.tr_raw[clear], 1e-9, 1e-12)
    td = b["transmission_data"]
    near("the grid of the transmission", arr(td["wl_grid"], "um"), m.grid, 1e-9)
    near("transmission", arr(td["data"])[clear], m.tr[clear], 1e-9, 1e-12)
    q = b["qe_data"]
    near("the grid of the quantum efficiency", arr(q["wl_grid"], "um"), m.qe_wl, 1e-9)
    near("quantum efficiency", arr(q["data"]), m.qe_v, 1e-9)

    rt = op["radiance_table"]
    warm = list(m.el_rad)
    obs.expect([str(x) for x in rt.colnames] == ["Wavelength"] + warm, "radiances kept %s are those of %s, of the warm elements %s" % (who, rt.colnames[1:], warm))
    for k in warm:
        if k in rt.colnames:
            obs.label("radiances")
            w = m.el_rad[k]
            near("radiance of %s" % k, arr(rt[k], "W/(m2 sr um)")[clear], w[clear], 1e-6, 1e-12 * max(w.max(), 1e-300))
    for tab, end, w1, w2, what in ((op["signal_table"], " signal", m.el_signal, m2.el_signal, "signal"), (op["max_signal_per_pixel"], "", m.el_max, m2.el_max, "brightest pixel")):
        obs.expect([str(x) for x in tab.colnames] == [k + end for k in warm], "%ss kept %s are those of %s, of the warm elements %s" % (what, who, tab.colnames, warm))
        for k in warm:
            if k + end in tab.colnames:
                obs.label("element signals")
                near("%s of %s" % (what, k), arr(tab[k + end], "ct/s"), w1[k], 1e-2 if "EnE" in m.ch.get("aperture", {}) else 1e-6,
                     1e-12 * max(np.max(np.abs(w1[k])), 1e-300), w2[k])
    has = any(e.type == "slit" for e in m.elements)
    obs.expect(("slit_width" in b) == has, "a slit %s: %s, described: %s" % (who, "slit_width" in b, has))
    if has and "slit_width" in b:
        near("width of the slit", arr(b["slit_width"], "um"), m.slit_width(), 1e-9)

    obs.label("windows")
    near("window", arr(b["window_size_px"]), m.window, 1e-2 if "EnE" in m.ch.get("aperture", {}) else 1e-6)
    if m.ch["cls"] == "Photometer":
        obs.label("prf")
        got = arr(b["PRF"])
        near("point spread function", got, m.prf, 1e-6, 1e-9 * m.prf_max)
        return
    near("pixel wavelengths", arr(b["wl_pix_center"], "um"), m.pwl, 1e-9)
    near("pixel bandwidths", arr(b["pixel_bandwidth"], "um"), m.pbw, 1e-6, 1e-12)
    near("pixel positions", arr(b["pix_center"], "um"), m.pix, 1e-9, 1e-9 * m.delta)
    obs.label("pixels")
    near("edges of the bins", arr(b["wl_bin"], "um"), m.edges, 1e-9)
    near("spectral window", arr(b["window_spectral_width"]), m.spectral, 1e-6, 1e-9)
    near("spatial window", arr(b["window_spatial_width"]), m.spatial, 1e-6)
    g = b["gain_prf_data"]
    x = np.linspace(m.pwl.min(), m.pwl.max(), 10)
    obs.label("gains")
    near("wavelengths of the gains", arr(g["wl_grid"], "um"), x, 1e-9)
    near("gains", arr(g["data"]), m.gain(x), 1e-6, 1e-9)
