"""Units are a matter of notation: results do not depend on the ones chosen."""
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the same payload and target were described in other units of the same kind and every column of the result "
        "was compared with the prediction for the described physical values, in the documented output units")
ASSUMPTIONS = ["a grid sample or pixel falling exactly on a bin edge may be counted on either side",
               "tabulated resolving powers carry no units and are read in um"]
UNITS = {"common_wl": ["nm", "mm", "m", "Angstrom"], "common_wl2": ["nm", "m"], "ch_wl": ["nm", "mm", "Angstrom"], "ch_wl2": ["nm", "m"],
         "el_wl": ["nm", "m"], "table_wl": ["nm", "Angstrom", "m"], "radiance": ["erg / (s cm2 um sr)", "W / (m3 sr)"],
         "sed": ["erg / (s cm2 um)", "W / m3"], "x": ["mm", "m", "nm"], "angle": ["deg2", "arcsec2", "bare"], "temp": ["mK", "kK", "bare"], "slit": ["um", "m", "cm"],
         "area": ["cm**2", "mm2"], "pix": ["mm", "m", "nm"], "det_wl": ["nm", "m"], "det_wl2": ["nm", "mm"], "time": ["ms", "min", "hr"],
         "freq": ["mHz", "1/s", "kHz", "1/min"], "wfe": ["nm", "m"], "dark": ["count/hr", "count/min"], "t_M": ["M_jup", "kg"],
         "t_R": ["km", "R_jup", "m"], "t_D": ["lyr", "AU", "m"]}
REQUIRED = ["unit " + k for k in UNITS] + ["photometer", "spectrometer", "one kind at a time", "mixed units"]
COLS_UNITS = {"Wavelength": "um", "Bandwidth": "um", "LeftBinEdge": "um", "RightBinEdge": "um", "starFlux": "W / m2",
              "starSignal": "ct / s", "instrument_signal": "ct / s", "frameTime": "s", "total_noise": "h(1/2)"}


def cases(seed, tier):
    v = [{"working_R": 150}, {"working_R": 300}, {"working_R": 211, "n_ch": 2}]
    return spread(seed, count(tier, 72, 720), "C18", v)


def present(spec):
    """kinds of quantities this payload has"""
    out = {"common_wl", "common_wl2", "ch_wl", "ch_wl2", "table_wl", "area", "pix", "det_wl", "det_wl2", "freq", "dark", "t_M", "t_R", "t_D"}
    els = spec["common_optics"] + [e for c in spec["channels"] for e in c["optics"]]
    if any(e.get("wl_min") or e.get("wl_max") for e in els):
        out.add("el_wl")
    if any(e.get("solid_angle") for e in els):
        out.add("angle")
    if any(e.get("temperature") for e in els):
        out.add("temp")
    if any(e["type"] == "slit" for e in els):
        out.add("slit")
    if any(f["kind"] == "sky" for f in spec["foregrounds"]):
        out.add("radiance")
    if spec["source"]["kind"] == "custom":
        out.add("sed")
    for c in spec["channels"]:
        if "wl_solution" in c:
            out.add("x")
        if "WFErms" in c:
            out.add("wfe")
        if "frame_time" in c["detector"]:
            out.add("time")
    return out


def check(case, obs, d):
    from astropy import units as u

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    have = sorted(present(spec))
    if r.random() < 0.3:
        k = r.choice(have)
        spec["units"] = {k: r.choice(UNITS[k])}
        obs.label("one kind at a time")
    else:
        # a list: every channel, element or file picks one of them
        spec["units"] = {k: r.choice(UNITS[k]) if r.random() < 0.5 else UNITS[k] for k in have if r.random() < 0.45}
        if any(isinstance(v, list) for v in spec["units"].values()):
            obs.label("mixed units")
    obs.label(*["unit " + k for k in spec["units"]])
    c = Case(case, obs, d, spec=spec)
    c.observe()
    c.compare([k for k in c.want if k != "chName"])
    for k, un in COLS_UNITS.items():
        if k in c.table.colnames:
            obs.expect(c.table[k].unit is not None and u.Unit(c.table[k].unit) == u.Unit(un), "%s is reported in %s instead of %s" % (k, c.table[k].unit, un))
    c.sample(["Wavelength", "starSignal", "total_noise"])
    obs.sample["units"] = spec["units"]
