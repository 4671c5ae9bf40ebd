"""Driving the real pipeline through its public tasks."""
import numpy as np
from astropy import units as u

from . import common, gen
from .common import sut


class Run:
    """one payload loaded and its channels built"""

    def __init__(self, spec, d, fuzz=True):
        import exorad.tasks as T

        self.T = T
        self.spec, self.dir = spec, d
        self.xml = gen.render_payload(spec, d, fuzz=fuzz)
        self.csv = gen.render_targets(spec, d)
        self.payload = sut("loading the payload", T.LoadOptions(), filename=self.xml)
        self.channels = sut("building the channels", T.BuildChannels(), payload=self.payload, write=False, output=None)
        self.wl_range = (self.payload["common"]["wl_min"]["value"], self.payload["common"]["wl_max"]["value"])

    def targets(self, path=None):
        return sut("loading the target list", self.T.LoadTargetList(), target_list=path or self.csv).target

    def observe(self, target, channels=None):
        return sut("observing a target", self.T.ObserveTarget(), target=target, payload=self.payload,
                   channels=channels or self.channels, wl_range=self.wl_range)

    def merged(self):
        return sut("merging channel tables", self.T.MergeChannelsOutput(), channels=self.channels)


UN = {"um": u.um, "W/m2": u.W / u.m**2, "ct/s": u.ct / u.s, "s": u.s, "hr0.5": u.hr**0.5,
      "ct/s hr0.5": u.ct / u.s * u.hr**0.5, "": u.dimensionless_unscaled}


def column(table, name, unit):
    """column as plain floats in `unit`; counts may be carried implicitly as 1/s -> not allowed"""
    c = table[name]
    if isinstance(c, u.Quantity):
        un = UN[unit]
        if c.unit == u.dimensionless_unscaled and unit in ("",):
            return np.asarray(c.value, float)
        return np.asarray(c.to(un).value, float)
    cu = getattr(c, "unit", None)
    if cu is not None:
        return np.asarray((np.asarray(c, float) * u.Unit(cu)).to(UN[unit]).value, float)
    return np.asarray(c, float)


def compare(obs, table, want, cols, custom=(), rtol=1e-6, atol=None, where="", alt=None):
    """compare table columns with the model prediction"""
    from . import model

    for c in cols:
        if c not in table.colnames:
            obs.expect(False, "%scolumn %s is missing from the result" % (where, c))
            continue
        un = model.unit_of(c, custom)
        try:
            got = column(table, c, un)
        except Exception as e:
            if un and np.any(np.asarray(getattr(table[c], "value", table[c]), float) != 0):
                obs.expect(False, "%scolumn %s does not carry unit %s (%s)" % (where, c, un, e))
                continue
            got = np.asarray(getattr(table[c], "value", table[c]), float)
        scale = np.nanmax(np.abs(want[c])) if want[c].size and np.any(np.isfinite(want[c])) else 0.0
        a = atol if atol is not None else (scale if np.isfinite(scale) else 0) * 1e-12
        w = want[c]
        if alt is not None and got.shape == w.shape == alt[c].shape:
            # where the two admissible predictions differ, hold the result to the nearer one
            w = np.where(common.near(got, w, rtol, a), w, alt[c])
        obs.expect(common.close(got, w, rtol, a),
                   "%scolumn %s deviates: %s" % (where, c, common.worst(got, w)))
