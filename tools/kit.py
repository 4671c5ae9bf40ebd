"""What a demonstration needs: a scratch directory, a payload, a target list, the pipeline."""
import contextlib
import logging
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

import numpy as np
from astropy import units as u

_out = os.dup(1)


@contextlib.contextmanager
def quiet():
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    keep2 = os.dup(2)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(keep, 1)
        os.dup2(keep2, 2)
        for f in (keep, null, keep2):
            os.close(f)


with quiet():
    import exorad
    from exorad import tasks
logging.getLogger("exorad").setLevel(logging.CRITICAL)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo_")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def el(name, typ="surface", T=60, em=0.03, tr=None, more=""):
    return ("<opticalElement>%s<type>%s</type>%s%s%s%s</opticalElement>" % (
        name, typ, "" if T is None else '<temperature unit="K">%s</temperature>' % T,
        "" if em is None else "<emissivity>%s</emissivity>" % em,
        "" if tr is None else "<transmission>%s</transmission>" % tr, more))


DET = dict(delta='<delta_pix unit="micron">18.0</delta_pix>', rn='<read_noise unit="count">15</read_noise>',
           dark='<dark_current unit="count/s">1</dark_current>',
           well='<well_depth unit="count">100000</well_depth><f_well_depth unit="">1.0</f_well_depth>',
           qe='<qe unit="">0.55</qe>', freq='<freqNDR unit="Hz">0.</freqNDR>',
           wl='<wl_min unit="micron">0.4</wl_min><cut_off unit="micron">2.2</cut_off>')


def detector(**k):
    return "<detector>%s%s</detector>" % ("".join(dict(DET, **{a: b for a, b in k.items() if a in DET}).values()),
                                          k.get("more", ""))


def phot(name="Phot", wl=(0.5, 0.6), fnum=(30, 50), noisex=0.4, optics=None, more="", det=None,
         aperture='<aperture><radius unit="">9.24</radius><apertureCorrection unit="">0.91</apertureCorrection></aperture>'):
    if optics is None:
        optics = el("M3", tr=0.9) + el("box", "optics box", em=1) + el("det", "detector box", T=42, em=1)
    return ('<channel>%s<channelClass>Photometer</channelClass><wl_min unit="micron">%s</wl_min>'
            '<wl_max unit="micron">%s</wl_max><Fnum_x unit="">%s</Fnum_x><Fnum_y unit="">%s</Fnum_y>'
            '<NoiseX unit="">%s</NoiseX>%s%s<optics>%s</optics>%s</channel>' % (
                name, wl[0], wl[1], fnum[0], fnum[1], noisex, aperture, more, optics, det or detector()))


def spec(d, name="Spec", wl=(1.1, 1.95), fnum=(20, 30), noisex=0.4, R="20.0", optics=None, more="", det=None,
         disp=3000.0, sol=None):
    f = os.path.join(d, "%s_sol.ecsv" % name)
    from astropy.table import QTable
    t = QTable()
    w = np.linspace(0.9 * wl[0], 1.1 * wl[1], 30)
    t["Wavelength"] = w * u.um
    t["x"] = (disp * (w - w[0])) * u.um
    if sol is not None:
        t = sol
    t.write(f, format="ascii.ecsv", overwrite=True)
    if optics is None:
        optics = el("M5", tr=0.9) + el("box", "optics box", em=1) + el("det", "detector box", T=42, em=1)
    return ('<channel>%s<channelClass>Spectrometer</channelClass><wl_min unit="micron">%s</wl_min>'
            '<wl_max unit="micron">%s</wl_max><Fnum_x unit="">%s</Fnum_x><Fnum_y unit="">%s</Fnum_y>'
            '<NoiseX unit="">%s</NoiseX><wlSolution><datafile>%s</datafile></wlSolution>'
            '<window_spatial_scale>1</window_spatial_scale>%s%s<optics>%s</optics>%s</channel>' % (
                name, wl[0], wl[1], fnum[0], fnum[1], noisex, f,
                R if R.startswith("<") else '<targetR unit="">%s</targetR>' % R, more, optics, det or detector()))


def payload(d, channels, common="", source="planck", R=600, wl=(0.45, 2.2), optics=None, force="True",
            atel='<Atel unit="m**2">0.5</Atel>', fname="payload.xml"):
    if optics is None:
        optics = el("M1", T=80, tr=0.9)
    fn = os.path.join(d, fname)
    with open(fn, "w") as f:
        f.write('<root><ConfigPath>%s</ConfigPath><common><working_R>%s</working_R>'
                '<sourceSpectrum>%s</sourceSpectrum><wl_min unit="micron">%s</wl_min>'
                '<wl_max unit="micron">%s</wl_max>%s</common><optics>%s%s%s</optics>%s</root>' % (
                    d, R, source, wl[0], wl[1], common,
                    "<ForceChannelWlEdge>%s</ForceChannelWlEdge>" % force if force else "", atel, optics,
                    "".join(channels)))
    return fn


HEAD = ["star name", "star M [M_sun]", "star Teff [K]", "star R [R_sun]", "star D [pc]", "star magk",
        "star ra [deg]", "star dec [deg]"]
SUN = ["Sun", 1.0, 5770.0, 1.0, 10.0, 3.0, 0.0, 0.0]


def targets(d, rows=None, head=None, fname="targets.csv"):
    fn = os.path.join(d, fname)
    with open(fn, "w") as f:
        for r in [head or HEAD] + (rows or [SUN]):
            f.write(",".join(str(x) for x in r) + "\n")
    return fn


def build(pl, output=None):
    with quiet():
        return tasks.PreparePayload()(payload_file=pl, output=output)


def observe(pl, tl, n_thread=1, only=None):
    """{target name: target} observed with the payload"""
    with quiet():
        p, ch, wl = tasks.PreparePayload()(payload_file=pl, output=None)
        t = tasks.LoadTargetList()(target_list=tl)
        out = tasks.ObserveTargetlist()(targets=t.target, payload=p, channels=ch, wl_range=wl, plot=False,
                                        out_dir=None, n_thread=n_thread)
    return out, ch, p


def pipeline(pl, tl, **k):
    from exorad.exorad import standard_pipeline
    with quiet():
        return standard_pipeline(options=pl, target_list=tl, **k)


def col(x):
    return np.asarray(getattr(x, "value", x), float)


def close(a, b, rtol=1e-6):
    a, b = col(a), col(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True)


def expect(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)
