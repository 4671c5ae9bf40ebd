"""Descriptions that cannot be used are refused; nothing comes out of them, and nothing is left behind."""
import copy
import xml.etree.ElementTree as ET

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when a usable payload was spoiled in several ways, one at a time, each was loaded, built and observed, and the usable payload "
        "gave bit-identical results before and after")
ASSUMPTIONS = ["one thing is wrong at a time", "entries with documented defaults are not required"]
REQUIRED = ["wrong kind of unit", "unknown unit", "no number", "entry missing", "data file missing", "broken xml", "wrong extension", "no file", "unknown class",
            "unknown format", "refused at load", "refused at build", "refused at observation", "good before and after", "pipeline raises", "targets skipped",
            "not an output", "output without payload", "data file spoiled", "column missing", "no such column", "nothing to use"]
LIMIT = 200
NEEDED = {"/common": ["wl_min", "wl_max", "sourceSpectrum"], "/optics": ["Atel"],
          "/channel": ["channelClass", "wl_min", "wl_max", "Fnum_x", "Fnum_y", "detector", "optics"],
          "/channel/detector": ["wl_min", "cut_off", "delta_pix", "qe", "dark_current", "read_noise", "well_depth"],
          "opticalElement": ["type"], "/common/customNoise": ["name"], "/channel/customNoise": ["name"], "slit": ["width"], "spectrometer": ["wlSolution"], "": ["common", "optics"]}
NUMBERS = {"emissivity", "multiaccumM", "working_R", "window_spatial_scale", "window_spatial_pixel", "window_spectral_pixel", "NoiseX", "customNoise"}


def cases(seed, tier):
    return [{"s": s, "k": i, "o": {"working_R": 120, "n_ch": 1 + i % 2, "n_tgt": 1}} for i, s in enumerate(seeds(seed, count(tier, 32, 600), "C25"))]


def nodes(root):
    out = []

    def walk(e, path):
        for c in list(e):
            p = path + "/" + c.tag
            out.append((p, e, c))
            walk(c, p)

    walk(root, "")
    return out


def spoilers(root):
    """[(label, what, index of the node, change)] of everything that makes the description unusable"""
    from astropy import units as u

    out = []
    for i, (path, parent, c) in enumerate(nodes(root)):
        if c.tag in ("well_depth", "f_well_depth") and parent.find("frame_time") is not None:
            # not needed
            continue
        unit = c.get("unit")
        leaf = not list(c)
        if unit is not None and leaf:
            phys = unit.strip() not in ("", "dimensionless")
            if phys:
                other = "kg" if not u.Unit(unit).is_equivalent(u.kg) else "m"
                out.append(("wrong kind of unit", "%s in %s" % (path, other), i, ("unit", other)))
            out.append(("unknown unit", "%s in florps" % path, i, ("unit", "florps")))
            out.append(("no number", "%s without number" % path, i, ("text", "rubbish")))
        elif leaf and c.tag in NUMBERS:
            out.append(("no number", "%s without number" % path, i, ("text", "rubbish")))
        if c.tag == "targetR" and leaf and parent.find("channelClass") is not None and "hotom" not in (parent.find("channelClass").text or ""):
            # a number, or that of the pixels, said in full
            out += [("no resolution", "%s is %s" % (path, x), i, ("text", x)) for x in ("natural", "R100", "best")]
        keys = list(NEEDED.get(path.rsplit("/", 1)[0], ()))
        pt = parent.tag
        if pt == "opticalElement":
            keys += NEEDED["opticalElement"]
            t = parent.find("type")
            if t is not None and (t.text or "").strip() == "slit":
                keys += NEEDED["slit"]
        if path == "/channel/wlSolution":
            keys.append("wlSolution")
        if c.tag in keys:
            out.append(("entry missing", "%s missing" % path, i, ("remove",)))
        if c.tag == "customNoise":
            out.append(("no number", "%s without number" % path, i, ("text", "rubbish")))
            out.append(("entry missing", "the value of %s missing" % path, i, ("text", "")))
        if c.tag == "datafile":
            out.append(("data file missing", "the file of %s missing" % path, i, ("text", "__ConfigPath__/nowhere.csv")))
            out.append(("unknown format", "the file of %s of an unknown type" % path, i, ("beside", "datatype", "florps")))
            out.append(("unknown format", "the file of %s as a dictionary" % path, i, ("tag", "datadict")))
            if c.text and "/optics/" not in path:
                out.append(("data file spoiled", "the file of %s is no table" % path, i, ("spoil", {"Wavelength": "Weight", "wavelength": "weight"})))
            if c.text and pt_is_element(parent):
                use, wl = parent.find("use"), parent.find("wl_col_name")
                wl = [wl.text.strip()] if wl is not None else ["Wavelength", "wavelength"]
                tr = [use.text.strip()] if use is not None else ["Transmission", "Reflectivity"]
                for what, cols in (("wavelengths", wl), ("transmission", tr), ("emissivity", ["Emissivity", "emissivity"])):
                    out.append(("column missing", "the file of %s without %s" % (path, what), i, ("spoil", {k: "Other" for k in cols})))
        if c.tag == "use":
            table = parent.find("datafile") is not None
            if table or parent.find("reflectivity") is not None:
                out.append(("no such column", "%s names nothing there is" % path, i, ("text", "Absorption")))
            if not table and parent.find("reflectivity") is not None and parent.find("transmission") is not None:
                out.append(("nothing to use", "%s missing" % path, i, ("remove",)))
        if path == "/channel/channelClass":
            out.append(("unknown class", "channel of an unknown class", i, ("text", "Polarimeter")))
    return out


def pt_is_element(e):
    return e.tag == "opticalElement"


def apply(tree_, i, change, d, conf):
    t = copy.deepcopy(tree_)
    path, parent, c = nodes(t.getroot())[i]
    if change[0] == "unit":
        c.set("unit", change[1])
    elif change[0] == "text":
        c.text = change[1]
    elif change[0] == "remove":
        parent.remove(c)
    elif change[0] == "tag":
        c.tag = change[1]
    elif change[0] == "beside":
        e = copy.copy(c)
        e.tag, e.text = change[1], change[2]
        parent.append(e)
    elif change[0] == "spoil":
        f = os.path.join(d, "spoiled.csv")
        src = c.text.strip().replace("__ConfigPath__", conf)
        raw = open(src).read()
        with open(f, "w") as x:
            for a, b in change[1].items():
                raw = raw.replace(a, b)
            x.write(raw)
        c.text = f
    f = os.path.join(d, "spoiled.xml")
    t.write(f)
    return f


def trial(path, csv):
    """loads, builds and observes; the stage reached and the error"""
    import exorad.tasks as T

    stage = "load"
    try:
        with common.contextlib.redirect_stdout(common.io.StringIO()):
            pl = T.LoadOptions()(filename=path)
            stage = "build"
            ch = T.BuildChannels()(payload=pl)
            stage = "observation"
            t = T.LoadTargetList()(target_list=csv).target[0]
            T.ObserveTarget()(target=t, payload=pl, channels=ch, wl_range=(pl["common"]["wl_min"]["value"], pl["common"]["wl_max"]["value"]))
    except common.CaseTimeout:
        raise
    except Exception as e:  # noqa: B902
        return stage, e
    return None, t


def check(case, obs, d):
    import exorad
    import exorad.tasks as T

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    obs.key, obs.nontrivial = case["s"], True
    good = os.path.join(d, "in")
    run = pipe.Run(spec, good, fuzz=False)
    a = run.targets()[0]
    run.observe(a)
    base = ET.parse(run.xml)
    conf = base.getroot().find("ConfigPath").text.strip()
    ways = {}
    for w in spoilers(base.getroot()):
        ways.setdefault(w[0], []).append(w)
    chosen = [r.choice(ways[k]) for k in sorted(ways)]
    every = [w for k in ways for w in ways[k]]
    chosen += r.sample(every, min(6, len(every)))
    held = tree(good)
    for n, (label, what, i, change) in enumerate(chosen):
        obs.label(label)
        bad = apply(base, i, change, d, conf)
        stage, err = trial(bad, run.csv)
        if not obs.expect(stage is not None, "a payload with %s gives results" % what):
            continue
        obs.label("refused at %s" % stage)
        if label == "data file missing":
            obs.expect(isinstance(err, OSError), "a payload with %s is refused with %s" % (what, type(err).__name__))
        if label == "unknown class":
            obs.expect(isinstance(err, ValueError), "a payload with %s is refused with %s" % (what, type(err).__name__))
        if n % 4 == case["k"] % 4:
            out = os.path.join(d, "out%d" % n, "o.h5")
            e2 = None
            try:
                with common.contextlib.redirect_stdout(common.io.StringIO()):
                    exorad.standard_pipeline(bad, run.csv, output=out)
            except Exception as e:  # noqa: B902
                e2 = e
            if stage in ("load", "build"):
                obs.label("pipeline raises")
                obs.expect(e2 is not None, "a run of a payload with %s ends as if it were good" % what)
            else:
                obs.label("targets skipped")
            if os.path.exists(out):
                obs.expect(e2 is not None or not read_output(out), "a run of a payload with %s observes targets" % what)
    files(obs, r, d, run, base)
    obs.expect(tree(good) == held, "refused payloads changed the files of the good one")
    b = pipe.Run(spec, os.path.join(d, "again"), fuzz=False)
    t = b.targets()[0]
    b.observe(t)
    obs.label("good before and after")
    df = diff_tables(a.table, t.table)
    obs.expect(df is None, "after refused payloads the good one gives other results: %s" % df)
    obs.sample = {"spoiled": [w[1] for w in chosen][:6]}


def files(obs, r, d, run, base):
    """files that are not what they should be"""
    import exorad.tasks as T

    raw = open(run.xml).read()

    def refused(label, what, fn, kinds=Exception):
        obs.label(label)
        err = got = None
        try:
            with common.contextlib.redirect_stdout(common.io.StringIO()):
                got = fn()
        except common.CaseTimeout:
            raise
        except Exception as e:  # noqa: B902
            err = e
        obs.expect(err is not None, "%s gives %s" % (what, str(got)[:100]))
        if err is not None:
            obs.expect(isinstance(err, kinds), "%s is refused with %s: %s" % (what, type(err).__name__, err))

    f = os.path.join(d, "broken.xml")
    for _ in range(2):
        cut = raw[: r.randrange(1, len(raw.rstrip()) - 1)] if r.random() < 0.5 else raw.replace(r.choice(["</detector>", "</channel>", "</common>", "</root>"]), "", 1)
        open(f, "w").write(cut)
        refused("broken xml", "a truncated description", lambda: T.LoadOptions()(filename=f))
        refused("broken xml", "a truncated payload", lambda: T.PreparePayload()(payload_file=f))
    other = os.path.join(d, r.choice(["payload.txt", "payload", "payload.xml.bak", "payload.json"]))
    open(other, "w").write(raw)
    refused("wrong extension", "a description named %s" % os.path.basename(other), lambda: T.LoadOptions()(filename=other), OSError)
    refused("unknown format", "a payload named %s" % os.path.basename(other), lambda: T.PreparePayload()(payload_file=other), OSError)
    refused("unknown format", "a payload that is no file", lambda: T.PreparePayload()(payload_file=r.choice([None, 7, ["a"]])), OSError)
    nowhere = os.path.join(d, "nowhere")
    refused("no file", "a missing description", lambda: T.LoadOptions()(filename=nowhere + ".xml"), OSError)
    refused("no file", "a missing payload", lambda: T.PreparePayload()(payload_file=nowhere + r.choice([".xml", ".h5", ".hdf5"])), OSError)
    refused("no file", "a missing target list", lambda: T.LoadTargetList()(target_list=nowhere + ".csv"), OSError)
    refused("wrong extension", "a target list named .txt", lambda: T.LoadTargetList()(target_list=other), OSError)
    h = os.path.join(d, "fake.h5")
    open(h, "w").write(raw)
    refused("not an output", "a text file named .h5", lambda: T.PreparePayload()(payload_file=h), OSError)
    import h5py

    g = os.path.join(d, "empty.h5")
    with h5py.File(g, "w") as x:
        x["other"] = 1
    refused("output without payload", "an output without payload", lambda: T.PreparePayload()(payload_file=g))
    out = os.path.join(d, "never", "x.h5")
    import exorad

    refused("no file", "a run without target list", lambda: exorad.standard_pipeline(run.xml, nowhere + ".csv", output=out))
    refused("unknown format", "a run of something else", lambda: exorad.standard_pipeline(other, run.csv, output=out))
    if os.path.exists(out):
        obs.expect(not read_output(out), "a run of something else observes targets")
