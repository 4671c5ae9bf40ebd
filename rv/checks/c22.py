"""Plots: the targets asked for, each drawn from its own table."""
import sys

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when every figure saved by a command or a run was recorded as it was drawn, and its title and every curve were compared "
        "with the table of the target it is named after")
ASSUMPTIONS = ["what matplotlib was given to draw is what it draws", "target names have no path separators"]
REQUIRED = ["all", "numbers", "range", "range with colon", "list of ranges", "none", "name", "default", "unknown name", "both refused", "out of range refused",
            "not a number refused", "curves compared", "efficiency", "run with plots", "bands", "custom noise drawn", "zodi drawn", "several channels",
            "other files kept", "saved payload efficiency", "names alike", "legend"]
LIMIT = 200


def cases(seed, tier):
    ops = ["plot", "table", "plot", "run"]
    return [{"s": s, "k": i // 4 + i // 2 % 2, "op": ops[i % 4], "o": {"working_R": 150, "n_ch": 1 + i % 3, "n_tgt": r_n(i)}}
            for i, s in enumerate(seeds(seed, count(tier, 48, 400), "C22"))]


def r_n(i):
    return [4, 1, 3, 2, 6, 1, 2, 3][i % 8]


class Record:
    """what every saved figure shows"""

    def __enter__(self):
        import matplotlib.figure as mf

        self.real = mf.Figure.savefig
        self.saved = {}
        rec = self

        def savefig(fig, fname, *a, **k):
            rec.saved.setdefault(os.path.abspath(os.fspath(fname)), []).append(describe(fig))
            # what is drawn is judged from the figure, not from the image
            with open(fname, "wb") as f:
                f.write(b"\x89PNG\r\n\x1a\n")

        mf.Figure.savefig = savefig
        # laying out is slow, and not judged
        self.layout = mf.Figure.tight_layout
        mf.Figure.tight_layout = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        import matplotlib.figure as mf

        mf.Figure.savefig = self.real
        mf.Figure.tight_layout = self.layout


def describe(fig):
    out = {"title": fig._suptitle.get_text() if fig._suptitle else None, "axes": []}
    for ax in fig.axes:
        leg = ax.get_legend()
        legend = [(t.get_text(), color(h)) for t, h in zip(leg.get_texts(), leg.get_lines())] if leg else []
        lines = [(str(l.get_label()), np.array(l.get_xdata(orig=False), float), np.array(l.get_ydata(orig=False), float)) for l in ax.lines]
        bands = []
        for p in ax.patches:
            e = p.get_path().get_extents(p.get_patch_transform()) if p.get_path() is not None else None
            bands.append((float(e.x0), float(e.x1)))
        out["axes"].append({"lines": lines, "bands": bands, "yscale": ax.get_yscale(), "xlabel": ax.get_xlabel(),
                            "legend": legend, "colors": [color(l) for l in ax.lines]})
    return out


def color(line):
    import matplotlib.colors as mc

    return tuple(round(float(x), 6) for x in mc.to_rgba(line.get_color())[:3])


def val(col):
    v = getattr(col, "value", col)
    if hasattr(v, "filled"):
        v = v.filled(np.nan)
    return np.asarray(v, float)


def compare(obs, fig, table, name):
    """the two panels of a target's figure against its table"""
    from astropy import units as u

    obs.expect(fig["title"] == name, "the figure of %s is titled %s" % (name, fig["title"]))
    if not obs.expect(len(fig["axes"]) == 2, "the figure of %s has %d panels" % (name, len(fig["axes"]))):
        return
    wl = val(table["Wavelength"])
    sig = [c for c in table.colnames if "signal" in c and "noise" not in c]
    noi = [c for c in table.colnames if "noise" in c]
    for ax, cols, what in ((fig["axes"][0], sig, "signal"), (fig["axes"][1], noi, "noise")):
        labels = [l[0] for l in ax["lines"]]
        miss = [c for c in cols if c not in labels]
        obs.expect(not miss, "%s %s of %s not drawn" % (what, miss, name))
        twice = [c for c in set(labels) if labels.count(c) > 1]
        obs.expect(not twice, "%s %s of %s drawn twice" % (what, twice, name))
        # the reader tells the curves by the legend
        obs.label("legend")
        obs.expect([x for x, _ in ax["legend"]] == labels, "the legend of %s lists %s for the curves %s" % (name, [x for x, _ in ax["legend"]], labels))
        obs.expect([x for _, x in ax["legend"]] == ax["colors"], "the colours in the legend of %s are not those of its curves" % name)
        for lab, x, y in ax["lines"]:
            if not obs.expect(lab in table.colnames, "a curve of %s is labelled %s, which its table does not have" % (name, lab)):
                continue
            w = val(table[lab])
            if what == "noise" and u.Unit(str(table[lab].unit)) != u.hr**0.5:
                with np.errstate(all="ignore"):
                    w = w / val(table["star_signal_inAperture"])
            obs.label("curves compared")
            if lab.endswith("_noise") and "_cn" in lab:
                obs.label("custom noise drawn")
            if lab.startswith("zodi"):
                obs.label("zodi drawn")
            ok = x.shape == wl.shape and np.array_equal(x, wl) and common.close(y, w, 1e-12)
            obs.expect(ok, "curve %s in the figure of %s is not the column of its table: %s" % (lab, name, common.worst(y, w)))
        bands(obs, ax, table, name)


def bands(obs, ax, table, name):
    ch = np.array([str(x) for x in table["chName"]])
    want = sorted((val(table["LeftBinEdge"])[ch == c].min(), val(table["RightBinEdge"])[ch == c].max()) for c in set(ch))
    got = sorted(ax["bands"])
    obs.label("bands")
    obs.expect(len(got) == len(want) and common.close(got, want, 1e-9), "bands of %s are %s instead of %s" % (name, got, want))


def check(case, obs, d):
    import exorad
    import exorad.tasks as T

    r = random.Random(case["s"])
    spec = gen.gen_spec(case["s"], **case["o"])
    obs.key, obs.nontrivial = "%s/%d" % (case["op"], case["s"]), True
    if len(spec["channels"]) > 1:
        obs.label("several channels")
    if case["op"] == "plot" and r.random() < 0.7:
        # names that contain one another
        base = r.choice(["HD 20", "K2", "Star-A", "X"])
        near = [base, base + "0", base + " b", "B " + base, base.lower() + "_2", base.swapcase()]
        r.shuffle(near)
        for t, nm in zip(spec["targets"], near):
            t["name"] = nm
        obs.label("names alike")
    run = pipe.Run(spec, os.path.join(d, "in"))
    import matplotlib.pyplot as plt

    if case["op"] == "table":
        return tables(case, obs, d, r, spec, run)
    out = os.path.join(d, "out", "res.h5")
    if case["op"] == "run":
        obs.label("run with plots")
        with Record() as rec:
            common.sut("a run with plots", exorad.standard_pipeline, run.xml, run.csv, output=out, plot=True)
        got = read_output(out)
        want = {os.path.join(d, "out", n + ".png") for n in got} | {os.path.join(d, "out", "efficiency.png")}
        obs.expect(set(rec.saved) == want, "figures saved: %s, expected %s" % (sorted(rec.saved), sorted(want)))
        for n in got:
            for f in rec.saved.get(os.path.join(d, "out", n + ".png"), []):
                compare(obs, f, got[n], n)
        for f in rec.saved.get(os.path.join(d, "out", "efficiency.png"), []):
            efficiency(obs, f, run.channels, run.merged(), spec)
        obs.sample = {"figures": sorted(os.path.basename(x) for x in rec.saved)}
        return
    common.sut("a run", exorad.standard_pipeline, run.xml, run.csv, output=out)
    got = read_output(out)
    names = list(got)
    n = len(names)
    import exorad.utils.plotter as mod

    def command(argv):
        od = os.path.join(d, "plots_%d" % r.randrange(10**9))
        if r.random() < 0.5:
            os.makedirs(od)
            open(os.path.join(od, "mine.txt"), "w").write("x")
            obs.label("other files kept")
        before = tree(od)
        h = digest(out)
        old = sys.argv
        sys.argv = ["exorad-plot", r.choice(["-i", "--input"]), out, r.choice(["-o", "--out"]), od] + argv
        err = None
        plt.close("all")
        left = []
        try:
            with Record() as rec, common.contextlib.redirect_stdout(common.io.StringIO()), common.contextlib.redirect_stderr(common.io.StringIO()), \
                    common.warnings.catch_warnings():
                common.warnings.simplefilter("ignore")
                mod.main()
            left = plt.get_fignums()
        except common.CaseTimeout:
            raise
        except BaseException as e:
            err = "%s: %s" % (type(e).__name__, e)
        finally:
            sys.argv = old
            plt.close("all")
        obs.expect(not left, "%d figures stay open after plotting" % len(left))
        obs.expect(digest(out) == h, "plotting changed the file plotted")
        after = tree(od)
        obs.expect(all(after.get(k) == v for k, v in before.items()), "files of the plot directory changed")
        return err, {os.path.relpath(k, od): v for k, v in rec.saved.items()}, sorted(set(after) - set(before))

    def selection(label, argv, want):
        obs.label(label)
        err, saved, files = command(argv)
        if not obs.expect(err is None, "exorad-plot %s failed: %s" % (" ".join(argv), err)):
            return
        exp = sorted({names[i] + ".png" for i in want})
        obs.expect(files == exp, "exorad-plot %s of %s makes %s" % (" ".join(argv), names, files))
        for i in set(want):
            f = names[i] + ".png"
            if f in saved:
                compare(obs, saved[f][-1], got[names[i]], names[i])

    num = lambda: r.choice(["-n", "--target-number"])
    i = r.randrange(n)
    jobs = [("all", [num(), "all"], range(n)), ("default", [], range(n)), ("numbers", [num(), str(i)], [i]), ("none", [num(), "none"], []),
            ("name", [r.choice(["-t", "--target-name"]), names[i]], [i]), ("unknown name", ["-t", r.choice(["Nowhere 7", names[i][:-1], names[i] + "x", names[i] + "*"])], None)]
    a = r.randrange(n)
    b = r.randrange(a, n)
    jobs += [("range", [num(), "%d-%d" % (a, b)], range(a, b + 1)), ("range with colon", [num(), "%d:%d" % (a, b)], range(a, b + 1)),
             ("list of ranges", [num(), "%d,%d-%d" % (i, a, b)], [i] + list(range(a, b + 1)))]
    if case["k"] % 2:
        jobs = jobs[::2]
    else:
        jobs = jobs[1::2]
    for label, argv, want in jobs:
        if want is None:
            if argv[1] in names or not argv[1]:
                argv[1] = "Nowhere 7"
            obs.label(label)
            err, saved, files = command(argv)
            obs.expect(not files, "a name that is in no list gives %s" % files)
        else:
            selection(label, argv, want)
    for label, argv in r.sample([("both refused", ["-n", "0", "-t", names[0]]), ("out of range refused", ["-n", str(n + 2)]),
                                 ("not a number refused", ["-n", "first"])], 2):
        obs.label(label)
        err, saved, files = command(argv)
        obs.expect(err is not None, "exorad-plot %s is accepted for %d targets" % (" ".join(argv), n))
        obs.expect(not files, "exorad-plot %s makes %s" % (" ".join(argv), files))
    obs.sample = {"targets": names}


def efficiency(obs, fig, channels, merged, spec):
    obs.label("efficiency")
    if not obs.expect(len(fig["axes"]) == 1, "the efficiency figure has %d panels" % len(fig["axes"])):
        return
    lines = fig["axes"][0]["lines"]
    if not obs.expect(len(lines) == 3 * len(channels), "the efficiency figure has %d curves for %d channels" % (len(lines), len(channels))):
        return
    leg = dict(fig["axes"][0]["legend"])
    cols = fig["axes"][0]["colors"]
    names = ("transmission", "qe", "pce")
    if obs.expect(all(x in leg for x in names) and len({leg[x] for x in names if x in leg}) == 3, "the legend of the efficiency figure is %s" % sorted(leg)):
        obs.expect(all(c == leg[names[i % 3]] for i, c in enumerate(cols)), "the colours in the legend of the efficiency figure are not those of its curves")
    tab = merged
    ch = np.array([str(x) for x in tab["chName"]])
    for i, c in enumerate(channels):
        (_, xt, yt), (_, xq, yq), (_, xp, yp) = lines[3 * i:3 * i + 3]
        obs.expect(all((y >= -1e-12).all() and (y <= 1 + 1e-9).all() for y in (yt, yq, yp)), "efficiencies of %s leave 0..1" % c)
        q = np.interp(xp, *[v[np.argsort(xq)] for v in (xq, yq)], left=0, right=0)
        t = np.interp(xp, *[v[np.argsort(xt)] for v in (xt, yt)], left=0, right=0)
        inner = np.ones(len(xp), bool)
        inner[[0, -1]] = False
        if ((xq > xp.min()) & (xq < xp.max())).sum() < 1.5 * len(xp):
            obs.expect(common.close(yp[inner], (t * q)[inner], 1e-6, 1e-9), "the efficiency of %s is not transmission times quantum efficiency: %s"
                       % (c, common.worst(yp[inner], (t * q)[inner])))
        else:
            # averaged over the bins of the transmission: between the extremes there
            obs.label("fine quantum efficiency")
            o = np.argsort(xp)
            for a, j, b in zip(o, o[1:], o[2:]):
                v = np.concatenate([q[[a, j, b]], yq[(xq >= xp[a]) & (xq <= xp[b])]])
                if not obs.expect(t[j] * v.min() * (1 - 1e-6) - 1e-9 <= yp[j] <= t[j] * v.max() * (1 + 1e-6) + 1e-9,
                                  "the efficiency of %s at %r is %r, transmission %r, quantum efficiency %r to %r" % (c, xp[j], yp[j], t[j], v.min(), v.max())):
                    break
        # the curve drawn is the one the table reports, bin by bin
        det = next(x for x in spec["channels"] if x["name"] == c)["detector"]
        dlo, dhi = gen.val(det["wl_min"], "um"), gen.val(det["cut_off"], "um")
        for col, x, y in (("TR", xt, yt), ("QE", xq, yq)):
            if col not in tab.colnames:
                continue
            k = ch == c
            lo, hi, v = val(tab["LeftBinEdge"])[k], val(tab["RightBinEdge"])[k], val(tab[col])[k]
            o = np.argsort(x)
            for a, b, w in zip(lo, hi, v):
                m = (x[o] > a) & (x[o] < b)
                if m.sum() >= 3 and a > dlo and b < dhi:
                    s = y[o][m]
                    pad = 1e-9 + 0.35 * (s.max() - s.min()) + 2.0 / m.sum() * s.max()
                    obs.expect(s.min() - pad <= w <= s.max() + pad, "%s of %s in %.4g-%.4g um is %g, the curve drawn spans %g-%g" % (col, c, a, b, w, s.min(), s.max()))
                    obs.labels["bins under the curve"] = obs.labels.get("bins under the curve", 0) + 1
    bands(obs, fig["axes"][0], tab, "the payload")


def tables(case, obs, d, r, spec, run):
    """the plotter used from Python"""
    import exorad.tasks as T
    from exorad.utils.plotter import Plotter
    import matplotlib.pyplot as plt

    t = run.targets()[0]
    run.observe(t)
    keep = t.table.copy()
    try:
        p = Plotter(input_table=t.table)
        fig, axes = common.sut("plotting a table", p.plot_table, scale=r.choice(["log", "linear"]), channel_edges=r.random() < 0.5)
        compare(obs, describe(fig), t.table, str(t.name))
        f = os.path.join(d, "a.png")
        common.sut("saving a figure", p.save_fig, f)
        obs.expect(os.path.exists(f), "the figure is not saved")
        df = diff_tables(t.table, keep)
        obs.expect(df is None, "plotting changed the table: %s" % df)
        channels = run.channels
        if case["k"] % 2:
            obs.label("saved payload efficiency")
            f = os.path.join(d, "pl.h5")
            common.sut("saving a payload", T.PreparePayload(), payload_file=run.xml, output=f)
            _, channels, _ = common.sut("loading a saved payload", T.PreparePayload(), payload_file=f)
        merged = common.sut("merging", T.MergeChannelsOutput(), channels=channels)
        p = Plotter(channels=channels, input_table=merged)
        fig = common.sut("plotting the efficiency", p.plot_efficiency)
        efficiency(obs, describe(fig), channels, merged, spec)
        f = os.path.join(d, "e.png")
        common.sut("saving the efficiency figure", p.save_fig, f, efficiency=True)
        obs.expect(os.path.exists(f), "the efficiency figure is not saved")
        obs.sample = {"curves": [l[0] for l in describe(fig)["axes"][0]["lines"]][:5]}
    finally:
        plt.close("all")
