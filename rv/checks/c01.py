"""Payload description files: everything written is read, with its type, unit, order and place."""
import pickle
from collections import OrderedDict
from xml.sax.saxutils import escape

from .base import *

LEVEL = "exploration"
RULE = "a case counts when the whole dictionary read from a generated description was compared, value by value, with what was written"
ASSUMPTIONS = ["tags come after the text of the element that holds them", "no tag or attribute is called value"]
REQUIRED = ["integer", "float", "boolean", "string", "quantity", "dimensionless unit", "repeated tag", "repeated value", "tag without text",
            "data table", "data type", "plain table", "data dictionary", "configuration dictionary", "config path", "config path set at run time",
            "attribute", "comment", "several files in a row", "whole payload"]
TAGS = ["wl_min", "wl_max", "channel", "optics", "opticalElement", "detector", "type", "temperature", "note", "a", "b", "targetR", "Fnum_x", "x1"]
UNITS = ["um", "micron", "K", "m**2", "mm", "s", "Hz", "count/s", "count", "W / (m2 um sr)", "deg", "nm", "", "dimensionless"]
STRINGS = ["planck", "optics box", "Native", "filter-A", "a.b", "..", "1-2", "None", "true", "0x1f", "M 1", "1,5", "1 2", "e5", "Phot & co", "<lt>", "élan", "50 %", "a=b"]


def cases(seed, tier):
    n = count(tier, 200, 4000)
    return [{"s": s, "kind": "payload" if i % 8 == 7 else "tree"} for i, s in enumerate(seeds(seed, n, "C01"))]


class Gen:
    def __init__(self, r, d, obs, cfg):
        self.r, self.d, self.obs, self.cfg = r, d, obs, cfg
        self.n = 0

    def value(self):
        """(text, unit, python value)"""
        r, obs = self.r, self.obs
        k = r.random()
        if k < 0.15:
            v = r.choice([0, 1, -3, 42, 10**7, r.randint(-10**6, 10**6)])
            obs.label("integer")
            return r.choice(["%d", "%d", "+%d" if v >= 0 else "%d", "00%d" if v > 0 else "%d"]) % v, None, v
        if k < 0.35:
            v = r.choice([0.5, 1e-12, -2.5, r.uniform(-5, 5), 10 ** r.uniform(-20, 20)])
            t = r.choice([repr(v), "%.12e" % v, "%.12E" % v])
            obs.label("float")
            return t, None, float(t)
        if k < 0.45:
            v = r.random() < 0.5
            obs.label("boolean")
            return str(v), None, v
        if k < 0.7:
            t = r.choice(STRINGS)
            obs.label("string")
            return t, None, t
        if k < 0.75:
            t = "__ConfigPath__/some/%d.csv" % r.randint(0, 9)
            obs.label("config path")
            return t, None, t.replace("__ConfigPath__", self.cfg)
        v = r.choice([r.randint(0, 50), round(r.uniform(0, 90), 6)])
        un = r.choice(UNITS)
        obs.label("dimensionless unit" if un in ("", "dimensionless") else "quantity")
        return repr(v), un, (v, "" if un == "dimensionless" else un)

    def file(self, kind):
        r = self.r
        self.n += 1
        cols = {"Wavelength": [round(r.uniform(0.1, 9), 6) for _ in range(r.choice([2, 5, 30]))]}
        for c in r.sample(["Transmission", "Emissivity", "x", "Ch 1", "EE"], r.randint(1, 3)):
            cols[c] = [float("%.6g" % (r.uniform(0, 1) * 10 ** r.randint(-6, 6))) for _ in cols["Wavelength"]]
        cols = {k.replace(" ", "_"): v for k, v in cols.items()}
        units = {"Wavelength": r.choice(["um", "nm"]), "x": "um"}
        name = "f%d" % self.n
        if kind == "data table":
            p = os.path.join(self.d, name + ".csv")
            gen.write_ecsv(p, cols, units)
            return "datafile", p, ("table", cols, {k: units[k] for k in cols if k in units})
        if kind == "plain table":
            p = os.path.join(self.d, name + ".csv")
            last = list(cols)[-1]
            if len(cols) > 1 and r.random() < 0.5:
                # cells that say nothing
                for i in r.sample(range(len(cols[last])), 1):
                    cols[last][i] = None
                self.obs.label("blank cell")
            with open(p, "w") as f:
                f.write(",".join(cols) + "\n" + "".join(",".join(r.choice(["", "N/A", "#N/A"]) if x is None else repr(x) for x in row) + "\n"
                                                       for row in zip(*cols.values())))
            return "datafile", p, ("table", cols, {})
        data = {"k%d" % i: r.choice([1.5, 3, "text", [1.0, 2.0]]) for i in range(r.randint(1, 4))}
        data["sub"] = {"v": r.uniform(0, 1), "name": "deep"}
        if r.random() < 0.5:
            p = os.path.join(self.d, name + ".pickle")
            with open(p, "wb") as f:
                pickle.dump(data, f)
        else:
            import h5py

            p = os.path.join(self.d, name + r.choice([".h5", ".hdf5"]))

            def put(g, x):
                for k, v in x.items():
                    if isinstance(v, dict):
                        put(g.create_group(k), v)
                    else:
                        g.create_dataset(k, data=v)

            with h5py.File(p, "w") as f:
                put(f, data)
        return ("datadict" if kind == "data dictionary" else "config_dict"), p, ("dict", data)

    def node(self, depth, tag=None):
        """(xml, expected dictionary)"""
        r, obs = self.r, self.obs
        tag = tag or r.choice(TAGS)
        attrs = {}
        text, un, val = self.value() if r.random() < 0.85 else (None, None, None)
        if text is None:
            obs.label("tag without text")
        if un is not None:
            attrs["unit"] = un
        if r.random() < 0.1:
            attrs["note"] = r.choice(["n", "7", "see paper"])
            obs.label("attribute")
        kids_xml, want = self.body(depth - 1) if depth > 0 and r.random() < 0.5 else ("", {})
        ref = None
        if depth > 0 and r.random() < 0.15:
            kind = r.choice(["data table", "data table", "data type", "plain table", "data dictionary", "configuration dictionary"])
            ftag, p, data = self.file(kind)
            obs.label(kind)
            ref = "__ConfigPath__/" + os.path.basename(p) if r.random() < 0.6 else p
            if ftag == "datafile" and r.random() < 0.15:
                ref = "~/" + os.path.basename(p)
                obs.label("file at home")
            kids_xml += "<%s>%s</%s>" % (ftag, self.pad(escape(ref)), ftag)
            real = ref.replace("__ConfigPath__", self.cfg)
            if ftag == "config_dict":
                want = dict(data[1])
                want["config_dict"] = real
            else:
                want[ftag] = {"value": real}
                want["data"] = data
                if ftag == "datafile" and r.random() < 0.3:
                    kids_xml += "<datatype>%s</datatype>" % self.pad("ecsv")
                    want["datatype"] = {"value": "ecsv"}
                    obs.label("data type")
        for k, v in attrs.items():
            want[k] = v
        if text is not None:
            want["value"] = val
        q = r.choice("\"'")
        xml = "<%s%s>%s%s</%s>\n" % (tag, "".join(" %s=%s%s%s" % (k, q, v, q) for k, v in attrs.items()),
                                     self.pad(escape(text)) if text is not None else r.choice(["", "\n   ", " "]), kids_xml, tag)
        return tag, xml, want

    def pad(self, t):
        return self.r.choice([t, " " + t, t + "  ", "\n   " + t + "\n   "])

    def body(self, depth):
        r = self.r
        xml, want = "", {}
        nodes = [self.node(depth) for _ in range(r.randint(1, 5))]
        if r.random() < 0.4:  # a list of things, some with the same value
            tag = r.choice(["channel", "opticalElement", "customNoise"])
            some = [self.node(depth, tag) for _ in range(r.randint(2, 4))]
            if r.random() < 0.5:
                t, x, w = some[0]
                some.insert(r.randint(1, len(some)), (t, x, copy_of(w)))
                self.obs.label("repeated value")
            if r.random() < 0.5:
                nodes += some
            else:
                for s in some:
                    nodes.insert(r.randint(0, len(nodes)), s)
        for tag, x, w in nodes:
            if r.random() < 0.1:
                xml += "<!-- <%s>not this</%s> -->\n" % (tag, tag)
                self.obs.label("comment")
            xml += x
            if tag in want:
                self.obs.label("repeated tag")
                if not isinstance(want[tag], OrderedDict):
                    first = want[tag]
                    want[tag] = OrderedDict([(name(first.get("value", tag)), first)])
                base = name(w.get("value", tag))
                k, i = base, 1
                while k in want[tag]:
                    i += 1
                    k = "%s (%d)" % (text_of(w.get("value", tag)), i)
                want[tag][k] = w
            else:
                want[tag] = w
        return xml, want


def copy_of(w):
    import copy

    return copy.deepcopy(w)


def name(v):
    return v


def text_of(v):
    if isinstance(v, tuple):
        from astropy import units as u

        return str(v[0] * u.Unit(v[1]))
    return str(v)


def differ(got, want, path="payload"):
    """first place where what was read is not what was written"""
    from astropy import units as u

    if isinstance(want, OrderedDict):
        keys = list(got.keys()) if hasattr(got, "keys") else None
        if keys is None or len(keys) != len(want):
            return "%s lists %s, expected %s" % (path, keys, list(want))
        for (gk, gv), (wk, wv) in zip(got.items(), want.items()):
            e = differ(gk, wk, path + " name")
            if e:
                return e
            e = differ(gv, wv, "%s/%s" % (path, wk))
            if e:
                return e
        return None
    if isinstance(want, dict):
        if not hasattr(got, "keys") or sorted(map(str, got.keys())) != sorted(map(str, want)):
            return "%s holds %s, expected %s" % (path, sorted(map(str, got.keys())) if hasattr(got, "keys") else got, sorted(map(str, want)))
        for k in want:
            e = differ(got[k], want[k], "%s/%s" % (path, k))
            if e:
                return e
        return None
    if isinstance(want, tuple) and want and want[0] == "table":
        _, cols, units = want
        if list(got.colnames) != list(cols):
            return "%s has columns %s, expected %s" % (path, got.colnames, list(cols))
        for c in cols:
            void = [x is None for x in cols[c]]
            if not np.array_equal(np.ma.getmaskarray(np.ma.asarray(got[c])), void):
                return "%s column %s: blank cells are not the ones left blank: %s" % (path, c, list(got[c])[:6])
            if any(void):
                if [float(x) for x, v in zip(got[c], void) if not v] != [x for x in cols[c] if x is not None]:
                    return "%s column %s: %s, expected %s" % (path, c, list(got[c])[:6], cols[c][:6])
            elif not np.array_equal(np.asarray(got[c], float), np.array(cols[c])):
                return "%s column %s: %s" % (path, c, common.worst(np.asarray(got[c], float), cols[c]))
            if (u.Unit(units[c]) if c in units else None) != getattr(got[c], "unit", None):
                return "%s column %s is in %s, expected %s" % (path, c, getattr(got[c], "unit", None), units.get(c))
        return None
    if isinstance(want, tuple) and want and want[0] == "dict":
        return differ(got, want[1], path)
    if isinstance(want, tuple):
        if not isinstance(got, u.Quantity) or got.unit != u.Unit(want[1]) or float(got.value) != float(want[0]):
            return "%s is %r, expected %r" % (path, got, want)
        return None
    if isinstance(want, list):
        return None if np.array_equal(np.asarray(got), np.asarray(want)) else "%s is %r, expected %r" % (path, got, want)
    if isinstance(want, bool):
        return None if got is want else "%s is %r, expected %r" % (path, got, want)
    if isinstance(want, (int, float)):
        ok = isinstance(got, (int, float, np.number)) and not isinstance(got, bool) and got == want and isinstance(got, (int, np.integer)) == isinstance(want, int)
        return None if ok else "%s is %r, expected %r" % (path, got, want)
    return None if got == want and isinstance(got, str) else "%s is %r, expected %r" % (path, got, want)


def check(case, obs, d):
    import exorad.tasks as T

    obs.key, obs.nontrivial = case["s"], True
    r = random.Random(case["s"])
    if case["kind"] == "payload":
        return payload(case, obs, d)
    files = []
    for i in range(r.choice([1, 2, 3])):
        sub = os.path.join(d, "p%d" % i)
        os.makedirs(sub)
        how = r.random()
        given = None
        if how < 0.25:
            given = sub
            obs.label("config path set at run time")
        g = Gen(r, sub, obs, sub)
        cfg = "/somewhere/else" if given else sub
        body, want = g.body(3)
        want["ConfigPath"] = {"value": cfg}
        p = os.path.join(sub, "payload.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(r.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n']) + "<root>\n<ConfigPath>%s</ConfigPath>\n%s</root>\n" % (g.pad(cfg), body))
        files.append((p, given, want))
    if len(files) > 1:
        obs.label("several files in a row")
    order = [r.choice(files) for _ in range(3)] if len(files) > 1 else files * 2
    seen = tree(d)
    task = T.LoadOptions()
    last = []
    for p, given, want in order:
        kw = {"config_path": given} if given else {}
        home = os.environ.get("HOME")
        os.environ["HOME"] = os.path.dirname(p)
        try:
            got = common.sut("reading a payload description", task if r.random() < 0.5 else T.LoadOptions(), filename=p, **kw)
        finally:
            os.environ.pop("HOME")
            if home is not None:
                os.environ["HOME"] = home
        e = differ(got, want)
        obs.expect(e is None, "%s" % e)
        last.append((got, want))
    # what was read before is left alone by reading more
    for got, want in last:
        obs.expect(differ(got, want) is None, "a description read earlier changed while others were read")
    obs.expect(tree(d) == seen, "reading a description alters files")
    obs.sample = {"tags": sorted(map(str, want))[:8], "files": len(files)}


def payload(case, obs, d):
    """a full instrument description, in the places the rest of the package looks for"""
    obs.label("whole payload")
    spec = gen.gen_spec(case["s"], working_R=150, n_ch=1 + case["s"] % 4)
    xml = gen.render_payload(spec, d)
    import exorad.tasks as T
    from astropy import units as u

    p = common.sut("reading a payload description", T.LoadOptions(), filename=xml)

    def quant(got, pair, what):
        obs.expect(isinstance(got, u.Quantity) and common.close(got.to(pair[1]).value, pair[0], 1e-12), "%s is %s, expected %s" % (what, got, pair))

    def elements(node, els, what):
        els = [e for e in els]
        got = node.get("opticalElement")
        if not els:
            obs.expect(got is None, "%s lists optical elements nobody described" % what)
            return
        items = list(got.values()) if isinstance(got, OrderedDict) else [got]
        if not obs.expect([str(g["value"]) for g in items] == [e["name"] for e in els],
                          "%s: optical elements %s, expected %s" % (what, [str(g["value"]) for g in items], [e["name"] for e in els])):
            return
        if len(els) > 1:
            obs.expect(list(got) == model.unique([e["name"] for e in els]), "%s: optical elements listed as %s" % (what, list(got)))
        for g, e in zip(items, els):
            obs.expect(g["type"]["value"] == e["type"], "%s: type of %s" % (what, e["name"]))
            for k in ("temperature", "wl_min", "wl_max", "width", "solid_angle"):
                if e.get(k):
                    quant(g[k]["value"], e[k], "%s %s" % (e["name"], k))
                else:
                    obs.expect(k not in g, "%s has a %s nobody described" % (e["name"], k))
            for k in ("emissivity", "transmission", "reflectivity", "use"):
                obs.expect((g[k]["value"] if k in g else None) == e.get(k), "%s %s is %s, expected %s" % (e["name"], k, g.get(k), e.get(k)))
            if e.get("table"):
                obs.expect("data" in g and len(g["data"]) == len(e["table"]["Wavelength"]), "%s lost its data table" % e["name"])

    for k in ("wl_min", "wl_max"):
        quant(p["common"][k]["value"], spec[k], k)
    quant(p["optics"]["Atel"]["value"], spec["Atel"], "Atel")
    obs.expect(p["optics"]["ForceChannelWlEdge"]["value"] is bool(spec["force_edge"]), "ForceChannelWlEdge")
    obs.expect(p["common"]["working_R"]["value"] == spec["working_R"], "working_R")
    elements(p["optics"], spec["common_optics"], "common optics")
    chs = p["channel"]
    items = OrderedDict([(chs["value"], chs)]) if "channelClass" in chs else chs
    if obs.expect(list(items) == [c["name"] for c in spec["channels"]], "channels listed as %s" % list(items)):
        for c in spec["channels"]:
            g = items[c["name"]]
            for k in ("wl_min", "wl_max"):
                quant(g[k]["value"], c[k], "%s %s" % (c["name"], k))
            for k in ("Fnum_x", "Fnum_y"):
                quant(g[k]["value"], [c[k], ""], "%s %s" % (c["name"], k))
            for k, v in c["detector"].items():
                if k not in ("qe", "multiaccumM"):
                    quant(g["detector"][k]["value"], v, "%s detector %s" % (c["name"], k))
            elements(g["optics"], c["optics"], c["name"])
        for cls in ("Photometer", "Spectrometer"):
            got = common.sut("listing channels", T.GetChannelList(), options=p, channel_type=cls)
            obs.expect(list(got) == [c["name"] for c in spec["channels"] if c["cls"] == cls], "%s channels listed as %s" % (cls, got))
    fr = p["common"].get("foreground")
    if spec["foregrounds"]:
        it = list(fr) if isinstance(fr, OrderedDict) else [fr["value"]]
        want = model.unique(["zodiacal" if f["kind"] == "zodi" else f["name"] for f in spec["foregrounds"]])
        obs.expect(it == want, "foregrounds listed as %s, expected %s" % (it, want))
    else:
        obs.expect(fr is None, "a foreground nobody described")
