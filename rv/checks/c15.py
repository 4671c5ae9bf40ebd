"""What is stored in an HDF5 file is what is read from it."""
from collections import OrderedDict

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when random nested dictionaries were stored over several openings of a file, every one of them was read back after "
        "every closing and compared entry by entry, and unsupported values were refused")
ASSUMPTIONS = ["keys carry no '/'", "lists of strings come back as arrays of their UTF-8 encoding",
               "strings carry no null character"]
REQUIRED = ["int", "float", "bool", "str", "array", "quantity", "quantity array", "list", "dict", "ordered dict", "table", "table metadata",
            "signal", "strings", "value and unit", "list of dicts", "append", "append to nothing", "file of others", "overwrite", "refused", "kept after refusal", "text table", "dimensionless",
            "written directly", "attributes", "group written twice", "columns as groups", "information added", "a quantity called value"]

UNITS = ["um", "W / (m2 um)", "K", "ct / s", "h(1/2)", "", "pc", "electron", "deg", "Hz", "R_sun"]
WORDS = ["alpha", "β-decay", "value 1", "x", "star name", "Ünïcode", "unit2", "a_b", "T", "0", "table", "data [um]", "Phot 0.55", "v1.2.3", ".a."]


def cases(seed, tier):
    return [{"s": s} for s in seeds(seed, count(tier, 160, 3000), "C15")]


def number(r):
    return r.choice([0.0, -0.0, 1.5, r.uniform(-1e3, 1e3), 1e-300, 1e300, float("inf"), float("nan"), 3.0])


def array(r):
    shape = r.choice([(1,), (3,), (7,), (2, 3), (2, 2, 2), (0,)])
    n = int(np.prod(shape))
    k = r.choice("fib")
    v = [number(r) for _ in range(n)] if k == "f" else [r.randint(-9, 9) for _ in range(n)] if k == "i" else [r.random() < 0.5 for _ in range(n)]
    return np.array(v, dtype={"f": float, "i": int, "b": bool}[k]).reshape(shape)


def text(r):
    return r.choice(["", "plain", "with spaces and\nlines", "µm—ünïcode ✓", "__ConfigPath__/data.csv", "3.5", "True", "x" * 300])


def table(r, u, QTable, Table):
    n = r.choice([1, 3, 6])
    cols = OrderedDict()
    for i in range(r.randint(1, 4)):
        k = r.choice("quntb")
        name = r.choice(WORDS) + str(i)
        if k == "q":
            cols[name] = np.array([number(r) for _ in range(n)]) * u.Unit(r.choice(UNITS))
        elif k == "u":
            cols[name] = np.array([r.choice(["aa", "Phot", "Spéc"]) for _ in range(n)])
        elif k == "n":
            cols[name] = np.array([r.randint(-5, 5) for _ in range(n)])
        elif k == "b":
            cols[name] = np.array([r.random() < 0.5 for _ in range(n)])
        else:
            cols[name] = np.array([number(r) for _ in range(n)])
    meta = {}
    if r.random() < 0.6:
        meta["name"] = "target é"
        if r.random() < 0.5:
            meta["n"] = r.randint(0, 9)
            meta["f"] = 2.5
        if r.random() < 0.5:
            meta["T"] = r.uniform(1, 9) * u.K
    return (QTable if r.random() < 0.6 else Table)(cols, meta=meta)


def thing(r, depth, lab):
    """(what is stored, what must be read)"""
    from astropy import units as u
    from astropy.table import QTable, Table
    from exorad.models.signal import CountsPerSeconds, Radiance, Sed, Signal

    kinds = ["int", "float", "bool", "str", "array", "quantity", "quantity array", "list", "table", "signal", "strings", "value and unit", "dimensionless"]
    if depth:
        kinds += ["dict", "ordered dict", "dict", "ordered dict", "list of dicts", "tuple"]
    k = r.choice(kinds)
    lab(k)
    if k == "int":
        v = r.choice([0, -3, 2**40, np.int64(7), np.int32(-2)])
        return v, int(v)
    if k == "float":
        v = number(r)
        return r.choice([v, np.float64(v)]), v
    if k == "bool":
        v = r.random() < 0.5
        return v, v
    if k == "str":
        v = text(r)
        return v, v
    if k == "array":
        v = array(r)
        return v, v
    if k == "dimensionless":
        v = r.uniform(0, 1) * u.dimensionless_unscaled
        return v, v
    if k == "quantity":
        v = number(r) * u.Unit(r.choice(UNITS))
        return v, v
    if k == "quantity array":
        v = np.asarray(array(r), float) * u.Unit(r.choice(UNITS))
        return v, v
    if k in ("list", "tuple"):
        v = [r.uniform(-5, 5) for _ in range(r.randint(1, 5))] if r.random() < 0.5 else [r.randint(0, 9) for _ in range(r.randint(1, 5))]
        return (tuple(v) if k == "tuple" or r.random() < 0.3 else v), np.array(v)
    if k == "strings":
        v = [r.choice(["a", "Phot", "channel one", "z" * 64, "z" * 63 + "é", "description " * 20, "σ Ünïcode ✓", ""]) for _ in range(r.randint(1, 4))]
        return (v if r.random() < 0.5 else np.array(v)), ("strings", v)
    if k == "value and unit":
        un = r.choice(UNITS)
        v = r.uniform(-5, 5) if r.random() < 0.5 else np.array([r.uniform(-5, 5) for _ in range(3)])
        q = v * u.Unit(un)
        if r.random() < 0.3:
            # a quantity says its own unit, whatever stands beside it
            w = {"value": q, "comment": {"value": "text"}}
            if r.random() < 0.5:
                w["unit"] = r.choice(["mm", "arcsec", "dimensionless", "as given"])
            lab("a quantity called value")
            return w, w
        written = q if r.random() < 0.5 else v
        un_w = "dimensionless" if un == "" and r.random() < 0.5 else un
        return {"value": written, "unit": un_w, "comment": {"value": "text"}}, {"value": q, "unit": un_w, "comment": {"value": "text"}}
    if k == "table":
        t = table(r, u, QTable, Table)
        if t.meta:
            lab("table metadata")
        if any(t[c].dtype.kind == "U" for c in t.colnames):
            lab("text table")
        return t, t
    if k == "signal":
        n = r.randint(2, 6)
        wl = np.sort([r.uniform(0.3, 9) for _ in range(n)]) * u.um
        kl = r.choice([Signal, Sed, Radiance, CountsPerSeconds])
        s = kl(wl, np.array([r.uniform(0, 9) for _ in range(n)]))
        return s, ("signal", s)
    if k == "list of dicts":
        items = [thing_dict(r, depth - 1, lab, 2) for _ in range(r.randint(1, 3))]
        return [a for a, _ in items], ("items", [b for _, b in items])
    w, want = thing_dict(r, depth - 1, lab, r.randint(0, 4))
    if k == "ordered dict":
        ks = list(w)
        r.shuffle(ks)
        return OrderedDict((x, w[x]) for x in ks), OrderedDict((x, want[x]) for x in ks)
    return w, want


def thing_dict(r, depth, lab, n):
    w, want = {}, {}
    for i in range(n):
        key = "%s_%d" % (r.choice(WORDS), i)
        w[key], want[key] = thing(r, depth, lab)
    return w, want


def differs(got, want, path, key=None, parent=None):
    """first difference between what was read and what was stored"""
    from astropy import units as u
    from astropy.table import Table

    if isinstance(want, tuple) and want[0] == "strings":
        v = [x.decode() if isinstance(x, bytes) else str(x) for x in np.asarray(got).ravel().tolist()]
        return None if v == want[1] else "%s: read %s, stored %s" % (path, v, want[1])
    if isinstance(want, tuple) and want[0] == "signal":
        s = want[1]
        for a in ("wl_grid", "data", "time_grid"):
            if not isinstance(got, dict) or a not in got:
                return "%s: no %s" % (path, a)
            df = differs(got[a]["value"], getattr(s, a), path + "/" + a)
            if df:
                return df
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: read %s, stored a dictionary" % (path, type(got).__name__)
        if isinstance(want, OrderedDict) and not isinstance(got, OrderedDict):
            return "%s: the ordered dictionary comes back unordered" % path
        names = []
        for k, v in want.items():
            if isinstance(v, tuple) and v[0] == "items":
                for i, x in enumerate(v[1]):
                    names.append("%s%d" % (k, i))
                    if names[-1] not in got:
                        return "%s: item %s is missing" % (path, names[-1])
                    df = differs(got[names[-1]], x, path + "/" + names[-1])
                    if df:
                        return df
                continue
            names.append(k)
            if k not in got:
                return "%s: entry %s is missing" % (path, k)
            df = differs(got[k], v, path + "/" + k)
            if df:
                return df
        tables = [k for k in want if isinstance(want[k], Table)]
        extra = [k for k in got if k not in names and not any(k.startswith(t) for t in tables)]
        if extra:
            return "%s: entries nobody stored: %s" % (path, extra)
        if isinstance(want, OrderedDict):
            order = [k for k in got if k in names]
            if order != names:
                return "%s: order %s, stored as %s" % (path, order, names)
        return None
    if isinstance(want, Table):
        if not isinstance(got, Table):
            return "%s: read %s, stored a table" % (path, type(got).__name__)
        if list(got.colnames) != list(want.colnames):
            return "%s: columns %s, stored %s" % (path, got.colnames, want.colnames)
        for c in want.colnames:
            a, b = got[c], want[c]
            if str(a.unit or "") != str(b.unit or ""):
                return "%s: unit of %s is %s, stored %s" % (path, c, a.unit, b.unit)
            va = np.asarray(getattr(a, "value", a))
            vb = np.asarray(getattr(b, "value", b))
            if va.dtype.kind == "S":
                va = np.char.decode(va, "utf-8")
            if va.shape != vb.shape or va.dtype.kind != vb.dtype.kind or not same_values(va, vb):
                return "%s: column %s is %s, stored %s" % (path, c, va.tolist()[:3], vb.tolist()[:3])
        for k, v in want.meta.items():
            if k not in got.meta or not same(got.meta[k], v):
                return "%s: metadata %s is %s, stored %s" % (path, k, got.meta.get(k), v)
        return None
    if isinstance(want, u.Quantity):
        if not isinstance(got, u.Quantity):
            return "%s: read %s without unit, stored %s" % (path, got, want)
        if got.unit != want.unit or got.shape != want.shape or not same_values(got.value, want.value):
            return "%s: read %s, stored %s" % (path, got, want)
        return None
    a, b = np.asarray(got), np.asarray(want)
    if isinstance(want, str):
        return None if isinstance(got, str) and got == want else "%s: read %r, stored %r" % (path, got, want)
    if isinstance(got, u.Quantity) or a.shape != b.shape or a.dtype.kind != b.dtype.kind or not same_values(a, b):
        return "%s: read %r, stored %r" % (path, got, want)
    return None


def same_values(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def columns(got, want, path):
    """the columns of a table, each also a group of its values and unit"""
    from astropy import units as u

    for c in want.colnames:
        if not isinstance(got, dict) or c not in got or "value" not in got[c]:
            return "%s: no column %s among the groups" % (path, c)
        b = want[c]
        a = got[c]["value"]
        if b.unit is not None and u.Unit(str(got[c].get("unit", ""))) != b.unit:
            return "%s: unit of %s is %s, stored %s" % (path, c, got[c].get("unit"), b.unit)
        if b.unit is None and got[c].get("unit", "") != "":
            return "%s: %s comes with a unit" % (path, c)
        va, vb = np.asarray(getattr(a, "value", a)), np.asarray(getattr(b, "value", b))
        if va.dtype.kind == "S":
            va = np.char.decode(va, "utf-8")
        if va.shape != vb.shape or not same_values(va, vb):
            return "%s: column %s is %s, stored %s" % (path, c, va.tolist()[:3], vb.tolist()[:3])
    return None


def direct(r, o, g, obs):
    """writes entries one by one; returns what must be read and the attributes"""
    from astropy import units as u
    from astropy.table import QTable, Table

    sut = common.sut
    grp = sut("making a group", o.create_group, g)
    want, attrs = {}, {}
    todo = ["scalar", "string", "array", "arrays", "list", "strings", "quantity", "table", "group"]
    for k in r.sample(todo, r.randint(4, len(todo))):
        m = {x: r.choice(["text é", 3, 2.5]) for x in r.sample(["comment", "unit", "origin"], r.randint(1, 2))} if r.random() < 0.6 else None
        if r.random() < 0.5:
            # the same group again is that group
            grp = sut("taking a group again", o.create_group, g)
            obs.label("group written twice")
        if k == "scalar":
            v = r.choice([r.uniform(-5, 5), r.randint(-5, 5)])
            sut("writing a scalar", grp.write_scalar, k, v, m)
        elif k == "string":
            v = text(r)
            sut("writing a text", grp.write_string, k, v, m)
        elif k == "array":
            v = array(r)
            sut("writing an array", grp.write_array, k, v, m)
        elif k == "arrays":
            v = [array(r) for _ in range(r.randint(1, 3))]
            sut("writing arrays", grp.write_array, k, v, m)
            for i, x in enumerate(v):
                want["%s%d" % (k, i)] = x
                attrs["%s%d" % (k, i)] = m
            continue
        elif k == "list":
            v, m = [r.uniform(-5, 5) for _ in range(r.randint(1, 5))], None
            sut("writing a list", grp.write_list, k, v)
            v = np.array(v)
        elif k == "strings":
            x = [r.choice(WORDS) for _ in range(r.randint(1, 4))]
            sut("writing texts", grp.write_string_array, k, x, m)
            v = ("strings", x)
        elif k == "quantity":
            v, m = r.uniform(0, 9) * u.Unit(r.choice(UNITS)), None
            sut("writing a quantity", grp.write_quantity, k, v)
        elif k == "table":
            v, m = table(r, u, QTable, Table), None
            sut("writing a table", grp.write_table, k, v)
        else:
            sub, m = r.choice(WORDS), None
            w, v = thing_dict(r, 1, obs.label, 2)
            sub = sut("making a group in a group", grp.create_group, k)
            half = list(w)[:1]
            sut("storing a dictionary", sub.store_dictionary, {x: w[x] for x in half})
            # in the same group, later
            sut("storing a dictionary", sut("taking a group in a group again", grp.create_group, k).store_dictionary, {x: w[x] for x in w if x not in half})
        want[k], attrs[k] = v, m
        if m:
            obs.label("attributes")
    obs.label("written directly")
    return want, attrs


class Unknown:
    __slots__ = ()


def check(case, obs, d):
    import h5py
    from exorad.output.hdf5 import HDF5Output, load

    r = random.Random(case["s"])
    obs.key, obs.nontrivial = case["s"], True
    p = os.path.join(d, "out.h5")
    stored, attributes, added = {}, {}, {}

    def groups(got, want, path):
        from astropy.table import Table

        for k, v in want.items():
            if isinstance(v, Table):
                obs.label("columns as groups")
                df = columns(got.get(k + "_to_group"), v, path + "/" + k)
                if df:
                    return df
            elif isinstance(v, dict) and isinstance(got.get(k), dict):
                df = groups(got[k], v, path + "/" + k)
                if df:
                    return df
        return None

    def verify(when):
        with h5py.File(p, "r") as f:
            for g, want in stored.items():
                if not obs.expect(g in f, "%s: group %s is missing" % (when, g)):
                    continue
                got = common.sut("reading a stored dictionary", load, f[g])
                df = differs(got, want, g) or groups(got, want, g)
                obs.expect(df is None, "%s: %s" % (when, df))
                for k, m in attributes.get(g, {}).items():
                    for a, v in (m or {}).items():
                        obs.expect(a in f[g][k].attrs and f[g][k].attrs[a] == v, "%s: attribute %s of %s is %r, written %r" % (when, a, k, f[g][k].attrs.get(a), v))
            if foreign:
                obs.expect("theirs" in f and f["theirs"]["x"][()] == 3 and f.attrs.get("mark") == "theirs", "%s: what others wrote into the file is gone" % when)
            for k, v in added.items():
                got = common.sut("reading what was added to the information", load, f["info"])
                df = differs(got.get(k), v, "info/" + k)
                obs.expect(df is None and "ExoRad" in got, "%s: %s" % (when, df))
            obs.expect(signed(f), "%s: the file does not say which program wrote it" % when)

    foreign = r.random() < 0.2
    if foreign:
        # a file made by somebody else
        with h5py.File(p, "w") as f:
            f.create_group("theirs")["x"] = 3
            f.attrs["mark"] = "theirs"
        obs.label("file of others")
    for n in range(r.choice([1, 2, 3, 4])):
        append = r.random() < 0.8 if n else foreign or r.random() < 0.4
        if append and not n and not foreign:
            obs.label("append to nothing")
        if n and not append:
            stored, attributes, added, foreign = {}, {}, {}, False
            obs.label("overwrite")
        elif n:
            obs.label("append")
        with HDF5Output(p, append=append) as o:
            for k in range(r.randint(1, 2)):
                w, want = thing_dict(r, 3, obs.label, r.randint(1, 6))
                g = "%s %d.%d" % (r.choice(["group", "targets", "payload"]), n, k)
                if r.random() < 0.5:
                    common.sut("storing a dictionary", o.store_dictionary, w, g)
                else:
                    common.sut("storing a dictionary", o.create_group(g).store_dictionary, w)
                stored[g] = want
            if r.random() < 0.4:
                g = "direct %d" % n
                stored[g], attributes[g] = direct(r, o, g, obs)
            if r.random() < 0.3:
                w, want = thing_dict(r, 1, obs.label, 2)
                common.sut("adding to the information", o.add_info, w, "mine %d" % n)
                added["mine %d" % n] = want
                obs.label("information added")
        verify("opening %d" % n)
    if r.random() < 0.6:
        # a value that cannot be stored
        bad = r.choice([None, 1 + 2j, {1, 2}, len, Unknown(), [None]])
        try:
            with HDF5Output(p, append=True) as o:
                o.store_dictionary({"before": 1, "bad": bad} if r.random() < 0.5 else {"nest": {"bad": bad}}, "refused group")
            obs.expect(False, "a value of type %s was stored without complaint" % type(bad).__name__)
        except (ValueError, TypeError, AttributeError):
            obs.expect(True, "")
        obs.label("refused", "kept after refusal")
        verify("after refusing a value")
    obs.sample = {"groups": list(stored)}
