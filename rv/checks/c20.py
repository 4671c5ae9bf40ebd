"""Channels do not see each other, and merging them loses nothing."""
import copy

from astropy import units as u

from .base import *

LEVEL = "exploration"
RULE = ("a case counts when the rows of every channel were compared bit by bit between payloads holding different subsets and orders "
        "of the same channels")
ASSUMPTIONS = ["channels described under one name are told apart by the number the later ones get"]
REQUIRED = ["alone", "reordered", "subset", "merged", "photometer", "spectrometer", "channel custom noise", "absent elsewhere is zero",
            "merge of subsets", "observed through part of the channels", "twin channels", "one name for several channels",
            "merge with columns of any values"]


def cases(seed, tier):
    v = [{"working_R": 150, "n_ch": 3}, {"working_R": 211, "n_ch": 4, "n_frg": 2}, {"working_R": 150, "n_ch": 2},
         {"working_R": 150, "n_ch": 1, "twins": 2}, {"working_R": 150, "n_ch": 2, "twins": 1}]
    return spread(seed, count(tier, 40, 400), "C20", v)


def rows(table, name):
    return np.array([str(x) == name for x in table["chName"]])


def diff_rows(a, ka, b, kb, skip=()):
    """differences between rows ka of a and kb of b; a column only one of them has must be zero there"""
    from astropy import units as u

    if ka.sum() != kb.sum():
        return "%d bins against %d" % (ka.sum(), kb.sum())
    for c in (set(a.colnames) | set(b.colnames)) - set(skip):
        if c not in a.colnames or c not in b.colnames:
            t, k = (a, ka) if c in a.colnames else (b, kb)
            if not np.all(np.asarray(getattr(t[c], "value", t[c]))[k] == 0):
                return "column %s is not zero where the channel does not have it" % c
            continue
        (va, ua), (vb, ub) = plain(a[c]), plain(b[c])
        if ua != ub and u.Unit(ua) != u.Unit(ub):
            return "unit of %s: '%s' against '%s'" % (c, ua, ub)
        va, vb = np.asarray(va)[ka], np.asarray(vb)[kb]
        if va.dtype.kind in "fc":
            if not bool(np.all((va == vb) | ((va != va) & (vb != vb)))):
                return "column %s: %s" % (c, common.worst(va, vb))
        elif va.tolist() != vb.tolist():
            return "column %s" % c
    return None


def check(case, obs, d):
    import exorad.tasks as T

    r = random.Random(case["s"])
    o = dict(case["o"])
    twins = o.pop("twins", 0)
    spec = gen.gen_spec(case["s"], p_same=0, **o)
    for k in range(twins):
        # channels that differ in few values from another one: what forgets one of its inputs takes them for the same
        tw, changed = gen.twin_channel(r.choice(spec["channels"]), r, "Tw%d" % k, r.choice([1, 1, 2]))
        spec["channels"].insert(r.randint(0, len(spec["channels"])), tw)
        obs.label("twin channels", *["twin " + c for c in changed])
    obs.key, obs.nontrivial = case["s"], True
    obs.label(*sorted(features(spec)))
    extras.dress(spec, os.path.join(d, "all"), case["s"], obs)
    full = pipe.Run(spec, os.path.join(d, "all"))
    t0 = full.targets()[0]
    full.observe(t0)
    merged = full.merged()
    names = [c["name"] for c in spec["channels"]]

    def order_ok(table, want, what):
        got = []
        for x in table["chName"]:
            if not got or got[-1] != str(x):
                got.append(str(x))
        obs.expect(got == want, "%s: channels come as %s instead of %s" % (what, got, want))

    order_ok(t0.table, names, "all")
    for c in spec["channels"]:
        own = [n["name"] + "_noise" for n in c.get("custom_noise", [])]
        for o in names:
            for k in own:
                if o != c["name"] and k in t0.table.colnames and k not in full.channels[o].table.colnames:
                    other = next(x for x in spec["channels"] if x["name"] == o)
                    shared = [n["name"] + "_noise" for n in other.get("custom_noise", []) + spec["custom_noise"]]
                    if k in shared:
                        continue
                    obs.label("absent elsewhere is zero")
                    obs.expect(bool(np.all(np.asarray(t0.table[k])[rows(t0.table, o)] == 0)),
                               "custom noise %s of %s shows up in %s" % (k, c["name"], o))
    # merging: every row of every channel, once, in order; the channels keep theirs
    obs.label("merged")
    obs.expect(len(merged) == sum(len(full.channels[c].table) for c in names), "merging %d rows gives %d"
               % (sum(len(full.channels[c].table) for c in names), len(merged)))
    for c in names:
        tab = full.channels[c].table
        df = diff_rows(merged, rows(merged, c), tab, np.ones(len(tab), bool))
        obs.expect(df is None, "merged table of %s: %s" % (c, df))
        for k in merged.colnames:
            if k not in tab.colnames:
                obs.label("absent elsewhere is zero")
    part = {c: full.channels[c] for c in r.sample(names, r.randint(1, len(names)))}
    m2 = common.sut("merging channel tables", T.MergeChannelsOutput(), channels=part)
    obs.label("merge of subsets")
    order_ok(m2, list(part), "merging a subset")
    for c in part:
        df = diff_rows(m2, rows(m2, c), merged, rows(merged, c))
        obs.expect(df is None, "table of %s merged in a subset: %s" % (c, df))
    # columns of their own with any values
    mine = part
    given = {}
    for c, ch in mine.items():
        n = len(ch.table)
        for k in range(r.randint(0, 3)):
            vals = np.array([r.choice([np.nan, np.inf, -np.inf, 0.0, -1.5, 1e300, r.random()]) for _ in range(n)])
            name = "own %s %d" % (c, k) if r.random() < 0.7 else "shared %d" % k
            if r.random() < 0.3:
                vals = np.array([r.randint(-5, 5) for _ in range(n)])
            unit = r.choice([None, u.s, u.ct / u.s]) if name.startswith("own") else u.s
            ch.table[name] = vals if unit is None else vals * unit
            given.setdefault(name, {})[c] = (vals, unit)
            obs.label("merge with columns of any values")
    m3 = common.sut("merging channel tables", T.MergeChannelsOutput(), channels=mine)
    for name, by in given.items():
        for c in by:
            mine[c].table.remove_column(name)
    order_ok(m3, list(mine), "merging tables with columns of their own")
    for name, by in given.items():
        unit = list(by.values())[0][1]
        got = m3[name]
        obs.expect(str(getattr(got, "unit", None) or "") == str(unit or ""), "merging turns the unit of %s from %s to %s"
                   % (name, unit, getattr(got, "unit", None)))
        for c in mine:
            x = np.asarray(getattr(got, "value", got))[rows(m3, c)]
            w = by[c][0] if c in by else np.zeros(len(x))
            obs.expect(np.array_equal(np.asarray(x, float), np.asarray(w, float), equal_nan=True),
                       "merging: column %s of %s, %s, is %s in %s" % (name, sorted(by), "its own" if c in by else "none of its", list(x)[:4], c))
    t1 = full.targets()[0]
    full.observe(t1, channels=part)
    obs.label("observed through part of the channels")
    order_ok(t1.table, list(part), "observing through part of the channels")
    for c in part:
        df = diff_rows(t1.table, rows(t1.table, c), t0.table, rows(t0.table, c))
        obs.expect(df is None, "%s observed through part of the channels: %s" % (c, df))
    # other payloads with the same channels
    variants = [("alone", [c]) for c in r.sample(names, min(2, len(names)))]
    variants.append(("reordered", r.sample(names, len(names))))
    if len(names) > 2:
        variants.append(("subset", r.sample(names, 2)))
    for k, (what, sel) in enumerate(variants):
        s2 = copy.deepcopy(spec)
        s2["channels"] = [next(c for c in spec["channels"] if c["name"] == n) for n in sel]
        run = pipe.Run(s2, os.path.join(d, "v%d" % k))
        t = run.targets()[0]
        run.observe(t)
        obs.label(what)
        order_ok(t.table, sel, what)
        for c in sel:
            df = diff_rows(t.table, rows(t.table, c), t0.table, rows(t0.table, c))
            obs.expect(df is None, "%s depends on the other channels (%s %s): %s" % (c, what, sel, df))
        obs.labels["channel comparisons"] = obs.labels.get("channel comparisons", 0) + len(sel)
    if len(names) > 1 and r.random() < 0.7:
        # the same channels called the same: numbered, and otherwise as before
        s2 = copy.deepcopy(spec)
        new = gen.same_names(s2, r)
        run = pipe.Run(s2, os.path.join(d, "same"))
        t = run.targets()[0]
        run.observe(t)
        obs.label("one name for several channels")
        order_ok(t.table, list(new), "several channels of one name")
        for c in new:
            df = diff_rows(t.table, rows(t.table, c), t0.table, rows(t0.table, new[c]), skip=["chName"])
            obs.expect(df is None, "%s is called as another channel, %s, and changes: %s" % (new[c], c, df))
    obs.expect(diff_tables(full.merged(), merged) is None, "merging again gives something else")
    obs.sample = {"channels": names, "variants": variants}
