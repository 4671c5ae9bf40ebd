"""Target lists: every listed target, in order, with its own properties."""
from .. import xlsx
from .base import *

LEVEL = "exploration"
RULE = ("a case counts when every attribute of every target of a generated list was compared with what was written, in the unit it "
        "was written in, or an unusable list was refused")
ASSUMPTIONS = ["names are filled in, of printable characters other than the delimiter", "every cell of a spreadsheet is filled in"]
REQUIRED = ["csv", "mrs", "xlsx", "qtable", "planets", "stars only", "decimal commas", "refused", "searched", "searched by names with signs", "other units", "single target",
            "numeric names", "unrelated columns", "old reader", "old reader refuses",
            "planets that cannot be read", "several planets of a star", "same planet again", "blank cells"]
KINDS = ["csv", "csv", "mrs", "xlsx", "qtable", "refused"]
STAR = {"M": ["M_sun", "kg", "M_jup"], "Teff": ["K"], "R": ["R_sun", "km", "m", "R_jup"], "D": ["pc", "lyr", "au", "m"], "magk": [None],
        "ra": ["deg", "rad"], "dec": ["deg", "arcmin"], "logg": [None]}
PLANET = {"M": ["M_jup", "M_earth"], "R": ["R_jup", "R_earth"], "a": ["au"], "P": ["day", "h"], "T14": ["s", "h"], "b": [None], "albedo": [None]}
MRS_STAR = [("Name", "name", None), ("Mass [Ms]", "M", "M_sun"), ("Temperature [K]", "Teff", "K"), ("Radius [Rs]", "R", "R_sun"),
            ("Distance [pc]", "D", "pc"), ("MagK", "magk", None), ("RA [deg]", "ra", "deg"), ("Mass Error + [Ms]", None, None)]
MRS_PLANET = [("Name", "name", None), ("Radius [Re]", "R", "R_earth"), ("Mass [Me]", "M", "M_earth"), ("Radius [Rj]", "R", "R_jup"), ("Period [days]", "P", "day"),
              ("Semi-major Axis [au]", "a", "au"), ("Impact Parameter", "b", None), ("Molecular Weight", "mmw", None),
              ("Heat Redistribution Factor", "Gamma", None), ("Transit Duration [s]", "T14", "s"), ("Radius Error - [Re]", None, None)]


def cases(seed, tier):
    return [{"s": s, "kind": KINDS[i % len(KINDS)]} for i, s in enumerate(seeds(seed, count(tier, 120, 2400), "C02"))]


def names(r, n, obs, kind="T"):
    if r.random() < 0.1:
        obs.label("numeric names")
        return [str(1000 + 7 * i) for i in range(n)]
    return ["%s%s%d%s" % (kind, r.choice(["-", "RES ", " ", "_", ""]), i, r.choice(["", " b", " A", "-c", ".01", "+2", " (AB)", "*"])) for i in range(n)]


def number(r):
    k = r.random()
    if k < 0.2:
        return r.randint(1, 9000)
    if k < 0.4:
        return float("%.5e" % (r.uniform(1, 9) * 10 ** r.randint(-8, 12)))
    return round(r.uniform(0.01, 900), r.randint(1, 9))


def check(case, obs, d):
    obs.key, obs.nontrivial = case["s"], True
    r = random.Random(case["s"])
    kind = case["kind"]
    obs.label(kind)
    if kind == "refused":
        return refused(case, obs, d, r)
    n = r.choice([1, 2, 5, 17])
    if n == 1:
        obs.label("single target")
    planets = r.random() < 0.5 or kind == "xlsx"
    obs.label("planets" if planets else "stars only")
    star, planet = [], []
    if kind == "mrs":
        sc = [MRS_STAR[0]] + r.sample(MRS_STAR[1:], r.randint(4, len(MRS_STAR) - 1))
        pc, seen = [MRS_PLANET[0]], {"name"}
        for c in r.sample(MRS_PLANET[1:], r.randint(3, len(MRS_PLANET) - 1)):
            if c[1] not in seen:
                pc.append(c)
                seen.add(c[1]) if c[1] else None
        if r.random() < 0.4:
            # headers in other cases
            case_ = r.choice([str.lower, str.upper, str.title])
            sc, pc = ([(case_(h.split("[")[0]) + ("[" + h.split("[")[1] if "[" in h else ""), k, u_)
                       for h, k, u_ in x] for x in (sc, pc))
            obs.label("headers in other cases")
        cols = [("Star " + h, "star", k, u_) for h, k, u_ in sc] + ([("Planet " + h, "planet", k, u_) for h, k, u_ in pc] if planets else [])
    else:
        keys = ["M", "Teff", "R", "D"] + (["magk"] if r.random() < 0.8 else []) + r.sample(["ra", "dec", "logg"], r.choice([0, 0, 2]))
        if kind == "xlsx":
            keys = ["M", "Teff", "R", "D", "magk"]
        r.shuffle(keys)
        cols = [("name", "star", "name", None)] + [(None, "star", k, r.choice(STAR[k])) for k in keys]
        if planets:
            pk = r.sample(list(PLANET), r.randint(2, len(PLANET)))
            if kind == "xlsx":
                pk = (list(PLANET) + ["e", "i", "mmw"])[:10]
            cols += [("name", "planet", "name", None)] + [(None, "planet", k, r.choice(PLANET.get(k, [None]))) for k in pk]
        if kind != "xlsx" and r.random() < 0.5:
            r.shuffle(cols)
        cols = [("%s %s%s" % (o, k, " [%s]" % u_ if u_ else ""), o, k, u_) for _, o, k, u_ in cols]
    if any(c[3] not in (None, "M_sun", "R_sun", "K", "pc") for c in cols):
        obs.label("other units")
    rows = []
    sn, pn = names(r, n, obs, "HD"), names(r, n, obs, "Pl")
    for i in range(n):
        rows.append([(sn[i] if o == "star" else pn[i]) if k == "name" else number(r) for _, o, k, _ in cols])
    if planets and n > 1 and r.random() < 0.5:
        # planets of the same star; now and then the same planet again
        obs.label("several planets of a star")
        for _ in range(r.choice([1, 2, n])):
            a, b = r.sample(range(n), 2)
            sn[a] = sn[b]
            if r.random() < 0.2:
                pn[a] = pn[b]
                obs.label("same planet again")
        for i in range(n):
            rows[i] = [(sn[i] if o == "star" else pn[i]) if k == "name" else x for x, (_, o, k, _) in zip(rows[i], cols)]
    blank = set()
    if kind in ("csv", "mrs") and r.random() < 0.4:
        obs.label("blank cells")
        for _ in range(r.choice([1, 1, 3])):
            i, j = r.randrange(n), r.randrange(len(cols))
            if cols[j][2] != "name":
                blank.add((i, j))
                rows[i][j] = ""
    path = write(r, kind, d, cols, rows, obs)
    import exorad.tasks as T

    before = None if kind == "qtable" else digest(path)
    tl = common.sut("loading the target list", T.LoadTargetList(), target_list=path)
    if before:
        obs.expect(digest(path) == before, "loading the target list alters it")
    ts = list(tl.target)
    if not obs.expect(len(ts) == n, "%d targets loaded out of %d" % (len(ts), n)):
        return
    for i, t in enumerate(ts):
        want = pn[i] if planets else sn[i]
        obs.expect(str(t.name) == want, "target %d is named %r, expected %r" % (i, t.name, want))
        obs.expect(t.id == i, "target %d is numbered %r" % (i, t.id))
        for j, (h, o, k, un) in enumerate(cols):
            if k is None:
                # uncertainties are no values of the star
                odd = [x for x in vars(getattr(t, o)) if "error" in x.lower()] if hasattr(t, o) else []
                obs.expect(not odd, "target %d has %s among its values" % (i, odd))
                continue
            who = getattr(t, o, None)
            if not obs.expect(who is not None and hasattr(who, k), "target %d lost its %s %s" % (i, o, k)):
                continue
            if (i, j) in blank:
                obs.expect(no_number(getattr(who, k)), "%s of target %d, left blank, is %r" % (h, i, getattr(who, k)))
                continue
            compare(obs, getattr(who, k), rows[i][j], un, "%s of target %d" % (h, i))
    if kind == "xlsx":
        for i, t in enumerate(ts):
            obs.expect(float(t.planet.Nobs) == i + 1, "target %d is to be observed %r times, expected %d" % (i, t.planet.Nobs, i + 1))
        old_list(obs, path, rows, cols, sn)
    # the list can be searched by name
    i = r.randrange(n)
    for key in (sn[i], (pn[i] if planets else sn[i]).upper(), "No such target"):
        found = common.sut("searching the target list", tl.searchTarget, key)
        comp = lambda s: s.replace(" ", "").replace("-", "").lower()  # noqa: E731
        wantf = [k for k in range(n) if comp(key) in comp(sn[k]) or (planets and comp(key) in comp(pn[k]))]
        obs.expect([ts.index(f) for f in found] == wantf, "search for %r finds targets %s, expected %s" % (key, [str(f.name) for f in found], wantf))
        obs.label("searched")
        if any(c in key for c in "+()*."):
            obs.label("searched by names with signs")
    obs.sample = {"format": kind, "columns": [c[0] for c in cols], "first": rows[0]}


def old_list(obs, path, rows, cols, sn):
    """the reader kept for older programs: stars only"""
    from exorad.models.targetlist import OldExcelTargetList

    obs.label("old reader")
    tl = common.sut("loading the target list with the old reader", OldExcelTargetList, path)
    if not obs.expect(len(tl.target) == len(rows), "%d targets loaded out of %d by the old reader" % (len(tl.target), len(rows))):
        return
    for i, t in enumerate(tl.target):
        for j, (h, o, k, un) in enumerate(cols):
            if o == "star" and obs.expect(hasattr(t.star, k), "target %d of the old reader lost its star %s" % (i, k)):
                compare(obs, getattr(t.star, k), rows[i][j], un, "%s of target %d of the old reader" % (h, i))
    comp = lambda s: s.replace(" ", "").replace("-", "").lower()  # noqa: E731
    for key in (sn[-1], sn[0].swapcase(), "no such star"):
        found = common.sut("searching the list of the old reader", tl.searchTarget, key)
        want = [k for k in range(len(sn)) if comp(key) in comp(sn[k])]
        obs.expect([tl.target.index(f) for f in found] == want, "search of the old reader for %r finds %d targets, expected %s" % (key, len(found), want))


def no_number(v):
    """what a blank cell gives is no value anybody could use"""
    if v is np.ma.masked or v is None or isinstance(v, str):
        return v is None or v is np.ma.masked or v.strip() in ("", "--")
    v = getattr(v, "value", v)
    return bool(np.all(np.ma.getmaskarray(np.ma.asarray(v)) | ~np.isfinite(np.asarray(v, float))))


def compare(obs, got, want, un, what):
    from astropy import units as u

    if isinstance(want, str):
        obs.expect(str(got) == want or (want.isdigit() and float(got) == float(want)), "%s is %r, expected %r" % (what, got, want))
        return
    if un is None:
        v = float(getattr(got, "value", got))
        obs.expect(abs(v - want) <= 1e-12 * abs(want), "%s is %r, expected %r" % (what, got, want))
        return
    try:
        v = float(u.Quantity(got).to(u.Unit(un)).value)
        ok = hasattr(got, "unit") and abs(v - want) <= 1e-12 * abs(want)
    except Exception:
        ok = False
    obs.expect(ok, "%s is %s, expected %r %s" % (what, got, want, un))


def write(r, kind, d, cols, rows, obs):
    from astropy import units as u
    from astropy.table import QTable

    if kind == "qtable":
        q = QTable()
        for j, (h, o, k, un) in enumerate(cols):
            v = [row[j] for row in rows]
            q["%s %s" % (o, k)] = v if k == "name" else np.array(v, float) * u.Unit(un or "")
        return q
    if kind == "csv":
        p = os.path.join(d, "targets.csv")
        extra = r.random() < 0.3
        with open(p, "w") as f:
            f.write(",".join([c[0] for c in cols] + (["priority"] if extra else [])) + "\n")
            for i, row in enumerate(rows):
                f.write(",".join([x if isinstance(x, str) else repr(x) for x in row] + (["%d" % i] if extra else [])) + "\n")
        if extra:
            obs.label("unrelated columns")
        return p
    if kind == "mrs":
        p = os.path.join(d, "mrs.csv")
        commas = r.random() < 0.6
        q = [j for j, c in enumerate(cols) if c[2] != "name" and r.random() < 0.5]
        with open(p, "w") as f:
            f.write(",".join(c[0] for c in cols) + "\n")
            for row in rows:
                out = []
                for j, x in enumerate(row):
                    s = x if isinstance(x, str) else repr(x)
                    if commas and j in q and "." in s and r.random() < 0.8:
                        s = '"%s"' % s.replace(".", ",")
                        obs.label("decimal commas")
                    out.append(s)
                f.write(",".join(out) + "\n")
        return p
    cells = {(0, 0): "targets"}
    pos = {"star": 1, "planet": 8}
    for j, (h, o, k, un) in enumerate(cols):
        c = pos[o]
        pos[o] += 1
        cells[(2, c)] = "Star" if k == "name" and r.random() < 0.5 else k
        cells[(3, c)] = "[%s]" % un if un else ""
        for i, row in enumerate(rows):
            cells[(4 + i, c)] = row[j]
    cells[(2, 20)] = "Nobs"
    for i in range(len(rows)):
        cells[(4 + i, 20)] = i + 1
    p = os.path.join(d, "targets.xlsx")
    xlsx.write(p, {"Notes": {(0, 0): "nothing"}, "Sheet1": cells})
    return p


def unreadable_planets(obs, d, r):
    """a list is not stripped of the planets it describes because something in them cannot be read"""
    import exorad.tasks as T
    from astropy import units as u
    from astropy.table import QTable

    star = [("star name", ["a", "b"]), ("star M [M_sun]", [1.0, 2.5]), ("star R [R_sun]", [0.5, 1.5])]
    pl = [("planet name", ["a b", "b c"]), ("planet M [M_jup]", [0.7, 3.0]), ("planet R [R_jup]", [1.0, 0.2])]
    kind = r.choice(["csv", "mrs", "qtable"])
    what = r.choice(["unit", "text"]) if kind != "qtable" else "no name"
    obs.label("planets that cannot be read", "%s with bad planets" % kind)
    if kind == "qtable":
        arg = QTable()
        for k, v in star + pl[1:]:
            n, _, un = k.partition(" [")
            arg[n] = np.array(v) * u.Unit(un.rstrip("]")) if un else v
    else:
        j = r.choice([1, 2])
        h, v = pl[j]
        if what == "unit":
            pl[j] = (h[:h.index("[")] + "[florps]", v)
        else:
            pl[j] = (h, [v[0], "rubbish"])
        arg = os.path.join(d, "planets.csv")
        ren = {"star name": "Star Name", "star M [M_sun]": "Star Mass [Ms]", "star R [R_sun]": "Star Radius [Rs]", "planet name": "Planet Name",
               "planet M [M_jup]": "Planet Mass [Me]", "planet R [R_jup]": "Planet Radius [Re]", "planet M [florps]": "Planet Mass [florps]",
               "planet R [florps]": "Planet Radius [florps]"}
        cols = star + pl
        r.shuffle(cols)
        with open(arg, "w") as f:
            f.write(",".join(ren[c[0]] if kind == "mrs" else c[0] for c in cols) + "\n")
            for i in range(2):
                f.write(",".join(str(c[1][i]) for c in cols) + "\n")
    try:
        tl = T.LoadTargetList()(target_list=arg)
    except Exception:
        obs.expect(True, "")
        return
    obs.expect(False, "a %s list of targets with planets is loaded as %s though they cannot be read (%s)" % (
        kind, [(str(t.name), sorted(k for k in vars(t) if not k.startswith("_"))) for t in tl.target], what))


def refused(case, obs, d, r):
    """what is no target list is refused rather than loaded as something else"""
    import exorad.tasks as T
    from astropy.table import QTable, Table

    if case["s"] // 4 % 2:
        from exorad.models.targetlist import OldExcelTargetList

        obs.label("old reader refuses")
        f = os.path.join(d, r.choice(["a.csv", "a.xls", "a", "a.xlsx.bak"]))
        open(f, "w").write("star name,star M [M_sun]\na,1\n")
        try:
            OldExcelTargetList(f)
            obs.expect(False, "the old reader accepts %s" % os.path.basename(f))
        except OSError:
            obs.expect(True, "")
    unreadable_planets(obs, d, r)
    what = ["extension", "missing", "no units", "no extension"][case["s"] % 4]
    if what == "no units":
        t = QTable() if r.random() < 0.5 else Table()
        t["star name"] = ["a", "b"]
        t["star M"] = [1.0, 2.0]
        arg, err = t, TypeError
    elif what == "missing":
        arg, err = os.path.join(d, "nowhere.csv"), OSError
    else:
        arg, err = os.path.join(d, "targets" + ("" if what == "no extension" else r.choice([".txt", ".xml", ".h5", ".CSVX"]))), OSError
        with open(arg, "w") as f:
            f.write("star name,star M [M_sun]\na,1\n")
    try:
        tl = T.LoadTargetList()(target_list=arg)
        obs.expect(False, "an unusable target list (%s) is accepted" % what, targets=len(tl.target))
    except err:
        obs.expect(True, "")
    except Exception as e:
        obs.expect(False, "an unusable target list (%s) raises %s instead of %s" % (what, type(e).__name__, err.__name__))
