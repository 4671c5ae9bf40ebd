"""Writes DESIGN.md from DESIGN.in.md, the property table, the checks and the record of the planted bugs."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def props():
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    out = ["## Properties and how each is decided", ""]
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("rv.checks." + p["id"].lower())
        n = [len(list(m.cases(1, t))) for t in ("quick", "thorough")]
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
                "- technique: %s (%s)" % (man[p["id"]]["technique"], man[p["id"]]["level"]),
                "- quantified over: %s" % p["quantifier"]["text"],
                "- why the tests cannot settle it: %s" % p["why_tests_cant"],
                "- workload: %d cases quick, %d thorough, drawn from `VERIF_SEED`; %s" % (n[0], n[1], m.RULE),
                "- inconclusive unless these were observed: %s" % ", ".join(m.REQUIRED)]
        if m.ASSUMPTIONS:
            out.append("- assumes: %s" % "; ".join(m.ASSUMPTIONS))
        out.append("")
    return "\n".join(out)


def seeded():
    out = ["## Planted bugs", "",
           "Each `seeded/<id>` holds a patch, a demonstration that fails with it and passes without, and what it needs to manifest. "
           "The table shows which quick checks raised a violation with the patch applied (`tools/plant.py`).", "",
           "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    rp = os.path.join(HERE, "tools", "planted.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
        out.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(res.get(i, ["not run"])) or "none"))
    return "\n".join(out) + "\n"


s = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
s = s.replace("@@PROPS@@", props()).replace("@@SEEDED@@", seeded())
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
