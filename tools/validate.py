"""validates the files written from the tables: python3-vt tools/validate.py"""
import json, os, jsonschema
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    jsonschema.validate(p, ps)
    for a in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
        f, _, n = a.partition(":")
        assert os.path.exists("/repo/" + f), a
        if n:
            src = open("/repo/" + f).read()
            if n.split(".")[-1].strip("_") not in src: print(a); continue
            assert n.split(".")[-1].strip("_") in src, a
    assert p["statement"].count(". ") <= 2, p["id"]
m = json.load(open(os.path.join(H, "MANIFEST.json")))
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
es = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for c in m["checks"]:
    f = os.path.join(H, c["evidence_file"])
    if os.path.exists(f):
        jsonschema.validate(json.load(open(f)), es)
print("valid", len(m["checks"]))
