"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results of seedrun.py."""
import json, os, sys, re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    r = json.loads(l)
    res.setdefault(r["id"], {}).update({c: v[0] for c, v in r.get("checks", {}).items()})
rows = {}
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % i))
    rows.setdefault(m["property"], []).append(i if res.get(i, {}).get(m["property"]) == 1 else i + " (MISSED)")
t = "<!-- seeded -->\n| check | planted bugs it catches |\n| --- | --- |\n" + "".join("| %s | %s |\n" % (p, ", ".join(rows[p])) for p in sorted(rows)) + "<!-- /seeded -->"
p = here + "/DESIGN.md"
s = open(p).read()
s = s.replace("@SEEDED@", t) if "@SEEDED@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
print(sum(map(len, rows.values())), t.count("MISSED"))
