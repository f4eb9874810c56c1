"""Fills the tables of DESIGN.md (kept between markers) from checks.py, properties.jsonl and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
rows = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    c = CHECKS.get(p["id"])
    rows.append("**%s %s.** " % (p["id"], p["title"]) + (
        "Entries: %s. Bounds: %s. Outside: %s." % (", ".join("`%s`" % e["entry"] for e in c["entries"]), c["bounds"], c.get("outside", "")) +
        (" Oracle/assumptions: %s." % "; ".join(c["assumptions"]) if c.get("assumptions") else "") if c else "No check yet.") + "\n")
bt = "<!-- properties -->\n" + "\n".join(rows) + "<!-- /properties -->"
seed = ["<!-- seeded -->", "| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
res = {}
rp = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = os.path.join(V, "seeded", n, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        seed.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], ", ".join(res.get(n, [])) or "-"))
st = "\n".join(seed) + "\n<!-- /seeded -->"
s = s.replace("BOUNDS_TABLE", "<!-- properties --><!-- /properties -->").replace("SEEDED_TABLE", "<!-- seeded --><!-- /seeded -->")
s = re.sub(r"<!-- properties -->.*?<!-- /properties -->", lambda _: bt, s, flags=re.S)
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: st, s, flags=re.S)
open(d, "w").write(s)
