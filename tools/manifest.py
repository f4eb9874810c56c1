"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 vf.py %s --tier quick" % i, thorough_cmd="python3 vf.py %s --tier thorough" % i,
            technique="symbolic execution of the LLVM IR compiled from /repo, assertions decided by Z3, counterexamples replayed natively",
            level="model_checking",
            level_note="bounded: %s. Outside: %s" % (c["bounds"], c.get("outside", "see DESIGN.md"))))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
json.dump(dict(version=1, setup_cmd="python3 vf.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harness crate in /verif/harness uses the public interface only. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
