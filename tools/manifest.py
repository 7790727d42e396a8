"""Writes properties.jsonl and MANIFEST.json from specs/properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, "specs")]
import properties as P

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P.PROPERTIES:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")

checks, na = [], []
for p in P.PROPERTIES:
    if "not_applicable" in p:
        na.append(dict(property=p["id"], reason=p["not_applicable"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique="contracts on the functions of /repo, extracted on every run (clang) and discharged by Verus/Z3",
                       level="proof", level_note=p["level_note"], **({"theorems": p["theorems"]} if "theorems" in p else {})))
json.dump(dict(version=1, setup_cmd="bash setup.sh",
               hooks=dict(guard=P.GUARD, enable=P.ENABLE, source_commits=P.SOURCE_COMMITS),
               checks=checks, not_applicable=na, notes=P.NOTES),
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
