"""Writes specs/baseline.json: the names the contracts refer to (run on the tree the contracts were written for)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "specs")]
import verify
from cxx2verus import Dump

tus = set()
for f in sorted(os.listdir(os.path.join(verify.VERIF, "specs"))):
    if f.startswith("C") and f.endswith(".py"):
        m = importlib.import_module(f[:-3])
        for u in getattr(m, "UNITS", [getattr(m, "UNIT", {})]):
            tus.update(u.get("tus", ()))
recs, fns = {}, {}
for t in sorted(tus):
    b = Dump([verify.dump_tu(verify.REPO, t)]).baseline()
    recs.update(b["records"])
    for k, v in b["functions"].items():
        for x in v:
            if x not in fns.setdefault(k, []):
                fns[k].append(x)
json.dump(dict(records=dict(sorted(recs.items())), functions=dict(sorted(fns.items()))),
          open(os.path.join(verify.VERIF, "specs", "baseline.json"), "w"), indent=0)
