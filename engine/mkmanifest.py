"""regenerate MANIFEST.json from specs/*.py"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H
from check import load_spec
ids = [json.loads(l)["id"] for l in open(os.path.join(H.VERIF, "properties.jsonl")) if l.strip()]
na = {}
p = os.path.join(H.VERIF, "not_applicable.json")
if os.path.exists(p): na = json.load(open(p))
checks = []; nap = []
for i in ids:
    sp = os.path.join(H.VERIF, "specs", i.lower() + ".py")
    if os.path.exists(sp) and i not in na:
        S = load_spec(i)
        checks.append(dict(property=i, quick_cmd="python3-vt engine/main.py %s quick" % i, thorough_cmd="python3-vt engine/main.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=getattr(S, "TECHNIQUE", "contract-based deductive verification of the compiled IR of the real headers (ownership/atomic-protocol contracts, inferred loop invariants, z3)"), level=getattr(S, "LEVEL", "proof"), level_note=S.NOTE))
    else: nap.append(dict(property=i, reason=na.get(i, "no check yet: contracts for this part are still being written")))
json.dump(dict(version=1, setup_cmd="bash engine/setup.sh", checks=checks, not_applicable=nap), open(os.path.join(H.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(nap), "not")
