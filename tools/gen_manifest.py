import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.checks import CHECKS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
chs = []
for p in props:
    if p in NA: continue
    C = CHECKS[p]
    tech = ("contract-based deductive verification of the code in /repo (VCs generated from its LLVM IR on every run, discharged by z3/cvc5); bounded replay of the real library behind it" if C["parts"]
            else "bounded stand-in (generated calls of the real library, oracle from the contract); no obligation discharged for it yet")
    note = C["note"] or ("Obligations of parts %s; a bounded replay battery on the real library searches for failing inputs and covers what the parts do not reach." % ", ".join(C["parts"]) if C["parts"] else "Bounded: nothing beyond the generated cases.")
    chs.append(dict(property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % p, evidence_file="evidence/%s.json" % p, technique=tech, level=C["level"], level_note=note))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=chs, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks: /repo carries only fix: commits. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
