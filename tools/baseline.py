#!/usr/bin/env python3-vt
"""baseline.py: write baseline.json, the contract instances whose obligations are all discharged on the committed tree.
check.py reports an instance of this list that is no longer discharged (after a second attempt) as a failed proof."""
import os, sys, re, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("VERIF_WORK", "/tmp/verif_work")
sys.path.insert(0, V)
import check, verify, specs_all
only = sys.argv[1] if len(sys.argv) > 1 else None        # a regular expression: redo only these contracts
tasks = [(c, p, None, 100) for c, d in verify.REG.items() for p in d.precs if only is None or re.fullmatch(only, c)]
tasks.sort(key=lambda t: (verify.REG[t[0]].stem.rsplit("_", 1)[-1], str(t[1]), t[0]))
res = check.run_tasks(tasks)
ok = sorted([r["contract"], str(r["prec"])] for r in res if r["status"] == "ok" and all(o["status"] == "proved" for o in r["obligations"]))
if only is not None:
    ok = sorted([x for x in json.load(open(os.path.join(V, "baseline.json"))) if not re.fullmatch(only, x[0])] + ok)
json.dump(ok, open(os.path.join(V, "baseline.json"), "w"), indent=0, ensure_ascii=False)
print(len(ok), "instances in the baseline,", len(tasks), "tried")
for r in res:
    if [r["contract"], str(r["prec"])] not in ok:
        print("  open:", r["contract"], r["prec"], r["reason"][:150], [o["label"] for o in r["obligations"] if o["status"] != "proved"][:3])
