import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = json.load(open("/verif/tools/na.json"))
NOTE = json.load(open("/verif/tools/notes.json"))
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --tier thorough",
                   "technique": "contract-based deductive verification of the C source (symbolic execution of clang's AST, loop invariants, z3/cvc5)",
                   "level": "proof", "level_note": NOTE.get(i, NOTE["*"])})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy' && which clang gcc",
     "hooks": {"guard": "BML_VERIF", "enable": "none needed: the checks read and compile /repo's sources unmodified; no hook was added", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "see DESIGN.md; known_findings.json lists genuine defects and repairs"}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", list(NA))
