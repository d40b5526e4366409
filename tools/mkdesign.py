#!/usr/bin/env python3-vt
"""fills the generated tables of DESIGN.md: contracts per property, planted bugs"""
import os, sys, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("VERIF_WORK", os.path.join(H, "work"))
sys.path[:0] = [os.path.join(H, d) for d in ("engine", "concrete", "specs")]
os.chdir(os.path.join(H, "engine"))
import verify, specs_all, harness
rows = []
for n in range(1, 27):
    p = "C%02d" % n
    cs = {c: d for c, d in verify.REG.items() if p in d.props}
    cross = [c for c, d in verify.REG.items() if p in d.cross]
    if p in ("C16", "C17", "C20", "C21"):
        rows.append(f"* **{p}**: cross-cutting, {len(cs) + len(cross)} contracts")
        continue
    if p == "C01":
        rows.append(f"* **{p}**: {len(cs)} dispatch contracts (`specs/s_dispatch.py`)")
        continue
    if not cs:
        continue
    by = {}
    for c in cs:
        st = c.split("#")[0]
        m = re.match(r"(.*)_(dense|ellpack|csr|ellblock)$", st)
        by.setdefault(m.group(2) if m else "common", []).append((m.group(1) if m else st).replace("bml_", ""))
    s = f"* **{p}**: " + "; ".join(f"{f}: " + ", ".join(sorted(set(x))) for f, x in sorted(by.items()))
    rows.append(s + ".  Bounded as well: " + ", ".join(o for o, d in harness.OPS.items() if p in d["props"]))
t = open(os.path.join(H, "DESIGN.md")).read()
t = re.sub(r"(<!-- generated by tools/mkdesign.py -->\n).*?(<!-- end generated -->)", lambda m: m.group(1) + "\n### Functions under contract\n\n" + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
s = ["", "| id | what it breaks | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    s.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} |")
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- end seeds -->)", lambda m: m.group(1) + "\n".join(s) + "\n\n" + m.group(2), t, flags=re.S)
open(os.path.join(H, "DESIGN.md"), "w").write(t)
