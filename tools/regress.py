#!/usr/bin/env python3-vt
"""regress.py [-p PREC,..] [-t SECONDS] [PATTERN]: verify every registered contract instance in parallel (development aid)."""
import os, sys, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("VERIF_WORK", "/tmp/verif_work")
sys.path.insert(0, V)
import check, verify, specs_all, multiprocessing as mp
import getopt
opts, rest = getopt.getopt(sys.argv[1:], "p:t:")
o = dict(opts)
precs = o["-p"].split(",") if "-p" in o else None
lim = int(o.get("-t", 100))
pat = rest[0] if rest else ".*"
tasks = [(c, p, None, lim) for c, d in verify.REG.items() if re.search(pat, c) for p in d.precs if not precs or p is None or p in precs]
tasks.sort(key=lambda t: (str(t[1]), t[0]))
t0 = time.time(); bad = 0; nob = 0
if True:
    for r in check.run_tasks(tasks):
        f = [x for x in r["obligations"] if x["status"] != "proved"]
        nob += len(r["obligations"])
        if r["status"] != "ok" or f:
            bad += 1
            print(r["contract"], r["prec"], r["status"], str(r["reason"])[:150], f"{len(f)}/{len(r['obligations'])}", "%.0fs" % r.get("wall_s", 0))
            for x in f[:6]:
                print("     ", x["kind"], str(x["label"])[:120], x["line"], x["status"])
        sys.stdout.flush()
print(len(tasks), "instances", bad, "not proved", nob, "obligations", "%.0fs" % (time.time() - t0))
