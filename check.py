#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   or   check.py --replay FILE

Deciding step: every contract registered in specs/ whose property list contains PROPERTY is verified against the C
source currently in /repo (clang's typed AST of the preprocessed translation unit is executed symbolically, loops by
generated or given invariants, obligations discharged by z3 with cvc5 as second back end).  Parts of the property
that are not under contract, or whose contract is undecided on this tree, are covered by a bounded run of the real
library, labelled bounded and never counted as proved.
"""
import os, sys, json, time, hashlib, signal, argparse, random, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.environ.get("VERIF_WORK") or os.path.join(HERE, "work")
os.environ["VERIF_WORK"] = WORK
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "concrete"), os.path.join(HERE, "specs")]
os.chdir(os.path.join(HERE, "engine"))

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
LIMIT = {"quick": 100, "thorough": 600}      # seconds for one function instance


# ------------------------------------------------------------------------------------------------ proofs
class Tmo(Exception):
    pass


def _alarm(*_):
    raise Tmo()


def _prove(a):
    cid, prec, props, limit = a
    import verify
    # the limit is processor time, so that a loaded machine does not change the outcome
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(int(4 * limit))
    try:
        r = verify.run_contract(cid, prec, props=props)
    except Tmo:
        r = dict(contract=cid, prec=prec, function=cid + "_" + str(prec), obligations=[], status="undecided", reason="time limit",
                 inlined=[], models=[], notes=[])
    except Exception as x:
        r = dict(contract=cid, prec=prec, function=cid + "_" + str(prec), obligations=[], status="undecided",
                 reason="engine: " + repr(x)[:200], inlined=[], models=[], notes=[])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    r.pop("_v", None)
    return r


def contracts_of(prop):
    import verify, specs_all
    out = []
    for cid, d in verify.REG.items():
        if prop in d.props or prop in d.cross:
            for p in d.precs:
                out.append((cid, p))
    return out


def hash_(x):
    return hashlib.sha1(x.encode()).hexdigest()


def _chunk(ts):
    return [_prove(t) for t in ts]


def run_tasks(tasks, jobs=JOBS, chunk=2):
    """every task in a worker process; a worker that is ended (memory) does not take the others' results along"""
    import concurrent.futures as cf
    todo = [tasks[i:i + chunk] for i in range(0, len(tasks), chunk)]
    res = []
    for n in (jobs, 3, 1):
        if not todo:
            break
        left = []
        with cf.ProcessPoolExecutor(min(n, len(todo)), mp_context=mp.get_context("fork")) as pool:
            fs = [(pool.submit(_chunk, c), c) for c in todo]
            for f, c in fs:
                try:
                    res += f.result()
                except Exception:       # BrokenProcessPool: the worker was ended
                    left.append(c)
        todo = left
    for c in todo:
        for cid, prec, _, _ in c:
            res.append(dict(contract=cid, prec=prec, function=cid + "_" + str(prec), obligations=[], status="undecided",
                            reason="worker ended", inlined=[], models=[], notes=[]))
    return res


def baseline():
    """the instances that are proved on the committed tree: written by tools/baseline.py, never by a check"""
    p = os.path.join(HERE, "baseline.json")
    return {tuple(x) for x in json.load(open(p))} if os.path.exists(p) else set()


def open_(r):
    return r["status"] != "ok" or any(o["status"] not in ("proved", "sat") for o in r["obligations"]) and not any(o["status"] == "sat" for o in r["obligations"])


def prove(prop, tier):
    tasks = contracts_of(prop)
    if not tasks:
        return []
    import verify
    # instances of one translation unit go to one worker one after another, so its AST is parsed once
    def key(t):
        return (verify.REG[t[0]].stem.rsplit("_", 1)[-1], str(t[1]), verify.REG[t[0]].stem)
    tasks.sort(key=key)
    if prop == "C01":
        tasks.sort(key=lambda t: hash_(t[0]))
    res = run_tasks([(c, p, [prop], LIMIT[tier]) for c, p in tasks])
    res.sort(key=lambda r: (r["contract"], str(r["prec"])))
    return res


# ------------------------------------------------------------------------------------------------ bounded runs
CROSS = ("C16", "C17", "C20", "C21")


def ops_of(prop):
    import harness
    if prop in CROSS:
        return list(harness.OPS)
    return [o for o, d in harness.OPS.items() if prop in d["props"]]


def bounded(prop, per, seed, ops=None, fmts=None):
    import harness
    ops = ops or ops_of(prop)
    if not ops:
        return None
    r = harness.run(ops, seed, per, fmts=fmts, jobs=JOBS)
    r["mine"] = [f for f in r["fails"] if prop in f["props"]]
    r["other"] = [f for f in r["fails"] if prop not in f["props"]]
    r["ops"] = ops
    return r


def save_replay(prop, kind, body):
    body = dict(property=prop, kind=kind, **body)
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(HERE, "replay", f"{prop}-{kind}-{h}.json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    json.dump(body, open(p, "w"), indent=1, default=str)
    return p


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def is_known(f, prop, ks):
    for k in ks["findings"]:
        if k["property"] == prop and k.get("op") == f["op"] and k.get("fmt") in (None, f["fmt"]) and k.get("signature", "") in f["msg"] \
                and f["prec"] in k.get("precs", [f["prec"]]):
            return k
    return None


def replay(path):
    b = json.load(open(path))
    print(json.dumps({k: v for k, v in b.items() if k != "solver_output"}, indent=1)[:4000])
    if b["kind"] == "obligation":
        print("obligation replay: re-verifying", b["function"])
        r = _prove((b["contract"], b["prec"], None, 300))
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        for o in bad:
            print("FAILED", o["kind"], o["label"], "line", o["line"], o["status"])
        return 1 if bad else 0
    import harness, build
    so = build.build()
    f = b["case"]
    n, s, fails = harness.run_group(so, (f["fmt"], tuple(map(_tup, f["layout"])) if f["layout"] else None), [(f["op"], f["prec"], f["seed"])])
    for x in fails:
        print("REPRODUCED:", x["props"], x["msg"])
        for l in x["log"]:
            print("   ", l)
    return 1 if fails else 0


def _tup(x):
    return tuple(x) if isinstance(x, list) else x


# ------------------------------------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(os.path.abspath(a.replay))
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ks = known()
    import build
    try:
        build.build()
    except RuntimeError as x:
        print("cannot build the library from the current tree:", str(x)[:800])
        return 3
    t1 = time.time()
    proofs = prove(prop, tier)
    t2 = time.time()
    ops = ops_of(prop)
    per = max(16, min(400, 16000 // (16 * max(1, len(ops)))))
    if tier == "thorough":
        per *= 40
    tb = time.time()
    b = bounded(prop, per, seed)
    tb = time.time() - tb
    viol = []
    # ---- bounded runs
    found_known = {}
    if b:
        for f in b["mine"]:
            k = is_known(f, prop, ks)
            if k:
                found_known[k["id"]] = k
                continue
            viol.append(("case", f))
    # ---- obligations
    # an instance that is proved on the committed tree and is not now is tried again with more resources; what stays open
    # then is a failed proof
    base = baseline()
    retry = [r for r in proofs if (r["contract"], str(r["prec"])) in base and open_(r) and "not found in the sources" not in r["reason"]]
    if retry and time.time() - t0 < 500:
        import solver
        solver.RL *= 3
        again = run_tasks([(r["contract"], r["prec"], [prop], LIMIT[tier] * 1.5) for r in retry[:8]], jobs=min(JOBS, 4), chunk=1)
        solver.RL //= 3
        for r in again:
            k = next(i for i, x in enumerate(proofs) if (x["contract"], x["prec"]) == (r["contract"], r["prec"]))
            proofs[k] = r
    t2 = time.time()
    failed, undecided = [], []
    nob = nproved = 0
    back = {}
    for r in proofs:
        for o in r["obligations"]:
            nob += 1
            if o["status"] == "proved":
                nproved += 1
                back[o["by"] or "simplifier"] = back.get(o["by"] or "simplifier", 0) + 1
        bad = [o for o in r["obligations"] if o["status"] == "sat"]
        unk = [o for o in r["obligations"] if o["status"] not in ("sat", "proved")]
        based = (r["contract"], str(r["prec"])) in base and "not found in the sources" not in r["reason"]
        if r["status"] == "ok" and bad:
            failed.append((r, bad))
        elif r["status"] != "ok" or unk:
            reason = r["reason"] if r["status"] != "ok" else "solver gave no answer on: " + "; ".join(o["label"] for o in unk[:4])
            if based and reason != "worker ended":
                failed.append((r, unk or [dict(kind="loop or statement rule", label=reason[:300], line="?", status="not discharged")]))
            else:
                undecided.append(dict(r, reason=reason))
    extra = 0
    if (failed or undecided) and not viol:
        # look for a failing input of the real code behind the failed or undecided obligations
        n = 4 if failed else 2
        for k in range(n):
            fm = {r["function"].replace("_" + str(r["prec"]), "").rsplit("_", 1)[-1] for r in [x[0] for x in failed] + undecided}
            fm = [x for x in fm if x in ("dense", "ellpack", "ellblock", "csr")] or None
            if prop == "C01":
                # a wrong dispatch shows as a wrong result of that operation, whichever property describes the result
                import harness
                bad_ops = [o for o in harness.OPS if any(r["function"] == "bml_" + o for r in [x[0] for x in failed] + undecided)]
                bb = bounded(prop, 60, seed * 1000 + 17 + k, ops=bad_ops) if bad_ops else None
                if bb:
                    bb["mine"] = bb["fails"]
            else:
                bb = bounded(prop, per * 2, seed * 1000 + 17 + k, fmts=fm)
            if not bb:
                break
            extra += bb["cases"]
            new = [f for f in bb["mine"] if not is_known(f, prop, ks)]
            if new:
                viol += [("case", f) for f in new]
                break
    t3 = time.time()
    # ---- report
    nv = 0
    lines = []
    if viol:
        seen = set()
        for _, f in viol:
            k = (f["op"], f["fmt"], f["msg"][:40])
            if k in seen:
                continue
            seen.add(k)
            ob = [dict(function=r["function"], failed=[f"{o['kind']}: {o['label']} (line {o['line']})" for o in bad]) for r, bad in failed
                  if r["function"].rsplit("_" + str(r["prec"]), 1)[0].endswith(f["fmt"])]
            p = save_replay(prop, "case", dict(case=f, failed_obligations=ob, how="./check.py --replay FILE"))
            nv += 1
            lines.append(f"VIOLATION property={prop} replay={p}")
            print(f"  {f['op']}/{f['fmt']}/{f['prec']}: {f['msg'][:300]}")
            if nv >= 8:
                break
    elif failed:
        for r, bad in failed[:8]:
            p = save_replay(prop, "obligation", dict(contract=r["contract"], prec=r["prec"], function=r["function"],
                            obligations=[{k: v for k, v in o.items()} for o in bad],
                            solver_output={f"{o['kind']}: {o['label']}": "satisfiable: the negated obligation has a model (z3), cvc5 did not refute it" if o["status"] == "sat"
                                           else "neither z3 nor cvc5 discharged it (it is discharged on the committed tree)" for o in bad},
                            searched_cases=extra))
            nv += 1
            print(f"  {r['function']}: " + "; ".join(f"[{o['kind']}] {o['label']} (line {o['line']})" for o in bad[:3]))
            lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    for k in ks["findings"]:
        if k["property"] == prop and (k["id"] in found_known):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for r in undecided:
        print(f"  undecided (bounded stand-in only): {r['function']}: {r['reason'][:160]}")
    print(f"{prop}: {len(proofs)} function instances, {nproved}/{nob} obligations proved, {len(undecided)} undecided; "
          f"bounded: {(b or {}).get('cases', 0) + extra} cases; {time.time() - t0:.1f} s "
          f"(build {t1 - t0:.1f}, proofs {t2 - t1 - tb:.1f}, bounded {t3 - t2 + tb:.1f})")
    evidence(prop, tier, seed, proofs, failed, undecided, nob, nproved, back, b, extra, per, nv, found_known, t0, t2 - t1 - tb)
    for l in lines:
        print(l)
    return 1 if lines else 0


TRUSTED = [
    "engine/ (symbolic executor, loop rules, obligation generator) and the z3 4.x/cvc5 solvers",
    "clang 18's typed AST of the preprocessed source as the meaning of the C text",
    "models of C library, BLAS/LAPACK and OpenMP runtime calls (engine/models.py)",
]
ASSUME = [
    "floating-point arithmetic is treated as exact real (complex) arithmetic; rounding, overflow, NaN and infinities are out of scope "
    "(conversions of double scalar arguments to float are tracked by an uninterpreted rounding function)",
    "machine integers are treated as mathematical integers (matrix sizes far below 2^31; size_t products do not wrap)",
    "the configuration of /opt/vp/build.sh: no MPI (one rank), no GPU, OpenMP on, internal BLAS",
    "malloc/calloc/realloc succeed",
]


def evidence(prop, tier, seed, proofs, failed, undecided, nob, nproved, back, b, extra, per, nv, fk, t0, solver_wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {
        "obligations": nob, "discharged": nproved,
        "checker_cmd": f"./check.py {prop} --tier {tier}",
        "trusted_base": TRUSTED + sorted({"model: " + m for r in proofs for m in r.get("models", [])}),
        "functions_under_contract": sorted({r["function"] for r in proofs}),
        "function_instances": len(proofs),
        "function_instances_undecided": [f"{r['function']}: {r['reason'][:200]}" for r in undecided],
        "function_instances_failed": [r["function"] for r, _ in failed],
        "inlined_callees": sorted({f for r in proofs for f in r.get("inlined", [])}),
        "back_ends": back,
        "solver_seconds": round(sum(r.get("solver_s", 0) for r in proofs), 1),
        "proof_wall_seconds": round(solver_wall, 1),
        "obligation_samples": [f"{r['function']}: [{o['kind']}] {o['label']} -> {o['status']} ({o['by']})"
                               for r in proofs[::max(1, len(proofs) // 6)] for o in r["obligations"][:2]][:14],
        "engine_notes": sorted({n for r in proofs for n in r.get("notes", [])})[:40],
    }
    ev = 0
    if b:
        ev = b["cases"] + extra
        cov["bounded"] = {
            "label": "bounded, not counted as proved",
            "operations": b["ops"], "cases": ev, "skipped": b["skipped"],
            "bound": f"N <= 22 and a few cases with N up to 90, {per} seeded cases per operation, format layout and precision; thread counts 1,2,3,8 under simulated schedules; "
                     "uninitialised memory filled with patterns; every access checked against live blocks",
            "failures_of_other_properties_seen": sorted({f"{f['op']}/{f['fmt']}: {f['props']}" for f in b["other"]})[:20],
        }
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = ev
        cov["rule"] = "seeded random small matrices per (operation, format, precision); a case is skipped when the inputs do not fit the capacity"
        cov["samples"] = [dict(op=o, seed=seed * 100003) for o in b["ops"][:5]]
    level = "proof" if proofs else "exploration"
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": ASSUME + ([] if proofs else ["bounded only: no contract of this property is discharged"]),
               "wall_s": round(time.time() - t0, 2), "violations": nv,
               "known_findings_seen": sorted(fk)}, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
