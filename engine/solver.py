"""Discharge of obligations: z3 (API), with cvc5 as second back end through SMT-LIB."""
import z3, time, subprocess, tempfile, os
from terms import *
import terms, memory

RL = int(os.environ.get("VERIF_RLIMIT", "30000000"))
TMO = int(os.environ.get("VERIF_TIMEOUT_MS", "60000"))


def match(p, t, sub):
    """syntactic match of a pattern with de Bruijn variables"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in sub:
            return sub[i].eq(t)
        if p.sort() != t.sort():
            return False
        sub[i] = t
        return True
    if p.eq(t):
        return True
    return z3.is_app(p) and z3.is_app(t) and p.num_args() > 0 and p.decl().eq(t.decl()) and \
        all(match(a, b, sub) for a, b in zip(p.children(), t.children()))


def var_indices(t, out):
    if z3.is_var(t):
        out.add(z3.get_var_index(t))
    elif z3.is_app(t):
        for c in t.children():
            var_indices(c, out)
    return out


def sum_instances(ts, goal):
    """quantified facts about sums, instantiated at the terms of the goal (the sums of such a fact are not ground, so the
    extensionality instances would never see them)"""
    out = []
    gapps = [t for t in collect_apps([goal], lambda x: x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) if not has_var(t)]
    heads = {t.decl().name() for t in gapps}
    for f in ts:
        if not z3.is_quantifier(f) or not f.is_forall():
            continue
        body = f.body()
        if not collect_apps([body], lambda x: OPS.tab[x.decl().name()][0] == "Σ", OPS.tab):
            continue
        n = f.num_vars()
        pats = [t for t in collect_apps([body], lambda x: x.num_args() > 0, heads) if len(var_indices(t, set())) == n]
        done = set()
        for p in pats:
            for t in gapps:
                sub = {}
                if p.decl().eq(t.decl()) and match(p, t, sub) and len(sub) == n:
                    inst = z3.substitute_vars(body, *[sub[i] for i in range(n)])
                    if inst.get_id() not in done and len(done) < 6:
                        done.add(inst.get_id())
                        out.append(inst)
    return out


_thy = {}        # (term id, light) -> (term, axioms)
_pair = {}       # pairs of sums -> (terms kept alive, instances, nested pairs)


def reset():
    _thy.clear()
    _pair.clear()


def axioms_of(t, light):
    ky = (t.get_id(), light)
    r = _thy.get(ky)
    if r is not None:
        return r[1]
    new = []
    if not has_var(t):
        f = t.decl()
        if f.eq(terms._rmul):
            x, y = t.children()
            new += [z3.Implies(x == 0, t == 0), z3.Implies(y == 0, t == 0), z3.Implies(x == 1, t == y),
                    z3.Implies(y == 1, t == x), t == terms._rmul(y, x)]
            if not light:
                if x.eq(y):
                    new.append(t >= 0)
                new += [z3.Implies(z3.And(x >= 0, y >= 0), t >= 0), z3.Implies(x == -1, t == -y), z3.Implies(y == -1, t == -x)]
                if z3.is_app(x) and x.decl().eq(terms._rinv) and x.arg(0).eq(y):
                    new.append(z3.Implies(y != 0, t == 1))
                if z3.is_app(y) and y.decl().eq(terms._rinv) and y.arg(0).eq(x):
                    new.append(z3.Implies(x != 0, t == 1))
        elif f.eq(terms._cabs):
            new += [t >= 0, (t == 0) == z3.And(t.arg(0) == 0, t.arg(1) == 0),
                    z3.Implies(t.arg(1) == 0, t == z3.If(t.arg(0) >= 0, t.arg(0), -t.arg(0)))]
        elif f.eq(terms._sqrt):
            new += [t >= 0, z3.Implies(t.arg(0) == 0, t == 0)]
        else:
            v = t.arg(0)
            new += [z3.Implies(v >= 0, z3.And(z3.ToReal(t) <= v, v < z3.ToReal(t) + 1)),
                    z3.Implies(v <= 0, z3.And(z3.ToReal(t) >= v, v > z3.ToReal(t) - 1))]
    _thy[ky] = (t, new)
    return new


THEORY = {getattr(terms, n).name() for n in ("_rmul", "_cabs", "_sqrt", "_trunc")}


def theory(ts, done, light=False):
    """Ground instances of the axioms of multiplication, modulus, square root and truncation."""
    ax, seen = [], set()
    work = list(ts)
    for rnd in range(1 if light else 4):
        new = []
        found = collect_apps(work, names=THEORY, seen=seen)
        found.sort(key=lambda t: t.decl().name() != "rmul")
        for t in found:
            if t.get_id() not in done:
                done.add(t.get_id())
                new += axioms_of(t, light)
        if not new:
            break
        ax += new
        work = new
    return ax


def background(ts, goal=None, aliased=None):
    """Ground instances of the theory symbols that occur in the query."""
    ax = []
    if goal is not None:
        ax = sum_instances(ts[:-1], goal)
        ts = ts[:-1] + ax + ts[-1:]
        ax = list(ax)
    done = set()
    ax += theory(ts + ax, done)
    # extensionality of sums and extrema: the pairs that occur in the query, then the pairs of sums inside the summands
    # of a pair (at the point where the summands may differ)
    isbig = lambda x: x.decl().name() in OPS.tab
    big = [t for t in collect_apps(ts + ax, names=OPS.tab) if not has_var(t)]
    work = [(x, y, 0) for i, x in enumerate(big) for y in big[i + 1:]]
    seen_pairs, seen_one = set(), set()
    new = []
    alias = {}
    for t in ts:
        if z3.is_quantifier(t) and t.num_patterns() == 1 and len(t.pattern(0).children()) == 1:
            d = t.pattern(0).arg(0).decl()
            if "@" in d.name() and d.name() in memory.INV and d.arity() == t.num_vars():
                leads = {}
                if d.arity() == 1:
                    leads[0] = []
                elif goal is not None:
                    for u in collect_apps(ts[-1:], lambda u: "#sk" in u.decl().name() and u.num_args() == d.arity()):
                        l = u.children()[:-1]
                        if not any(has_var(x) for x in l):
                            leads[tuple(x.get_id() for x in l)] = l
                for ky, l in list(leads.items())[:2]:
                    alias[(d.name(), ky)] = (d, l)
    alias = list(alias.values())[:2]
    if aliased is not None:
        if aliased.get("on"):
            aliased["any"] = bool(alias)
        else:
            aliased["any"], alias = bool(alias), []
    while work and len(seen_pairs) < 400:
        a, b, dep = work.pop(0)
        oa, pa, ca, ba, da = OPS.tab[a.decl().name()]
        ob, pb, cb, bb, db = OPS.tab[b.decl().name()]
        for x, o in ((a, oa), (b, ob)):
            if x.get_id() not in seen_one:
                seen_one.add(x.get_id())
                if o == "Σ":
                    new.append(z3.Implies(x.arg(1) <= x.arg(0), x == 0))
        ky = (a.get_id(), b.get_id())
        if oa != ob or a.eq(b) or ky in seen_pairs or ky[::-1] in seen_pairs:
            continue
        seen_pairs.add(ky)
        pk = ky + tuple((d.name(),) + tuple(x.get_id() for x in l) for d, l in alias)
        if pk in _pair:
            _, inst, nested = _pair[pk]
            new += inst
            if dep < 3:
                for x, y in nested:
                    bx, by = collect_apps([x], names=OPS.tab), collect_apps([y], names=OPS.tab)
                    work += [(s1, s2, dep + 1) for s1 in bx for s2 in by]
            continue
        n0 = len(new)
        k = fint("x")
        va = z3.substitute(ba, (pa, k), *zip(ca, a.children()[2:])) if ca else z3.substitute(ba, (pa, k))
        vb = z3.substitute(bb, (pb, k), *zip(cb, b.children()[2:])) if cb else z3.substitute(bb, (pb, k))
        new.append(z3.Or(a == b, a.arg(0) != b.arg(0), a.arg(1) != b.arg(1),
                         z3.And(k >= a.arg(0), k < a.arg(1), va != vb)))
        nested = [(va, vb)]
        if oa == "Σ" and a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[2:], b.children()[2:])) and peq(a.arg(0), b.arg(0)):
            # one term more
            for x, y in ((a, b), (b, a)):
                if peq(x.arg(1), y.arg(1) + 1):
                    h = y.arg(1)
                    new.append(z3.Or(y.arg(0) > h, x == y + z3.substitute(ba, (pa, h), *zip(ca, a.children()[2:]))))
        if oa == "Σ" and memory.INVOF and not (peq(a.arg(0), b.arg(0)) and peq(a.arg(1), b.arg(1))):
            for x, vx, y, vy in ((a, va, b, vb), (b, vb, a, va)):
                for inst, prs in reindex(x, vx, y, vy, k, alias):
                    new.append(inst)
                    nested += prs
        if oa != "Σ" and goal is not None and collect_apps([va, vb], names=OPS.tab):
            import sums
            new += sums.instances(va == vb, list(ts[:-1]) + [k >= a.arg(0), k < a.arg(1)])
        else:
            _pair[pk] = ((a, b, [l for d, l in alias]), new[n0:], nested)
        if dep < 3:
            for x, y in nested:
                bx, by = collect_apps([x], names=OPS.tab), collect_apps([y], names=OPS.tab)
                work += [(s1, s2, dep + 1) for s1 in bx for s2 in by]
    if goal is not None:
        import sums
        new += sums.instances(goal, ts[:-1])
        if memory.PIGEON:
            new += sums.pigeonhole(goal, [t for t in ts[:-1] if len(t.children()) == 2 and not z3.is_quantifier(t) and depth_le(t, 4)])
    for t in big:
        if t.get_id() not in seen_one and OPS.tab[t.decl().name()][0] == "Σ":
            new.append(z3.Implies(t.arg(1) <= t.arg(0), t == 0))
    ax += new
    # theory symbols introduced by the instances
    ax += theory(new, done, light=True)
    return ax


def reindex(a, va, b, vb, k, alias=()):
    """Instances of: if c maps [alo,ahi) one to one into [blo,bhi) with left inverse pos, and the summand of b is the one
    of a at the positions hit and 0 elsewhere, then the sums a and b are equal.  Candidates for (c, pos) come from the
    index functions that occur in the summands; every premise is part of the instance."""
    cands = []
    for t in collect_apps([vb], lambda x: x.num_args() > 0 and x.arg(x.num_args() - 1).eq(k), memory.INVOF):
        lead = t.children()[:-1]
        if any(depends(x, k) for x in lead):
            continue
        cands.append((memory.INVOF[t.decl().name()](lead, k), t))
    for t in collect_apps([va], lambda x: x.num_args() > 0 and depends(x.arg(x.num_args() - 1), k), memory.INVOF):
        lead = t.children()[:-1]
        e = t.arg(t.num_args() - 1)
        if any(depends(x, k) for x in lead) or e.eq(k):
            continue
        import loops
        f = loops.source_inverse(None, None, e, k)
        if f is not None:
            cands.append((e, f(k)))
    for d, lead in alias:
        cands.append((d(*lead, k), memory.INV[d.name()](lead, k)))
    out = []
    done = set()
    alo, ahi, blo, bhi = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
    for c, pos in cands:
        ky = (c.get_id(), pos.get_id())
        if ky in done or len(done) >= 3:
            continue
        done.add(ky)
        q, j = fint("rq"), fint("rj")
        cq = z3.substitute(c, (k, q))
        pj = z3.substitute(pos, (k, j))
        p1 = Implies(And(alo <= q, q < ahi),
                     Or(z3.substitute(va, (k, q)) == 0, And(blo <= cq, cq < bhi, z3.substitute(pos, (k, cq)) == q)))
        p2 = Implies(And(blo <= j, j < bhi), z3.substitute(vb, (k, j)) ==
                     z3.If(And(alo <= pj, pj < ahi, z3.substitute(c, (k, pj)) == j), z3.substitute(va, (k, pj)), z3.RealVal(0)))
        fa, gb = z3.substitute(va, (k, pj)), z3.substitute(vb, (k, j))
        out.append((z3.Or(a == b, z3.Not(p1), z3.Not(p2)), [(fa, gb)]))
    return out


def depth_le(t, n):
    return n >= 0 and all(depth_le(c, n - 1) for c in t.children())


_hv = {}


def has_var(t):
    i = t.get_id()
    if i in _hv and _hv[i][0].eq(t):
        return _hv[i][1]
    r = z3.is_var(t) or (z3.is_app(t) and any(has_var(c) for c in t.children()))
    _hv[i] = (t, r)
    return r


_x, _y = z3.Real("qx"), z3.Real("qy")
QAX = [z3.ForAll([_y], terms._rmul(z3.RealVal(0), _y) == 0, patterns=[terms._rmul(z3.RealVal(0), _y)]),
       z3.ForAll([_y], terms._rmul(_y, z3.RealVal(0)) == 0, patterns=[terms._rmul(_y, z3.RealVal(0))]),
       z3.ForAll([_y], terms._rmul(z3.RealVal(1), _y) == _y, patterns=[terms._rmul(z3.RealVal(1), _y)]),
       z3.ForAll([_x, _y], terms._rmul(_x, _y) == terms._rmul(_y, _x), patterns=[terms._rmul(_x, _y)])]


class Solver:
    def __init__(self):
        self.time = 0.0
        self.n = 0
        self.cache = {}

    def valid(self, facts, goal, rl=None):
        r, _ = self.check(facts, goal, rl or RL // 2)
        return r == "proved"

    def build(self, facts, goal, nra=False, aliased=None):
        facts = relevant(facts, goal)
        ts = list(facts) + [Not(goal)]
        ax = background(ts, goal, aliased)
        allt = ts + ax
        if nra:
            x, y = z3.Var(0, z3.RealSort()), z3.Var(1, z3.RealSort())
            allt = [z3.substitute_funs(t, (terms._rmul, x * y)) for t in allt]
        quant = any(z3.is_quantifier(s) for t in ts for s in [t]) or any(contains_quant(t) for t in ts)
        return allt, quant

    def check(self, facts, goal, rl=None, tmo=None, nra=False):
        rl, tmo = rl or RL, tmo or TMO
        t0 = time.time()
        self.n += 1
        try:
            g = goal
            if z3.is_true(g):
                return "proved", "trivial"
            # extra reindexing candidates (arrays with a ghost inverse that the goal does not mention) only on a second try
            aliased = {"on": False, "any": False}
            for rnd in (0, 1):
                aliased["on"] = rnd == 1
                allt, quant = self.build(facts, goal, nra, aliased)
                s = z3.Solver()
                s.set("timeout", tmo)
                s.set("rlimit", rl)
                if quant:
                    s.set("smt.mbqi", False)
                    s.set("auto_config", False)
                s.add(allt)
                if quant and any("rmul" in free_syms(t) for t in allt):
                    s.add(QAX)
                r = s.check()
                if r == z3.unsat:
                    return "proved", "z3"
                if not aliased["any"] or not has_big(allt):
                    break
            return ("sat" if r == z3.sat else "unknown"), ""
        except z3.Z3Exception as e:
            return "unknown", str(e)
        finally:
            self.time += time.time() - t0

    def smt2(self, facts, goal):
        allt, quant = self.build(facts, goal)
        s = z3.Solver()
        s.add(allt)
        s.add(QAX)
        return "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")

    def cvc5(self, facts, goal, tmo=20):
        t0 = time.time()
        try:
            txt = self.smt2(facts, goal)
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={tmo*1000}", f.name], capture_output=True, text=True,
                                   timeout=tmo + 10)
            finally:
                os.unlink(f.name)
            if r.stdout.strip().startswith("unsat"):
                return "proved", "cvc5"
            return "unknown", r.stdout.strip()[:200] + r.stderr.strip()[:200]
        except Exception as e:
            return "unknown", str(e)[:200]
        finally:
            self.time += time.time() - t0


def has_big(ts):
    return bool(collect_apps(ts, names=OPS.tab))


_cq = {}


def contains_quant(t):
    i = t.get_id()
    if i in _cq and _cq[i][0].eq(t):
        return _cq[i][1]
    if z3.is_quantifier(t):
        r = True
    else:
        r = z3.is_app(t) and any(contains_quant(c) for c in t.children())
    _cq[i] = (t, r)
    return r


def relevant(facts, goal):
    """facts connected to the goal through shared uninterpreted symbols (cheap, sound)."""
    if len(facts) < 40:
        return facts
    want = set(free_syms(goal))
    rest = list(facts)
    out = []
    for _ in range(8):
        nxt = []
        grew = False
        for f in rest:
            if free_syms(f) & want or not free_syms(f):
                out.append(f)
                before = len(want)
                want |= free_syms(f)
                grew = grew or len(want) > before
            else:
                nxt.append(f)
        rest = nxt
        if not grew:
            break
    return out


def parts(g, extra=()):
    """the goal as conjuncts (facts to add, goal), outer universal variables replaced by new constants"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(fresh_name(g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
        return parts(z3.substitute_vars(g.body(), *reversed(vs)), extra)
    if z3.is_implies(g):
        a = g.arg(0)
        return parts(g.arg(1), list(extra) + (a.children() if z3.is_and(a) else [a]))
    if z3.is_and(g):
        return [x for c in g.children() for x in parts(c, extra)]
    return [(list(extra), g)]


def discharge(ob, solver):
    if ob.status == "trivial":
        ob.info = "simplifier"
        ob.status = "proved"
        return True
    r, info = solver.check(ob.facts, ob.goal)
    if r != "proved" and r != "sat":
        r2, i2 = solver.check(ob.facts, ob.goal, nra=True)
        if r2 == "proved":
            r, info = r2, "z3-nra"
    elif r == "sat":
        r2, i2 = solver.check(ob.facts, ob.goal, nra=True)
        if r2 == "proved":
            r, info = r2, "z3-nra"
    if r not in ("proved", "sat") and contains_quant(ob.goal):
        # the goal for arbitrary values of its variables, one conjunct at a time
        for extra, g in parts(ob.goal):
            for nra in (False, True):
                rr, i = solver.check(list(ob.facts) + extra, g, nra=nra)
                if rr == "proved":
                    break
            else:
                break
        else:
            r, info = "proved", "z3"
    if r != "proved" and any(contains_quant(f) for f in ob.facts):
        r3, i3 = solver.cvc5(ob.facts, ob.goal)
        if r3 == "proved":
            r, info = r3, i3
    ob.status, ob.info = r, info
    return r == "proved"
