"""Ground instances of two facts about finite sums, directed by the equation to be proved:
  linearity   - a linear combination of sums over one range is 0 if the combination of the summands is 0 at every index;
  reindexing  - a sum over stored positions q equals the sum over columns j of the summand at the position of j (0 where j
                is not stored), if c maps the positions with a non-zero summand one to one into the columns.
Every premise is part of the instance, so a badly chosen candidate can only be useless, never unsound."""
import z3
from terms import *
from terms import _atoms
import terms, memory


def is_sum(t):
    return z3.is_app(t) and t.decl().name() in OPS.tab and OPS.tab[t.decl().name()][0] == "Σ"


def body_at(t, k):
    o, p, c, b, d = OPS.tab[t.decl().name()]
    return z3.substitute(b, (p, k), *zip(c, t.children()[2:])) if c else z3.substitute(b, (p, k))


def ground(t, pred, names=None):
    return collect_apps([t], pred, names)


def candidates(s, q, targets, j):
    """(c(q), pos(j)) for the sum s"""
    import loops
    out = []
    f = body_at(s, q)
    for t in ground(f, lambda x: x.num_args() > 0 and depends(x.arg(x.num_args() - 1), q), memory.INVOF):
        e = t.arg(t.num_args() - 1)
        if any(depends(x, q) for x in t.children()[:-1]) or e.eq(q):
            continue
        g = loops.source_inverse(None, None, e, q)
        if g is not None:
            out.append((e, g(j)))
    hi = s.arg(1)
    if z3.is_app(hi) and hi.decl().name() in memory.NNZOF:
        ind, inv = memory.NNZOF[hi.decl().name()]
        out.append((ind.read(hi.children() + [q]), inv.read(hi.children() + [j])))
    for s2 in targets:
        for t in ground(body_at(s2, j), lambda x: x.num_args() > 0 and x.arg(x.num_args() - 1).eq(j), memory.INVOF):
            lead = t.children()[:-1]
            if not any(depends(x, j) for x in lead):
                out.append((memory.INVOF[t.decl().name()](lead, q), t))
    res, seen = [], set()
    for c, p in out:
        ky = (c.get_id(), p.get_id())
        if ky not in seen:
            seen.add(ky)
            res.append((c, p))
    return res


def premise(s, c, pos, q, j, lo, hi):
    f = body_at(s, q)
    return Implies(And(s.arg(0) <= q, q < s.arg(1)),
                   Or(f == 0, And(lo <= c, c < hi, z3.substitute(pos, (j, c)) == q)))


def moved(s, c, pos, q, j):
    """summand of s in terms of the column j"""
    body = body_at(s, q)
    if not c.eq(q):
        body = z3.substitute(body, (c, j))      # c(pos(j)) = j is part of the guard
    g = And(s.arg(0) <= pos, pos < s.arg(1), z3.substitute(c, (q, pos)) == j)
    body = z3.substitute(body, (q, pos))

    def push(b, d=3):
        """conditions j == e stay outermost: the sum splits them off"""
        if d and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and z3.is_eq(b.arg(0)):
            x, y = b.arg(0).children()
            if (x.eq(j) and not depends(y, j)) or (y.eq(j) and not depends(x, j)):
                return If(b.arg(0), push(b.arg(1), d - 1), push(b.arg(2), d - 1))
        return R0 if z3.is_rational_value(b) and num(b) == 0 else If(g, b, R0)
    return push(body)


def renorm(t, memo=None):
    """polynomial normal form of every real subterm, bottom up"""
    memo = {} if memo is None else memo
    if t.get_id() in memo:
        return memo[t.get_id()][1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [renorm(c, memo) for c in t.children()]
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
        if r.sort() == z3.RealSort() and (r.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)
                                          or r.decl().eq(terms._rmul)):
            r = poly_term(poly(r), True)
        elif r.decl().eq(terms._cabs) and is_num(r.arg(1)) and num(r.arg(1)) == 0:
            r = rabs(r.arg(0))
    memo[t.get_id()] = (t, r)
    return r


def case_split(t, facts=(), depth=40, limit=300):
    """t != 0, as a disjunction over the truth values of the atomic conditions inside t (combinations that contradict the
    facts are left out: the instance is only used next to these facts)"""
    leaves = []
    sv = z3.Solver()
    sv.set("smt.mbqi", False)
    sv.set("auto_config", False)
    sv.set("timeout", 300)
    sv.add(list(facts))
    count = [0]

    def feasible(l):
        count[0] += 1
        if count[0] > 4 * limit:
            raise OverflowError
        sv.push()
        sv.add(l)
        r = sv.check()
        if r == z3.unsat:
            sv.pop()
        return r != z3.unsat

    def innermost(x, seen):
        if x.get_id() in seen or not z3.is_app(x):
            return None
        seen.add(x.get_id())
        for c in x.children():
            r = innermost(c, seen)
            if r is not None:
                return r
        if x.decl().kind() == z3.Z3_OP_ITE:
            return x.arg(0)
        return None

    def literals(c, val):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return literals(c.arg(0), not val)
        if k == (z3.Z3_OP_AND if val else z3.Z3_OP_OR):
            eq, sub = [], []
            for x in c.children():
                e, b = literals(x, val)
                eq += e
                sub += b
            return eq, sub
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return [], [(c, z3.BoolVal(val))]
        return known(c, val)

    def known(c, val):
        """substitutions that follow from c having that value"""
        sub = [(c, z3.BoolVal(val))]
        k = c.decl().kind()
        if k == z3.Z3_OP_EQ and val and z3.is_int(c.arg(0)):
            x, y = c.children()
            if len(str(x)) < len(str(y)):
                x, y = y, x
            if not is_num(x) and not depends_on(y, x):
                return [(x, y)], sub
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            x, y = c.children()
            mk = {z3.Z3_OP_LE: (x <= y), z3.Z3_OP_GE: (x >= y), z3.Z3_OP_LT: (x < y), z3.Z3_OP_GT: (x > y)}
            pos = {z3.Z3_OP_LE: [x <= y, y >= x], z3.Z3_OP_GE: [x >= y, y <= x], z3.Z3_OP_LT: [x < y, y > x], z3.Z3_OP_GT: [x > y, y < x]}[k]
            neg = {z3.Z3_OP_LE: [x > y, y < x], z3.Z3_OP_GE: [x < y, y > x], z3.Z3_OP_LT: [x >= y, y <= x], z3.Z3_OP_GT: [x <= y, y >= x]}[k]
            sub = [(e, z3.BoolVal(val)) for e in pos] + [(e, z3.BoolVal(not val)) for e in neg]
        return [], sub

    def go(x, lits, d):
        if len(leaves) > limit:
            raise OverflowError
        c = innermost(x, set())
        if c is None or d == 0:
            p = poly(x)
            if p:
                leaves.append(And(lits + [poly_term(p, True) != 0]))
            return
        for val in (True, False):
            l = c if val else Not(c)
            if not feasible(l):
                continue
            eq, sub = literals(c, val)
            y = z3.substitute(x, (c, z3.BoolVal(val)))
            if sub:
                y = z3.substitute(y, *sub)
            for e in eq:
                y = z3.substitute(y, e)
            y = renorm(z3.simplify(y, som=False, arith_lhs=False))
            go(y, lits + [l], d - 1)
            sv.pop()
    try:
        go(z3.simplify(t, som=False, arith_lhs=False), [], depth)
    except OverflowError:
        return t != 0
    return Or(leaves) if leaves else z3.BoolVal(False)


def depends_on(y, x):
    return bool(collect_apps([y], lambda z: z.eq(x)))


def lin_zero(P, out, facts, depth=0):
    """instances that prove P == 0 for a polynomial P over sums"""
    if depth > 3 or not P:
        return
    terms_ = []
    rest = {}
    for m, c in P.items():
        ss = [_atoms[a] for a in m if is_sum(_atoms[a])]
        if not ss:
            rest[m] = c
            continue
        if len(ss) != 1:
            return
        terms_.append((c, [a for a in m if not is_sum(_atoms[a])], ss[0]))
    rng = {}
    for c, o, s in terms_:
        rng.setdefault((simp_int(s.arg(0)).sexpr(), simp_int(s.arg(1)).sexpr()), []).append(s)
    lhs = poly_term(P, True)
    if not terms_:
        return
    if len(rng) > 1:
        # the target range: one that is not a row length
        def plain(ss):
            h = ss[0].arg(1)
            return not (z3.is_app(h) and (h.decl().name() in memory.NNZOF or "#cnt" in h.decl().name()))
        tg = [ky for ky, ss in rng.items() if plain(ss)]
        if len(tg) != 1:
            return
        lo, hi = rng[tg[0]][0].arg(0), rng[tg[0]][0].arg(1)
        targets = rng[tg[0]]
        P2 = dict(rest)
        for c, o, s in terms_:
            if (simp_int(s.arg(0)).sexpr(), simp_int(s.arg(1)).sexpr()) == tg[0]:
                t = {(s.get_id(),): 1}
            else:
                q, j = fint("rq"), fint("rj")
                cs = candidates(s, q, targets, j)
                if not cs:
                    return
                cc, pos = cs[0]
                s2 = OPS.sum(lo, hi, j, moved(s, cc, pos, q, j))
                x, y = fint("px"), fint("py")
                out += [x == cc, y == z3.substitute(pos, (j, x))]
                out.append(Or(s == s2, Not(Implies(And(s.arg(0) <= q, q < s.arg(1)),
                                                   Or(body_at(s, q) == 0, And(lo <= x, x < hi, y == q))))))
                t = poly(s2)
            P2 = padd(P2, pmul(t, {tuple(sorted(o)): c}))
        return lin_zero(P2, out, facts, depth)
    s0 = terms_[0][2]
    k = fint("x")
    Pk = {}
    for c, o, s in terms_:
        Pk = padd(Pk, pmul(poly(body_at(s, k)), {tuple(sorted(o)): c}))
    pk = poly_term(Pk, True)
    has = bool(ground(pk, is_sum))
    diff = (pk != 0) if has else case_split(pk, list(facts) + [s0.arg(0) <= k, k < s0.arg(1)])
    rdiff = [case_split(poly_term(rest, True), list(facts))] if rest else []
    out.append(Or([lhs == 0, And(s0.arg(0) <= k, k < s0.arg(1), diff)] + rdiff))
    if has:
        lin_zero(Pk, out, list(facts) + [s0.arg(0) <= k, k < s0.arg(1)], depth + 1)


def resolve(t, facts):
    """decide, under the ground facts, the conditions of outer conditionals with a sum in a branch"""
    if not has_ite_sum(t):
        return t
    sv = z3.Solver()
    sv.set("timeout", 300)
    sv.add([f for f in facts if not z3.is_quantifier(f) and not collect_apps([f], is_sum, OPS.tab)])

    def entailed(c):
        sv.push()
        sv.add(Not(c))
        r = sv.check()
        sv.pop()
        return r == z3.unsat

    def go(x, d):
        if d == 0 or not z3.is_app(x) or is_sum(x) or not has_ite_sum(x):
            return x
        if x.decl().kind() == z3.Z3_OP_ITE:
            if entailed(x.arg(0)):
                return go(x.arg(1), d - 1)
            if entailed(Not(x.arg(0))):
                return go(x.arg(2), d - 1)
            return x
        return x.decl()(*[go(y, d - 1) for y in x.children()])
    return go(t, 8)


def has_ite_sum(t):
    return bool(collect_apps([t], lambda x: x.decl().kind() == z3.Z3_OP_ITE and bool(collect_apps([x], is_sum, OPS.tab))))


def instances(goal, facts=()):
    """for the equations between real terms that occur in the goal"""
    out = []
    eqs = []
    for t in collect_apps([goal], lambda x: x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == z3.RealSort()):
        eqs.append((t.arg(0), t.arg(1)))
    sq = collect_apps([goal], names={terms._sqrt.name()})
    for i, a in enumerate(sq):
        for b in sq[i + 1:]:
            eqs.append((a.arg(0), b.arg(0)))
    eqs = [(resolve(a, facts), resolve(b, facts)) for a, b in eqs]
    for a, b in eqs:
        P = padd(poly(a), poly(b), -1)
        if len(P) and any(is_sum(_atoms[x]) for m in P for x in m):
            o = []
            lin_zero(P, o, facts)
            if o:
                # tie the polynomial to the two sides
                out += o
    return out


def pigeonhole(goal, facts=()):
    """If q -> c(q) maps [0, n) one to one (left inverse inv) into [0, H), then n <= H.  Candidates: arrays of stored
    columns filled at the positions of a counter."""
    import loops
    out, done = [], set()
    for t in collect_apps([goal] + list(facts), names=memory.PIGEON):
        nm = t.decl().name()
        if nm in done:
            continue
        done.add(nm)
        c, hi, ext = memory.PIGEON[nm]
        q = fint("pq")
        cq = c.read([q])
        f = loops.source_inverse(None, None, cq, q)
        if f is None:
            continue
        n = t.decl()(hi)
        x, y = fint("px"), fint("py")
        out += [x == cq, y == f(x)]
        out.append(Or(n <= ext, And(0 <= q, q < n, Not(And(0 <= x, x < ext, y == q)))))
    return out


def count_lemma(n, c, pos, H, pred=None, total=None):
    """Counting: if the positions 0..n-1 hold pairwise different columns c(q) in [0, H) (left inverse pos), each with
    pred, then n is at most the number of columns with pred.  The premise is part of the instance (at one position that
    is arbitrary, so the instance says nothing unless the premise holds everywhere)."""
    q, j = fint("cq"), z3.Int("cl!j")
    x, y = fint("cx"), fint("cy")
    bound = z3.ToReal(H) if pred is None else OPS.sum(0, H, j, If(pred(j), R1, R0))
    same = [bound == total] if total is not None else []     # (another way to write that number; it is not taken for granted)
    bad = And(0 <= q, q < n, Not(And(0 <= x, x < H, y == q, *([] if pred is None else [pred(x)]))))
    if same:
        return And(x == c(q), y == pos(x), Or(z3.ToReal(n) <= total, bad, Not(same[0])))
    return And(x == c(q), y == pos(x), Or(z3.ToReal(n) <= bound, bad) if pred is not None else Or(n <= H, bad))
