"""Loop rules.

 * counted loops without annotation: independent-iteration (map) / reduction / search summaries, inferred and
   *checked* (every side condition is an obligation discharged by the solver before the summary is used);
 * annotated loops: inductive invariants (sequential rule) or the row-wise rule (independent iterations that
   each own one row and may use thread-private scratch memory);
 * '#pragma omp parallel for': the clauses are honoured and race freedom becomes obligations.
"""
import z3, re, memory, family
from terms import *
from memory import *
import cfront
from symex import *


def pragma_clauses(text):
    c = {"private": set(), "firstprivate": set(), "lastprivate": set(), "shared": set(), "reduction": {},
         "default": None, "parallel": True}
    if text is None:
        return None
    for m in re.finditer(r"(\w+)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)", text):
        k, body = m.group(1), m.group(2)
        if k in ("private", "firstprivate", "lastprivate", "shared"):
            c[k] |= {x.strip() for x in body.split(",")}
        elif k == "reduction":
            op, vs = body.split(":", 1)
            for v in vs.split(","):
                c["reduction"][re.sub(r"\[.*", "", v).strip()] = op.strip()
        elif k == "default":
            c["default"] = body.strip()
    return c


def assigned_vars(eng, node, st):
    """keys of variables visible at loop entry that the loop body may assign (syntactic)."""
    ids = set()

    def base(x):
        while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            x = x["inner"][0]
        return x

    def walk(n):
        k = n.get("kind")
        if (k == "BinaryOperator" and n.get("opcode") == "=") or k == "CompoundAssignOperator":
            x = base(n["inner"][0])
            if x.get("kind") == "DeclRefExpr":
                ids.add(x["referencedDecl"]["id"])
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            x = base(n["inner"][0])
            if x.get("kind") == "DeclRefExpr":
                ids.add(x["referencedDecl"]["id"])
        for c in n.get("inner", []):
            if isinstance(c, dict):
                walk(c)
    walk(node)
    d = len(eng.frames)
    return [(d, i) for i in ids if (d, i) in st.env]


def var_name(eng, key):
    for (d, nm), k in eng.names.items():
        if k == key:
            return nm
    return None


def decl_type(eng, key):
    """type of a local by key (searched in the current function's AST)."""
    fd = eng.frames[-1][1]
    cache = eng.__dict__.setdefault("_dt", {})
    ck = (fd["id"], fd["name"])
    if ck not in cache:
        m = {}

        def walk(n):
            if n.get("kind") in ("VarDecl", "ParmVarDecl"):
                m[n["id"]] = n
            for c in n.get("inner", []):
                if isinstance(c, dict):
                    walk(c)
        walk(fd)
        cache[ck] = m
    n = cache[ck].get(key[1])
    return eng.ty(n) if n is not None else INT


def decl_node_is_static(eng, key):
    decl_type(eng, key)
    fd = eng.frames[-1][1]
    n = eng._dt[(fd["id"], fd["name"])].get(key[1])
    return n is not None and n.get("storageClass") == "static"


class Canon:
    """A counted loop: variable key, lo, hi (exclusive), ascending with step 1."""
    pass


def strip(n):
    while n.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
        n = n["inner"][0]
    return n


def step_of(n, vid):
    """+1/-1/other if n increments variable vid"""
    n = strip(n)
    if n.get("kind") == "UnaryOperator" and n["opcode"] in ("++", "--"):
        x = strip(n["inner"][0])
        if x.get("kind") == "DeclRefExpr" and (vid is None or x["referencedDecl"]["id"] == vid):
            return x["referencedDecl"]["id"], 1 if n["opcode"] == "++" else -1
    if n.get("kind") == "CompoundAssignOperator" and n["opcode"] in ("+=", "-="):
        x, y = strip(n["inner"][0]), strip(n["inner"][1])
        if x.get("kind") == "DeclRefExpr" and y.get("kind") == "IntegerLiteral":
            return x["referencedDecl"]["id"], int(y["value"]) * (1 if n["opcode"] == "+=" else -1)
    if n.get("kind") == "BinaryOperator" and n["opcode"] == "=":
        x, y = strip(n["inner"][0]), strip(n["inner"][1])
        if x.get("kind") == "DeclRefExpr" and y.get("kind") == "BinaryOperator" and y["opcode"] in "+-":
            a, b = strip(y["inner"][0]), strip(y["inner"][1])
            if a.get("kind") == "DeclRefExpr" and a["referencedDecl"]["id"] == x["referencedDecl"]["id"] and \
                    b.get("kind") == "IntegerLiteral":
                return x["referencedDecl"]["id"], int(b["value"]) * (1 if y["opcode"] == "+" else -1)
    return None, None


def assigns_id(node, vid):
    r = []

    def walk(n):
        k = n.get("kind")
        if (k == "BinaryOperator" and n.get("opcode") == "=") or k == "CompoundAssignOperator" or \
                (k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&")):
            x = strip(n["inner"][0])
            if x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["id"] == vid:
                r.append(n)
        for c in n.get("inner", []):
            if isinstance(c, dict):
                walk(c)
    walk(node)
    return r


def loop_index(eng, node):
    parent = tuple(eng.nest)
    sid = (eng.frames[-1][2], node.get("id"))
    k = (parent, sid)
    if k not in eng.loopids:
        c = eng.counts.get(parent, 0)
        eng.loopids[k] = c
        eng.counts[parent] = c + 1
    return parent + (eng.loopids[k],)


def get_spec(eng, path, n=None):
    """The annotation of a loop: keyed by its place in the dynamic loop nest, or by names - a tuple of the loop
    variable (or None) and identifiers that must ("x") or must not ("!x") occur in the loop ("#loop": a nested loop)."""
    if not eng.spec:
        return None
    sp = eng.spec.get(path)
    if sp is not None or n is None:
        return sp
    ids = set()

    def walk(x):
        if x.get("kind") == "DeclRefExpr":
            ids.add(x["referencedDecl"].get("name"))
        if x.get("kind") in ("VarDecl", "MemberExpr"):
            ids.add(x.get("name"))
        if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt") and x is not n:
            ids.add("#loop")
        for c in x.get("inner", []):
            if isinstance(c, dict):
                walk(c)
    walk(n)
    var = None
    if n.get("kind") == "ForStmt":
        head = [x for x in n["inner"][:4] if isinstance(x, dict) and x.get("kind")]
        inc = n["inner"][3] if len(n["inner"]) > 3 else None
        if inc and inc.get("kind"):
            vid, _ = step_of(inc, None)
            for x in ids_of(inc):
                if x[0] == vid:
                    var = x[1]
    best = None
    for key, sp in eng.spec.items():
        if all(isinstance(x, (str, type(None))) for x in key):
            if key[0] is not None and key[0] != var:
                continue
            if all((x[1:] not in ids) if x[0] == "!" else (x in ids) for x in key[1:]):
                if best is None or len(key) > best[0]:
                    best = (len(key), sp)
    return best[1] if best else None


def ids_of(n):
    r = []
    if n.get("kind") == "DeclRefExpr":
        r.append((n["referencedDecl"]["id"], n["referencedDecl"].get("name")))
    for c in n.get("inner", []):
        if isinstance(c, dict):
            r += ids_of(c)
    return r


# ====================================================================== for loops
def for_loop(eng, n, st, pragma):
    inner = n["inner"]
    init, _, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
    path = loop_index(eng, n)
    # initialisation
    if init.get("kind"):
        o = eng.exec(init, st)
        st = o[NORMAL]
    clauses = pragma_clauses(pragma)
    vid, step = step_of(inc, None) if inc.get("kind") else (None, None)
    canon = None
    if vid is not None and step in (1, -1) and cond.get("kind") and not assigns_id(body, vid):
        canon = canonical(eng, st, cond, vid, step)
    eng.nest.append(path[-1])
    try:
        if canon is None:
            return general_loop(eng, n, st, cond, inc, body, path, clauses)
        return counted(eng, n, st, canon, cond, inc, body, path, clauses)
    finally:
        eng.nest.pop()


def canonical(eng, st, cond, vid, step):
    c = strip(cond)
    if c.get("kind") != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
        return None
    l, r = strip(c["inner"][0]), strip(c["inner"][1])
    op = c["opcode"]
    ubnode = c["inner"][1]
    if not (l.get("kind") == "DeclRefExpr" and l["referencedDecl"]["id"] == vid):
        if r.get("kind") == "DeclRefExpr" and r["referencedDecl"]["id"] == vid:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
            ubnode = c["inner"][0]
        else:
            return None
    key = eng.vkey(vid)
    if key not in st.env:
        return None
    C = Canon()
    C.key, C.step, C.ubnode, C.op = key, step, ubnode, op
    lo = st.env[key]
    if isinstance(lo, tuple):
        return None
    ub = eng.as_int(eng.ev(ubnode, st))
    if not z3.is_int(ub):
        return None
    C.ub = ub
    if step == 1 and op in ("<", "!=", "<="):
        C.lo, C.hi = lo, (simp_int(ub + 1) if op == "<=" else ub)
        C.val = lambda k: k
        C.end = If(C.lo < C.hi, C.hi, C.lo)
        if op == "!=":
            eng.oblige(st, "termination", "loop counter reaches its bound", lo <= ub)
    elif step == -1 and op in (">", ">=", "!="):
        # descending: iterate ascending index over the same set of values
        C.lo, C.hi = (simp_int(ub + 1) if op in (">", "!=") else ub), simp_int(lo + 1)
        C.val = lambda k: simp_int(C.hi - 1 - (k - C.lo))
        C.end = If(C.lo < C.hi, simp_int(C.lo - 1), lo)
    else:
        return None
    return C


def counted(eng, n, st, C, cond, inc, body, path, clauses):
    spec = get_spec(eng, path, n)
    # tiny constant trip counts: execute exactly
    if is_num(C.lo) and is_num(C.hi) and num(C.hi) - num(C.lo) <= 8 and (spec is None):
        return unroll(eng, st, C, body, num(C.lo), num(C.hi))
    if spec is not None:
        if spec.locked:
            return locked_loop(eng, st, C, body, path, clauses, spec)
        if spec.rowwise:
            return rowwise(eng, st, C, body, path, clauses, spec)
        return invariant_loop(eng, st, C, body, path, clauses, spec)
    return auto_loop(eng, n, st, C, body, path, clauses)


def unroll(eng, st, C, body, lo, hi):
    outs = {}
    cur = st
    brk = None
    for v in range(lo, hi):
        cur.env[C.key] = simp_int(C.val(z3.IntVal(v)))
        o = eng.exec(body, cur)
        cur = eng.merge(o.pop(NORMAL, None), o.pop(CONT, None))
        b = o.pop(BREAK, None)
        brk = eng.merge(brk, b)
        if RET in o:
            outs[RET] = eng.merge(outs.get(RET), o[RET])
        if cur is None:
            break
    if cur is not None:
        cur.env[C.key] = C.end
    fin = eng.merge(cur, brk)
    if fin is not None:
        outs[NORMAL] = fin
    return outs


def ub_stable(eng, st_end, C, entry):
    """the bound, re-evaluated at the end of an iteration, is the bound at entry"""
    ub2 = eng.as_int(eng.ev(C.ubnode, st_end.clone()))
    if peq(ub2, C.ub):
        return
    if not eng.prove_now(st_end, ub2 == C.ub):
        raise Undecided("loop bound changes inside the loop")


# ---------------------------------------------------------------------- automatic summary
class Retry(Exception):
    pass


def register_inverse(content, inv):
    import memory
    memory.INV[content.name] = lambda lead, t: inv.read(list(lead) + [t])
    if isinstance(inv, Fresh):
        memory.INVOF[inv.name] = lambda lead, q: content.read(list(lead) + [q])


def auto_loop(eng, n, st0, C, body, path, clauses):
    """Summarise a counted loop."""
    regmode = {}
    nocell = set()
    reidx = flat_index(eng, st0, C, body)
    prefix_vars = {}
    named = set()
    for attempt in range(16):
        mark_obl = len(eng.obls)
        snap = st0
        try:
            return auto_try(eng, n, st0, C, body, path, clauses, regmode, reidx, prefix_vars, nocell, named)
        except RetryReg as r:
            del eng.obls[mark_obl:]
            for x in r.regs:
                cur = regmode.get(x)
                nxt = LADDER[LADDER.index(cur[0]) + 1] if cur else "cell" if x not in nocell else "acc"
                if clauses is not None and nxt in ("cell", "same", "fresh") and not thread_private(eng, st0, x, clauses):
                    nxt = "acc" if nxt == "cell" else None
                if nxt is None:
                    raise Undecided(r.why or f"loop {path}: region {eng.rname(x)} neither mapped nor accumulated")
                regmode[x] = (nxt,)
        except RetryPrefix as r:
            del eng.obls[mark_obl:]
            if r.v in prefix_vars:
                raise Undecided(f"loop {path}: local '{var_name(eng, r.v)}' needs an invariant")
            prefix_vars[r.v] = r.form
        except RetryAgain:
            del eng.obls[mark_obl:]
        except RetryAlias as r:
            del eng.obls[mark_obl:]
            if all(x in named for x in r.regs):
                raise Undecided("map store with a non-invertible location")
            for x in r.regs:
                if x not in named:
                    named.add(x)
                    alias_content(eng, st0, x)
    raise Undecided("loop summary did not stabilise")


LADDER = ["cell", "acc", "same", "fresh", None]


def thread_private(eng, st, r, clauses):
    return r.kind == "local" and local_name(eng, st, r) in (clauses["firstprivate"] | clauses["private"])


def pieces(c):
    n = 0
    while isinstance(c, (MapStore, IteC)):
        if isinstance(c, IteC):
            return 2
        n, c = n + 1, c.base
    return n


def inverse_known(eng, st, r):
    ic = eng.inv_content(st, r)
    return not isinstance(ic, Fresh)


def alias_content(eng, st, r):
    """give the content of an int array a name (an uninterpreted function equal to it), so that positions can be
    recovered through its ghost inverse"""
    c = eng.content(st, r)
    n = r.nlead + len(r.shape)
    J = Fresh(r.name + "@", "int")
    ps = [fint("a") for _ in range(n)]
    t = J.read(ps)
    st.assume(z3.ForAll(ps, t == c.read(ps), patterns=[t]))
    register_inverse(J, eng.inv_content(st, r))
    st.mem[r] = J


class Prefix:
    """closed form of a carried local: value at the start of iteration k is fn(k)"""

    def __init__(self, fn, facts=(), step=None):
        self.fn, self.facts, self.step = fn, list(facts), step
        self.t = self.tk = None
        self.kind = "sum"


def counter(eng, C, k, v0, t, name):
    """A local that grows by t(k) in {0,1} in iteration k: prefix count cnt and the position function src of its
    increments, with the facts every prefix count has (proved once by induction, see DESIGN)."""
    import memory
    cnt = z3.Function(fresh_name((name or "c") + "#cnt"), z3.IntSort(), z3.IntSort())
    src = z3.Function(fresh_name((name or "c") + "#src"), z3.IntSort(), z3.IntSort())
    memory.INV[cnt.name()] = lambda lead, x: src(*lead, x) if not lead else None
    memory.INV[src.name()] = lambda lead, x: cnt(*lead, x) if not lead else None
    lo, hi = C.lo, C.hi
    q, p, q2 = fint("q"), fint("p"), fint("q2")
    g = lambda x: z3.substitute(t, (k, x)) == 1
    fs = [cnt(lo) == v0,
          z3.ForAll([q], Implies(And(q >= lo, q <= hi), And(cnt(q) >= v0, cnt(q) <= v0 + (q - lo))), patterns=[cnt(q)]),
          z3.ForAll([q], Implies(And(q >= lo, q < hi), cnt(q) <= cnt(hi)), patterns=[cnt(q)]),
          z3.ForAll([q], Implies(And(q >= lo, q < hi, g(q)), And(src(cnt(q)) == q, cnt(q) < cnt(hi))), patterns=[cnt(q)]),
          z3.ForAll([p], Implies(And(p >= v0, p < cnt(hi)),
                                 And(src(p) >= lo, src(p) < hi, g(src(p)), cnt(src(p)) == p)), patterns=[src(p)]),
          Implies(lo <= hi, And(cnt(hi) >= v0, cnt(hi) <= v0 + (hi - lo), cnt(hi) == v0 + isum(lo, hi, k, t)))]
    step = lambda x: cnt(simp_int(x + 1)) == cnt(x) + z3.substitute(t, (k, x))
    pf = Prefix(lambda x: cnt(x), fs, step)
    pf.t, pf.tk = t, k
    return pf


def same_step(eng, end, pf, fin, k, startsyms, v, clauses, name):
    """the step of the closed form is, term by term, what the iteration does"""
    if isinstance(fin, Cx) or pf.t is None or isinstance(pf.t, Cx) or (pf.kind == "sum" and pf.step is None):
        return False
    s = fint("s0") if z3.is_int(fin) else z3.Real(fresh_name("s0"))
    f2 = z3.substitute(fin, (pf.fn(k), s))
    red = classify(eng, f2, s, {**startsyms, s.decl().name(): v}, v, clauses, name)
    if red is None or red[0] != pf.kind or depends(red[1], s):
        return False
    return peq(red[1], z3.substitute(pf.t, (pf.tk, k))) or z3.simplify(red[1] == z3.substitute(pf.t, (pf.tk, k))).eq(z3.BoolVal(True))


def zero_one(t):
    """t is a tree of conditionals over 0 and 1"""
    if is_num(t):
        return num(t) in (0, 1)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return zero_one(t.arg(1)) and zero_one(t.arg(2))
    return False


def flat_index(eng, st, C, body):
    """for (i = a*S; i < b*S; i++) over a block with row stride S: iterate over (row, column) instead.
    Returns (a, b, S) or None.  Both orders visit exactly the same offsets once, since 0 <= column < S."""
    if C.step != 1:
        return None
    hp, lp = poly(C.hi), poly(C.lo)
    if not any(len(m) >= 2 for m in hp):
        return None
    from terms import _atoms
    strides = []
    for r in list(st.mem) + list(st.alive):
        if isinstance(r, Region):
            if r.shape is not None and len(r.shape) == 2 and not callable(r.shape[1]):
                strides.append(r.shape[1])
            elif getattr(r, "hint", None) is not None:
                strides.append(_atoms[r.hint])
    cands = {}
    for m in hp:
        for a in m:
            cands[a] = _atoms[a]
    order = [a for s in strides for a in cands if s.get_id() == a] + list(cands)
    for a in order:
        S = cands[a]
        out = []
        for p in (lp, hp):
            q = {}
            for m, c in p.items():
                if a not in m:
                    break
                mm = list(m)
                mm.remove(a)
                q[tuple(mm)] = c
            else:
                out.append(poly_term(q))
        if len(out) == 2 and not depends(out[0], S) or len(out) == 2 and True:
            return out[0], out[1], S
    return None


class RetryReg(Exception):
    def __init__(self, regs, why=None):
        self.regs, self.why = regs, why


class RetryAlias(Exception):
    def __init__(self, regs):
        self.regs = regs


class RetryReidx(Exception):
    def __init__(self, by):
        self.by = by


class RetryPrefix(Exception):
    def __init__(self, v, form):
        self.v, self.form = v, form


def rename_last(eng):
    pass


def auto_try(eng, n, st0, C, body, path, clauses, regmode, reidx, prefix_vars, nocell, named=()):
    st = st0.clone()
    mark = next_mark()
    line = n.get("range", {}).get("begin", {}).get("line")
    if reidx is None:
        k = fint("k")
        params = [k]
        it = C.val(k)
        rng = [And(k >= C.lo, k < C.hi)]
    else:
        R0_, R1_, S = reidx
        r_, c_ = fint("r"), fint("c")
        params = [r_, c_]
        k = None
        it = simp_int(r_ * S + c_)
        rng = [And(r_ >= R0_, r_ < R1_), And(c_ >= 0, c_ < S)]
    V = [v for v in assigned_vars(eng, body, st) if v != C.key]
    st.env[C.key] = it
    # closed forms of carried locals found by earlier attempts
    st0p = st0.clone()
    for v, pf in prefix_vars.items():
        for f in pf.facts:
            st.assume(f)
            st0p.assume(f)
    base_facts = len(st.pc)
    for f in rng:
        st.assume(f, FACT)
    names = {v: var_name(eng, v) for v in V}
    priv = set()
    start = {}
    cells = {}
    probed = [r for r, m in regmode.items() if m[0] == "cell" and len(m) < 2]
    found = {}
    for r in probed:
        # location of the single cell: found by a probe in which the other candidates hold anything
        loc = fixed_cell(eng, st0, C, body, r, k, rng, V, prefix_vars, mark, regmode) if reidx is None and r.ety is not None else None
        if loc is not None:
            found[r] = loc
    for r in probed:
        if r in found:
            regmode[r] = ("cell", found[r])
        else:
            nocell.add(r)
            if found:
                del regmode[r]       # its locations may depend on a cell: look again
            else:
                regmode[r] = ("acc",)
    for r, m in list(regmode.items()):
        if m[0] != "cell":
            continue
        cv = ("cell", r)
        cells[cv] = (r, m[1])
        V.append(cv)
        names[cv] = r.name
        st.env[cv] = st0p.env[cv] = eng.content(st0, r).read(m[1])
    for v in V:
        cur = st.env[v]
        t = vtype(eng, v)
        if isinstance(cur, tuple) and cur[0] == "cell":
            raise Undecided("address-taken local assigned in a loop")
        if isinstance(cur, (Ptr, Obj, PIte, Poison)):
            st.env[v] = Poison(names[v])
            start[v] = None
            continue
        if v in prefix_vars:
            # closed form from a previous attempt
            st.env[v] = prefix_vars[v].fn(k)
            start[v] = None
            continue
        s = eng.fresh_val(t, names[v] or "v")
        start[v] = s
        st.env[v] = s
    for cv, (r, loc) in cells.items():
        st.mem[r] = Store(eng.content(st0, r), loc, st.env[cv])
    regs0 = set(st.mem) | set(st.alive)
    # accumulating regions start from an arbitrary content
    acc0 = {}
    for r, m in regmode.items():
        if m[0] in ("cell", "same"):
            if m[0] == "same" and clauses is not None and local_name(eng, st0, r) in clauses["private"]:
                regmode[r] = m = ("fresh",)      # a private copy starts uninitialised
            else:
                continue
        c0 = Fresh(r.name + "~", r.ety.k)
        acc0[r] = c0
        if m[0] == "fresh":
            havoc_at(eng, st, st0, r, c0, m[1] if len(m) > 1 else None)
        else:
            st.mem[r] = c0
            if r.ety.k == "int":
                st.inv[r] = Fresh(r.name + "~inv", "int")
    st.wlog, st.rlog = [], []
    eng.logbase.append(len(st.pc))
    alive0 = dict(st.alive)
    fields0 = dict(st.fields)
    try:
        outs = eng.exec(body, st)
    finally:
        eng.logbase.pop()
    end = eng.merge(outs.pop(NORMAL, None), outs.pop(CONT, None))
    if end is not None:
        for cv, (r, loc) in cells.items():
            end.env[cv] = eng.content(end, r).read(loc)
        for v, pf in prefix_vars.items():
            if pf.step is not None:
                end.assume(pf.step(k))
    if outs.get(BREAK) is not None or outs.get(RET) is not None:
        if reidx is not None or regmode or prefix_vars:
            raise Undecided("early exit in a summarised loop")
        return search_loop(eng, st0, C, path, k, rng, end, outs, V, start, mark, clauses, base_facts, body)
    if end is None:
        # every iteration aborts: the loop body must be unreachable
        s = st0.clone()
        s.env[C.key] = C.end
        eng.oblige(s, "noerror", "loop that always fails is not entered", Not(C.lo < C.hi))
        s.assume(Not(C.lo < C.hi))
        return {NORMAL: s}
    ub_stable(eng, end, C, st0)
    if [x for x in end.alive if x in alive0 and not (end.alive[x] is alive0[x] or end.alive[x].eq(alive0[x]))]:
        raise Undecided("loop frees memory allocated outside")
    for kf, v in end.fields.items():
        if kf in fields0 and fields0[kf] is not v and isinstance(kf, tuple) and kf[0] != "glob":
            if not (is_ptr(v) and same_ptr(v, fields0[kf])):
                raise Undecided(f"loop changes object field {kf}")
    if end.log != st0.log:
        raise Undecided("calls with traced effects in a loop")
    wl = [w for w in end.wlog if not isinstance(w.reg, Region) or w.reg in regs0]
    rl = [w for w in end.rlog if w.reg in regs0]
    # fields of objects the iteration itself created are local to it
    objname = lambda x: x.name if isinstance(x, Obj) else x[0] if isinstance(x, tuple) else None
    wl = [w for w in wl if isinstance(w.reg, Region) or objname(w.reg) is None or objname(w.reg) in alive0]
    if any(not isinstance(w.reg, Region) for w in wl):
        raise Undecided("object fields written in a loop")
    # row objects allocated by the iteration and stored into an array of pointers form a family
    fams, kept = [], set()
    for w in list(wl):
        if isinstance(w.val, (PIte, Ptr, Poison)) or isinstance(w.val, Obj) and (w.val.name in alive0 or w.val.name in eng.families):
            raise Undecided("pointer stored by a loop")
        if isinstance(w.val, Obj):
            if reidx is not None or not (len(w.locs) == 1 and peq(w.locs[0], k)) or C.step != 1 or not (is_num(C.lo) and num(C.lo) == 0):
                raise Undecided("row pointers not stored one by one")
            if any(x is not w and x.reg is w.reg for x in wl) or not eng.prove_now(end, w.guard):
                raise Undecided("row pointers stored more than once or under a condition")
            if any(f[1].name == w.val.name for f in fams):
                eng.oblige(end, "memory", "every row has its own storage", z3.BoolVal(False), line)
            fams.append((w.reg, w.val))
            wl.remove(w)
            for x in family.parts(eng, end, w.val):
                kept.add(x)
    # leaks inside the loop
    for x, al in end.alive.items():
        if x not in alive0 and isinstance(x, Region) and x.kind == "heap" and x not in kept:
            eng.oblige(end, "leak", f"block {eng.rname(x)} allocated in a loop iteration is released", Not(al), line)
    res = st0.clone()
    res.env[C.key] = C.end
    for v, pf in prefix_vars.items():
        for f in pf.facts:
            res.assume(f)
    for cv in cells:
        res.env[cv] = st0p.env[cv]
    new_facts = [(kk, f) for kk, f in end.pc[base_facts + len(rng):] if kk == FACT]
    brs = [f for kk, f in end.pc[base_facts + len(rng):] if kk == BR]
    if brs:
        # paths that aborted inside the body: the continuing path's condition holds in every iteration
        new_facts += [(FACT, f) for f in brs]
    # ---------- scalars
    startsyms = {s.decl().name(): v for v, s in start.items() if s is not None and not isinstance(s, Cx)}
    for v, s in start.items():
        if isinstance(s, Cx):
            startsyms[s.re.decl().name()] = v
            startsyms[s.im.decl().name()] = v
    # variables that do not change keep their entry value
    stable = {}
    for v in V:
        ev_ = end.env.get(v)
        s = start[v]
        if s is not None and ev_ is s:
            stable[v] = st0p.env[v]

    def restore(t):
        """replace start symbols of unchanged locals by their entry value"""
        for v, val in stable.items():
            s = start[v]
            if isinstance(s, Cx):
                t = subst(t, (s.re, val.re), (s.im, val.im))
            else:
                t = subst(t, (s, val))
        return t
    summ = {}
    prefix = {}
    omp = clauses is not None
    pending = []
    racy = set()
    for v in V:
        fin = end.env.get(v)
        s = start[v]
        nm = names[v]
        isprivate = omp and (nm in clauses["private"] or nm in clauses["firstprivate"] or nm in clauses["lastprivate"])
        isred = omp and nm in clauses["reduction"]
        if v in stable:
            continue
        if omp and not isprivate and not isred and not decl_local_to(eng, v, body) and v not in cells:
            racy.add(v)
        if isinstance(fin, (Ptr, Obj, PIte, Poison)) or fin is None:
            res.env[v] = Poison(nm)
            continue
        if omp and nm in clauses["private"] or (omp and nm in clauses["firstprivate"]):
            if mentions(fin, s):
                pass
            res.env[v] = eng.fresh_val(vtype(eng, v), nm)
            pending.append((v, None))
            continue
        if s is None:
            # prefix variable: check its closed form advances
            continue
        if mentions(fin, s) and not isinstance(s, Cx) and not isinstance(fin, Cx) and lin_rest(fin, s) is None:
            o_ = subst(fin, (s, eng.fresh_val(vtype(eng, v), "other")))
            if eng.prove_now(end, fin == o_):
                fin = subst(fin, (s, z3.RealVal(0) if z3.is_real(s) else z3.IntVal(0)))
        elif mentions(fin, s) and isinstance(s, Cx) and isinstance(fin, Cx) and (lin_rest(fin.re, s.re) is None or lin_rest(fin.im, s.im) is None):
            ot = eng.fresh_val(vtype(eng, v), "other")
            o_ = subst(fin, (s.re, ot.re), (s.im, ot.im))
            if eng.prove_now(end, veq(fin, o_)):
                fin = subst(fin, (s.re, z3.RealVal(0)), (s.im, z3.RealVal(0)))
        if not mentions_any(fin, startsyms):
            # last value
            kk = C.hi - 1 if reidx is None else None
            if kk is None:
                res.env[v] = eng.fresh_val(vtype(eng, v), nm)
            else:
                fin2 = skolem_free(fin, mark, params)
                if fin2 is None:
                    res.env[v] = eng.fresh_val(vtype(eng, v), nm)
                else:
                    res.env[v] = eng.ite(C.lo < C.hi, subst(fin2, (k, simp_int(C.hi - 1))), st0p.env[v])
            pending.append((v, None))
            continue
        pending.append((v, fin))
    # arrays assembled by several loops get a name before their entries are used as positions
    big = []
    for x in {y.reg for y in rl} - {y.reg for y in wl}:
        if isinstance(x, Region) and x.ety is not None and x.ety.k == "int" and x.shape is not None and x in st0.mem and pieces(st0.mem[x]) > 1 \
                and x not in named and inverse_known(eng, st0, x):
            big.append(x)
    if big:
        raise RetryAlias(big)
    # which start symbols are used by writes / conditions (i.e. as prefix values)?
    used = set()
    for w in wl + rl:
        for t in list(w.locs) + [w.guard] + ([w.val] if w.val is not None and not is_ptr(w.val) else []):
            used |= {startsyms[x] for x in syms(t) if x in startsyms}
    for _, f in new_facts:
        used |= {startsyms[x] for x in syms(f) if x in startsyms}
    used -= set(stable)
    accs = []
    skl = Skolem(mark, params)
    lasts = {}
    for v, fin in pending:
        if fin is not None and v not in used and reidx is None:
            lv = last_match(eng, st0, end, C, k, rng, restore(fin), start[v], startsyms, mark, params)
            if lv is not None and not (omp and names[v] in clauses["reduction"]):
                lasts[v] = lv
    for v in racy:
        if not (v in lasts and lasts[v][3]):
            eng.oblige(st0, "race", f"variable '{names[v]}' assigned in a parallel loop is private or reduced", z3.BoolVal(False), line)
    for v, fin in pending:
        if v in lasts:
            c, val, pos, _ = lasts[v]
            kk, in_range, fs = pos
            for f in fs:
                res.assume(f)
            res.env[v] = eng.ite(in_range, subst(val, (k, kk)), st0p.env[v])
            continue
        if fin is None:
            if v in used:
                # value from the previous iteration is used although it is overwritten
                raise Undecided(f"loop {path}: '{names[v]}' is carried between iterations")
            continue
        s = start[v]
        fin = restore(fin)
        red = classify(eng, fin, s, startsyms, v, clauses, names[v])
        if red is None:
            if __import__('os').environ.get("DBGL"):
                print("UNCLASSIFIED", names[v], "start", s, "fin", fin)
            raise Undecided(f"loop {path}: local '{names[v]}' needs an invariant")
        kind, t = red
        t = skl(t)      # values created in the iteration become functions of the loop index
        if omp and names[v] in clauses["reduction"]:
            opn = clauses["reduction"][names[v]]
            if {"sum": "+", "max": "max", "min": "min"}.get(kind) != opn and not (kind == "sum" and opn == "-"):
                eng.oblige(st0, "race", f"reduction clause of '{names[v]}' matches its use", z3.BoolVal(False), line)
        if v in used:
            if reidx is not None:
                raise Undecided(f"loop {path}: '{names[v]}' is carried through a re-indexed loop")
            if kind == "sum" and not isinstance(t, Cx) and z3.is_int(t) and depends(t, k) and zero_one(t):
                raise RetryPrefix(v, counter(eng, C, k, st0p.env[v], t, names[v]))
            pf = Prefix((lambda kind, t, v0: (lambda kq: reduce_term(kind, v0, C, k, t, kq)))(kind, t, st0p.env[v]))
            pf.kind, pf.t, pf.tk = kind, t, k
            raise RetryPrefix(v, pf)
        res.env[v] = reduce_nest(kind, st0p.env[v], C, params, reidx, t)
        accs.append((v, kind, t))
        if reidx is None:
            extremum_bounds(res, C, kind, t, k, res.env[v])
    for v in prefix_vars:
        # closed form: value at iteration k is f(k); after the loop f(hi); check the step
        f = prefix_vars[v].fn
        fin = end.env.get(v)
        ok = veq(fin, f(simp_int(k + 1)))
        if same_step(eng, end, prefix_vars[v], fin, k, startsyms, v, clauses, names[v]):
            ok = z3.BoolVal(True)
        if not eng.prove_now(end, ok, extra=unfold_facts(f(k), f(simp_int(k + 1)), k)):
            raise Undecided(f"loop {path}: closed form of '{names[v]}'")
        kend = C.hi if eng.prove_now(st0, C.lo <= C.hi) else If(C.lo < C.hi, C.hi, C.lo)
        res.env[v] = f(kend)
        pf = prefix_vars[v]
        if getattr(pf, "kind", None) in ("max", "min"):
            extremum_bounds(res, C, pf.kind, subst(pf.t, (pf.tk, k)), k, res.env[v])
    # ---------- memory
    regs = []
    for w in wl:
        if w.reg not in regs:
            regs.append(w.reg)
    if fams and regmode:
        raise Undecided("rows allocated by a loop that also accumulates")
    need_reg, updates = [], []
    P = params
    for r in regs:
        ws = [w for w in wl if w.reg is r]
        rs = [w for w in rl if w.reg is r]
        if omp and thread_private(eng, st0, r, clauses) and r not in regmode:
            # thread private copy: the original array keeps its content; the copy is restored by every iteration
            # ("same") or its content at the start of an iteration does not matter ("fresh")
            regmode[r] = ("acc",)
            raise RetryReg([r])
        md = regmode.get(r, (None,))[0]
        if md == "cell":
            if not all(len(w.locs) == len(regmode[r][1]) and all(peq(a, b) for a, b in zip(w.locs, regmode[r][1])) for w in ws):
                raise RetryReg([r])
            continue
        if md == "acc":
            try:
                updates.append((r, accumulate(eng, st0, end, C, params, reidx, r, ws, rs, acc0[r], mark, restore, path)))
            except Undecided as x:
                raise RetryReg([r], str(x))
            if omp and not all(w.atomic for w in ws):
                eng.oblige(st0, "race", f"accumulation into {eng.rname(r)} in a parallel loop is atomic",
                           z3.BoolVal(False), line)
            continue
        if md == "same":
            q = [fint("q") for _ in range(len(ws[0].locs))]
            if not eng.prove_now(end, veq(eng.content(end, r).read(q), eng.content(st0, r).read(q)), extra=in_shape(eng, st0, r, q)):
                raise RetryReg([r])
            updates.append((r, ("same",)))
            continue
        if md == "fresh":
            fx = fixed_comps(ws, P, mark)
            if len(regmode[r]) < 2:
                regmode[r] = ("fresh", fx)
                if any(f is not None for f in fx):
                    raise RetryAgain()
            elif any((a is None) != (b is None) or a is not None and not peq(a, b) for a, b in zip(fx, regmode[r][1])):
                raise Undecided(f"loop {path}: footprint of {eng.rname(r)} does not stabilise")
            updates.append((r, ("fresh", regmode[r][1])))
            continue
        inj = all(any(depends_any(l, P) for l in w.locs) for w in ws)
        if not inj:
            need_reg.append(r)
            continue
        if reidx is None and needs_reindex(eng, r, ws, k):
            pass
        if not disjoint(eng, st0p, P, rng, ws, rs, r, startsyms, line, "race" if omp else "frame", order=(not omp and reidx is None)):
            need_reg.append(r)
            continue
        for w in ws:
            pp = P + w.params
            try:
                sol = solve_params(pp, list(w.locs), [z3.Int(f"?t{i}") for i in range(len(w.locs))])
            except Undecided:
                sol = None
            if sol is None:
                al = [x for x in {y.reg for y in rl} if isinstance(x, Region) and x.ety is not None and x.ety.k == "int" and x in st0.mem
                      and x not in {y.reg for y in wl} and not isinstance(eng.content(st0, x), Const) and not (isinstance(eng.content(st0, x), Fresh) and eng.content(st0, x).name in INV) and x.shape is not None]
                if al:
                    raise RetryAlias(al)
                raise Undecided("map store with a non-invertible location")
            if uses_inverse(pp, w.locs):
                sub, _ = solve_params(pp, list(w.locs), list(w.locs))
                goal = And([b == a for a, b in sub])
                if not eng.prove_now(end, Implies(w.guard, goal)):
                    raise Undecided(f"loop {path}: positions written in {eng.rname(r)} are not recovered by the ghost inverse")
        updates.append((r, ("map", ws)))
    if need_reg:
        raise RetryReg(need_reg)
    for r, u in updates:
        if u[0] == "map":
            c = eng.content(res, r)
            gi = eng.inv_content(res, r) if r.ety.k == "int" else None
            for w in u[1]:
                g = And([skl(restore(w.guard), w.params)] + rng)
                locs = [skl(restore(x), w.params) for x in w.locs]
                val = skl(restore(w.val), w.params)
                pp = P + w.params
                c = MapStore(c, pp, g, locs, val)
                if gi is not None:
                    gi = inv_map(eng, end, gi, pp, g, locs, val)
                if res.wlog is not None:
                    pass
            res.mem[r] = c
            if gi is not None:
                res.inv[r] = gi
            if r.ety.k == "int" and r.arity == 1:
                for w in u[1]:
                    n = w.locs[0]
                    if z3.is_app(n) and "#cnt" in n.decl().name() and n.decl().name() in memory.INV and n.num_args() == 1:
                        memory.PIGEON[n.decl().name()] = (c, simp_int(C.hi), r.shape[0])
        elif u[0] == "same":
            pass
        elif u[0] == "fresh":
            if not (omp and thread_private(eng, st0, r, clauses)):
                havoc_at(eng, res, st0, r, Fresh(r.name + "'", r.ety.k), u[1])
        else:
            res.mem[r] = u[1]
            if r.ety.k == "int":
                res.inv[r] = Fresh(r.name + "'inv", "int")
    for r, o in fams:
        fam = family.created(eng, end, res, o, C.hi, k, lambda t, b: skl(restore(t), b))
        res.mem[r] = Fn(lambda l, fam=fam: fam.obj(l[0]))
        if res.wlog is not None:
            raise Undecided("rows allocated by a nested loop")
    for cv, (r, loc) in cells.items():
        if any(w.reg is r for w in wl):
            eng.raw_store(res, r, loc, res.env[cv])
    # propagate the records to an enclosing summarised loop
    if res.wlog is not None:
        for w in wl:
            if w.reg in regmode:
                continue
            res.wlog.append(Rec(w.reg, P + w.params, And([outer_guard(eng, st0), skl(restore(w.guard), w.params)] + rng),
                                [skl(restore(x), w.params) for x in w.locs], skl(restore(w.val), w.params), w.atomic, w.line))
        for cv, (r, loc) in cells.items():
            if any(w.reg is r for w in wl):
                res.wlog.append(Rec(r, [], And([outer_guard(eng, st0), C.lo < C.hi]), list(loc), res.env[cv], False, line))
        for r, u in updates:
            if u[0] in ("same", "fresh"):
                fx = u[1] if len(u) > 1 else [None] * len([w for w in wl if w.reg is r][0].locs)
                qs = [fint("any") if f is None else f for f in fx]
                res.wlog.append(Rec(r, [x for x, f in zip(qs, fx) if f is None], outer_guard(eng, st0), qs,
                                    eng.content(res, r).read(qs), False, line))
            if u[0] == "acc":
                for w in [x for x in wl if x.reg is r]:
                    locs = [skl(restore(x), w.params) for x in w.locs]
                    res.wlog.append(Rec(r, list(w.params), And([outer_guard(eng, st0), skl(restore(w.guard_noK), w.params)] if hasattr(w, "guard_noK") else [outer_guard(eng, st0)] + u[2]), locs,
                                        u[1].read(locs), w.atomic, w.line))
                    break
        for w in rl:
            res.rlog.append(Rec(w.reg, P + w.params, And([outer_guard(eng, st0), skl(restore(w.guard), w.params)] + rng),
                                [skl(restore(x), w.params) for x in w.locs], None, w.atomic, w.line))
    for cv in cells:
        res.env.pop(cv, None)
    # facts about values created inside (e.g. results of called contracts), for every iteration
    for kk, f in new_facts:
        if mentions_any(f, {x: 1 for x in startsyms if startsyms[x] not in stable}):
            continue
        for g in generalise(skl, restore(f), P, rng):
            res.assume(g)
    return {NORMAL: res}


prefix_vars_val = {}


class RetryAgain(Exception):
    pass


def generalise(skl, f, P, rng):
    """the fact f about one iteration, for all iterations: nested quantifiers are merged and patterns kept"""
    if z3.is_and(f):
        return [g for c in f.children() for g in generalise(skl, c, P, rng)]
    prem = []
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES and z3.is_quantifier(f.arg(1)):
        prem, f = [f.arg(0)], f.arg(1)
    vs, pats = [], []
    if z3.is_quantifier(f) and f.is_forall():
        vs = [z3.Const(fresh_name("b"), f.var_sort(i)) for i in range(f.num_vars())]
        rv = list(reversed(vs))
        pats = [[z3.substitute_vars(x, *rv) for x in f.pattern(i).children()] for i in range(f.num_patterns())]
        f = z3.substitute_vars(f.body(), *rv)
    skl.used = False
    body = skl(Implies(And(prem), f) if prem else f, vs)
    pats = [[skl(x, vs) for x in mp] for mp in pats]
    if not depends_any(body, P):
        if not vs:
            return [body]
        return [z3.ForAll(vs, body, patterns=[z3.MultiPattern(*mp) if len(mp) > 1 else mp[0] for mp in pats])]
    if not vs and not skl.used:
        # a plain fact about the iteration that mentions no value created in it
        return []
    bound = list(P) + vs
    names = {b.decl().name() for b in bound}
    good = []
    for mp in pats:
        have = set()
        for x in mp:
            have |= free_syms(x)
        if names <= have:
            good.append(z3.MultiPattern(*mp) if len(mp) > 1 else mp[0])
    if not good:
        good = cover_pattern(body, names)
    return [z3.ForAll(bound, Implies(And(rng), body), patterns=good) if good else z3.ForAll(bound, Implies(And(rng), body))]


def cover_pattern(body, names):
    """a smallest uninterpreted application that contains all bound variables"""
    best = []
    seen = set()
    stk = [body]
    while stk:
        x = stk.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        stk.extend(x.children())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and names <= free_syms(x) and "#" in x.decl().name():
            if not any(y.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_LE, z3.Z3_OP_AND) for y in x.children()):
                best.append(x)
    best.sort(key=lambda x: len(x.sexpr()))
    return best[:2]


def vtype(eng, v):
    return v[1].ety if v[0] == "cell" else decl_type(eng, v)


def in_shape(eng, st, r, q):
    """facts: q is a location of region r"""
    if r.shape is None:
        eng.fix_shape(r, z3.IntVal(0))
    out = []
    lead = q[:r.nlead]
    for x, e in zip(q[r.nlead:], r.shape):
        e = e(st, lead) if callable(e) else e
        out.append(And(x >= 0, x < e))
    return out


def fixed_comps(ws, P, mark):
    n = len(ws[0].locs)
    out = []
    pn = {p.decl().name() for p in P}
    for i in range(n):
        l0 = ws[0].locs[i]
        ok = all(peq(w.locs[i], l0) for w in ws) and not any(created_after(x, mark) or x in pn for x in free_syms(l0)) \
            and not any(depends(l0, p) for w in ws for p in w.params)
        out.append(l0 if ok else None)
    return out


def havoc_at(eng, s, st0, r, new, fixed):
    old = eng.content(st0, r)
    comps = [i for i, f in enumerate(fixed or []) if f is not None]
    if not comps:
        s.mem[r] = new
        if r.ety.k == "int":
            s.inv[r] = Fresh(r.name + "~inv", "int")
        return

    def read(l):
        return If(And([l[i] == fixed[i] for i in comps]), new.read(l), old.read(l))
    s.mem[r] = Fn2(read, new, comps, fixed, old)
    if r.ety.k == "int":
        ic = [i for i in comps if i != len(fixed) - 1]
        if not ic:
            s.inv[r] = Fresh(r.name + "~inv", "int")
        else:
            ni, oi = Fresh(r.name + "~inv", "int"), eng.inv_content(st0, r)
            s.inv[r] = Fn2(lambda l: If(And([l[i] == fixed[i] for i in ic]), ni.read(l), oi.read(l)), ni, ic, fixed, oi)


def fixed_cell(eng, st0, C, body, r, k, rng, V, prefix_vars, mark, others):
    """the one cell of r that the loop body writes, if there is only one and it is the same in every iteration"""
    s = st0.clone()
    s.env[C.key] = C.val(k)
    for f in rng:
        s.assume(f)
    for v in V:
        if v[0] == "cell":
            continue
        cur = s.env[v]
        if isinstance(cur, (Ptr, Obj, PIte, Poison)):
            s.env[v] = Poison("dry")
        elif isinstance(cur, tuple):
            return None
        elif v in prefix_vars:
            s.env[v] = prefix_vars[v].fn(k)
        else:
            s.env[v] = eng.fresh_val(decl_type(eng, v), "dry")
    for x in list(others) + [r]:
        if x.ety is not None:
            s.mem[x] = Fresh(x.name + "~dry", x.ety.k)
    s.wlog, s.rlog = [], []
    eng.dry += 1
    eng.logbase.append(len(s.pc))
    n0 = len(eng.obls)
    try:
        outs = eng.exec(body, s)
    except (Undecided, Abort):
        return None
    finally:
        del eng.obls[n0:]
        eng.logbase.pop()
        eng.dry -= 1
    ws = [w for o in outs.values() for w in o.wlog if w.reg is r]
    if not ws:
        return None
    if any("~dry" in nm for w in ws for l in w.locs for nm in syms(l)):
        return None
    fx = fixed_comps(ws, [k], mark)
    return fx if all(f is not None for f in fx) else None


def outer_guard(eng, st0):
    return st0.guard_since(eng.logbase[-1]) if len(eng.logbase) > 1 else z3.BoolVal(True)


def next_mark():
    return int(fresh_name("").split("!")[1])


def syms(t):
    if isinstance(t, Cx):
        return free_syms(t.re) | free_syms(t.im)
    if t is None or is_ptr(t) or isinstance(t, (tuple, str, Poison)):
        return set()
    return free_syms(t)


def mentions(t, s):
    if s is None:
        return False
    if isinstance(s, Cx):
        return mentions(t, s.re) or mentions(t, s.im)
    return s.decl().name() in syms(t)


def mentions_any(t, names):
    return any(x in names for x in syms(t))


def depends_any(t, ps):
    s = syms(t)
    return any(p.decl().name() in s for p in ps)


def decl_local_to(eng, key, body):
    return False


def local_name(eng, st, r):
    for (d, nm), k in eng.names.items():
        v = st.env.get(k)
        if isinstance(v, Ptr) and v.reg is r:
            return nm
    return None


def created_after(name, mark):
    m = re.findall(r"!(\d+)", name)
    return bool(m) and int(m[-1]) >= mark


def deep_syms(t):
    """symbols of t, looking into the summands of sums"""
    r = set(free_syms(t))
    todo = [n for n in r if n in OPS.tab]
    seen = set(todo)
    while todo:
        op, p, cs, b, d = OPS.tab[todo.pop()]
        new = set(free_syms(b)) - {c.decl().name() for c in cs} - {p.decl().name()}
        r |= new
        for n in new:
            if n in OPS.tab and n not in seen:
                seen.add(n)
                todo.append(n)
    return r


class Skolem:
    """Values created inside one iteration become functions of the iteration's parameters."""

    def __init__(self, mark, params):
        self.mark, self.params, self.map, self.used, self.own = mark, params, {}, False, set()
        self.pn = {p.decl().name() for p in params}

    def __call__(self, t, bound=()):
        if isinstance(t, Cx):
            return Cx(self(t.re, bound), self(t.im, bound))
        if bound:
            bound = {p.decl().name() for p in bound}
        bad = [x for x in syms(t) if created_after(x, self.mark) and x not in self.pn and x not in bound
               and x not in self.own]
        if not bad:
            return t
        bad = set(bad)
        # sums whose summand mentions such values are rebuilt
        t = self.sums(t, bad, bound)
        # constants and functions occurring syntactically
        cs, fs = {}, {}
        seen = set()
        stk = [t]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stk.append(x.body())
                continue
            if z3.is_app(x):
                nm = x.decl().name()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm in bad:
                    if x.num_args() == 0:
                        cs[nm] = x
                    else:
                        fs[nm] = x.decl()
                stk.extend(x.children())
        self.used = True
        sub = []
        for nm, c in cs.items():
            if nm not in self.map:
                f = z3.Function(nm + "#sk", *[z3.IntSort()] * len(self.params), c.sort())
                self.map[nm] = f
                self.own.add(f.name())
            sub.append((c, self.map[nm](*self.params)))
        r = z3.substitute(t, *sub) if sub else t
        for nm, d in fs.items():
            if nm not in self.map:
                ss = [d.domain(i) for i in range(d.arity())]
                self.map[nm] = z3.Function(nm + "#sk", *([z3.IntSort()] * len(self.params)), *ss, d.range())
                self.own.add(self.map[nm].name())
                self.register(nm)
            g = self.map[nm]
            r = z3.substitute_funs(r, (d, g(*self.params, *[z3.Var(i, d.domain(i)) for i in range(d.arity())])))
        return r


    def sums(self, t, bad, bound):
        def touched(x):
            nm = x.decl().name()
            if nm not in OPS.tab:
                return False
            op, p, cs, b, d = OPS.tab[nm]
            own = {c.decl().name() for c in cs} | {p.decl().name()}
            return bool((deep_syms(b) - own) & bad)
        cache = {}

        def walk(x):
            i = x.get_id()
            if i in cache:
                return cache[i]
            r = x
            if z3.is_quantifier(x):
                if any(touched(y) for y in collect_apps([x.body()], lambda y: True)):
                    raise Undecided("quantified sum over values created inside a loop iteration")
            elif z3.is_app(x) and x.num_args() > 0:
                ch = [walk(c) for c in x.children()]
                if touched(x):
                    op, p, cs, b, d = OPS.tab[x.decl().name()]
                    kk = z3.Int(fresh_name("sk") + "#b")
                    self.own.add(kk.decl().name())
                    body = z3.substitute(b, (p, kk), *zip(cs, ch[2:])) if cs else z3.substitute(b, (p, kk))
                    body = self(body, [z3.Int(n) for n in bound] + [kk])
                    r = OPS.sum(ch[0], ch[1], kk, body) if op == "Σ" else OPS.ext(op, ch[0], ch[1], kk, body)
                elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                    r = x.decl()(*ch)
            cache[i] = r
            return r
        if any(touched(y) for y in collect_apps([t], lambda y: y.decl().name() in OPS.tab)):
            return walk(t)
        return t

    def register(self, nm):
        """the ghost inverse of an index function carries over to its Skolem function"""
        import memory
        if nm not in memory.INV:
            return
        f, inv = self.map[nm], memory.INV[nm]
        n = len(self.params)
        ld = [z3.Int(fresh_name("ld") + "#b") for _ in range(f.arity() - n - 1)]
        tv = z3.Int(fresh_name("tv") + "#b")
        t = inv(ld, tv)
        if t is None:
            return
        t = self(t, ld + [tv])
        ps = list(self.params)

        def ninv(lead, x, t=t, ps=ps, ld=ld, tv=tv, n=n):
            return z3.substitute(t, *zip(ps, lead[:n]), *zip(ld, lead[n:]), (tv, x))
        memory.INV[f.name()] = ninv


def skolem_free(t, mark, params):
    """t if it contains no value created inside the iteration (other than the parameters)"""
    pn = {p.decl().name() for p in params}
    for x in syms(t):
        if created_after(x, mark) and x not in pn:
            return None
    return t


def classify(eng, fin, s, startsyms, v, clauses, name):
    """fin as function of the start symbol s: ('sum', t) | ('max', t) | ('min', t)"""
    if isinstance(s, Cx):
        a = lin_rest(fin.re, s.re)
        b = lin_rest(fin.im, s.im)
        if a is None or b is None or mentions_any(a, startsyms) or mentions_any(b, startsyms):
            return None
        return "sum", Cx(a, b)
    a = lin_rest(fin, s)
    if a is not None and not mentions_any(a, startsyms):
        return "sum", a
    e = extremum(fin, s)
    if e is not None and not mentions_any(e[1], startsyms):
        return e
    return None


def split_last(t, s):
    """(c, val) with t = If(c, val, s), c and val free of s; or None"""
    if t.eq(s):
        return z3.BoolVal(False), None
    if not depends(t, s):
        return z3.BoolVal(True), t
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE) or depends(t.arg(0), s):
        return None
    a, b = split_last(t.arg(1), s), split_last(t.arg(2), s)
    if a is None or b is None:
        return None
    g = t.arg(0)
    val = b[1] if a[1] is None else a[1] if b[1] is None else If(g, a[1], b[1])
    if z3.is_false(b[0]):
        return And(g, a[0]), val
    if z3.is_false(a[0]):
        return And(Not(g), b[0]), val
    return Or(And(g, a[0]), And(Not(g), b[0])), val


def unique_at(eng, st, c, k):
    """a term that k equals whenever c(k) holds (position given by the ghost inverse of an index function), or None"""
    conj = []
    stk = [c]
    while stk:
        x = stk.pop()
        if z3.is_and(x) or z3.is_or(x) and x.num_args() == 1:
            stk += x.children()
        elif z3.is_eq(x):
            conj += [(x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))]
    for l, t in conj:
        if depends(t, k) or not z3.is_int(l):
            continue
        iv = inverse_of(l, k, t)
        if iv is None:
            d = poly(l)
            if d.get((k.get_id(),)) == 1 and not depends(poly_term(padd(d, poly(k), -1)), k):
                iv = simp_int(t - poly_term(padd(d, poly(k), -1)))
        if iv is not None and eng.prove_now(st, Implies(c, k == iv)):
            return iv
    return None


def last_match(eng, st0, end, C, k, rng, fin, s, startsyms, mark, params):
    """A variable that some iterations overwrite (under a condition) and the others keep: its final value is the one of
    the last iteration whose condition holds.  -> (condition, value, (position, any match, facts), at most one match)"""
    if isinstance(s, Cx):
        if not isinstance(fin, Cx):
            return None
        a, b = split_last(fin.re, s.re), split_last(fin.im, s.im)
        if a is None or b is None or a[1] is None or b[1] is None or not a[0].eq(b[0]):
            return None
        c, val = a[0], Cx(a[1], b[1])
    else:
        if s is None or isinstance(fin, Cx):
            return None
        a = split_last(fin, s)
        if a is None or a[1] is None:
            return None
        c, val = a
    if z3.is_true(c) or mentions_any(c, startsyms) or mentions_any(val, startsyms):
        return None
    if skolem_free(c, mark, params) is None or skolem_free(val, mark, params) is None:
        return None
    iv = unique_at(eng, end, c, k)
    if iv is not None:
        return c, val, (iv, And(C.lo <= iv, iv < C.hi, z3.substitute(c, (k, iv))), []), True
    m, q = fint("last"), fint("q")
    cq = z3.substitute(c, (k, q))
    body = Implies(And(q >= C.lo, q < C.hi, cq), q <= m)
    pat = [x for x in collect_apps([cq], lambda x: x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and depends(x, q)
                                  and all(not z3.is_app(y) or y.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM) for y in x.children()))]
    fs = [And(m >= C.lo - 1, Or(m < C.hi, m == C.lo - 1)), Implies(m >= C.lo, z3.substitute(c, (k, m))),
          z3.ForAll([q], body, patterns=pat[:3]) if pat else z3.ForAll([q], body)]
    q2 = fint("q")
    one = eng.prove_now(end, Implies(And(c, q2 >= C.lo, q2 < C.hi, z3.substitute(c, (k, q2))), k == q2))
    return c, val, (m, m >= C.lo, fs), one


def lin_rest(t, s):
    """t - s, if t = s + rest with rest free of s (through conditionals)"""
    if t.eq(s):
        return z3.RealVal(0) if z3.is_real(t) else z3.IntVal(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c = t.arg(0)
        if depends(c, s):
            return None
        a, b = lin_rest(t.arg(1), s), lin_rest(t.arg(2), s)
        if a is None or b is None:
            return None
        return If(c, a, b)
    p = poly(t)
    d = padd(p, poly(s), -1)
    r = poly_term(d, z3.is_real(t))
    if not depends(r, s):
        return r
    # s hidden in a conditional summand: t = If(c, s+x, s) + y
    for m, c in p.items():
        if len(m) == 1 and c == 1:
            from terms import _atoms
            at = _atoms[m[0]]
            if z3.is_app(at) and at.decl().kind() == z3.Z3_OP_ITE and depends(at, s):
                inner = lin_rest(at, s)
                if inner is None:
                    return None
                rest = poly_term({mm: cc for mm, cc in p.items() if mm != m}, z3.is_real(t))
                if depends(rest, s):
                    return None
                return radd(inner, rest) if z3.is_real(t) else simp_int(inner + rest)
    return None


def extremum(t, s):
    """If(e > s, e, s) and the like; e may be conditional"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = t.children()
    neg = False
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    k = c.decl().kind()
    if k not in (z3.Z3_OP_GT, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_LE):
        return None
    x, y = c.children()
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        x, y = y, x       # now condition is x > y
    # x > y ? a : b
    if y.eq(s) and b.eq(s) and peq(a, x):
        return "max", x
    if x.eq(s) and b.eq(s) and peq(a, y):
        return "min", y
    if x.eq(s) and a.eq(s) and peq(b, y):
        return "max", y
    if y.eq(s) and a.eq(s) and peq(b, x):
        return "min", x
    return None


def reduce_term(kind, v0, C, k, t, upto):
    if kind == "sum":
        if isinstance(t, Cx):
            return vadd(v0, OPS.sum(C.lo, upto, k, t))
        if z3.is_int(t):
            if not depends(t, k):
                return simp_int(v0 + (upto - C.lo) * t) if True else None
            return v0 + isum(C.lo, upto, k, t)
        return radd(v0, OPS.sum(C.lo, upto, k, t))
    if kind in ("max", "min"):
        return extremum_term(kind, v0, C.lo, upto, k, t)
    raise Undecided(kind)


def isum(lo, hi, k, t):
    """integer sums are kept as truncated real sums of integers"""
    from terms import _trunc
    return _trunc(OPS.sum(lo, hi, k, z3.ToReal(t)))


def extremum_term(kind, v0, lo, hi, k, t):
    if z3.is_int(t):
        from terms import _trunc
        e = _trunc(OPS.ext(kind, lo, hi, k, z3.ToReal(t)))
    else:
        e = OPS.ext(kind, lo, hi, k, t)
    if kind == "max":
        return If(And(I(lo) < hi, e > v0), e, v0)
    return If(And(I(lo) < hi, e < v0), e, v0)


def reduce_nest(kind, v0, C, params, reidx, t):
    if reidx is None:
        if kind == "sum" and not isinstance(t, Cx) and z3.is_int(t) and not depends(t, params[0]):
            return simp_int(v0 + z3.If(C.lo < C.hi, C.hi - C.lo, z3.IntVal(0)) * t)
        return reduce_term(kind, v0, C, params[0], t, C.hi)
    A_, B_, S = reidx
    if kind != "sum":
        raise Undecided("extremum over a flat index")
    inner = OPS.sum(0, S, params[1], t if isinstance(t, Cx) or z3.is_real(t) else z3.ToReal(t))
    o = OPS.sum(A_, B_, params[0], inner)
    if not isinstance(t, Cx) and z3.is_int(t):
        from terms import _trunc
        return simp_int(v0 + _trunc(o))
    return vadd(v0, o)


def extremum_bounds(res, C, kind, t, k, rv):
    """the extremum of integers bounds every one of them"""
    if kind not in ("max", "min") or isinstance(t, Cx) or not z3.is_int(t):
        return
    pats = [x for x in collect_apps([t], lambda x: x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(k) for a in x.children()))
            if all(a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM) for a in x.children())]
    if pats:
        res.assume(z3.ForAll([k], Implies(And(k >= C.lo, k < C.hi), t <= rv if kind == "max" else t >= rv), patterns=pats[:1]))


def prefix_ok(t, k):
    return True


def unfold_facts(a, b, k):
    return []


def needs_reindex(eng, r, ws, k):
    return False


def rename(rec, ps, extra):
    """fresh copies of the parameters"""
    sub = []
    newp = []
    for p in ps + rec.params:
        q = fint(p.decl().name().split("!")[0])
        sub.append((p, q))
        newp.append(q)
    return sub


def disjoint(eng, st0, P, rng, ws, rs, r, startsyms, line, kind, order=False):
    """Writes of two different iterations never meet, and no iteration reads what another one writes (in a sequential
    loop: what an earlier one has written)."""
    def differ(sub, what=""):
        if order and len(P) == 1 and what == "write and read":
            return P[0] < z3.substitute(P[0], *sub)
        return Or([p != z3.substitute(p, *sub) for p in P])

    def check(w, x, what):
        sub = rename(x, P, None)
        # quick syntactic test: some component is P-determined identically
        eqs = []
        trivially = False
        for a, b in zip(w.locs, x.locs):
            b2 = z3.substitute(b, *sub)
            d = padd(poly(a), poly(b2), -1)
            eqs.append(a == b2)
            # component determines the (single) iteration parameter: a = p + c(st0)
        if len(P) == 1:
            p = P[0]
            q = z3.substitute(p, *sub)
            for a, b in zip(w.locs, x.locs):
                b2 = z3.substitute(b, *sub)
                d = padd(poly(a), poly(b2), -1)
                want = padd(poly(p), poly(q), -1)
                if d == want or d == padd({}, want, -1):
                    trivially = True
        g2 = z3.substitute(And([x.guard] + rng), *sub)
        goal = Not(And(eqs))
        facts = rng + [w.guard, g2, differ(sub, what)]
        if trivially:
            ob = z3.BoolVal(True)
            eng.oblige(st0, kind, f"iterations {what} disjoint cells of {eng.rname(r)}", ob, line)
            return True
        full = Implies(And(facts), goal)
        if eng.prove_now(st0, full):
            eng.oblige(st0, kind, f"iterations {what} disjoint cells of {eng.rname(r)}", full, line)
            return True
        return False
    # mentions of carried locals make the footprint unknown
    for w in ws + rs:
        for t in list(w.locs) + [w.guard]:
            if mentions_any(t, startsyms) and False:
                return False
    for i, w in enumerate(ws):
        for x in ws[i:]:
            if w.atomic and x.atomic and kind == "race" and False:
                continue
            if not check(w, x, "write"):
                return False
    seen = set()
    for w in ws:
        for x in rs:
            key = (id(w), tuple(l.get_id() for l in x.locs), x.guard.get_id())
            if key in seen:
                continue
            seen.add(key)
            if not check(w, x, "write and read"):
                return False
    return True


def accumulate(eng, st0, end, C, params, reidx, r, ws, rs, c0, mark, restore, path):
    """All writes of the loop to r hit cells whose location does not depend on the iteration; each adds a term."""
    if reidx is not None:
        raise Undecided("accumulating region under re-indexing")
    k = params[0]
    fin_c = eng.content(end, r)
    # final value at an arbitrary cell as function of the start content
    ar = len(ws[0].locs)
    loc = [fint("q") for _ in range(ar)]
    fin = restore(fin_c.read(loc))
    f0 = c0.read(loc)
    # the guard: the set of cells written by some iteration; locations must not depend on k
    for w in ws:
        for l in w.locs:
            if depends_any(restore(l), [k]):
                raise Undecided(f"loop {path}: {eng.rname(r)} is updated at iteration dependent cells that overlap")
    if isinstance(f0, Cx):
        a, b = lin_rest(fin.re, f0.re), lin_rest(fin.im, f0.im)
        if a is None or b is None:
            raise Undecided(f"loop {path}: update of {eng.rname(r)} is not an accumulation")
        t = Cx(a, b)
    else:
        t = lin_rest(fin, f0)
    nm0 = c0.name
    if t is None:
        # overwritten with values not depending on the old content: last iteration wins
        raise Undecided(f"loop {path}: update of {eng.rname(r)} is not an accumulation")
    for x in syms(t):
        if x.startswith(nm0):
            raise Undecided(f"loop {path}: update of {eng.rname(r)} reads the accumulated values")
    for w in ws:
        pass
    t = skolem_free(t, mark, params + loc)
    if t is None:
        raise Undecided("accumulated term depends on unspecified values")
    old = eng.content(st0, r)

    def read(l, old=old, t=t, loc=loc):
        tt = subst(t, *[(a, b) for a, b in zip(loc, l)])
        base = old.read(l)
        if r.ety.k == "int":
            if is_num(tt) and num(tt) == 0:
                return base
            return base + isum(C.lo, C.hi, k, tt)
        return vadd(base, OPS.sum(C.lo, C.hi, k, tt))
    return ("acc", Fn(read), [C.lo < C.hi])


def inv_map(eng, st, gi, params, guard, locs, val):
    """Ghost inverse after a map store of an int region: last component of locs is the position."""
    pos = locs[-1]
    lead = locs[:-1]
    # parameters not determined by the leading components are position parameters
    free = [p for p in params if not any(depends(l, p) for l in lead)]
    ts = [z3.Int(f"?t{i}") for i in range(len(lead))]
    lp = [p for p in params if p not in free]
    if len(free) != 1:
        if len(free) == 0 and lead:
            # one cell per row: plain relation row -> pos
            sol = solve_params(lp, lead, ts)
            if sol is None:
                return Fresh("inv", "int")

            def read0(l, gi=gi):
                sub, resid = solve_params(lp, lead, l[:-1])
                c = And([a == b for a, b in resid] + [z3.substitute(guard, *sub)] + [l[-1] == z3.substitute(val, *sub)])
                return If(c, z3.substitute(pos, *sub) if sub else pos, gi.read(l))
            return Fn(read0)
        return Fresh("inv", "int")
    p = free[0]
    sol = solve_params(lp, lead, ts) if lead else ([], [])
    if sol is None:
        return Fresh("inv", "int")
    g = None
    # value is the position parameter itself (+const)
    d = padd(poly(val), poly(p), -1)
    if not depends(poly_term(d), p):
        off = poly_term(d)      # val = p + off  =>  p = c - off
        pf = lambda c: simp_int(c - off)
    else:
        src = source_inverse(eng, st, val, p)
        if src is None:
            fr = Fresh("inv", "int")
            return fr
        pf = src

    def read(l, gi=gi):
        sub, resid = solve_params(lp, lead, l[:-1]) if lead else ([], [])
        pv = z3.substitute(pf(l[-1]), *sub) if sub else pf(l[-1])
        allsub = sub + [(p, pv)]
        c = And([a == b for a, b in resid] + [z3.substitute(guard, *allsub),
                                              z3.substitute(val, *allsub) == l[-1]])
        return If(c, z3.substitute(pos, *allsub), gi.read(l))
    return Fn(read)


def source_inverse(eng, st, val, p):
    """val = R[..., p(+c)] for an int region R: the ghost inverse of R gives p back."""
    if not z3.is_app(val) or val.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        # strip conditionals whose branches are reads
        if z3.is_app(val) and val.decl().kind() == z3.Z3_OP_ITE:
            a, b = source_inverse(eng, st, val.arg(1), p), source_inverse(eng, st, val.arg(2), p)
            if a is None or b is None:
                return a or b
            return lambda cc: If(z3.substitute(And(val.arg(0), val.arg(1) == cc), (p, a(cc))), a(cc), b(cc))
        if val.eq(p):
            return lambda cc: cc
        if z3.is_app(val) and val.decl().kind() == z3.Z3_OP_ADD:
            # a shifted value
            dep = [x for x in val.children() if depends(x, p)]
            if len(dep) == 1:
                inner, rest = source_inverse(eng, st, dep[0], p), z3.Sum([x for x in val.children() if not depends(x, p)])
                if inner is not None:
                    return lambda cc: inner(simp_int(cc - rest))
        if depends(val, p):
            d = poly_term(padd(poly(val), poly(p), -1))
            if not depends(d, p):
                return lambda cc: simp_int(cc - d)
        return None
    name = val.decl().name()
    args = val.children()
    if not args:
        return None
    if name in INV:
        if any(depends(a, p) for a in args[:-1]) or not depends(args[-1], p):
            return None
        o = poly_term(padd(poly(args[-1]), poly(p), -1))
        if depends(o, p):
            inner = source_inverse(eng, st, args[-1], p)
            return inner and (lambda cc: inner(simp_int(INV[name](args[:-1], cc))))
        return lambda cc, args=args, o=o: simp_int(INV[name](args[:-1], cc) - o)
    for r, c in (st.mem.items() if st is not None else ()):
        base = c
        while isinstance(base, (Store, MapStore)):
            base = base.base
        if isinstance(base, Fresh) and base.name == name and r.ety is not None and r.ety.k == "int":
            dd = padd(poly(args[-1]), poly(p), -1)
            o = poly_term(dd)
            if depends(o, p):
                return None
            ic = eng.inv_content(st, r)
            return lambda cc, args=args, o=o, ic=ic: simp_int(ic.read(args[:-1] + [cc]) - o)
    return None


# ---------------------------------------------------------------------- search loops
def search_loop(eng, st0, C, path, k, rng, end, outs, V, start, mark, clauses, base, body):
    """No side effects except on the exiting iteration."""
    if clauses is not None:
        raise Undecided("early exit from a parallel loop")
    exits = [(kk, s) for kk, s in outs.items() if s is not None]
    if end is not None:
        if end.wlog:
            ww = [w for w in end.wlog if isinstance(w.reg, Region) and w.reg in st0.mem]
            exclude = set()
            if ww:
                raise Undecided(f"loop {path}: side effects before an early exit")
        for v in V:
            s = start[v]
            if s is None:
                continue
            if end.env.get(v) is not s:
                # overwritten each iteration: allowed if not carried
                pass
    n0 = base + len(rng)
    g = Or([And([f for kk, f in s.pc[n0:] if kk == BR]) for _, s in exits])
    # carried locals
    startsyms = {}
    for v, s in start.items():
        if s is None:
            continue
        for x in ([s.re, s.im] if isinstance(s, Cx) else [s]):
            startsyms[x.decl().name()] = v
    changed = [v for v in V if end is not None and start[v] is not None and end.env.get(v) is not start[v]]
    bad = {n for n, v in startsyms.items() if v in changed}
    if mentions_any(g, bad):
        raise Undecided(f"loop {path}: exit condition depends on carried locals")
    sub0 = []
    for v, s in start.items():
        if s is None or v in changed:
            continue
        cur = st0.env[v]
        if isinstance(s, Cx):
            sub0 += [(s.re, cur.re), (s.im, cur.im)]
        else:
            sub0.append((s, cur))
    gg = z3.substitute(g, *sub0) if sub0 else g
    if any(created_after(x, mark) and x != k.decl().name() for x in free_syms(gg)):
        raise Undecided(f"loop {path}: exit condition depends on values created in the iteration")

    pst = st0.clone()
    for f in rng:
        pst.assume(f, FACT)
    iv = unique_at(eng, pst, gg, k) if not is_num(C.lo) or not is_num(C.hi) else None
    if iv is not None:
        return search_at(eng, st0, C, k, rng, gg, iv, end, V, start, changed, body)

    # no exit
    res = {}
    s = st0.clone()
    kk = fint("k")
    body_g = z3.substitute(gg, (k, kk))
    s.assume(z3.ForAll([kk], Implies(And(kk >= C.lo, kk < C.hi), Not(body_g))), FACT)
    noexit = z3.Bool(fresh_name("noexit"))
    s.assume(noexit, BR)
    s.env[C.key] = C.end
    for v in V:
        if v in changed:
            s.env[v] = eng.fresh_val(decl_type(eng, v), "last")
        elif start[v] is None:
            s.env[v] = Poison("last")
    if z3.is_false(z3.simplify(C.lo < C.hi)):
        return {NORMAL: s}
    res[NORMAL] = s
    # exit at iteration k (k itself is the witness)
    for kind, es in exits:
        x = es.clone()
        for v in list(x.env):
            val = x.env[v]
            if sub0 and not is_ptr(val) and not isinstance(val, (Poison, tuple, StrV, FnV)):
                x.env[v] = subst(val, *sub0)
        if sub0:
            x.pc = [(q, z3.substitute(f, *sub0)) for q, f in x.pc]
            if x.ret is not None and not is_ptr(x.ret) and not isinstance(x.ret, StrV):
                x.ret = subst(x.ret, *sub0)
        k2 = fint("k")
        x.assume(z3.ForAll([k2], Implies(And(k2 >= C.lo, k2 < k), Not(z3.substitute(gg, (k, k2))))), FACT)
        x.pc.insert(len(st0.pc), (BR, Not(noexit)))
        # logs: records of the exiting iteration belong to the enclosing loop
        if st0.wlog is not None:
            x.wlog = st0.wlog + [w for w in x.wlog if not isinstance(w.reg, Region) or w.reg in st0.mem]
            x.rlog = st0.rlog + [w for w in x.rlog if w.reg in st0.mem]
        else:
            x.wlog = x.rlog = None
        if kind == BREAK:
            res[NORMAL] = eng.merge(res[NORMAL], x)
        else:
            res[kind] = x
    if st0.wlog is not None and end is not None:
        # reads of the scanning iterations
        rl = [w for w in end.rlog if w.reg in st0.mem]
        for kx in res.values():
            for w in rl:
                kx.rlog.append(Rec(w.reg, [k] + w.params, And([outer_guard(eng, st0), w.guard] + rng), w.locs, None, w.atomic, w.line))
    return res


def search_at(eng, st0, C, k, rng, gg, iv, end, V, start, changed, body):
    """The only iteration that can leave the loop is iv: it does so iff iv is in range and the exit condition holds."""
    found = And(C.lo <= iv, iv < C.hi, z3.substitute(gg, (k, iv)))
    s = st0.clone()
    s.assume(Not(found), BR)
    s.env[C.key] = C.end
    x = st0.clone()
    x.assume(found, BR)
    x.env[C.key] = C.val(iv)
    for v in V:
        if v in changed:
            s.env[v] = eng.fresh_val(decl_type(eng, v), "last")
            x.env[v] = eng.fresh_val(decl_type(eng, v), "last")
        elif start[v] is None:
            s.env[v] = Poison("last")
            x.env[v] = Poison("last")
    res = {NORMAL: s}
    outs = eng.exec(body, x)
    outs.pop(NORMAL, None)
    outs.pop(CONT, None)
    b = outs.pop(BREAK, None)
    if b is not None:
        res[NORMAL] = eng.merge(s, b)
    if outs.get(RET) is not None:
        res[RET] = outs[RET]
    if st0.wlog is not None and end is not None:
        rl = [w for w in end.rlog if w.reg in st0.mem]
        for kx in res.values():
            for w in rl:
                kx.rlog.append(Rec(w.reg, [k] + w.params, And([outer_guard(eng, st0), w.guard] + rng), w.locs, None, w.atomic, w.line))
    return res


# ====================================================================== annotated loops
class Env:
    """What an annotation may look at."""

    def __init__(self, eng, st, entry, k, C, extra=None):
        self.eng, self.st, self.entry, self.k, self.C = eng, st, entry, k, C
        self.extra = extra or {}
        self.lo = C.lo if C is not None else None
        self.hi = C.hi if C is not None else None

    def loc(self, name):
        key = self.eng.var_by_name(self.st, name)
        v = self.st.env[key]
        if isinstance(v, tuple) and v[0] == "cell":
            return self.eng.content(self.st, v[1]).read([z3.IntVal(0)])
        return v

    def has(self, name):
        try:
            self.eng.var_by_name(self.st, name)
            return True
        except Undecided:
            return False

    def arr(self, name):
        """reader of a local array / pointer variable"""
        p = self.loc(name)
        c = self.eng.content(self.st, p.reg)
        return lambda *ix: c.read(list(p.idx) + list(ix))

    def arrinv(self, name):
        p = self.loc(name)
        c = self.eng.inv_content(self.st, p.reg)
        return lambda *v: c.read(list(p.idx) + list(v))

    def entry_arr(self, name):
        key = self.eng.var_by_name(self.entry, name)
        p = self.entry.env[key]
        c = self.eng.content(self.entry, p.reg)
        return lambda *ix: c.read(list(p.idx) + list(ix))


def goals_of(x):
    return [(a, b) for a, b in x] if x else []


def modified_by_body(eng, st0, C, body, V, kval):
    """Dry runs until the set of modified regions is stable; returns ({region: fixed row or None}, fields)."""
    regs = {}
    fieldseen = set()
    for _ in range(6):
        s = st0.clone()
        mark = next_mark()
        for v in V:
            cur = s.env[v]
            if isinstance(cur, (Ptr, Obj, PIte, Poison)):
                f = family.slot_family(eng, cur) if is_ptr(cur) else None
                s.env[v] = f.dec(fint("dry")) if f else Poison("dry")
            elif isinstance(cur, tuple):
                s.mem[cur[1]] = Fresh(cur[1].name, cur[1].ety.k)
            else:
                s.env[v] = eng.fresh_val(decl_type(eng, v), "dry")
        for r in regs:
            s.mem[r] = Fresh(r.name + "~dry", r.ety.k)
            if r.ety.k == "int":
                s.inv[r] = Fresh(r.name + "~dryinv", "int")
        for fw in fieldseen:
            v_ = s.fields.get((fw[1], fw[2])) if len(fw) == 3 else None
            if v_ is not None and z3.is_expr(v_):
                s.fields[(fw[1], fw[2])] = z3.Const(fresh_name("dry"), v_.sort())
            elif is_ptr(v_) and family.slot_family(eng, v_):
                f = family.slot_family(eng, v_)
                s.fields[(fw[1], fw[2])] = (f.obj if isinstance(v_, Obj) else f.dec)(fint("dry"))
        for v in V:
            f = block_pointer(eng, st0, st0.env[v])
            if f is not None:
                s.env[v] = f(s)
        if C is not None:
            s.env[C.key] = C.val(kval)
            s.assume(And(kval >= C.lo, kval < C.hi))
        s.wlog, s.rlog = [], []
        eng.dry += 1
        eng.logbase.append(len(s.pc))
        try:
            outs = eng.exec(body, s)
        finally:
            eng.logbase.pop()
            eng.dry -= 1
        new = {}
        fieldw = set()
        for o in outs.values():
            for w in o.wlog:
                if isinstance(w.reg, Region):
                    if w.reg in st0.mem or w.reg in st0.alive:
                        new.setdefault(w.reg, []).append(w)
                else:
                    fieldw.add(w.reg)
            for kf, v in o.fields.items():
                if kf in st0.fields and st0.fields[kf] is not v and not (is_ptr(v) and same_ptr(v, st0.fields[kf])):
                    fieldw.add(("field",) + tuple(kf) if isinstance(kf, tuple) else kf)
        if set(new) <= set(regs) and fieldw <= fieldseen:
            res = {}
            for r, ws in new.items():
                row = None
                n = len(ws[0].locs)
                fixed = []
                for i in range(n):
                    l0 = ws[0].locs[i]
                    ok = all(peq(w.locs[i], l0) for w in ws) and not any(
                        created_after(x, mark) for x in free_syms(l0)) and \
                        not any(depends(l0, p) for w in ws for p in w.params) and \
                        (C is None or not depends(l0, kval))
                    fixed.append(l0 if ok else None)
                res[r] = fixed
            return res, fieldw, outs
        for r in new:
            regs[r] = True
        fieldseen |= fieldw
    raise Undecided("modified regions do not stabilise")


def havoc_region(eng, s, st0, r, fixed):
    """fresh content, except cells whose fixed components differ"""
    fr = Fresh(r.name + "'", r.ety.k)
    old = eng.content(st0, r)
    idx = [i for i, f in enumerate(fixed) if f is not None]

    def mk(new, old, n_inv=False):
        comps = [i for i in idx if not (n_inv and i == len(fixed) - 1)]
        if not comps:
            return new

        def read(l):
            c = And([l[i] == fixed[i] for i in comps])
            return If(c, new.read(l), old.read(l))
        return Fn2(read, new, comps, fixed, old)
    s.mem[r] = mk(fr, old)
    if r.ety.k == "int":
        fi = Fresh(r.name + "'inv", "int")
        register_inverse(fr, fi)
        s.inv[r] = mk(fi, eng.inv_content(st0, r), True)


class Fn2(Content):
    """content that is 'new' on a fixed row and 'old' elsewhere"""

    def __init__(self, f, new, comps, fixed, old):
        self.f, self.new, self.comps, self.fixed, self.old = f, new, comps, fixed, old

    def read(self, l):
        st = [pdiff_const(l[i], self.fixed[i]) for i in self.comps]
        if all(x == 0 for x in st):
            return self.new.read(l)
        if any(x is not None and x != 0 for x in st):
            return self.old.read(l)
        return self.f(l)


def apply_lemmas(spec_fn, env, st):
    if spec_fn is None:
        return
    for f in spec_fn(env) or []:
        st.assume(f, FACT)


def block_pointer(eng, st0, cur):
    """the pointer to the current block a row pointer refers to, as a function of the state (None: not such a pointer)"""
    if not isinstance(cur, Ptr) or cur.reg is None or cur.gen is None or len(cur.idx) != 1 or not (is_num(cur.off) and num(cur.off) == 0):
        return None
    fam, f = getattr(cur.reg, "family", None), getattr(cur.reg, "famfield", None)
    if fam is None:
        return None
    gen = lambda s: eng.content(s, fam.gen[f]).read([cur.idx[0]])
    if not peq(cur.gen, gen(st0)) and not eng.prove_now(st0, cur.gen == gen(st0)):
        return None
    return lambda s: Ptr(cur.reg, cur.idx, z3.IntVal(0), cur.ety, gen(s))


def invariant_loop(eng, st0, C, body, path, clauses, spec, loose=frozenset()):
    st00, nobl = st0.clone(), len(eng.obls)
    V = [v for v in assigned_vars(eng, body, st0) if v != C.key]
    kd = fint("kd")
    mod, fieldw, _ = modified_by_body(eng, st0, C, body, V, kd)
    tag = "loop" + ".".join(map(str, path))
    sections = eng.locked is not None and bool(eng.locked["regs"])
    if sections:
        mod = {**mod, **eng.locked["mod"]}
        between_sections(eng, st0, tag)
        if clauses is not None:
            raise Undecided(f"{tag}: parallel loop inside a loop annotated for locks")
    flds = scalar_fields(eng, st0, fieldw, tag)
    if flds and clauses is not None:
        for o_, f_ in flds:
            eng.oblige(st0, "race", f"field {f_} of {o_} is not written by a parallel loop", z3.BoolVal(False))
    if clauses is not None:
        for v in V:
            nm = var_name(eng, v)
            if nm not in clauses["private"] | clauses["firstprivate"] | clauses["lastprivate"] and \
                    nm not in clauses["reduction"]:
                eng.oblige(st0, "race", f"variable '{nm}' assigned in a parallel loop is private or reduced",
                           z3.BoolVal(False))
        if spec.race is None:
            for r in mod:
                eng.oblige(st0, "race", f"{eng.rname(r)} written by an annotated parallel loop has a race argument",
                           z3.BoolVal(False))
    # 1. established
    st0.env[C.key] = C.val(C.lo)
    e0 = Env(eng, st0, st0, C.lo, C)
    apply_lemmas(spec.hints, e0, st0)
    for lab, g in goals_of(spec.inv(e0)):
        eng.oblige(st0, "invariant", f"{tag} established: {lab}", Implies(C.lo <= C.hi, g))
    # pointers to a row's block, refreshed whenever the block moves
    bptr = {v: block_pointer(eng, st0, st0.env[v]) for v in V if v not in loose}
    bptr = {v: f for v, f in bptr.items() if f is not None}

    # 2. preserved
    def havocked():
        s = st0.clone()
        for v in V:
            cur = s.env[v]
            if isinstance(cur, (Ptr, Obj, PIte, Poison)):
                s.env[v] = Poison("loop")
            elif isinstance(cur, tuple):
                s.mem[cur[1]] = Fresh(cur[1].name, cur[1].ety.k)
            else:
                s.env[v] = eng.fresh_val(decl_type(eng, v), var_name(eng, v) or "v")
        for r, fixed in mod.items():
            havoc_region(eng, s, st0, r, fixed)
        havoc_fields(eng, s, flds)
        for v, f in bptr.items():
            s.env[v] = f(s)
        if sections:
            s.ghost["#lock"], s.ghost["#sets"] = NOLOCK, z3.IntVal(0)
        return s
    s = havocked()
    k = fint("k")
    s.env[C.key] = C.val(k)
    s.assume(And(k >= C.lo, k < C.hi))
    inv_here = spec.inv(Env(eng, s, st0, k, C))
    for lab, g in goals_of(inv_here):
        s.assume(g)
    apply_lemmas(spec.lemmas, Env(eng, s, st0, k, C), s)
    sentry = s.clone()
    base_log = s.wlog, s.rlog
    outs = eng.exec(body, s)
    end = eng.merge(outs.pop(NORMAL, None), outs.pop(CONT, None))
    if end is not None:
        for v, f in bptr.items():
            p, q = end.env[v], f(end)
            if not same_ptr(p, q) and not (isinstance(p, Ptr) and p.reg is q.reg and eng.prove_now(end, And(p.idx[0] == q.idx[0], p.off == 0, p.gen == q.gen))):
                del eng.obls[nobl:]
                return invariant_loop(eng, st00, C, body, path, clauses, spec, loose | {v})
        if sections:
            between_sections(eng, end, tag)
        ub2 = eng.as_int(eng.ev(C.ubnode, end.clone()))
        if not peq(ub2, C.ub):
            eng.oblige(end, "invariant", f"{tag} bound unchanged", ub2 == C.ub)
        k1 = simp_int(k + 1)
        end.env[C.key] = C.val(k1)
        env1 = Env(eng, end, st0, k1, C)
        env1.before = sentry
        if spec.step is not None:
            for f in spec.step(env1) or []:
                if isinstance(f, tuple):
                    eng.oblige(end, "invariant", f"{tag} assertion: {f[0]}", f[1])
                    end.assume(f[1])
                else:
                    end.assume(f)
        for lab, g in goals_of(spec.inv(env1)):
            eng.oblige(end, "invariant", f"{tag} preserved: {lab}", g)
        check_outside(eng, end, st0, mod, tag, flds)
        fields_stay(eng, end, flds)
        for o_, f_ in flds:
            if is_ptr(end.fields[(o_, f_)]) and end.fields[(o_, f_)].name != st0.fields[(o_, f_)].name:
                raise Undecided(f"pointer field {f_} leaves its array in an annotated loop")
    # 3. after the loop
    x = havocked()
    x.env[C.key] = C.end
    kf = If(C.lo < C.hi, C.hi, C.lo)
    if eng.prove_now(st0, C.lo <= C.hi):
        kf = C.hi
    for lab, g in goals_of(spec.inv(Env(eng, x, st0, kf, C))):
        x.assume(g)
    apply_lemmas(spec.finish, Env(eng, x, st0, kf, C), x)
    if x.wlog is not None and end is not None:
        # coarse footprint for the enclosing loop: whole fixed rows
        footprint(eng, x, st0, mod, end)
    res = {NORMAL: x}
    b = outs.pop(BREAK, None)
    if sections and (b is not None or RET in outs):
        raise Undecided(f"{tag}: early exit from a loop over critical sections")
    if b is not None:
        check_outside(eng, b, st0, mod, tag, flds)
        res[NORMAL] = eng.merge(x2(x, b), b)
    if RET in outs:
        res[RET] = outs[RET]
    return res


NOLOCK = z3.IntVal(-1)


def locked_loop(eng, st0, C, body, path, clauses, spec):
    """A parallel loop whose iterations add entries to rows they share, each under the lock of the row.

    spec.locked(e) is the set full(r, c) of all entries; iteration r adds the entries (r, .).  spec.inv(e), with
    e.done(r, c) the entries added so far, describes the shared rows.  A critical section only touches the row whose
    lock it holds (an obligation for every access), so every interleaving is equivalent to one that runs the critical
    sections one after another; in it, what the other iterations have added when one of this iteration begins is some
    subset X of their entries.  The body is verified for every X: each loop over critical sections starts, in each of
    its iterations, from arbitrary shared rows that satisfy the invariant for X and what this iteration has added."""
    tag = "loop" + ".".join(map(str, path))
    if clauses is None or eng.locked is not None or st0.wlog is not None:
        raise Undecided(f"{tag}: annotated for locks, but not the outermost parallel loop")
    V = [v for v in assigned_vars(eng, body, st0) if v != C.key]
    k = fint("k")
    st0.ghost["#lock"], st0.ghost["#sets"] = NOLOCK, z3.IntVal(0)
    L = dict(regs=set(), before=set(st0.mem) | set(st0.alive), private=set(), stable=None, k=k, others=lambda r, c: z3.BoolVal(False))
    eng.locked = L
    try:
        full = spec.locked(Env(eng, st0, st0, C.lo, C))
        mod, fieldw, _ = modified_by_body(eng, st0, C, body, V, k)
        flds = scalar_fields(eng, st0, fieldw, tag)
        for o_, f_ in flds:
            eng.oblige(st0, "race", f"field {f_} of {o_} is not written by a parallel loop", z3.BoolVal(False))
        for v in V:
            nm = var_name(eng, v)
            if nm not in clauses["private"] | clauses["firstprivate"]:
                eng.oblige(st0, "race", f"variable '{nm}' assigned in a parallel loop is private", z3.BoolVal(False))
        for r in L["before"]:
            if isinstance(r, Region) and r.kind == "local" and local_name(eng, st0, r) in clauses["private"] | clauses["firstprivate"]:
                L["private"].add(r)
        if any(r in L["private"] for r in mod):
            raise Undecided(f"{tag}: scratch array in a loop annotated for locks")
        L["regs"] = set(mod)
        L["mod"] = {r: [None] * len(f) for r, f in mod.items()}

        def env(st, kk, done):
            e = Env(eng, st, st0, kk, C)
            e.done = done
            return e
        st0.env[C.key] = C.val(C.lo)
        L["stable"] = spec.stable(Env(eng, st0, st0, C.lo, C)) if spec.stable else None
        X = Fresh(fresh_name("others"), "int")
        L["others"] = lambda r, c: And(r != k, full(r, c), X.read([r, c]) == 1)
        for lab, g in goals_of(spec.inv(env(st0, C.lo, lambda r, c: z3.BoolVal(False)))):
            eng.oblige(st0, "invariant", f"{tag} established: {lab}", g)

        def havocked():
            s = st0.clone()
            for v in V:
                cur = s.env[v]
                if isinstance(cur, tuple):
                    raise Undecided(f"{tag}: variable in memory")
                s.env[v] = Poison("loop") if isinstance(cur, (Ptr, Obj, PIte, Poison)) else eng.fresh_val(decl_type(eng, v), var_name(eng, v) or "v")
            for r, f in L["mod"].items():
                havoc_region(eng, s, st0, r, f)
            return s
        s = havocked()
        s.env[C.key] = C.val(k)
        s.assume(And(k >= C.lo, k < C.hi))
        e = env(s, k, L["others"])
        for lab, g in goals_of(spec.inv(e)):
            s.assume(g)
        apply_lemmas(spec.lemmas, e, s)
        outs = eng.exec(body, s)
        end = eng.merge(outs.pop(NORMAL, None), outs.pop(CONT, None))
        if end is None or any(x is not None for x in outs.values()):
            raise Undecided(f"{tag}: early exit from a parallel loop")
        ub_stable(eng, end, C, st0)
        check_outside(eng, end, st0, mod, tag, flds)
        for x, al in end.alive.items():
            if isinstance(x, Region) and x.kind == "heap" and (x not in st0.alive or al is not st0.alive[x]):
                raise Undecided(f"{tag}: memory is allocated or freed in a loop annotated for locks")
        eng.oblige(end, "race", f"{tag} no lock is held at the end of an iteration", end.ghost["#lock"] == -1)
        fin = lambda r, c: And(full(r, c), Or(r == k, X.read([r, c]) == 1))
        for lab, g in goals_of(spec.inv(env(end, simp_int(k + 1), fin))):
            eng.oblige(end, "invariant", f"{tag} preserved: {lab}", g)
    finally:
        eng.locked = None
    x = havocked()
    x.env[C.key] = C.end
    for lab, g in goals_of(spec.inv(env(x, C.hi, lambda r, c: And(r >= C.lo, r < C.hi, full(r, c))))):
        x.assume(g)
    apply_lemmas(spec.finish, env(x, C.hi, full), x)
    return {NORMAL: x}


def between_sections(eng, st, tag):
    """at a loop over critical sections: no lock is held, the shared rows are arbitrary up to the invariant"""
    if eng.locked is not None and eng.locked["regs"] and not eng.dry:
        eng.oblige(st, "race", f"{tag} no lock is held between critical sections", st.ghost["#lock"] == -1)


def scalar_fields(eng, st0, fieldw, tag):
    """scalar fields of objects that the loop body changes (they are havocked like locals)"""
    out = set()
    for w in fieldw:
        if not (isinstance(w, tuple) and len(w) == 3 and w[0] == "field") or eng.families.get(w[1]) is not None:
            raise Undecided(f"{tag}: object fields change in an annotated loop {fieldw}")
        v = st0.fields.get((w[1], w[2]))
        if isinstance(v, Obj) and family.slot_family(eng, v):
            out.add((w[1], w[2]))
            continue
        if v is None or is_ptr(v) or not (z3.is_expr(v)):
            raise Undecided(f"{tag}: object field {w[2]} changes in an annotated loop")
        out.add((w[1], w[2]))
    return out


def fields_stay(eng, end, flds):
    """pointer fields that were havocked to elements of an array still point to such elements"""
    for o, f in flds:
        v = end.fields[(o, f)]
        if is_ptr(v) and not isinstance(v, Obj):
            raise Undecided(f"pointer field {f} may become null in an annotated loop")


def havoc_fields(eng, s, flds):
    for o, f in flds:
        v = s.fields[(o, f)]
        if is_ptr(v):
            s.fields[(o, f)] = family.slot_family(eng, v).obj(fint(f))
            continue
        s.fields[(o, f)] = z3.Const(fresh_name(f"{o}.{f}"), v.sort())


def x2(x, b):
    nx = z3.Bool(fresh_name("noexit"))
    x.pc.append((BR, nx))
    b.pc.append((BR, Not(nx)))
    return x


def footprint(eng, x, st0, mod, end):
    g = outer_guard(eng, st0)
    for r, fixed in mod.items():
        ps, locs = [], []
        for f in fixed:
            if f is None:
                p = fint("any")
                ps.append(p)
                locs.append(p)
            else:
                locs.append(f)
        x.wlog.append(Rec(r, ps, g, locs, eng.content(x, r).read(locs), False))
    for w in end.rlog[len(st0.rlog or []):]:
        if w.reg in st0.mem:
            # location components may depend on havocked values: treat those components as arbitrary
            ps, locs = [], []
            for l in w.locs:
                if any(created_after(nm, 0) and not depends_st(l, st0) for nm in free_syms(l)):
                    p = fint("any")
                    ps.append(p)
                    locs.append(p)
                else:
                    locs.append(l)
            x.rlog.append(Rec(w.reg, ps, g, locs, None, w.atomic))


def depends_st(l, st0):
    # the expression only uses symbols already present in the state before the loop
    names = st0.ghost.get("syms")
    if names is None:
        names = set()
        for v in st0.env.values():
            names |= syms(v) if not isinstance(v, (StrV, FnV)) else set()
        for _, f in st0.pc:
            names |= free_syms(f)
    return all(x in names for x in free_syms(l))


def check_outside(eng, end, st0, mod, tag, flds=()):
    """everything not in the modified set is untouched (object fields)"""
    for kf, v in end.fields.items():
        if kf in st0.fields and st0.fields[kf] is not v:
            if is_ptr(v) and same_ptr(v, st0.fields[kf]) or kf in flds:
                continue
            raise Undecided(f"{tag}: object field {kf} changes in an annotated loop")


def rowwise(eng, st0, C, body, path, clauses, spec):
    """Independent iterations: iteration k only writes row k of the matrices it modifies, reads rows of modified
    matrices only at k, and uses scratch arrays whose invariant is re-established by every iteration."""
    tag = "loop" + ".".join(map(str, path))
    V = [v for v in assigned_vars(eng, body, st0) if v != C.key]
    k = fint("k")
    off = spec.shift(Env(eng, st0, st0, k, C)) if spec.shift else z3.IntVal(0)
    own_row = simp_int(k + off)
    mod, fieldw, _ = modified_by_body(eng, st0, C, body, V, k)
    flds = scalar_fields(eng, st0, fieldw, tag)
    names = {v: var_name(eng, v) for v in V}
    omp = clauses is not None
    scratch_names = set(spec.needs)
    scratch = {}
    for nm in scratch_names:
        try:
            key = eng.var_by_name(st0, nm)
        except Undecided:
            continue
        p = st0.env[key]
        if isinstance(p, Ptr):
            scratch[p.reg] = nm
    # scratch regions not listed: private arrays
    for r in mod:
        if r.kind == "local" and r not in scratch:
            scratch[r] = local_name(eng, st0, r)
    # what a thread created since the parallel region was entered is its own
    own = lambda x: eng.par_entry is not None and x not in eng.par_entry
    for r in mod:
        if r not in scratch and (own(r) or getattr(r, "slots", None) or getattr(r, "slotfield", None)):
            scratch[r] = r.name
    for o_, f_ in flds:
        if omp and not own(o_):
            eng.oblige(st0, "race", f"field {f_} of {o_} is not written by a parallel loop", z3.BoolVal(False))
    rowregs = [r for r in mod if r not in scratch]
    # thread-private copies
    if omp:
        for r, nm in scratch.items():
            if own(r):
                continue
            if nm not in clauses["firstprivate"] and nm not in clauses["private"]:
                eng.oblige(st0, "race", f"scratch array '{nm}' is private to each thread", z3.BoolVal(False))
    st0.env[C.key] = C.val(C.lo)
    e0 = Env(eng, st0, st0, fint("k"), C)      # any iteration may be a thread's first
    if spec.scratch is not None:
        if omp and any(nm in clauses["private"] for nm in scratch.values()):
            eng.oblige(st0, "race", "scratch arrays start from their initialised contents (firstprivate)",
                       z3.BoolVal(False))
        for lab, g in goals_of(spec.scratch(e0)):
            eng.oblige(st0, "invariant", f"{tag} scratch established: {lab}", g)
    s = st0.clone()
    rowcomp = {}
    for r in rowregs:
        old = eng.content(st0, r)
        n = len(mod[r])
        fr = Fresh(r.name + "~rows", r.ety.k)
        s.mem[r] = RowContent(fr, old, own_row)
        if r.ety.k == "int" and n > 1:
            s.inv[r] = RowContent(Fresh(r.name + "~rowsinv", "int"), eng.inv_content(st0, r), own_row)
        elif r.ety.k == "int":
            s.inv[r] = Fresh(r.name + "~inv", "int")
    for r in scratch:
        s.mem[r] = Fresh(r.name + "~s", r.ety.k)
        if r.ety.k == "int":
            s.inv[r] = Fresh(r.name + "~sinv", "int")
    havoc_fields(eng, s, flds)
    start = {}
    for v in V:
        cur = s.env[v]
        if isinstance(cur, (Ptr, Obj, PIte, Poison)):
            s.env[v] = Poison(names[v])
            start[v] = None
        elif isinstance(cur, tuple):
            s.mem[cur[1]] = Fresh(cur[1].name, cur[1].ety.k)
            start[v] = None
        else:
            start[v] = eng.fresh_val(decl_type(eng, v), names[v] or "v")
            s.env[v] = start[v]
    s.env[C.key] = C.val(k)
    s.assume(And(k >= C.lo, k < C.hi))
    envs = Env(eng, s, st0, k, C)
    if spec.scratch is not None:
        for lab, g in goals_of(spec.scratch(envs)):
            s.assume(g)
    apply_lemmas(spec.lemmas, envs, s)
    mark = next_mark()
    outer_w, outer_r = s.wlog, s.rlog
    s.wlog, s.rlog = [], []
    eng.logbase.append(len(s.pc))
    begin = s.clone()
    try:
        outs = eng.exec(body, s)
    finally:
        eng.logbase.pop()
    end = eng.merge(outs.pop(NORMAL, None), outs.pop(CONT, None))
    if any(x is not None for x in outs.values()):
        raise Undecided(f"{tag}: early exit from a row-wise loop")
    if end is None:
        raise Undecided(f"{tag}: body never completes")
    ub_stable(eng, end, C, st0)
    check_outside(eng, end, st0, mod, tag, flds)
    fields_stay(eng, end, flds)
    if any(x in end.alive and end.alive[x] is not a for x, a in st0.alive.items()):
        raise Undecided(f"{tag}: memory allocated outside is freed by a row-wise loop")
    kind = "race" if omp else "frame"
    seen = set()
    for w in end.wlog:
        if not isinstance(w.reg, Region) and w.reg[1:3] in flds:
            continue
        if not isinstance(w.reg, Region) or w.reg not in rowregs:
            if isinstance(w.reg, Region) and (w.reg in scratch or (w.reg not in st0.mem and w.reg not in st0.alive)):
                continue
            raise Undecided(f"{tag}: unexpected write {w.reg}")
        row = w.locs[0]
        if peq(row, own_row):
            if ("w", w.reg) not in seen:
                eng.oblige(end, kind, f"{tag} iteration writes only its own row of {eng.rname(w.reg)}", z3.BoolVal(True))
            seen.add(("w", w.reg))
            continue
        eng.oblige(end, kind, f"{tag} iteration writes only its own row of {eng.rname(w.reg)}", Implies(w.guard, row == own_row))
    for w in end.rlog:
        if w.reg in rowregs:
            if not peq(w.locs[0], own_row):
                eng.oblige(end, kind, f"{tag} iteration reads only its own row of {eng.rname(w.reg)}",
                           Implies(w.guard, w.locs[0] == own_row))
    for x, al in end.alive.items():
        if x not in st0.alive and isinstance(x, Region) and x.kind == "heap":
            eng.oblige(end, "leak", f"block {eng.rname(x)} allocated in an iteration is released", Not(al))
    env_end = Env(eng, end, st0, k, C)
    env_end.begin = begin
    if spec.step is not None:
        for f in spec.step(env_end) or []:
            if isinstance(f, tuple):
                eng.oblige(end, "invariant", f"{tag} assertion: {f[0]}", f[1])
                end.assume(f[1])
            else:
                end.assume(f)
    if spec.scratch is not None:
        for lab, g in goals_of(spec.scratch(env_end)):
            eng.oblige(end, "invariant", f"{tag} scratch restored: {lab}", g)
    for lab, g in goals_of(spec.post(env_end)):
        eng.oblige(end, "invariant", f"{tag} row result: {lab}", g)
    # reductions
    x = st0.clone()
    startsyms = {}
    for v, sv in start.items():
        if sv is None:
            continue
        for q in ([sv.re, sv.im] if isinstance(sv, Cx) else [sv]):
            startsyms[q.decl().name()] = v
    for v in V:
        nm = names[v]
        fin = end.env.get(v)
        isred = omp and nm in clauses["reduction"]
        ispriv = omp and (nm in clauses["private"] or nm in clauses["firstprivate"])
        if omp and not isred and not ispriv and fin is not start[v]:
            eng.oblige(st0, "race", f"variable '{nm}' assigned in a parallel loop is private or reduced", z3.BoolVal(False))
        if start[v] is None or is_ptr(fin) or isinstance(fin, Poison):
            x.env[v] = Poison(nm)
            continue
        if fin is start[v]:
            continue
        red = classify(eng, fin, start[v], startsyms, v, clauses, nm) if spec.keep and nm in spec.keep else None
        if red is None and spec.keep and callable(spec.keep.get(nm)):
            # stated by the annotation: what the iteration adds, whatever the value at its start
            t = spec.keep[nm](env_end, None)
            eng.oblige(end, "invariant", f"{tag} contribution of a row to '{nm}'", veq(fin, vadd(start[v], t)))
            red = "sum", t
        if red is not None and isred and clauses["reduction"][nm] != {"sum": "+"}.get(red[0], red[0]):
            eng.oblige(st0, "race", f"reduction operator of '{nm}' is that of the accumulation", z3.BoolVal(False))
        if red is not None:
            kd, t = red
            sk = spec.keep[nm](env_end, t) if callable(spec.keep[nm]) else t
            if sk is not t:
                eng.oblige(end, "invariant", f"{tag} contribution of a row to '{nm}'", veq(sk, t))
                t = sk
            if skolem_free(t, mark, [k]) is not None:
                x.env[v] = reduce_term(kd, st0.env[v], C, k, t, C.hi)
                continue
        x.env[v] = eng.fresh_val(decl_type(eng, v), nm)
        if start[v] is not None and not ispriv and mentions_any(fin, startsyms) and spec.keep and nm in spec.keep:
            raise Undecided(f"{tag}: reduction '{nm}' has no closed form")
    # after
    x.env[C.key] = C.end
    for r in rowregs:
        fr = Fresh(r.name + "'", r.ety.k)
        n0 = (r.lead or r.shape)[0]
        whole = spec.shift is None and is_num(C.lo) and num(C.lo) == 0 and not callable(n0) and peq(n0, C.hi)
        x.mem[r] = fr if whole else RangeContent(fr, eng.content(st0, r), simp_int(C.lo + off), simp_int(C.hi + off))
        if r.ety.k == "int":
            fi = Fresh(r.name + "'inv", "int")
            if len(mod[r]) > 1:
                x.inv[r] = fi if whole else RangeContent(fi, eng.inv_content(st0, r), simp_int(C.lo + off), simp_int(C.hi + off))
                register_inverse(fr, fi)
            else:
                x.inv[r] = fi
    havoc_fields(eng, x, flds)
    for r in scratch:
        if omp and not own(r):
            continue        # the original array is untouched
        x.mem[r] = Fresh(r.name + "'", r.ety.k)
        if r.ety.k == "int":
            x.inv[r] = Fresh(r.name + "'inv", "int")
    if spec.scratch is not None and (not omp or all(own(r) for r in scratch)):
        for lab, g in goals_of(spec.scratch(Env(eng, x, st0, C.hi, C))):
            x.assume(g)
    k2 = fint("k")
    it = simp_int(k2 - off)       # k2: a row
    ev2 = Env(eng, x, st0, it, C)
    for lab, g in goals_of(spec.post(ev2)):
        x.assume(forall_rows(k2, And(it >= C.lo, it < C.hi), g))
    apply_lemmas(spec.finish, Env(eng, x, st0, C.hi, C), x)
    if x.wlog is not None:
        raise Undecided("row-wise loop inside a summarised loop")
    return {NORMAL: x}


def forall_rows(k, rng, g):
    """for all rows: one quantifier with the patterns of the inner one where there is one"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(fresh_name(g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
        bind = lambda t: z3.substitute_vars(t, *reversed(vs))
        pats = []
        for i in range(g.num_patterns()):
            ts = [bind(t) for t in g.pattern(i).children()]
            if any(depends(t, k) for t in ts):
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        return z3.ForAll([k] + vs, Implies(rng, bind(g.body())), patterns=pats)
    pats = collect_apps([g], lambda t: t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).eq(k))
    return z3.ForAll([k], Implies(rng, g), patterns=list(pats)[:4]) if pats else z3.ForAll([k], Implies(rng, g))


class RowContent(Content):
    """row k holds the old content, other rows are arbitrary (another iteration may own them)"""

    def __init__(self, other, old, k):
        self.other, self.old, self.k = other, old, k

    def read(self, l):
        d = pdiff_const(l[0], self.k)
        if d == 0:
            return self.old.read(l)
        if d is not None:
            return self.other.read(l)
        return If(l[0] == self.k, self.old.read(l), self.other.read(l))


class RangeContent(Content):
    def __init__(self, new, old, lo, hi):
        self.new, self.old, self.lo, self.hi = new, old, lo, hi

    def read(self, l):
        return If(And(l[0] >= self.lo, l[0] < self.hi), self.new.read(l), self.old.read(l))


# ====================================================================== general loops
def general_loop(eng, n, st0, cond, inc, body, path, clauses):
    spec = get_spec(eng, path, n)
    if spec is None:
        raise Undecided(f"loop {path} at line {eng.cur_line} is not a counted loop and has no invariant")
    if clauses is not None:
        raise Undecided("parallel loop that is not counted")
    return while_inv(eng, st0, cond, inc, body, path, spec, None)


def while_loop(eng, n, cond, body, st, first=None, outs=None):
    path = loop_index(eng, n)
    eng.nest.append(path[-1])
    try:
        C = counted_while(eng, st, cond, body)
        if C is not None and first is None:
            canon, body2 = C
            res = counted(eng, n, st, canon, cond, None, body2, path, None)
        else:
            spec = get_spec(eng, path, n)
            if spec is None:
                raise Undecided(f"while loop {path} has no invariant")
            res = while_inv(eng, st, cond, None, body, path, spec, None)
    finally:
        eng.nest.pop()
    if first is not None:
        res[NORMAL] = eng.merge(res.get(NORMAL), first)
    if outs:
        for k, s in outs.items():
            res[k] = eng.merge(res.get(k), s)
    return res


def counted_while(eng, st, cond, body):
    """while (k < ub) { ...; k++; } with the increment as last statement and no continue."""
    if body.get("kind") != "CompoundStmt" or not body.get("inner"):
        return None
    lastst = body["inner"][-1]
    vid, step = step_of(lastst, None)
    if vid is None or step not in (1, -1):
        return None
    rest = dict(body)
    rest["inner"] = body["inner"][:-1]
    if assigns_id(rest, vid):
        return None

    def has_cont(n, depth=0):
        if n.get("kind") == "ContinueStmt":
            return True
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"):
            return False
        return any(has_cont(c) for c in n.get("inner", []) if isinstance(c, dict))
    if has_cont(rest):
        return None
    key = eng.vkey(vid)
    if key not in st.env or isinstance(st.env[key], tuple):
        return None
    c = canonical(eng, st, cond, vid, step)
    if c is None:
        return None
    return c, rest


def while_inv(eng, st0, cond, inc, body, path, spec, C):
    tag = "loop" + ".".join(map(str, path))
    full = {"kind": "CompoundStmt", "inner": [body] + ([inc] if inc and inc.get("kind") else []) + [cond]}
    V = assigned_vars(eng, full, st0)

    bod2 = {"kind": "CompoundStmt", "inner": [body] + ([inc] if inc and inc.get("kind") else [])}
    mod, fieldw, _ = modified_by_body(eng, st0, None, bod2, V, None)
    if fieldw:
        raise Undecided(f"{tag}: object fields change in an annotated loop {fieldw}")
    slotvars = {v: family.slot_family(eng, st0.env[v]) for v in V if is_ptr(st0.env[v])}
    slotvars = {v: f for v, f in slotvars.items() if f is not None}
    e0 = Env(eng, st0, st0, None, None)
    apply_lemmas(spec.hints, e0, st0)
    for lab, g in goals_of(spec.inv(e0)):
        eng.oblige(st0, "invariant", f"{tag} established: {lab}", g)

    def havocked():
        s = st0.clone()
        for v in V:
            cur = s.env[v]
            if v in slotvars:
                s.env[v] = slotvars[v].dec(fint(var_name(eng, v) or "p"))
            elif isinstance(cur, (Ptr, Obj, PIte, Poison)):
                s.env[v] = Poison("loop")
            elif isinstance(cur, tuple):
                s.mem[cur[1]] = Fresh(cur[1].name, cur[1].ety.k)
            else:
                s.env[v] = eng.fresh_val(decl_type(eng, v), var_name(eng, v) or "v")
        for r, fixed in mod.items():
            havoc_region(eng, s, st0, r, fixed)
        for lab, g in goals_of(spec.inv(Env(eng, s, st0, None, None))):
            s.assume(g)
        return s
    s = havocked()
    c = eng.as_bool(eng.ev(cond, s))
    s.assume(c, BR)
    apply_lemmas(spec.lemmas, Env(eng, s, st0, None, None), s)
    var0 = spec.variant(Env(eng, s, st0, None, None)) if spec.variant else None
    outs = eng.exec(body, s)
    end = eng.merge(outs.pop(NORMAL, None), outs.pop(CONT, None))
    if end is not None:
        if inc and inc.get("kind"):
            eng.ev(inc, end)
        for v, f in slotvars.items():
            f.enc(end.env[v])       # still a pointer into the same array
        env1 = Env(eng, end, st0, None, None)
        if spec.step is not None:
            for f in spec.step(env1) or []:
                if isinstance(f, tuple):
                    eng.oblige(end, "invariant", f"{tag} assertion: {f[0]}", f[1])
                    end.assume(f[1])
                else:
                    end.assume(f)
        for lab, g in goals_of(spec.inv(env1)):
            eng.oblige(end, "invariant", f"{tag} preserved: {lab}", g)
        if spec.variant:
            v1 = spec.variant(env1)
            eng.oblige(end, "termination", f"{tag} variant decreases", And(v1 < var0, var0 >= 0))
        else:
            eng.notes.append(f"{tag}: termination not proved")
        check_outside(eng, end, st0, mod, tag)
    x = havocked()
    c = eng.as_bool(eng.ev(cond, x))
    x.assume(Not(c), BR)
    apply_lemmas(spec.finish, Env(eng, x, st0, None, None), x)
    if x.wlog is not None and end is not None:
        footprint(eng, x, st0, mod, end)
    res = {NORMAL: x}
    b = outs.pop(BREAK, None)
    if b is not None:
        res[NORMAL] = eng.merge(x2(x, b), b)
    if RET in outs:
        res[RET] = outs[RET]
    return res
