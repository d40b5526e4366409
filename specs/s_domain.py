"""Contracts for the row partition of a matrix over processes (C19).  The number of processes is a symbol P >= 1, not
the constant 1 of a build without MPI: bml_getNRanks is replaced by its contract (it returns P)."""
from verify import *

ARRS = ("localRowMin", "localRowMax", "localRowExtent", "localElements", "localDispl")
X = z3.Int("x!d")


def ranks(v):
    P = v.int("nRanks", 1)

    def hook(eng, name, stem, prec, args, st, n):
        if name in ("bml_getNRanks", "bml_getMyRank"):
            if name == "bml_getNRanks":
                return P
            r = fint("rank")
            st.assume(And(r >= 0, r < P))
            return r
        return NotImplemented
    v.eng.hook = hook
    return P


def arrays(eng, st, o, P=None):
    """readers of the arrays of a domain object"""
    out = {}
    for f in ARRS:
        p = st.fields.get((o.name, f))
        if not isinstance(p, Ptr) or p.reg is None:
            raise Undecided(f"{f} of the domain is not a block")
        if p.reg.ety is None:
            eng.set_type(st, p.reg, INT)
        c = eng.content(st, p.reg)
        lead = list(p.idx)
        out[f] = lambda i, c=c, lead=lead: c.read(lead + [i if isinstance(i, z3.ExprRef) else z3.IntVal(i)])
    return [out[f] for f in ARRS]


def dom_of(e):
    """the domain the annotated loop works on"""
    for name, f in e.st.fields:
        if f == "localRowMin" and name in e.extra_names:
            return name


def tiles(mn, mx, ex, lo, P, only=None):
    """contiguous ranges from lo, one after the other"""
    return [("first range starts at the first row", mn(0) == lo),
            ("every range starts where the one before ends",
             fall([X], Implies(And(X >= 1, X < P), mn(X) == mx(simp_int(X - 1))), mn(X))),
            ("row counts are the lengths of the ranges",
             fall([X], Implies(And(X >= 0, X < P), ex(X) == mx(X) - mn(X)), ex(X)))]


U_ = dict(fmt=None, precs=[None], typed=False, cross=("C16", "C21"))


@contract("bml_default_domain", ["C19"], cid="bml_default_domain#distributed", **U_)
def _(v):
    P = ranks(v)
    N, M = v.int("N", 1), v.int("M", 0)
    avg = N / P
    nl = simp_int(N - P * avg)
    # ghost: first row of range r, and first element
    low, first = z3.Function("first_row!g", z3.IntSort(), z3.IntSort()), z3.Function("first_elem!g", z3.IntSort(), z3.IntSort())
    v.assume(fall([X], low(X) == X * avg + If(X < nl, X, nl), low(X)))
    v.assume(fall([X], first(X) == low(X) * M, first(X)))

    def here(e):
        o = [nm for nm, f in e.st.fields if f == "localRowMin"]
        return arrays(v.eng, e.st, Obj(o[-1], "bml_domain_t"))

    def middle(e):
        mn, mx, ex, el, dp = here(e)
        return [("ranges so far", fall([X], Implies(And(X >= 0, X < e.k), And(mn(X) == low(X), mx(X) == low(simp_int(X + 1)))), mn(X))),
                ("ends so far", fall([X], Implies(And(X >= 0, X < e.k), And(mx(X) == low(simp_int(X + 1)))), mx(X)))]

    def displ(e):
        mn, mx, ex, el, dp = here(e)
        return [("offsets so far", fall([X], Implies(And(X >= 0, X < e.k), dp(X) == first(X)), dp(X))),
                ("sizes so far", fall([X], Implies(And(X >= 0, X < e.k), And(el(X) == ex(X) * M)), el(X)))]

    def advance(e):
        mn, mx, ex, el, dp = here(e)
        k = simp_int(e.k - 1)
        p = simp_int(k - 1)
        return [("row offset advances", Implies(k >= 1, low(k) == low(p) + ex(p))),
                ("element offset advances", Implies(k >= 1, first(k) == first(p) + ex(p) * M))]
    D = v.call(N, M, z3.IntVal(1),
               loops_={(None, "localRowMin", "localRowMax", "!globalRowMin", "!localDispl"): LoopSpec(inv=middle),
                       (None, "localDispl", "!localRowMin"): LoopSpec(inv=displ, step=advance)})
    mn, mx, ex, el, dp = arrays(v.eng, v.final, D)
    g = lambda f: v.final.fields[(D.name, f)]
    x = fint("x")
    rng = [And(x >= 0, x < P)]
    v.post("C19", "first range starts at row 0", mn(0) == 0)
    v.post("C19", "last range ends at the row count", mx(simp_int(P - 1)) == N)
    v.post("C19", "every range starts where the one before ends", mn(x) == mx(simp_int(x - 1)), extra=[And(x >= 1, x < P)])
    v.post("C19", "row counts are the lengths of the ranges", ex(x) == mx(x) - mn(x), extra=rng)
    v.post("C19", "ranges differ in length by at most one", And(ex(x) >= avg, ex(x) <= avg + 1, ex(x) >= 0), extra=rng)
    v.post("C19", "element counts", el(x) == ex(x) * M, extra=rng)
    v.post("C19", "element displacements", dp(x) == mn(x) * M, extra=rng)
    v.post("C19", "extreme extents bound every range", And(g("minLocalExtent") <= ex(x), ex(x) <= g("maxLocalExtent")), extra=rng)
    v.post("C19", "global range", And(g("globalRowMin") == 0, g("globalRowMax") == N, g("globalRowExtent") == N,
                                      g("totalRows") == N, g("totalCols") == M, g("totalProcs") == P))


@contract("bml_default_domain", ["C19"], cid="bml_default_domain#sequential", **U_)
def _(v):
    P = ranks(v)
    N, M = v.int("N", 1), v.int("M", 0)
    D = v.call(N, M, z3.IntVal(0))
    mn, mx, ex, el, dp = arrays(v.eng, v.final, D)
    g = lambda f: v.final.fields[(D.name, f)]
    x = fint("x")
    rng = [And(x >= 0, x < P)]
    v.post("C19", "every process holds all rows", And(mn(x) == 0, mx(x) == N, ex(x) == N), extra=rng)
    v.post("C19", "element counts and displacements", And(el(x) == N * M, dp(x) == 0), extra=rng)
    v.post("C19", "global range", And(g("globalRowMin") == 0, g("globalRowMax") == N, g("globalRowExtent") == N,
                                      g("totalRows") == N, g("totalCols") == M, g("totalProcs") == P))


def given(v, name, P, fields, mod=False):
    """a domain with arbitrary arrays of P entries"""
    arrs = {f: v.array(f"{name}.{f}", INT, [P], mod=mod) for f in ARRS}
    return v.obj(name, "bml_domain_t", **arrs, **fields)


def scal(v, name, P):
    return {f: z3.Int(f"{name}.{f}") for f in ("totalRows", "totalCols", "globalRowMin", "globalRowMax", "globalRowExtent",
                                               "maxLocalExtent", "minLocalExtent")} | {"totalProcs": P}


@contract("bml_copy_domain", ["C19", "C09"], **U_)
def _(v):
    P = ranks(v)
    A, B = given(v, "A", P, scal(v, "A", P)), given(v, "B", P, scal(v, "B", P), mod=True)
    a0 = arrays(v.eng, v.st, A)
    v.call(A, B)
    x = fint("x")
    for nm, f, g in zip(ARRS, arrays(v.eng, v.final, B), a0):
        v.post("C19", f"{nm} of the copy", f(x) == g(x), extra=[And(x >= 0, x < P)])


def with_domains(v, fmt, P, mod=("domain",)):
    A = v.dense("A", mod=True) if fmt == "dense" else v.ell("A", mod=True)
    for d in ("domain", "domain2"):
        v.st.fields[(A.obj.name, d)] = given(v, "D" + d, P, scal(v, "D" + d, P), mod=d in mod)
    return A


for _fmt in ("dense", "ellpack"):
    def _save(v, fmt=_fmt, src="domain", dst="domain2"):
        P = ranks(v)
        A = with_domains(v, fmt, P, (dst,))
        a0 = arrays(v.eng, v.st, v.st.fields[(A.obj.name, src)])
        v.call(A.obj)
        x = fint("x")
        b = v.final.fields[(A.obj.name, dst)]
        for nm, f, g in zip(ARRS, arrays(v.eng, v.final, b), a0):
            v.post("C19", f"{nm} of {dst} is that of {src}", f(x) == g(x), extra=[And(x >= 0, x < P)])
    kw = dict(U_, fmt=_fmt, precs=PRECS)
    contract(f"bml_save_domain_{_fmt}", ["C19"], **kw)(_save)
    contract(f"bml_restore_domain_{_fmt}", ["C19"], **kw)(lambda v, s=_save: s(v, src="domain2", dst="domain"))

    def _update(v, fmt=_fmt):
        P = ranks(v)
        A = with_domains(v, fmt, P)
        D = v.st.fields[(A.obj.name, "domain")]
        L = v.int("nparts", 1)
        pmin, pmax, nn = (v.array(nm, INT, [s]) for nm, s in (("localPartMin", P), ("localPartMax", P), ("nnodesInPart", L)))
        rd = lambda p: (lambda i: v.eng.content(v.st, p.reg).read([i]))
        lo, hi, cnt = rd(pmin), rd(pmax), rd(nn)
        v.assume(fall([X], Implies(And(X >= 0, X < P), And(lo(X) >= 1, hi(X) <= L)), lo(X)))
        j = z3.Int("j!d")
        rows = z3.Function("rows_of!g", z3.IntSort(), z3.IntSort())      # ghost: nodes in the parts of a process
        # its definition is used at the index of the current iteration only; the second form is the first with the
        # summation index shifted by one
        zero = z3.IntVal(0)
        define = lambda x: And(rows(x) == If(lo(x) <= hi(x), loops.isum(lo(x), simp_int(hi(x) + 1), j, cnt(simp_int(j - 1))), zero),
                               rows(x) == If(lo(x) <= hi(x), loops.isum(simp_int(lo(x) - 1), hi(x), j, cnt(j)), zero))
        cols, g0 = v.st.fields[(D.name, "totalCols")], v.st.fields[(D.name, "globalRowMin")]

        def clauses(rd, k):
            mn, mx, ex, el, dp = rd
            x0 = lambda b: And(X >= b, X < k)
            return [("first range", Implies(k >= 1, And(mn(0) == g0, dp(0) == 0))),
                    ("every range starts where the one before ends", fall([X], Implies(x0(1), mn(X) == mx(simp_int(X - 1))), mn(X))),
                    ("range ends", fall([X], Implies(x0(0), mx(X) == mn(X) + rows(X)), mx(X))),
                    ("row counts", fall([X], Implies(x0(0), ex(X) == rows(X)), ex(X))),
                    ("element counts", fall([X], Implies(x0(0), el(X) == ex(X) * cols), el(X))),
                    ("displacements", fall([X], Implies(x0(1), dp(X) == dp(simp_int(X - 1)) + el(simp_int(X - 1))), dp(X)))]

        def inv(e):
            return clauses(arrays(v.eng, e.st, D), e.k)

        def extremes(e):
            ex = arrays(v.eng, e.st, D)[2]
            f = lambda nm: e.st.fields[(D.name, nm)]
            return [("extremes so far", fall([X], Implies(And(X >= 0, X < e.k), And(f("minLocalExtent") <= ex(X), ex(X) <= f("maxLocalExtent"))), ex(X)))]
        v.eng.frozen.discard(D.name)
        v.call(A.obj, pmin, pmax, nn,
               loops_={(None, "localRowMin", "localRowMax", "localDispl"): LoopSpec(inv=inv, step=lambda e: [define(simp_int(e.k - 1))]),
                       (None, "minLocalExtent", "maxLocalExtent", "!localRowMin"): LoopSpec(inv=extremes)})
        rd1 = arrays(v.eng, v.final, D)
        mn, mx, ex, el, dp = rd1
        x = fint("x")
        for lab, g in clauses(rd1, P):
            v.post("C19", lab, g)
        f = lambda nm: v.final.fields[(D.name, nm)]
        for nm in ("totalProcs", "totalRows", "totalCols", "globalRowMin", "globalRowMax", "globalRowExtent"):
            v.post("C19", f"{nm} unchanged", f(nm) == v.st.fields[(D.name, nm)])
        v.post("C19", "extreme extents bound every range", And(f("minLocalExtent") <= ex(x), ex(x) <= f("maxLocalExtent")), extra=[And(x >= 0, x < P)])
    contract(f"bml_update_domain_{_fmt}", ["C19"], **kw)(_update)
