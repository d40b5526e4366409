"""Contracts of transposition in the sparse formats."""
from verify import *
from sums import count_lemma

E_ = dict(fmt="ellpack")
C_ = dict(fmt="csr")
R_, Q_, C__ = z3.Int("r!t"), z3.Int("q!t"), z3.Int("c!t")
OUTER, INNER = (None, "omp_set_lock", "#loop"), (None, "omp_set_lock", "!#loop")


def made(e, old, field):
    """the matrix the function has created: the only object with that field besides the arguments"""
    names = {o for (o, f) in e.st.fields if f == field} - set(old)
    if len(names) != 1:
        raise Undecided("the new matrix is not found")
    return names.pop()


class Rows:
    """the rows of an ellpack matrix in the state of an annotation"""
    alloc = None

    def __init__(self, e, nnz, ind, val):
        con, inv = (lambda r: e.eng.content(e.st, r)), e.eng.inv_content(e.st, ind)
        cn, ci, cv = con(nnz), con(ind), con(val)
        self.nnz, self.ind, self.val = (lambda i: cn.read([i])), (lambda i, p: ci.read([i, p])), (lambda i, p: cv.read([i, p]))
        self.inv = lambda i, j: inv.read([i, j])

    def has(self, i, j):
        p = self.inv(i, j)
        return And(p >= 0, p < self.nnz(i), self.ind(i, p) == j)

    def entry(self, i, j):
        return self.val(i, self.inv(i, j))


def new_ellpack(e, *old):
    n = made(e, [m.name for m in old], "nnz")
    return Rows(e, *[e.st.fields[(n, f)].reg for f in ("nnz", "index", "value")])


def new_csr(e, *old):
    n = made(e, [m.name for m in old], "data_")
    o = e.eng.content(e.st, e.st.fields[(n, "data_")].reg).read([z3.IntVal(0)])
    if not isinstance(o, Obj) or o.name not in e.eng.families:
        raise Undecided("rows of a csr matrix")
    return csr_rows(e, e.eng.families[o.name])


def csr_rows(e, f):
    r = Rows(e, f.nnz, f.ind, f.val)
    con = lambda x: e.eng.content(e.st, x)
    al, c1, c2 = con(f.alloc), con(f.cap["cols_"]), con(f.cap["vals_"])
    r.alloc, r.caps = (lambda i: al.read([i])), (lambda i: (c1.read([i]), c2.read([i])))
    return r


def gathered(B, N, fits, D, entry):
    """the rows of B are exactly the entries (r, c) of D: column r of row c, with value entry(r, c)"""
    r, q, c = R_, Q_, C__
    i, p = B.ind(c, q), B.inv(c, r)
    return [("row lengths", fall([c], Implies(And(c >= 0, c < N), And(B.nnz(c) >= 0, *fits(B, c))), B.nnz(c), *([B.alloc(c), *B.caps(c)] if B.alloc else []))),
            ("entries", fall([c, q], Implies(And(c >= 0, c < N, q >= 0, q < B.nnz(c)),
                                             And(i >= 0, i < N, B.inv(c, i) == q, D(i, c), veq(B.val(c, q), entry(i, c)))), i)),
            ("all entries", fall([c, r], Implies(And(c >= 0, c < N, r >= 0, r < N, D(r, c)), And(p >= 0, p < B.nnz(c), B.ind(c, p) == r)), p))]


def scatter(v, A, new, fits, lemmas=None):
    """annotations of 'for all stored (i, j): add (j, i) to row j of the new matrix, under the lock of row j'"""
    N = A.N
    src = lambda e: Rows(e, A.nnz, A.ind, A.val)

    def full(e):
        a = src(e)
        return lambda r, c: And(r >= 0, r < N, a.has(r, c))

    def outer(e):
        return gathered(new(e, A.obj), N, fits, e.done, src(e).entry)

    def inner(e):
        a, L = src(e), v.eng.locked
        i = L["k"]
        D = lambda r, c: If(r == i, And(a.has(i, c), a.inv(i, c) < e.k), L["others"](r, c))
        return gathered(new(e, A.obj), N, fits, D, a.entry)

    return {OUTER: LoopSpec(locked=full, inv=outer), INNER: LoopSpec(inv=inner, lemmas=lemmas and (lambda e: lemmas(e, src(e), new(e, A.obj), v.eng.locked["k"])))}


def column_fit(A_, c, N, M):
    """precondition: the entries of a column fit into a row"""
    y = z3.Int("y!fit")
    return OPS.sum(0, N, y, If(A_.has(y, c), R1, R0)) <= z3.ToReal(M)


@contract("bml_transpose_new_ellpack", ["C08"], **E_)
def _(v):
    A = v.ell("A")
    a0 = v.view(A)
    N, M = A.N, A.M

    def count(e, a, b, i):
        t = a.ind(i, e.k)
        n = b.nnz(t)
        return [column_fit(a, t, N, M), count_lemma(simp_int(n + 1), lambda q: If(q < n, b.ind(t, q), i), lambda x: If(x == i, n, b.inv(t, x)), N, lambda x: a.has(x, t))]
    R = v.out(v.call(A.obj, loops_=scatter(v, A, new_ellpack, lambda B, c: [B.nnz(c) <= M], count)))
    v.post_new("C08", R, N, M, mode=A.mode)
    v.post_wf(R)
    v.post_view("C08", "result(i,j) = A(j,i)", R, lambda i, j: a0(j, i))


@contract("bml_transpose_new_csr", ["C08"], **C_)
def _(v):
    A = v.csr("A")
    a0 = v.view(A)
    shape = lambda B, c: [B.nnz(c) <= B.alloc(c), B.alloc(c) >= v.row_space()] + [x == B.alloc(c) for x in B.caps(c)]
    R = v.out(v.call(A.obj, loops_=scatter(v, A, new_csr, shape)))
    v.post_new("C08", R, A.N, mode=A.mode)
    v.post_wf(R)
    v.post_view("C08", "result(i,j) = A(j,i)", R, lambda i, j: a0(j, i))


@contract("bml_adjungate_triangle_ellpack", ["C08"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    N, M = A.N, A.M
    t = v.enum("triangle", 0, 127)
    v.assume(Or(t == ord("u"), t == ord("l")))
    a0 = v.view(A)
    first = Rows(v, A.nnz, A.ind, A.val)
    kept = lambda r, c: If(t == ord("u"), c >= r, c <= r)
    y = z3.Int("y!fit")
    # precondition: what stays of a row and its mirrored entries fit into the row
    fit = lambda c: OPS.sum(0, N, y, If(Or(And(kept(c, y), first.has(c, y)), And(y != c, kept(y, c), first.has(y, c))), R1, R0)) <= z3.ToReal(M)
    src = []

    def full(e):
        a = Rows(e, A.nnz, A.ind, A.val)         # the rows after the other triangle was dropped
        src[:] = [a]
        return lambda r, c: And(r >= 0, r < N, a.has(r, c), r != c)

    def stable(e):
        a = src[0]
        return lambda r, loc: loc[1] < a.nnz(loc[0]) if r in (A.ind, A.val) else None

    def rows(e, D):
        b, a = Rows(e, A.nnz, A.ind, A.val), src[0]
        r, q, c = R_, Q_, C__
        i, p = b.ind(c, q), b.inv(c, r)
        return [("row lengths", fall([c], Implies(And(c >= 0, c < N), And(b.nnz(c) >= a.nnz(c), b.nnz(c) <= M)), b.nnz(c))),
                ("kept entries", fall([c, q], Implies(And(c >= 0, c < N, q >= 0, q < a.nnz(c)), And(i == a.ind(c, q), b.inv(c, i) == q, veq(b.val(c, q), a.val(c, q)))), i, a.ind(c, q))),
                ("kept entries by column", fall([c, r], Implies(And(c >= 0, c < N, r >= 0, r < N, kept(c, r), first.has(c, r)),
                                                                And(p >= 0, p < a.nnz(c), b.ind(c, p) == r, p == a.inv(c, r), a.has(c, r), veq(a.val(c, p), first.entry(c, r)))), p, first.inv(c, r))),
                ("mirrored entries", fall([c, q], Implies(And(c >= 0, c < N, q >= a.nnz(c), q < b.nnz(c)),
                                                          And(i >= 0, i < N, b.inv(c, i) == q, D(i, c), veq(b.val(c, q), vconj(a.entry(i, c))))), i)),
                ("all mirrored entries", fall([c, r], Implies(And(c >= 0, c < N, r >= 0, r < N, D(r, c)), And(p >= a.nnz(c), p < b.nnz(c), b.ind(c, p) == r)), p))]

    def inner(e):
        a, L = src[0], v.eng.locked
        i = L["k"]
        return rows(e, lambda r, c: If(r == i, And(a.has(i, c), a.inv(i, c) < e.k, i != c), L["others"](r, c)))

    def count(e):
        a, b, i = src[0], Rows(e, A.nnz, A.ind, A.val), v.eng.locked["k"]
        c = a.ind(i, e.k)
        n = b.nnz(c)
        return [fit(c), count_lemma(simp_int(n + 1), lambda q: If(q < n, b.ind(c, q), i), lambda x: If(x == i, n, b.inv(c, x)), N,
                                    lambda x: Or(And(kept(c, x), first.has(c, x)), And(x != c, kept(x, c), first.has(x, c))))]
    v.call(A.obj, v.cell("tri", t, CHAR), loops_={OUTER: LoopSpec(locked=full, stable=stable, inv=lambda e: rows(e, e.done)), INNER: LoopSpec(inv=inner, lemmas=count)})
    v.post_wf(A)
    v.post_view("C08", "upper fills lower conjugated, and conversely", A, lambda i, j: If(kept(i, j), a0(i, j), vconj(a0(j, i))))


WHILE, ROWS = (None, "nz_t", "found", "#loop", "!innz"), (None, "nz_t", "innz", "#loop")


def in_place(v, A, fits, growth=None, still=None, more=lambda e: []):
    """Annotations of the left-looking transposition in place.  Row r holds, in front, nz_t[r] entries that are already
    those of the result and, behind them, entries that are still those of the original row (pending).  All rows before
    i are finished; while row i is processed, what is still pending in it determines what the other rows hold."""
    N = A.N
    a = Rows(v, A.nnz, A.ind, A.val)
    r, q, c = R_, Q_, C__
    fam = getattr(A.ind, "family", None)
    now = lambda e: csr_rows(e, fam) if fam is not None else Rows(e, A.nnz, A.ind, A.val)

    def state(e, i, P):
        """P(b, t)(c): column c is pending in row i (None: the row was not begun)"""
        b, t = now(e), e.arr("nz_t")
        p = P(b, t) if P else lambda x: And(a.has(i, x), Or(x >= i, Not(a.has(x, i))))
        done = lambda r, c: And(a.has(c, r), If(r < i, Or(c < i, a.has(r, c), And(c == i, Not(p(r)))),
                                                If(r == i, Or(c < i, And(a.has(i, c), Not(p(c)))), Or(c < i, And(c == i, Not(p(r)))))))
        pend = lambda r, c: And(a.has(r, c), r >= i, Or(c >= i, Not(a.has(c, r))), *([If(r == i, p(c), Or(c != i, Not(a.has(i, r)), p(r)))] if P else []))
        ind, inv = b.ind(r, q), b.inv(r, c)
        row = And(r >= 0, r < N)
        return [("row lengths", fall([r], Implies(row, And(t(r) >= 0, t(r) <= b.nnz(r), Implies(r < i, t(r) == b.nnz(r)), *fits(b, r))), b.nnz(r), t(r), *([b.alloc(r), *b.caps(r)] if b.alloc else []))),
                ("columns", fall([r, q], Implies(And(row, q >= 0, q < b.nnz(r)), And(ind >= 0, ind < N, b.inv(r, ind) == q)), ind)),
                ("finished entries", fall([r, q], Implies(And(row, q >= 0, q < t(r)), And(done(r, ind), veq(b.val(r, q), a.entry(ind, r)))), ind)),
                ("pending entries", fall([r, q], Implies(And(row, q >= t(r), q < b.nnz(r)), And(pend(r, ind), veq(b.val(r, q), a.entry(r, ind)))), ind)),
                ("all finished entries", fall([r, c], Implies(And(row, c >= 0, c < N, done(r, c)), And(inv >= 0, inv < t(r), b.ind(r, inv) == c)), inv)),
                ("all pending entries", fall([r, c], Implies(And(row, c >= 0, c < N, pend(r, c)), And(inv >= t(r), inv < b.nnz(r), b.ind(r, inv) == c)), inv))]

    def pending(i):
        def P(b, t):
            return lambda c: And(b.inv(i, c) >= t(i), b.inv(i, c) < b.nnz(i), b.ind(i, b.inv(i, c)) == c)
        return P

    def inner(e):
        i = e.loc("i")
        b = now(e)
        return [("last pending entry", And(i >= 0, i < N, e.loc("ipos") == b.nnz(i) - 1))] + (still(e, i) if still else []) + more(e) + state(e, i, pending(i))
    return {ROWS: LoopSpec(inv=lambda e: more(e) + state(e, e.k, None)),
            WHILE: LoopSpec(inv=inner, variant=lambda e: e.loc("ipos") - e.arr("nz_t")(e.loc("i")) + 1,
                            lemmas=growth and (lambda e: growth(e, a, now(e))))}


@contract("bml_transpose_csr", ["C08"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    a0 = v.view(A)
    shape = lambda B, c: [B.nnz(c) <= B.alloc(c), B.alloc(c) >= v.row_space()] + [x == B.alloc(c) for x in B.caps(c)]

    def still(e, i):
        """the blocks of row i stay where they are while row i is processed"""
        f = A.ind.family
        return [("blocks of the row", And([e.eng.content(e.st, g).read([i]) == e.eng.content(e.entry, g).read([i]) for g in f.gen.values()]))]
    v.call(A.obj, loops_=in_place(v, A, shape, still=still))
    v.post_wf(A)
    v.post_view("C08", "A(i,j) = A0(j,i)", A, lambda i, j: a0(j, i))


def in_place_ellpack(v, A, known):
    """known: the room in the rows is established by the code (else it is the precondition)"""
    from s_multiply import op3
    N, M = A.N, A.M
    a = Rows(v, A.nnz, A.ind, A.val)
    y, r0 = z3.Int("y!fit"), z3.Int("r!u")
    # a row has room for its entries and those of its column
    U = op3(OPS.sum(0, N, y, If(Or(a.has(r0, y), a.has(y, r0)), R1, R0)), r0)

    def growth(e, a, b):
        t = b.ind(e.loc("i"), e.loc("ipos"))
        n = b.nnz(t)
        return ([] if known else [U(t) <= z3.ToReal(M)]) + \
            [count_lemma(simp_int(n + 1), lambda q: If(q < n, b.ind(t, q), e.loc("i")), lambda x: If(x == e.loc("i"), n, b.inv(t, x)), N, lambda x: Or(a.has(t, x), a.has(x, t)), U(t))]
    room = lambda e: [("room", fall([r0], Implies(And(r0 >= 0, r0 < N), U(r0) <= z3.ToReal(M)), U(r0), Rows(e, A.nnz, A.ind, A.val).nnz(r0)))] if known else []
    return in_place(v, A, lambda B, c: [B.nnz(c) <= M], growth, more=room)


@contract("ellpack_transpose_left_looking", ["C08"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    a0 = v.view(A)
    v.call(A.obj, loops_=in_place_ellpack(v, A, False))
    v.post_wf(A)
    v.post_view("C08", "A(i,j) = A0(j,i)", A, lambda i, j: a0(j, i))


@contract("bml_transpose_ellpack", ["C08"], **E_)
def _(v):
    from s_multiply import op3
    A = v.ell("A", mod=True)
    a0 = v.view(A)
    N, M = A.N, A.M
    a = Rows(v, A.nnz, A.ind, A.val)
    y, n0, c0 = z3.Int("y!fit"), z3.Int("n!u"), z3.Int("r!u")
    # entries of a column, up to a row, that have no counterpart in the row of that number
    CNT = op3(OPS.sum(0, n0, y, If(And(a.has(y, c0), Not(a.has(c0, y))), R1, R0)), n0, c0)
    lonely = lambda i, c: And(a.has(i, c), Not(a.has(c, i)))

    def room(e, f):
        rm, c = e.arr("room"), C__
        return [("room left", fall([c], Implies(And(c >= 0, c < N), z3.ToReal(rm(c)) == z3.ToReal(M - a.nnz(c)) - f(c)), rm(c)))]

    U = op3(OPS.sum(0, N, y, If(Or(a.has(c0, y), a.has(y, c0)), R1, R0)), c0)
    H = op3(OPS.sum(0, N, y, If(a.has(c0, y), R1, R0)), c0)
    w = z3.Function("lost!u", z3.IntSort(), z3.IntSort())
    # (the columns of row c are at different positions, all of them before nnz(c))
    rows = lambda e: [fall([c0], Or(H(c0) <= z3.ToReal(a.nnz(c0)), a.nnz(c0) < 0, And(a.has(c0, w(c0)), Not(And(a.inv(c0, w(c0)) >= 0, a.inv(c0, w(c0)) < a.nnz(c0), a.ind(c0, a.inv(c0, w(c0))) == w(c0))))), H(c0))]

    def fits(e):
        c = C__
        return room(e, lambda c: CNT(N, c)) + \
            [("entries of rows and columns", fall([c], Implies(And(c >= 0, c < N), U(c) == H(c) + CNT(N, c)), U(c))),
             ("enough room", fall([c], Implies(And(c >= 0, c < e.k, e.loc("fits") != 0), U(c) <= z3.ToReal(M)), U(c)))]

    def count(e, a, b, i):
        t = a.ind(i, e.k)
        n = b.nnz(t)
        return [column_fit(a, t, N, M), count_lemma(simp_int(n + 1), lambda q: If(q < n, b.ind(t, q), i), lambda x: If(x == i, n, b.inv(t, x)), N, lambda x: a.has(x, t))]
    loops = {("i", "room", "fits"): LoopSpec(inv=fits, lemmas=rows),
             ("i", "room", "found"): LoopSpec(inv=lambda e: room(e, lambda c: CNT(e.k, c))),
             ("ipos", "room", "found"): LoopSpec(inv=lambda e: room(e, lambda c: CNT(e.loc("i"), c) + If(And(lonely(e.loc("i"), c), a.inv(e.loc("i"), c) < e.k), R1, R0)))}
    loops.update(in_place_ellpack(v, A, True))
    loops.update(scatter(v, A, new_ellpack, lambda B, c: [B.nnz(c) <= M], count))
    v.call(A.obj, loops_=loops)
    v.post_wf(A)
    v.post_view("C08", "A(i,j) = A0(j,i)", A, lambda i, j: a0(j, i))
