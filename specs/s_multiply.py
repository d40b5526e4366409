"""Contracts of the sparse products (ellpack)."""
from verify import *
from sums import count_lemma

E_ = dict(fmt="ellpack")
P, Q, J = z3.Int("p!m"), z3.Int("q!m"), z3.Int("j!m")


class Stored:
    """stored entries of an input matrix in its entry state"""

    def __init__(self, v, m):
        con, inv = (lambda r: v.eng.content(v.s0 or v.st, r)), v.eng.inv_content(v.s0 or v.st, m.ind)
        nnz, ind, val = con(m.nnz), con(m.ind), con(m.val)
        self.nnz, self.ind = (lambda i: nnz.read([i])), (lambda i, p: ind.read([i, p]))
        self.val, self.inv = (lambda i, p: val.read([i, p])), (lambda i, c: inv.read([i, c]))
        self.has = lambda i, j: And(self.inv(i, j) >= 0, self.inv(i, j) < self.nnz(i), self.ind(i, self.inv(i, j)) == j)


def op3(t, *vs):
    """t as a function of vs (sums stay applications of one symbol)"""
    def f(*xs):
        at = lambda x: z3.substitute(x, *[(o, simp_int(n)) for o, n in zip(vs, xs)])
        return Cx(at(t.re), at(t.im)) if isinstance(t, Cx) else at(t)
    return f


N0, I0, J0, Q0 = z3.Int("n!t"), z3.Int("i!t"), z3.Int("j!t"), z3.Int("q!s")


class Product:
    """C = A*B: what has been accumulated for column j of row i when n entries of row i of A are done"""
    needs_sum = True

    def __init__(self, v, a, b):
        self.v, self.a, self.b = v, a, b
        self.S = op3(OPS.sum(0, N0, Q0, self.term(I0, Q0, J0)), N0, I0, J0)
        self.W = op3(OPS.sum(0, N0, Q0, self.hit(I0, Q0, J0)), N0, I0, J0)

    def term(self, i, q, j):
        a, b = self.a, self.b
        return If(b.has(a.ind(i, q), j), vmul(a.val(i, q), b.val(a.ind(i, q), b.inv(a.ind(i, q), j))), self.v.zero())

    def hit(self, i, q, j):
        return If(self.b.has(self.a.ind(i, q), j), R1, R0)

    def right(self, i, p, n):
        """value and count when also n entries of the row of B that belongs to entry p are done"""
        a, b = self.a, self.b
        j = a.ind(i, p)
        some = lambda c: And(b.has(j, c), b.inv(j, c) < n)
        return (lambda c: vadd(self.S(p, i, c), If(some(c), vmul(a.val(i, p), b.val(j, b.inv(j, c))), self.v.zero()))), \
            (lambda c: self.W(p, i, c) + If(some(c), R1, R0))

    def empty(self, i):
        s0, w0 = self.S(z3.IntVal(0), i, J), self.W(z3.IntVal(0), i, J)
        return [fall([J], veq(s0, self.v.zero()), s0), fall([J], w0 == 0, w0)]

    def unfold(self, i, k):
        s0, s1 = self.S(k, i, J), self.S(k + 1, i, J)
        w0, w1 = self.W(k, i, J), self.W(k + 1, i, J)
        return [fall([J], veq(s1, vadd(s0, self.term(i, k, J))), s1), fall([J], w1 == w0 + self.hit(i, k, J), w1)]

    def pats(self, n, i):
        return [self.W(n, i, J)]

    def column(self, i, p, n):
        """the column of B met at position n"""
        return self.b.ind(self.a.ind(i, p), n)


class Hadamard(Product):
    """C(i,j) = A(i,j)*B(i,j)"""

    def __init__(self, v, a, b):
        self.v, self.a, self.b = v, a, b

    def S(self, n, i, j):
        a, b = self.a, self.b
        return If(And(a.has(i, j), a.inv(i, j) < n, b.has(i, j)), vmul(a.val(i, a.inv(i, j)), b.val(i, b.inv(i, j))), self.v.zero())

    def W(self, n, i, j):
        return If(And(self.a.has(i, j), self.a.inv(i, j) < n), R1, R0)

    def right(self, i, p, n):
        a, b = self.a, self.b
        return (lambda c: If(And(a.has(i, c), a.inv(i, c) < p + 1, b.has(i, c), Implies(a.inv(i, c) == p, b.inv(i, c) < n)),
                             vmul(a.val(i, a.inv(i, c)), b.val(i, b.inv(i, c))), self.v.zero())), \
            (lambda c: self.W(p + 1, i, c))

    def empty(self, i):
        return []

    def unfold(self, i, k):
        return []

    def pats(self, n, i):
        return [self.a.inv(i, J)]

    def column(self, i, p, n):
        return None


class EllRow:
    def __init__(self, v, e, c, i):
        R = e.loc(c + "_index").reg
        ind, inv = v.eng.content(e.st, R), v.eng.inv_content(e.st, R)
        val, nnz = v.eng.content(e.st, e.loc(c + "_value").reg), v.eng.content(e.st, e.loc(c + "_nnz").reg)
        self.ind, self.inv, self.val = (lambda p: ind.read([i, p])), (lambda j: inv.read([i, j])), (lambda p: val.read([i, p]))
        self.nnz = nnz.read([i])
        self.M = e.loc(c + "_M")
        self.known = lambda: (v.eng.content(e.st, e.loc(c + "_nnz").reg), ind, inv)

    def shape(self, N):
        return [("row length", And(self.nnz >= 0, self.nnz <= self.M))]


def product_loops(v, N, D, t, c, fit=None, early=False, trace=None, names=("jp", "kp")):
    """annotations of the loops that compute the product of two sparse matrices row by row; c: name of the result;
    early: the length of the row is compared with the capacity before entries are dropped"""
    import s_csr
    a, b, S, W = D.a, D.b, D.S, D.W
    csr = v.fmt == "csr"
    if trace:
        trace = Traces(v, a, S)
    at = lambda e: e.loc(names[0])

    def marks(e, i, part, hits, pats):
        ix, jx, jv, x, l = e.arr("ix"), e.arr("jx"), e.arrinv("jx"), e.arr("x"), e.loc("l")
        return [("number of columns", And(l >= 0, l <= N)),
                ("columns listed", fall([P], Implies(And(P >= 0, P < l), And(jx(P) >= 0, jx(P) < N, ix(jx(P)) != 0, jv(jx(P)) == P)), jx(P))),
                ("marked columns", fall([J], Implies(And(J >= 0, J < N), Or(ix(J) == 0, And(jv(J) >= 0, jv(J) < l, jx(jv(J)) == J))), ix(J))),
                ("accumulated values", fall([J], Implies(And(J >= 0, J < N), veq(If(ix(J) == 0, v.zero(), x(J)), part(J))), ix(J), x(J), *pats))] + \
            ([("columns marked are hit", fall([J], Implies(And(J >= 0, J < N), And(hits(J) >= 0, Or(ix(J) == 0, hits(J) > 0))), ix(J), *pats))] if early else [])

    def clear(e):
        ix = e.arr("ix")
        return [("no column is marked", fall([J], Implies(And(J >= 0, J < N), ix(J) == 0), ix(J)))]

    def left(e):
        i = e.loc("i")
        return marks(e, i, lambda j: S(e.k, i, j), lambda j: W(e.k, i, j), D.pats(e.k, i)) + (trace.left(e, i) if trace else [])

    def listed(e):
        """the columns listed are those of the pattern of the product row"""
        if not early:
            return []
        i, l = e.loc("i"), e.loc("l")
        return [fit(i), count_lemma(l, e.arr("jx"), e.arrinv("jx"), N, lambda j: filled(i, j))]

    def right(e):
        i, p = e.loc("i"), at(e)
        part, hits = D.right(i, p, e.k)
        return marks(e, i, part, hits, D.pats(p, i))

    def room(k):
        """a column that is not marked leaves room for one more"""
        def f(e):
            jx, jv, l = e.arr("jx"), e.arrinv("jx"), e.loc("l")
            c_ = k(e)
            return [] if c_ is None else [count_lemma(simp_int(l + 1), lambda q: If(q < l, jx(q), c_), lambda y: If(y == c_, l, jv(y)), N)]
        return f

    def row(e, i):
        return s_csr.Row(v, e, c, i) if csr else EllRow(v, e, c, i)

    def kept(i, j):
        return Or(i == j, vabs(S(a.nnz(i), i, j)) > t)

    def filled(i, j):
        return W(a.nnz(i), i, j) > 0

    def store(e):
        i, l = e.loc("i"), e.loc("l")
        r = row(e, i)
        ind, inv, val, ll = r.ind, r.inv, r.val, r.nnz if csr else e.loc("ll")
        ix, jx, jv, x = e.arr("ix"), e.arr("jx"), e.arrinv("jx"), e.arr("x")
        s = lambda j: S(a.nnz(i), i, j)
        return (s_csr.row_shape(v, r, N) if csr else []) + \
               [("length", And(ll >= 0, ll <= e.k, *([] if early or csr else [ll <= r.M]))),
                ("entries stored", fall([Q], Implies(And(Q >= 0, Q < ll), And(ind(Q) >= 0, ind(Q) < N, jv(ind(Q)) >= 0, jv(ind(Q)) < e.k, jx(jv(ind(Q))) == ind(Q),
                                                                              kept(i, ind(Q)), veq(val(Q), s(ind(Q))), inv(ind(Q)) == Q)), ind(Q))),
                ("columns to keep are stored", fall([P], Implies(And(P >= 0, P < e.k, kept(i, jx(P))), And(inv(jx(P)) >= 0, inv(jx(P)) < ll, ind(inv(jx(P))) == jx(P))), jx(P))),
                ("marks left", fall([J], Implies(And(J >= 0, J < N), Or(ix(J) == 0, And(jv(J) >= e.k, jv(J) < l, jx(jv(J)) == J))), ix(J))),
                ("values left", fall([P], Implies(And(P >= e.k, P < l), And(ix(jx(P)) != 0, veq(x(jx(P)), s(jx(P))))), jx(P)))] + (trace.store(e, i, s) if trace else [])

    def fits(e):
        if early or csr:
            return []
        i, ll, k = e.loc("i"), e.loc("ll"), e.arr("jx")(e.k)
        r = row(e, i)
        return [fit(i), count_lemma(If(kept(i, k), ll + 1, ll), lambda q: If(q < ll, r.ind(q), k), lambda y: If(y == k, ll, r.inv(y)), N, lambda j: kept(i, j))]

    def result(e):
        i = e.k
        r = row(e, i)
        ind, inv, val, nnz = r.ind, r.inv, r.val, r.nnz
        s = lambda j: S(a.nnz(i), i, j)
        return (s_csr.row_shape(v, r, N) if csr else r.shape(N)) + \
               [("entries stored", fall([Q], Implies(And(Q >= 0, Q < nnz), And(ind(Q) >= 0, ind(Q) < N, veq(val(Q), s(ind(Q))), kept(i, ind(Q)), inv(ind(Q)) == Q)), ind(Q))),
                ("entries not stored", fall([J], Implies(And(J >= 0, J < N), Or(And(inv(J) >= 0, inv(J) < nnz, ind(inv(J)) == J), And(i != J, Not(vabs(s(J)) > t)), veq(s(J), v.zero()))), inv(J)))]

    def finish(e):
        import memory
        if csr:
            f = s_csr.Row(v, e, c, I0).fam
            memory.NNZOF[v.eng.content(e.st, f.nnz).name] = (v.eng.content(e.st, f.ind), v.eng.inv_content(e.st, f.ind))
        else:
            n, ind, inv = EllRow(v, e, c, I0).known()
            memory.NNZOF[n.name] = (ind, inv)
        return []
    keep = trace.keep() if trace else {}
    o, q = names
    return {("i", q, "jx", "ix"): LoopSpec(rowwise=True, needs=("ix", "jx", "x"), scratch=clear, post=result, finish=finish, keep=keep),
            (o, q, "jx"): LoopSpec(inv=left, hints=lambda e: D.empty(e.loc("i")), finish=listed,
                                   step=lambda e: D.unfold(e.loc("i"), simp_int(e.k - 1)), lemmas=room(lambda e: a.ind(e.loc("i"), e.k))),
            (q, "x"): LoopSpec(inv=right, lemmas=room(lambda e: D.column(e.loc("i"), at(e), e.k))),
            ("j", "xtmp", "jx"): LoopSpec(inv=store, lemmas=fits)}, S, filled if early else kept


@contract("bml_multiply_AB_ellpack", ["C06"], **E_)
def _(v):
    A = v.ell("A")
    B = v.ell("B", N=A.N)
    C = v.ell("C", N=A.N, mod=True)
    a0, b0 = v.view(A), v.view(B)
    a, b = Stored(v, A), Stored(v, B)
    t = v.real("threshold")
    v.assume(t >= 0)
    loops, S, filled = product_loops(v, A.N, Product(v, a, b), t, "C", lambda i: C.fit(i), early=True)
    v.fits(C, filled)
    v.call(A.obj, B.obj, C.obj, t, loops_=loops)
    v.post_wf(C)
    k = z3.Int("k!s")
    s = lambda i, j: OPS.sum(0, A.N, k, vmul(a0(i, k), b0(k, j)))
    i, j, rng = v.ij(A.N)
    p = S(a.nnz(i), i, j)
    v.post("C06", "the sum over the stored entries is the product", veq(p, s(i, j)), extra=rng)
    c = v.view(C, v.final)(i, j)
    v.post("C06", "C = A*B, off-diagonal entries not above the threshold dropped", veq(c, If(Or(i == j, vabs(p) > t), p, v.zero())), extra=rng)


class Traces:
    """the traces of X and X*X, accumulated along the way"""

    def __init__(self, v, x, S):
        self.v, self.x, self.S = v, x, S

    def start(self, e, nm):
        return e.entry.env[e.eng.var_by_name(e.entry, nm)]

    def left(self, e, i):
        x = self.x
        return [("trace of X", veq(e.loc("traceX"), vadd(self.start(e, "traceX"), If(And(x.has(i, i), x.inv(i, i) < e.k), x.val(i, x.inv(i, i)), self.v.zero()))))]

    def store(self, e, i, s):
        ix0, jv = e.entry_arr("ix"), e.arrinv("jx")
        return [("trace of X*X", veq(e.loc("traceX2"), vadd(self.start(e, "traceX2"), If(And(ix0(i) != 0, jv(i) < e.k), s(i), self.v.zero()))))]

    def keep(self):
        x = self.x
        return {"traceX": lambda e, t: If(x.has(e.k, e.k), x.val(e.k, x.inv(e.k, e.k)), self.v.zero()),
                "traceX2": lambda e, t: self.S(x.nnz(e.k), e.k, e.k)}


@contract("bml_multiply_x2_ellpack", ["C06"], **E_)
def _(v):
    X = v.ell("X")
    C = v.ell("X2", N=X.N, mod=True)
    x0 = v.view(X)
    x = Stored(v, X)
    t = v.real("threshold")
    v.assume(t >= 0)
    loops, S, kept = product_loops(v, X.N, Product(v, x, x), t, "X2", lambda i: C.fit(i), trace=True)
    v.fits(C, kept)
    r = v.call(X.obj, C.obj, t, loops_=loops)
    v.post_wf(C)
    k = z3.Int("k!s")
    s = lambda i, j: OPS.sum(0, X.N, k, vmul(x0(i, k), x0(k, j)))
    i, j, rng = v.ij(X.N)
    p = S(x.nnz(i), i, j)
    v.post("C06", "the sum over the stored entries is the product", veq(p, s(i, j)), extra=rng)
    c = v.view(C, v.final)(i, j)
    v.post("C06", "X2 = X*X, off-diagonal entries not above the threshold dropped", veq(c, If(Or(i == j, vabs(p) > t), p, v.zero())), extra=rng)
    tr = lambda n: v.eng.content(v.final, r.reg).read([z3.IntVal(n)])
    v.post("C06", "first result: trace of X", tr(0) == vre(OPS.sum(0, X.N, i, x0(i, i))))
    v.post("C06", "second result: trace of X*X", tr(1) == vre(OPS.sum(0, X.N, i, S(x.nnz(i), i, i))))


def _multiply(v, same, plain, alnz, benz):
    A = v.ell("A")
    B = A if same else v.ell("B", N=A.N)
    C = v.ell("C", N=A.N, mod=True)
    a0, b0, c0 = v.view(A), v.view(B), v.view(C)
    a, b = Stored(v, A), Stored(v, B)
    al, be, t = v.real("alpha"), v.real("beta"), v.real("threshold")
    v.assume(t >= 0)
    v.case(And(al == 1, be == 0) if plain else Not(And(al == 1, be == 0)) if same else z3.BoolVal(True))
    v.case(And(al != 0 if alnz else al == 0, be != 0 if benz else be == 0))
    holder = []
    fit = lambda i: holder[0](i)
    if same:
        loops, S, pattern = product_loops(v, A.N, Product(v, a, b), t, "X2", fit, trace=True)
    else:
        loops, S, pattern = product_loops(v, A.N, Product(v, a, b), t, "C", fit, early=True)
    p = lambda i, j: S(a.nnz(i), i, j)
    prod = lambda i, j: If(Or(i == j, vabs(p(i, j)) > t), p(i, j), v.zero())
    j0 = z3.Int("fit#k")
    rows = lambda i: OPS.sum(0, A.N, j0, If(pattern(i, j0), z3.RealVal(1), z3.RealVal(0))) <= z3.ToReal(C.M)
    holder.append(rows)
    if plain:
        f = prod
        v.fits(C, pattern)
    else:
        v.eng.newrows = (A.N, C.M, rows)
        g = lambda i, j: vadd(vmul(be, c0(i, j)), vmul(al, prod(i, j)))
        f = lambda i, j: If(vabs(g(i, j)) > t, g(i, j), v.zero())
        v.fits(C, lambda i, j: vabs(g(i, j)) > t)
    v.call(A.obj, B.obj, C.obj, al, be, t, loops_=loops)
    v.post_wf(C)
    k = z3.Int("k!s")
    i, j, rng = v.ij(A.N)
    v.post("C06", "the sum over the stored entries is the product", veq(p(i, j), OPS.sum(0, A.N, k, vmul(a0(i, k), b0(k, j)))), extra=rng)
    v.post("C06", "C = alpha*A*B + beta*C, entries not above the threshold dropped", veq(v.view(C, v.final)(i, j), f(i, j)), extra=rng)


contract("bml_multiply_ellpack", ["C06"], cid="bml_multiply_ellpack#same,alpha=1,beta=0", **E_)(lambda v: _multiply(v, True, True, 1, 0))
for _same in (True, False):
    for _m in range(4):
        _nm = "bml_multiply_ellpack#" + ("same," if _same else "") + ("alpha≠0," if _m & 1 else "alpha=0,") + ("beta≠0" if _m & 2 else "beta=0")
        # complex element types with both terms: out of reach of the solver within the time limit (bounded there)
        contract("bml_multiply_ellpack", ["C06"], cid=_nm, precs=["single_real", "double_real"] if _m == 3 else list(PRECS), **E_)(lambda v, s=_same, m=_m: _multiply(v, s, False, m & 1, m & 2))


@contract("bml_element_multiply_AB_ellpack", ["C07"], **E_)
def _(v):
    A = v.ell("A")
    B = v.ell("B", N=A.N)
    C = v.ell("C", N=A.N, mod=True)
    a0, b0 = v.view(A), v.view(B)
    t = v.real("threshold")
    v.assume(t >= 0)
    loops, S, filled = product_loops(v, A.N, Hadamard(v, Stored(v, A), Stored(v, B)), t, "C", lambda i: C.fit(i), early=True)
    v.fits(C, filled)
    v.call(A.obj, B.obj, C.obj, t, loops_=loops)
    v.post_wf(C)
    f = lambda i, j: vmul(a0(i, j), b0(i, j))
    v.post_view("C07", "C(i,j) = A(i,j)*B(i,j), off-diagonal entries not above the threshold dropped", C,
                lambda i, j: If(Or(i == j, vabs(f(i, j)) > t), f(i, j), v.zero()))


C_ = dict(fmt="csr")


@contract("bml_element_multiply_AB_csr", ["C07"], **C_)
def _(v):
    A = v.csr("A")
    B = v.csr("B", N=A.N)
    C = v.csr("C", N=A.N, mod=True)
    a0, b0 = v.view(A), v.view(B)
    t = v.real("threshold")
    v.assume(t >= 0)
    loops, S, filled = product_loops(v, A.N, Hadamard(v, Stored(v, A), Stored(v, B)), t, "C", names=("pos", "bpos"))
    v.call(A.obj, B.obj, C.obj, t, loops_=loops)
    v.post_wf(C)
    f = lambda i, j: vmul(a0(i, j), b0(i, j))
    v.post_view("C07", "C(i,j) = A(i,j)*B(i,j), off-diagonal entries not above the threshold dropped", C,
                lambda i, j: If(Or(i == j, vabs(f(i, j)) > t), f(i, j), v.zero()))


@contract("bml_multiply_AB_csr", ["C06"], **C_)
def _(v):
    A = v.csr("A")
    B = v.csr("B", N=A.N)
    C = v.csr("C", N=A.N, mod=True)
    a0, b0 = v.view(A), v.view(B)
    a, b = Stored(v, A), Stored(v, B)
    t = v.real("threshold")
    v.assume(t >= 0)
    loops, S, filled = product_loops(v, A.N, Product(v, a, b), t, "C", names=("pos", "bpos"))
    v.call(A.obj, B.obj, C.obj, t, loops_=loops)
    v.post_wf(C)
    k = z3.Int("k!s")
    s = lambda i, j: OPS.sum(0, A.N, k, vmul(a0(i, k), b0(k, j)))
    i, j, rng = v.ij(A.N)
    p = S(a.nnz(i), i, j)
    v.post("C06", "the sum over the stored entries is the product", veq(p, s(i, j)), extra=rng)
    c = v.view(C, v.final)(i, j)
    v.post("C06", "C = A*B, off-diagonal entries not above the threshold dropped", veq(c, If(Or(i == j, vabs(p) > t), p, v.zero())), extra=rng)


@contract("bml_multiply_x2_csr", ["C06"], **C_)
def _(v):
    X = v.csr("X")
    C = v.csr("X2", N=X.N, mod=True)
    x0 = v.view(X)
    x = Stored(v, X)
    t = v.real("threshold")
    v.assume(t >= 0)
    loops, S, kept = product_loops(v, X.N, Product(v, x, x), t, "X2", trace=True, names=("ipos", "jpos"))
    r = v.call(X.obj, C.obj, t, loops_=loops)
    v.post_wf(C)
    product_posts(v, X.N, x, x0, x0, S, C, t, "X2 = X*X")
    i = z3.Int("i!s")
    tr = lambda n: v.eng.content(v.final, r.reg).read([z3.IntVal(n)])
    v.post("C06", "first result: trace of X", tr(0) == vre(OPS.sum(0, X.N, i, x0(i, i))))
    v.post("C06", "second result: trace of X*X", tr(1) == vre(OPS.sum(0, X.N, i, S(x.nnz(i), i, i))))


def product_posts(v, N, a, a0, b0, S, C, t, what):
    k = z3.Int("k!s")
    i, j, rng = v.ij(N)
    p = S(a.nnz(i), i, j)
    v.post("C06", "the sum over the stored entries is the product", veq(p, OPS.sum(0, N, k, vmul(a0(i, k), b0(k, j)))), extra=rng)
    v.post("C06", what + ", off-diagonal entries not above the threshold dropped", veq(v.view(C, v.final)(i, j), If(Or(i == j, vabs(p) > t), p, v.zero())), extra=rng)


def _multiply_csr(v, same, plain):
    import s_csr
    A = v.csr("A")
    B = A if same else v.csr("B", N=A.N)
    C = v.csr("C", N=A.N, mod=True)
    a0, b0, c0 = v.view(A), v.view(B), v.view(C)
    a, b = Stored(v, A), Stored(v, B)
    al, be, t = v.real("alpha"), v.real("beta"), v.real("threshold")
    v.assume(t >= 0)
    v.case(And(al == 1, be == 0) if plain else Not(And(al == 1, be == 0)) if same else z3.BoolVal(True))
    loops, S, _ = product_loops(v, A.N, Product(v, a, b), t, "X2" if same else "C", trace=same, names=("ipos", "jpos") if same else ("pos", "bpos"))
    p = lambda i, j: S(a.nnz(i), i, j)
    prod = lambda i, j: If(Or(i == j, vabs(p(i, j)) > t), p(i, j), v.zero())
    if plain:
        f = prod
    else:
        loops.update(s_csr.add_loops(v, C, be, al))
        g = lambda i, j: vadd(vmul(be, c0(i, j)), vmul(al, prod(i, j)))
        f = lambda i, j: If(vabs(g(i, j)) > t, g(i, j), v.zero())
    v.call(A.obj, B.obj, C.obj, al, be, t, loops_=loops)
    v.post_wf(C)
    k = z3.Int("k!s")
    i, j, rng = v.ij(A.N)
    v.post("C06", "the sum over the stored entries is the product", veq(p(i, j), OPS.sum(0, A.N, k, vmul(a0(i, k), b0(k, j)))), extra=rng)
    v.post("C06", "C = alpha*A*B + beta*C, entries not above the threshold dropped", veq(v.view(C, v.final)(i, j), f(i, j)), extra=rng)


contract("bml_multiply_csr", ["C06"], cid="bml_multiply_csr#same,alpha=1,beta=0", **C_)(lambda v: _multiply_csr(v, True, True))
contract("bml_multiply_csr", ["C06"], cid="bml_multiply_csr#same", **C_)(lambda v: _multiply_csr(v, True, False))
contract("bml_multiply_csr", ["C06"], cid="bml_multiply_csr#different", **C_)(lambda v: _multiply_csr(v, False, False))
