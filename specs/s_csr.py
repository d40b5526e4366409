"""Contracts of the csr format."""
from verify import *

C_ = dict(fmt="csr")
K = z3.Int("k!s")
L = z3.Int("l!s")


@contract("bml_scale_inplace_csr", ["C05"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj)
    v.post_wf(A)
    v.post_view("C05", "A = s*A", A, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_trace_csr", ["C11"], **C_)
def _(v):
    A = v.csr("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C11", "sum of the diagonal", r == vre(OPS.sum(0, A.N, K, a0(K, K))))


def csr2(v):
    A, B = v.csr("A"), v.csr("B")
    return A, B, v.view(A), v.view(B)


@contract("bml_trace_mult_csr", ["C11"], **C_)
def _(v):
    A, B, a0, b0 = csr2(v)
    r = v.call(A.obj, B.obj)
    v.post("C11", "result is the sum of A(i,j)*B(j,i)", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), b0(j, i)))))


@contract("bml_sum_squares_csr", ["C12"], **C_)
def _(v):
    A = v.csr("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C12", "sum of the squared entries", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), a0(i, j)))))


@contract("bml_sum_squares_submatrix_csr", ["C12"], **C_)
def _(v):
    A = v.csr("A")
    c = v.int("core_size", 0)
    v.assume(c <= A.N)
    a0 = v.view(A)
    r = v.call(A.obj, c)
    v.post("C12", "sum of the squared entries of the core block", r == vre(v.sum2(c, c, lambda i, j: vmul(a0(i, j), a0(i, j)))))


@contract("bml_fnorm_csr", ["C12"], **C_)
def _(v):
    A = v.csr("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C12", "square root of the sum of squares", r == v.sqrt(vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), a0(i, j))))))


# ---------------------------------------------------------------- accessors
@contract("bml_get_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A")
    i, j = v.int("i", 0), v.int("j", 0)
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    r = v.call(A.obj, i, j)
    v.post("C03", "returned cell holds A(i,j)", veq(v.deref(r, 0), a0(i, j)))


@contract("bml_get_row_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A")
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    b = v.block1(v.call(A.obj, i), A.N)
    j = fint("j")
    v.post("C03", "returned row holds A(i,*)", veq(b(j), a0(i, j)), extra=[And(j >= 0, j < A.N)])


@contract("bml_get_diagonal_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A")
    a0 = v.view(A)
    b = v.block1(v.call(A.obj), A.N)
    j = fint("j")
    v.post("C03", "returned array holds the diagonal", veq(b(j), a0(j, j)), extra=[And(j >= 0, j < A.N)])


def stored(v, A, i, j):
    n0 = v.eng.content(v.st, A.nnz).read([i])
    pp = v.eng.inv_content(v.st, A.ind).read([i, j])
    return And(pp >= 0, pp < n0, v.eng.content(v.st, A.ind).read([i, pp]) == j)


@contract("bml_set_element_new_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    i, j, x = v.int("i", 0), v.int("j", 0), v.elem("x")
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    v.assume(Not(stored(v, A, i, j)))
    v.call(A.obj, i, j, v.cell("value", x))
    v.post_wf(A)
    v.post_view("C03", "entry (i,j) is the value, all others are as before", A,
                lambda p, q: If(And(p == i, q == j), x, a0(p, q)))


@contract("bml_set_element_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    i, j, x = v.int("i", 0), v.int("j", 0), v.elem("x")
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    v.call(A.obj, i, j, v.cell("value", x))
    v.post_wf(A)
    v.post_view("C03", "entry (i,j) is the value, all others are as before", A,
                lambda p, q: If(And(p == i, q == j), x, a0(p, q)))


@contract("bml_set_diagonal_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    a0 = v.view(A)
    d = v.array("diagonal", v.ety, [A.N])
    t = v.real("threshold")
    rc = v.eng.content(v.st, d.reg)
    v.call(A.obj, d, t)
    v.post_wf(A)
    v.post_view("C03", "diagonal holds the given values, other entries are as before", A,
                lambda p, q: If(p == q, If(vabs(rc.read([q])) > t, rc.read([q]), v.zero()), a0(p, q)))


@contract("bml_set_row_csr", ["C03"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    t = v.real("threshold")
    row = v.array("row", v.ety, [A.N])
    rc = v.eng.content(v.st, row.reg)
    v.call(A.obj, i, row, t)
    v.post_wf(A)
    v.post_view("C03", "row i holds the given values above the threshold, other rows are as before", A,
                lambda p, q: If(p == i, If(vabs(rc.read([q])) > t, rc.read([q]), v.zero()), a0(p, q)))


@contract("bml_export_to_dense_csr", ["C02"], **C_)
def _(v):
    A = v.csr("A")
    o = v.enum("order", 0, 1)
    a0 = v.view(A)
    r = v.call(A.obj, o)
    b = v.block2(r, A.N, A.N)
    i, j, rng = v.ij(A.N)
    v.post("C02", "row-major array holds the entries", veq(b(i, j), a0(i, j)), extra=rng + [o == 0])
    v.post("C02", "column-major array holds the entries", veq(b(j, i), a0(i, j)), extra=rng + [o == 1])


# ---------------------------------------------------------------- threshold, copy, clear
@contract("bml_threshold_csr", ["C10"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    t = v.real("threshold")
    v.assume(t >= 0)
    a0 = v.view(A)
    v.call(A.obj, t)
    v.post_wf(A)
    v.post_view("C10", "exactly the entries above the threshold remain", A,
                lambda i, j: If(vabs(a0(i, j)) > t, a0(i, j), v.zero()))


def rows_fit(v, A, B):
    i = z3.Int("i!cap")
    n, c = v.eng.content(v.st, A.nnz).read([i]), v.eng.content(v.st, B.alloc).read([i])
    v.assume(z3.ForAll([i], Implies(And(i >= 0, i < A.N), n <= c), patterns=[n]))


@contract("bml_copy_csr", ["C09"], **C_)
def _(v):
    A, B = v.csr("A"), v.csr("B", mod=True)
    a0 = v.view(A)
    rows_fit(v, A, B)
    v.eng.frozen.discard(B.obj.name)
    v.call(A.obj, B.obj)
    v.post_wf(B)
    v.post_view("C09", "target has exactly the entries of the source", B, lambda i, j: a0(i, j))


@contract("bml_scale_csr", ["C05"], **C_)
def _(v):
    A, B = v.csr("A"), v.csr("B", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    rows_fit(v, A, B)
    v.eng.frozen.discard(B.obj.name)
    v.call(v.cell("scale", s), A.obj, B.obj)
    v.post_wf(B)
    v.post_view("C05", "B = s*A", B, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_clear_csr", ["C15"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    v.eng.frozen.discard(A.obj.name)
    v.call(A.obj)
    v.post_wf(A)
    v.post_view("C15", "every entry is zero", A, lambda i, j: v.zero())


# ---------------------------------------------------------------- Gershgorin, introspection
@contract("bml_accumulate_offdiag_csr", ["C13"], **C_)
def _(v):
    A = v.csr("A")
    inc = z3.Int("include_diag")
    a0 = v.view(A)
    b = v.block1(v.call(A.obj, inc), A.N)
    i = fint("i")
    v.post("C13", "row sum of magnitudes", veq(b(i), OPS.sum(0, A.N, K, If(Or(K != i, inc != 0), vabs(a0(i, K)), R0))),
           extra=[And(i >= 0, i < A.N)])


@contract("bml_gershgorin_csr", ["C13"], **C_)
def _(v):
    from s_ellpack import gersh
    A = v.csr("A")
    r = v.call(A.obj)
    gersh(v, A, A.N, r)


@contract("bml_gershgorin_partial_csr", ["C13"], **C_)
def _(v):
    from s_ellpack import gersh
    A = v.csr("A")
    n = v.int("nrows", 1)
    v.assume(n <= A.N)
    r = v.call(A.obj, n)
    gersh(v, A, n, r)


@contract("bml_get_sparsity_csr", ["C14"], **C_)
def _(v):
    A = v.csr("A")
    t = v.real("threshold")
    v.assume(t >= 0)
    a0 = v.view(A)
    r = v.call(A.obj, t)
    n = v.sum2(A.N, A.N, lambda i, j: If(vabs(a0(i, j)) > t, R1, R0))
    v.post("C14", "one minus the fraction of entries above the threshold",
           r == rsub(R1, rdiv(z3.ToReal(terms._trunc(n)), rmul(z3.ToReal(A.N), z3.ToReal(A.N)))))


class Row:
    """one row of the csr matrix in a local variable, in the state of an annotation"""

    def __init__(self, v, e, var, i):
        A = e.loc(var)
        d = e.st.fields[(A.name, "data_")]
        o = v.eng.content(e.st, d.reg).read([i])
        if not isinstance(o, Obj) or o.name not in v.eng.families:
            raise Undecided("rows of a csr matrix")
        self.fam = f = v.eng.families[o.name]
        con, inv = (lambda r: v.eng.content(e.st, r)), v.eng.inv_content(e.st, f.ind)
        self.nnz, self.alloc = con(f.nnz).read([i]), con(f.alloc).read([i])
        self.cap = lambda b: con(f.cap[b]).read([i])
        self.ind, self.inv, self.val = (lambda p: con(f.ind).read([i, p])), (lambda c: inv.read([i, c])), (lambda p: con(f.val).read([i, p]))
        self.has = lambda j: And(self.inv(j) >= 0, self.inv(j) < self.nnz, self.ind(self.inv(j)) == j)


# ---------------------------------------------------------------- allocation
def alloc(name, view, prop="C15", dim=False, **kw):
    @contract(name, [prop] if isinstance(prop, str) else prop, **C_)
    def _(v):
        N, M = v.size(), v.int("M", 0)
        d = v.mode_arg()
        r = v.call(v.dims(N_rows=N, N_cols=N, N_nz_max=M), d) if dim else v.call(N, M, d)
        m = v.out(r)
        v.post_new(prop if isinstance(prop, str) else prop[0], m, M=M, mode=d)
        v.post_wf(m)
        if view is not None:
            v.post_view(prop if isinstance(prop, str) else prop[0], "entries of the new matrix", m, lambda i, j: view(v, i, j))


alloc("bml_noinit_matrix_csr", None, dim=True)
alloc("bml_zero_matrix_csr", lambda v, i, j: v.zero())
alloc("bml_identity_matrix_csr", lambda v, i, j: If(i == j, v.one(), v.zero()))


@contract("bml_banded_matrix_csr", ["C15"], **C_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 0)
    R = v.out(v.call(N, M, d))
    v.post_new("C15", R, M=M, mode=d)
    v.post_wf(R)
    i, j, rng = v.ij(N)
    f = v.view(R, v.final)
    h = M / 2
    v.post("C15", "entries only within the band", veq(f(i, j), v.zero()), extra=rng + [Or(j < i - h, j >= i - h + M)])
    v.post("C15", "every position of the band is stored", f.has(i, j), extra=rng + [j >= i - h, j < i - h + M])


def own(v, R, A):
    v.post("C09", "the new matrix has its own storage", z3.BoolVal(R.fam is not A.fam))


@contract("bml_copy_csr_new", ["C09"], **C_)
def _(v):
    A = v.csr("A")
    a0 = v.view(A)
    R = v.out(v.call(A.obj))
    v.post_new("C09", R, mode=A.mode)
    v.post("C09", "copy has the row capacity hint of the source", R.M == A.M)
    v.post_wf(R)
    v.post_view("C09", "copy has the entries of the source", R, lambda i, j: a0(i, j))
    own(v, R, A)


@contract("bml_scale_csr_new", ["C05"], **C_)
def _(v):
    A = v.csr("A")
    s = v.elem("s")
    a0 = v.view(A)
    R = v.out(v.call(v.cell("scale", s), A.obj))
    v.post_new("C05", R, mode=A.mode)
    v.post_wf(R)
    v.post_view("C05", "result = s*A", R, lambda i, j: vmul(s, a0(i, j)))
    own(v, R, A)


@contract("bml_threshold_new_csr", ["C10"], **C_)
def _(v):
    A = v.csr("A")
    t = v.real("threshold")
    v.assume(t >= 0)
    a0 = v.view(A)
    # rows of A fit into the row capacity the matrix was created with
    i = z3.Int("i!cap")
    n = v.eng.content(v.st, A.nnz).read([i])
    v.assume(z3.ForAll([i], Implies(And(i >= 0, i < A.N), Or(n <= A.M, n <= v.row_space())), patterns=[n]))
    R = v.out(v.call(A.obj, t))
    v.post_new("C10", R, mode=A.mode)
    v.post_wf(R)
    v.post_view("C10", "exactly the entries above the threshold remain", R, lambda i, j: If(vabs(a0(i, j)) > t, a0(i, j), v.zero()))


@contract("bml_import_from_dense_csr", ["C02"], **C_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 0)
    o = v.enum("order", 0, 1)
    t = v.real("threshold")
    r = v.region("array", v.ety, [N, N])
    c = v.eng.content(v.st, r)
    x = lambda i, j: If(o == 0, c.read([i, j]), c.read([j, i]))
    q, b = z3.Int("q!i"), z3.Int("b!i")

    def inner(e):
        """row i holds the entries of columns 0..k-1 above the threshold"""
        i = e.loc("i")
        row = Row(v, e, "csr_A", i)
        n, al = row.nnz, row.alloc
        col, pos, val = row.ind, row.inv, row.val
        return [("capacity", And(n >= 0, n <= al, al >= v.row_space(), row.cap("cols_") == al, row.cap("vals_") == al)),
                ("stored entries", fall([q], Implies(And(q >= 0, q < n), And(col(q) >= 0, col(q) < e.k, pos(col(q)) == q, vabs(x(i, col(q))) > t,
                                                                             veq(val(q), x(i, col(q))))), col(q))),
                ("entries above the threshold are stored", fall([b], Implies(And(b >= 0, b < e.k, vabs(x(i, b)) > t),
                                                                             And(pos(b) >= 0, pos(b) < n, col(pos(b)) == b)), pos(b)))]
    R = v.out(v.call(o, N, Ptr(r, ety=v.ety), t, M, d, loops_={("j", "order", "threshold"): LoopSpec(inv=inner)}))
    v.post_new("C02", R, M=M, mode=d)
    v.post_wf(R)
    v.post_view("C02", "matrix holds the array's entries above the threshold", R, lambda i, j: If(vabs(x(i, j)) > t, x(i, j), v.zero()))


# ---------------------------------------------------------------- introspection
UC_ = dict(C_, typed=False)


@contract("bml_get_row_bandwidth_csr", ["C14"], **UC_)
def _(v):
    A = v.csr("A")
    i = v.int("i", 0)
    v.assume(i < A.N)
    r = v.call(A.obj, i)
    v.post("C14", "number of stored entries of the row", r == v.eng.content(v.s0, A.nnz).read([i]))


@contract("bml_get_bandwidth_csr", ["C14"], **UC_)
def _(v):
    A = v.csr("A")
    r = v.call(A.obj)
    nz = v.eng.content(v.s0, A.nnz)
    v.post("C14", "maximum number of stored entries of a row", r == loops.extremum_term("max", z3.IntVal(0), z3.IntVal(0), A.N, L, nz.read([L])))


for f_, fld in (("N", "N_"), ("distribution_mode", "distribution_mode"), ("precision", "matrix_precision")):
    @contract(f"bml_get_{f_}_csr", ["C14"], **UC_)
    def _(v, fld=fld):
        A = v.csr("A")
        r = v.call(A.obj)
        v.post("C14", "returns the recorded value", r == v.s0.fields[(A.obj.name, fld)])


@contract("bml_deallocate_csr", ["C16"], **UC_)
def _(v):
    A = v.csr("A", mod=True)
    v.owned(A)
    v.call(A.obj)
    v.post_released(A)


# ---------------------------------------------------------------- sums of two matrices, through the row index table
Q, J = z3.Int("q!r"), z3.Int("j!r")


class OldRow(Row):
    """a row in the entry state of the function, or in another state"""

    def __init__(self, v, m, i, st=None):
        st = st or v.s0
        con, inv = (lambda r: v.eng.content(st, r)), v.eng.inv_content(st, m.ind)
        self.nnz, self.alloc = con(m.nnz).read([i]), con(m.alloc).read([i])
        self.ind, self.inv, self.val = (lambda p: con(m.ind).read([i, p])), (lambda c: inv.read([i, c])), (lambda p: con(m.val).read([i, p]))
        self.has = lambda j: And(self.inv(j) >= 0, self.inv(j) < self.nnz, self.ind(self.inv(j)) == j)


def tview(v, e):
    from s_table import View
    return View(v.eng, e.st, e.loc("table"))


def keys_are(t, n, col):
    from s_table import S
    return [("the table holds the columns stored so far", t.n == n)] + \
        [("positions are those of the row", fall([S], Implies(And(S >= 0, S < n), t.key(S) == col(S)), t.key(S), col(S)))] + t.wf()


def row_shape(v, r, N):
    return [("row shape", And(r.nnz >= 0, r.nnz <= r.alloc, r.alloc >= v.row_space(), r.cap("cols_") == r.alloc, r.cap("vals_") == r.alloc)),
            ("row columns", fall([Q], Implies(And(Q >= 0, Q < r.nnz), And(r.ind(Q) >= 0, r.ind(Q) < N, r.inv(r.ind(Q)) == Q)), r.ind(Q)))]


def rows_known(v, A):
    """after a row-wise loop: the rows are well-formed, sums over stored entries may be rearranged over columns"""
    def finish(e):
        import memory
        con = lambda r: v.eng.content(e.st, r)
        memory.NNZOF[con(A.nnz).name] = (con(A.ind), v.eng.inv_content(e.st, A.ind))
        return []
    return finish


def addid_loop(v, A, be):
    def result(e):
        """relative to the rows at the start of the loop"""
        r, a = Row(v, e, "A", e.k), OldRow(v, A, e.k, e.entry)
        i = e.k
        return row_shape(v, r, A.N) + [
            ("stored values", fall([Q], Implies(And(Q >= 0, Q < r.nnz), veq(r.val(Q), vadd(If(Q < a.nnz, a.val(Q), v.zero()), If(r.ind(Q) == i, v.one(be), v.zero())))), r.val(Q))),
            ("stored columns stay", And(r.nnz >= a.nnz, fall([Q], Implies(And(Q >= 0, Q < a.nnz), r.ind(Q) == a.ind(Q)), r.ind(Q), a.ind(Q)))),
            ("only the diagonal is added", fall([Q], Implies(And(Q >= a.nnz, Q < r.nnz), And(r.ind(Q) == i, Not(a.has(i)))), r.ind(Q))),
            ("the diagonal is stored", Implies(be != 0, And(r.inv(i) >= 0, r.inv(i) < r.nnz, r.ind(r.inv(i)) == i))),
            ("no other column is added", fall([J], Implies(a.has(J), And(r.inv(J) == a.inv(J))), r.inv(J)))]
    return {("i", "diag", "acols"): LoopSpec(rowwise=True, post=result, finish=rows_known(v, A))}


def _addid(v, be, al=None):
    A = v.csr("A", mod=True)
    a0 = v.view(A)
    t = v.real("threshold")
    v.assume(t >= 0)
    sc = lambda x: x if al is None else vmul(al, x)
    f = lambda i, j: vadd(sc(a0(i, j)), If(i == j, v.one(be), v.zero()))
    v.call(*([A.obj] + ([al] if al is not None else []) + [be, t]), loops_=addid_loop(v, A, be))
    v.post_wf(A)
    v.post_view("C04", "A = alpha*A + beta*I above the threshold", A, lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))


def _norm(v, hi):
    A = v.csr("A", mod=True)
    lo = v.real("mineval")
    v.assume(lo < hi)
    a0 = v.view(A)
    d = rsub(hi, lo)
    f = lambda i, j: vsub(If(i == j, v.one(rdiv(hi, d)), v.zero()), vdiv(a0(i, j), d))
    v.call(A.obj, lo, hi, loops_=addid_loop(v, A, rdiv(hi, d)))
    v.post_wf(A)
    v.post_view("C13", "A = (maxeval*I - A)/(maxeval - mineval)", A, f)


for _m in (0, 1):
    _nm = "beta" + ("≠0" if _m else "=0")

    def _case(v, m=_m, nm="beta"):
        be = v.real(nm)
        v.case(be != 0 if m else be == 0)
        return be
    contract("bml_add_identity_csr", ["C04"], cid=f"bml_add_identity_csr#{_nm}", **C_)(lambda v, c=_case: _addid(v, c(v)))
    contract("bml_scale_add_identity_csr", ["C04"], cid=f"bml_scale_add_identity_csr#{_nm}", **C_)(lambda v, c=_case: _addid(v, c(v), v.real("alpha")))
    contract("bml_normalize_csr", ["C13"], cid=f"bml_normalize_csr#{_nm.replace('beta', 'maxeval')}", **C_)(lambda v, c=_case: _norm(v, c(v, nm="maxeval")))


def add_loops(v, C, al, be):
    """annotations of the loops of bml_add_csr; its first operand is the matrix C of the contract"""
    import s_table

    def rows(e, i):
        return Row(v, e, "A", i), OldRow(v, C, i), Row(v, e, "B", i)
    shape = lambda r: row_shape(v, r, C.N)

    def total(a, b, j):
        return vadd(If(a.has(j), vmul(al, a.val(a.inv(j))), v.zero()), If(b.has(j), vmul(be, b.val(b.inv(j))), v.zero()))

    def scratch(e):
        tv = tview(v, e)
        return tv.wf() + [("the table is empty", tv.n == 0), ("every row fits into the table", tv.C >= e.loc("tsize"))]

    def scale(e):
        r, a, b = rows(e, e.loc("i"))
        tv = tview(v, e)
        return [("entries before are scaled", fall([Q], Implies(And(Q >= 0, Q < a.nnz), veq(r.val(Q), If(Q < e.k, vmul(al, a.val(Q)), a.val(Q)))), r.val(Q)))] + \
            keys_are(tv, e.k, a.ind) + [("every row fits into the table", tv.C >= e.loc("tsize"))]

    def merge(e):
        r, a, b = rows(e, e.loc("i"))
        done = lambda j: And(b.has(j), b.inv(j) < e.k)
        add = lambda j: If(done(j), vmul(be, b.val(b.inv(j))), v.zero())
        return shape(r) + [
            ("columns of A stay in place", And(r.nnz >= a.nnz, fall([Q], Implies(And(Q >= 0, Q < a.nnz), r.ind(Q) == a.ind(Q)), r.ind(Q), a.ind(Q)))),
            ("values at columns of A", fall([Q], Implies(And(Q >= 0, Q < a.nnz), veq(r.val(Q), vadd(vmul(al, a.val(Q)), add(a.ind(Q))))), r.val(Q))),
            ("columns appended come from B", fall([Q], Implies(And(Q >= a.nnz, Q < r.nnz), And(done(r.ind(Q)), Not(a.has(r.ind(Q))), veq(r.val(Q), add(r.ind(Q))))), r.ind(Q))),
            ("columns of B are stored", fall([Q], Implies(And(Q >= 0, Q < e.k), And(r.inv(b.ind(Q)) >= 0, r.inv(b.ind(Q)) < r.nnz, r.ind(r.inv(b.ind(Q))) == b.ind(Q))), b.ind(Q)))]

    def result(e):
        r, a, b = rows(e, e.k)
        return shape(r) + [
            ("values are those of the sum", fall([Q], Implies(And(Q >= 0, Q < r.nnz), veq(r.val(Q), total(a, b, r.ind(Q)))), r.val(Q))),
            ("every entry of A or B is stored", fall([J], Implies(Or(a.has(J), b.has(J)), And(r.inv(J) >= 0, r.inv(J) < r.nnz, r.ind(r.inv(J)) == J)), r.inv(J)))]

    return {("i", "acols", "bcols", "table"): LoopSpec(rowwise=True, scratch=scratch, post=result, finish=rows_known(v, C)),
            ("pos", "acols", "table", "!bcols"): LoopSpec(inv=scale),
            ("pos", "bcols", "table", "!acols"): LoopSpec(inv=merge),
            (None, "link"): s_table.lookup_spec(v, lambda e: tview(v, e)), (None, "space", "alloc_size"): s_table.size_spec(v)}


@contract("bml_add_csr", ["C04"], **C_)
def _(v):
    A = v.csr("A", mod=True)
    B = v.csr("B", N=A.N)
    a0, b0 = v.view(A), v.view(B)
    al, be, t = v.real("alpha"), v.real("beta"), v.real("threshold")
    v.assume(t >= 0)
    f = lambda i, j: vadd(vmul(al, a0(i, j)), vmul(be, b0(i, j)))
    v.call(A.obj, B.obj, al, be, t, loops_=add_loops(v, A, al, be))
    v.post_wf(A)
    v.post_view("C04", "A = alpha*A + beta*B above the threshold", A, lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))
