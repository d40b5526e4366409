"""Contracts of the ellpack format."""
from verify import *

E_ = dict(fmt="ellpack")
K = z3.Int("k!s")
L = z3.Int("l!s")
DBLMAX = z3.RealVal("17976931348623157" + "0" * 292)


# ---------------------------------------------------------------- scale
@contract("bml_scale_inplace_ellpack", ["C05"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj)
    v.post_wf(A)
    v.post_view("C05", "A = s*A", A, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_scale_ellpack", ["C05"], **E_)
def _(v):
    A = v.ell("A")
    B = v.ell("B", M=A.M, mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj, B.obj)
    v.post_wf(B)
    v.post_view("C05", "B = s*A", B, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_scale_ellpack", ["C05"], cid="bml_scale_ellpack#same", **E_)
def _(v):
    A = v.ell("A", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj, A.obj)
    v.post_wf(A)
    v.post_view("C05", "A = s*A when source and target are one matrix", A, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_scale_ellpack_new", ["C05"], **E_)
def _(v):
    A = v.ell("A")
    s = v.elem("s")
    a0 = v.view(A)
    R = v.out(v.call(v.cell("scale", s), A.obj))
    v.post_new("C05", R, A.N, A.M, mode=A.mode)
    v.post_wf(R)
    v.post_view("C05", "result = s*A", R, lambda i, j: vmul(s, a0(i, j)))


# ---------------------------------------------------------------- constructors
@contract("bml_zero_matrix_ellpack", ["C15"], **E_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 1)
    v.assume(M <= N)
    R = v.out(v.call(N, M, d))
    v.post_new("C15", R, N, M, mode=d)
    v.post_wf(R)
    v.post_view("C15", "every entry is zero", R, lambda i, j: v.zero())


@contract("bml_noinit_matrix_ellpack", ["C15"], **E_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 1)
    v.assume(M <= N)
    R = v.out(v.call(v.dims(N_rows=N, N_cols=N, N_nz_max=M), d))
    v.post_new("C15", R, N, M, mode=d)


@contract("bml_identity_matrix_ellpack", ["C15"], **E_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 1)
    v.assume(M <= N)
    R = v.out(v.call(N, M, d))
    v.post_new("C15", R, N, M, mode=d)
    v.post_wf(R)
    v.post_view("C15", "ones exactly on the diagonal", R, lambda i, j: If(i == j, v.one(), v.zero()))


@contract("bml_banded_matrix_ellpack", ["C15"], **E_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 1)
    v.assume(M <= N)
    R = v.out(v.call(N, M, d))
    v.post_new("C15", R, N, M, mode=d)
    v.post_wf(R)
    i, j, rng = v.ij(N)
    f = v.view(R, v.final)
    v.post("C15", "entries only within the band", veq(f(i, j), v.zero()), extra=rng + [Or(i - j > M, j - i > M)])


@contract("bml_random_matrix_ellpack", ["C15"], **E_)
def _(v):
    N, d, M = v.size(), v.mode_arg(), v.int("M", 1)
    v.assume(M <= N)
    c, p, r = z3.Int("c!r"), z3.Int("p!r"), z3.Int("r!r")

    def rows(e, hi):
        """rows before hi are well formed"""
        ix, iv, nz = e.arr("A_index"), e.arrinv("A_index"), e.arr("A_nnz")
        return [("row lengths", fall([r], Implies(And(0 <= r, r < hi), And(nz(r) >= 0, nz(r) <= M)), nz(r))),
                ("stored columns", fall([r, p], Implies(And(0 <= r, r < hi, 0 <= p, p < nz(r)),
                                                             And(ix(r, p) >= 0, ix(r, p) < N, iv(r, ix(r, p)) == p)),
                                             ix(r, p)))]

    def outer(e):
        mk = e.arr("col_marker")
        return rows(e, e.k) + [("marker is clear", fall([c], Implies(And(0 <= c, c < N), mk(c) == -1), mk(c)))]

    def inner(e):
        i, n, col = e.loc("i"), e.loc("nnz_row"), e.loc("col")
        mk, ps, pv = e.arr("col_marker"), e.arr("col_marker_pos"), e.arrinv("col_marker_pos")
        ix, iv = e.arr("A_index"), e.arrinv("A_index")
        return [("count", And(0 <= n, n <= e.k)), ("column in range", And(0 <= col, col < N)),
                ("this row", fall([p], Implies(And(0 <= p, p < n), And(ix(i, p) >= 0, ix(i, p) < N, iv(i, ix(i, p)) == p,
                                                                            ps(p) == ix(i, p), mk(ps(p)) == 1, pv(ps(p)) == p)),
                                       ix(i, p))),
                ("positions", fall([p], Implies(And(0 <= p, p < n), And(ps(p) == ix(i, p), ps(p) >= 0, ps(p) < N, mk(ps(p)) == 1, pv(ps(p)) == p)),
                                        ps(p))),
                ("marker", fall([c], Implies(And(0 <= c, c < N), Or(mk(c) == -1, And(mk(c) == 1, pv(c) >= 0, pv(c) < n, ps(pv(c)) == c))),
                                     mk(c)))]
    R = v.out(v.call(N, M, d, loops_={("i", "col_marker", "rand"): LoopSpec(inv=outer),
                                      ("j", "col_marker", "rand"): LoopSpec(inv=inner)}))
    v.post_new("C15", R, N, M, mode=d)
    v.post_wf(R)


@contract("bml_clear_ellpack", ["C15"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    v.call(A.obj)
    v.post_wf(A)
    v.post_view("C15", "every entry is zero", A, lambda i, j: v.zero())


# ---------------------------------------------------------------- copy
@contract("bml_copy_ellpack_new", ["C09"], **E_)
def _(v):
    A = v.ell("A")
    a0 = v.view(A)
    R = v.out(v.call(A.obj))
    v.post_new("C09", R, A.N, A.M, mode=A.mode)
    v.post_wf(R)
    v.post_view("C09", "copy has the entries of the source", R, lambda i, j: a0(i, j))
    v.post("C09", "copy has its own storage", z3.BoolVal(R.val is not A.val and R.ind is not A.ind and R.nnz is not A.nnz))


@contract("bml_copy_ellpack", ["C09"], **E_)
def _(v):
    A = v.ell("A")
    B = v.ell("B", M=A.M, mod=True)
    a0 = v.view(A)
    v.call(A.obj, B.obj)
    v.post_wf(B)
    v.post_view("C09", "target has exactly the entries of the source", B, lambda i, j: a0(i, j))


@contract("bml_reorder_ellpack", ["C09"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    p, pf, pi = v.perm("perm", A.N)
    a0 = v.view(A)
    v.call(A.obj, p)
    i, j, rng = v.ij(A.N)
    f = v.view(A, v.final)
    v.post_wf(A)
    v.post("C09", "entry (i,j) moves to (perm i, perm j)", veq(f(pf(i), pf(j)), a0(i, j)), extra=rng)


# ---------------------------------------------------------------- accessors
@contract("bml_get_element_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A")
    i, j = v.int("i", 0), v.int("j", 0)
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    r = v.call(A.obj, i, j)
    v.post("C03", "returned cell holds A(i,j)", veq(v.deref(r, 0), a0(i, j)))


@contract("bml_get_row_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A")
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    b = v.block1(v.call(A.obj, i), A.N)
    j = fint("j")
    v.post("C03", "returned row holds A(i,*)", veq(b(j), a0(i, j)), extra=[And(j >= 0, j < A.N)])


@contract("bml_get_diagonal_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A")
    a0 = v.view(A)
    b = v.block1(v.call(A.obj), A.N)
    j = fint("j")
    v.post("C03", "returned array holds the diagonal", veq(b(j), a0(j, j)), extra=[And(j >= 0, j < A.N)])


@contract("bml_set_element_new_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    i, j, x = v.int("i", 0), v.int("j", 0), v.elem("x")
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    n0 = v.eng.content(v.st, A.nnz).read([i])
    v.assume(n0 < A.M)
    v.assume(veq(a0(i, j), v.zero()))
    pp = v.eng.inv_content(v.st, A.ind).read([i, j])
    v.assume(Not(And(pp >= 0, pp < n0, v.eng.content(v.st, A.ind).read([i, pp]) == j)))
    v.call(A.obj, i, j, v.cell("value", x))
    v.post_wf(A)
    v.post_view("C03", "entry (i,j) is the value, all others are as before", A,
                lambda p, q: If(And(p == i, q == j), x, a0(p, q)))


@contract("bml_set_element_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    i, j, x = v.int("i", 0), v.int("j", 0), v.elem("x")
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    n0 = v.eng.content(v.st, A.nnz).read([i])
    pp = v.eng.inv_content(v.st, A.ind).read([i, j])
    stored = And(pp >= 0, pp < n0, v.eng.content(v.st, A.ind).read([i, pp]) == j)
    v.assume(Or(stored, n0 < A.M))
    v.call(A.obj, i, j, v.cell("value", x))
    v.post_wf(A)
    v.post_view("C03", "entry (i,j) is the value, all others are as before", A,
                lambda p, q: If(And(p == i, q == j), x, a0(p, q)))


@contract("bml_set_diagonal_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    a0 = v.view(A)
    d = v.array("diagonal", v.ety, [A.N])
    t = v.real("threshold")
    rc = v.eng.content(v.st, d.reg)
    i = z3.Int("i!cap")
    nz, iv, ix = v.eng.content(v.st, A.nnz), v.eng.inv_content(v.st, A.ind), v.eng.content(v.st, A.ind)
    pp = iv.read([i, i])
    v.assume(z3.ForAll([i], Implies(And(i >= 0, i < A.N), Or(nz.read([i]) < A.M, And(pp >= 0, pp < nz.read([i]), ix.read([i, pp]) == i)))))
    v.call(A.obj, d, t)
    v.post_wf(A)
    v.post_view("C03", "diagonal holds the given values, other entries are as before", A,
                lambda p, q: If(p == q, If(vabs(rc.read([q])) > t, rc.read([q]), v.zero()), a0(p, q)))


@contract("bml_set_row_ellpack", ["C03"], **E_)
def _(v):
    A = v.ell("A", M=v.size(), mod=True)
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    t = v.real("threshold")
    row = v.array("row", v.ety, [A.N])
    rc = v.eng.content(v.st, row.reg)
    v.call(A.obj, i, row, t)
    v.post_wf(A)
    v.post_view("C03", "row i holds the given values above the threshold, other rows are as before", A,
                lambda p, q: If(p == i, If(vabs(rc.read([q])) > t, rc.read([q]), v.zero()), a0(p, q)))


# ---------------------------------------------------------------- import, export
@contract("bml_export_to_dense_ellpack", ["C02"], **E_)
def _(v):
    A = v.ell("A")
    o = v.enum("order", 0, 1)
    a0 = v.view(A)
    r = v.call(A.obj, o)
    b = v.block2(r, A.N, A.N)
    i, j, rng = v.ij(A.N)
    v.post("C02", "row-major array holds the entries", veq(b(i, j), a0(i, j)), extra=rng + [o == 0])
    v.post("C02", "column-major array holds the entries", veq(b(j, i), a0(i, j)), extra=rng + [o == 1])


@contract("bml_import_from_dense_ellpack", ["C02"], **E_)
def _(v):
    N, d = v.size(), v.mode_arg()
    o = v.enum("order", 0, 1)
    t = v.real("threshold")
    M = N
    r = v.region("array", v.ety, [N, N])
    c = v.eng.content(v.st, r)
    R = v.out(v.call(o, N, Ptr(r, ety=v.ety), t, M, d))
    v.post_new("C02", R, N, M, mode=d)
    v.post_wf(R)
    x = lambda i, j: If(o == 0, c.read([i, j]), c.read([j, i]))
    v.post_view("C02", "matrix holds the array's entries above the threshold", R,
                lambda i, j: If(vabs(x(i, j)) > t, x(i, j), v.zero()))


# ---------------------------------------------------------------- threshold
@contract("bml_threshold_new_ellpack", ["C10"], **E_)
def _(v):
    A = v.ell("A")
    t = v.real("threshold")
    v.assume(t >= 0)
    a0 = v.view(A)
    R = v.out(v.call(A.obj, t))
    v.post_new("C10", R, A.N, A.M, mode=A.mode)
    v.post_wf(R)
    v.post_view("C10", "exactly the entries above the threshold remain", R,
                lambda i, j: If(vabs(a0(i, j)) > t, a0(i, j), v.zero()))


@contract("bml_threshold_ellpack", ["C10"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    t = v.real("threshold")
    v.assume(t >= 0)
    a0 = v.view(A)
    v.call(A.obj, t)
    v.post_wf(A)
    v.post_view("C10", "exactly the entries above the threshold remain", A,
                lambda i, j: If(vabs(a0(i, j)) > t, a0(i, j), v.zero()))


# ---------------------------------------------------------------- trace, norms
def two(v):
    A = v.ell("A")
    B = v.ell("B", N=A.N, M=A.M)
    return A, B, v.view(A), v.view(B)


@contract("bml_trace_ellpack", ["C11"], **E_)
def _(v):
    A = v.ell("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C11", "result is the sum of the diagonal", r == vre(OPS.sum(0, A.N, K, a0(K, K))))


@contract("bml_trace_mult_ellpack", ["C11"], **E_)
def _(v):
    A, B, a0, b0 = two(v)
    r = v.call(A.obj, B.obj)
    v.post("C11", "result is the sum of A(i,j)*B(j,i)", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), b0(j, i)))))


@contract("bml_sum_squares_ellpack", ["C12"], **E_)
def _(v):
    A = v.ell("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C12", "sum of the squared entries", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), a0(i, j)))))


@contract("bml_sum_squares_submatrix_ellpack", ["C12"], **E_)
def _(v):
    A = v.ell("A")
    c = v.int("core_size", 0)
    v.assume(c <= A.N)
    a0 = v.view(A)
    r = v.call(A.obj, c)
    v.post("C12", "sum of the squared entries of the core block", r == vre(v.sum2(c, c, lambda i, j: vmul(a0(i, j), a0(i, j)))))


@contract("bml_sum_AB_ellpack", ["C12"], **E_)
def _(v):
    A, B, a0, b0 = two(v)
    al, t = v.real("alpha"), v.real("threshold")
    r = v.call(A.obj, B.obj, al, t)
    f = lambda i, j: vmul(vmul(al, a0(i, j)), b0(i, j))
    v.post("C12", "sum of alpha*A(i,j)*B(i,j) above the threshold",
           r == vre(v.sum2(A.N, A.N, lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))))


@contract("bml_sum_squares2_ellpack", ["C12"], **E_)
def _(v):
    A, B, a0, b0 = two(v)
    al, be, t = v.real("alpha"), v.real("beta"), v.real("threshold")
    r = v.call(A.obj, B.obj, al, be, t)
    f = lambda i, j: vadd(vmul(al, a0(i, j)), vmul(be, b0(i, j)))
    v.post("C12", "sum of squares of alpha*A+beta*B above the threshold",
           r == vre(v.sum2(A.N, A.N, lambda i, j: If(vabs(f(i, j)) > t, vmul(f(i, j), f(i, j)), v.zero()))))


@contract("bml_fnorm_ellpack", ["C12"], **E_)
def _(v):
    A = v.ell("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C12", "square root of the sum of squares", r == v.sqrt(vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), a0(i, j))))))


@contract("bml_fnorm2_ellpack", ["C12"], **E_)
def _(v):
    A, B, a0, b0 = two(v)
    r = v.call(A.obj, B.obj)
    f = lambda i, j: vsub(a0(i, j), b0(i, j))
    v.post("C12", "square root of the sum of squared differences", r == v.sqrt(vre(v.sum2(A.N, A.N, lambda i, j: vmul(f(i, j), f(i, j))))))


# ---------------------------------------------------------------- addition
def by_zero(stem, props, names, body):
    """one contract per combination of zero / nonzero scalar arguments; together they cover all inputs"""
    for m in range(1 << len(names)):
        tag = "".join(f"{n}{'≠0' if m >> k & 1 else '=0'}" for k, n in enumerate(names))

        @contract(stem, props, cid=f"{stem}#{tag}", **E_)
        def _(v, m=m):
            sc = [v.real(n) for n in names]
            for k, x in enumerate(sc):
                v.case(x != 0 if m >> k & 1 else x == 0)
            body(v, *sc)


def _add(v, al, be):
    A = v.ell("A", mod=True)
    B = v.ell("B", N=A.N, M=A.M)
    a0, b0 = v.view(A), v.view(B)
    t = v.real("threshold")
    v.assume(t >= 0)
    f = lambda i, j: vadd(vmul(al, a0(i, j)), vmul(be, b0(i, j)))
    v.fits(A, lambda i, j: vabs(f(i, j)) > t)
    v.call(A.obj, B.obj, al, be, t)
    v.post_wf(A)
    v.post_view("C04", "A = alpha*A + beta*B above the threshold", A,
                lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))


by_zero("bml_add_ellpack", ["C04"], ["alpha", "beta"], _add)


@contract("bml_add_norm_ellpack", ["C04"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    B = v.ell("B", N=A.N, M=A.M)
    a0, b0 = v.view(A), v.view(B)
    al, be, t = v.real("alpha"), v.real("beta"), v.real("threshold")
    v.assume(t >= 0)
    f = lambda i, j: vadd(vmul(al, a0(i, j)), vmul(be, b0(i, j)))
    d = lambda i, j: vsub(a0(i, j), b0(i, j))
    v.fits(A, lambda i, j: vabs(f(i, j)) > t)
    r = v.call(A.obj, B.obj, al, be, t)
    v.post_wf(A)
    v.post_view("C04", "A = alpha*A + beta*B above the threshold", A,
                lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))
    v.post("C04", "the norm returned is the sum of (A-B)^2", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(d(i, j), d(i, j)))))


def _addid(v, be, al=None):
    A = v.ell("A", mod=True)
    a0 = v.view(A)
    t = v.real("threshold")
    v.assume(t >= 0)
    f = lambda i, j: vadd(a0(i, j) if al is None else vmul(al, a0(i, j)), If(i == j, v.one(be), v.zero()))
    v.fits(A, lambda i, j: vabs(f(i, j)) > t)
    v.call(*([A.obj] + ([al] if al is not None else []) + [be, t]))
    v.post_wf(A)
    v.post_view("C04", "A = alpha*A + beta*I above the threshold", A,
                lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))


by_zero("bml_add_identity_ellpack", ["C04"], ["beta"], _addid)


by_zero("bml_scale_add_identity_ellpack", ["C04"], ["beta"], lambda v, be: _addid(v, be, v.real("alpha")))


# ---------------------------------------------------------------- normalize
def _norm(v, hi):
    A = v.ell("A", mod=True)
    lo = v.real("mineval")
    v.assume(lo < hi)
    a0 = v.view(A)
    d = rsub(hi, lo)
    f = lambda i, j: vsub(If(i == j, v.one(rdiv(hi, d)), v.zero()), vdiv(a0(i, j), d))
    v.fits(A, lambda i, j: vabs(f(i, j)) > 0)
    v.call(A.obj, lo, hi)
    v.post_wf(A)
    v.post_view("C13", "A = (maxeval*I - A)/(maxeval - mineval)", A, f)


by_zero("bml_normalize_ellpack", ["C13"], ["maxeval"], _norm)


@contract("bml_accumulate_offdiag_ellpack", ["C13"], **E_)
def _(v):
    A = v.ell("A")
    inc = z3.Int("include_diag")
    a0 = v.view(A)
    b = v.block1(v.call(A.obj, inc), A.N)
    i = fint("i")
    v.post("C13", "row sum of magnitudes", veq(b(i), OPS.sum(0, A.N, K, If(Or(K != i, inc != 0), vabs(a0(i, K)), R0))),
           extra=[And(i >= 0, i < A.N)])


def gersh(v, A, n, r):
    a0 = v.view(A)
    b = v.block1(r, 2, R64)
    rad = lambda i: OPS.sum(0, A.N, K, If(K == i, R0, vabs(a0(i, K))))
    for idx, op, sgn in ((0, "min", -1), (1, "max", 1)):
        t = vadd(vre(a0(L, L)), rad(L)) if sgn > 0 else vsub(vre(a0(L, L)), rad(L))
        e = OPS.ext(op, 0, n, L, t)
        fin = And(e >= -DBLMAX, e <= DBLMAX)
        v.post("C13", f"{op} over rows of diagonal {'plus' if sgn > 0 else 'minus'} radius", b(idx) == e, extra=[fin])


@contract("bml_gershgorin_ellpack", ["C13"], **E_)
def _(v):
    A = v.ell("A")
    r = v.call(A.obj)
    gersh(v, A, A.N, r)


@contract("bml_gershgorin_partial_ellpack", ["C13"], **E_)
def _(v):
    A = v.ell("A")
    n = v.int("nrows", 1)
    v.assume(n <= A.N)
    r = v.call(A.obj, n)
    gersh(v, A, n, r)


# ---------------------------------------------------------------- introspection
@contract("bml_get_sparsity_ellpack", ["C14"], **E_)
def _(v):
    A = v.ell("A")
    t = v.real("threshold")
    v.assume(t >= 0)
    a0 = v.view(A)
    r = v.call(A.obj, t)
    n = v.sum2(A.N, A.N, lambda i, j: If(vabs(a0(i, j)) > t, R1, R0))
    v.post("C14", "one minus the fraction of entries above the threshold",
           r == rsub(R1, rdiv(z3.ToReal(terms._trunc(n)), rmul(z3.ToReal(A.N), z3.ToReal(A.N)))))


U_ = dict(fmt="ellpack", typed=False)


def getter(stem, f, **kw):
    @contract(stem, ["C14"], **kw)
    def _(v):
        A = getattr(v, v.fmt if v.fmt == "dense" else "ell")("A")
        v.post("C14", "the attribute the matrix was created with", v.call(A.obj) == f(v, A))


for _fmt in ("dense", "ellpack"):
    kw = dict(fmt=_fmt, typed=False)
    getter(f"bml_get_N_{_fmt}", lambda v, A: A.N, **kw)
    getter(f"bml_get_M_{_fmt}", lambda v, A: A.N if v.fmt == "dense" else A.M, **kw)
    getter(f"bml_get_precision_{_fmt}", lambda v, A: z3.IntVal(PENUM[A.prec]), **kw)
    getter(f"bml_get_distribution_mode_{_fmt}", lambda v, A: A.mode, **kw)


@contract("bml_get_row_bandwidth_ellpack", ["C14"], **U_)
def _(v):
    A = v.ell("A")
    i = v.int("i", 0)
    v.assume(i < A.N)
    n0 = v.eng.content(v.st, A.nnz)
    r = v.call(A.obj, i)
    v.post("C14", "number of stored entries of the row", r == n0.read([i]))


@contract("bml_get_bandwidth_ellpack", ["C14"], **U_)
def _(v):
    A = v.ell("A")
    n0 = v.eng.content(v.st, A.nnz)
    r = v.call(A.obj)
    v.post("C14", "maximum number of stored entries of a row", r == loops.extremum_term("max", z3.IntVal(0), z3.IntVal(0), A.N, L, n0.read([L])))


@contract("bml_deallocate_ellpack", ["C16"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    v.owned(A)
    v.call(A.obj)
    v.post_released(A)
