"""Contracts of the dense format."""
from verify import *

D = dict(fmt="dense")
K = z3.Int("k!s")
L = z3.Int("l!s")


DBLMAX = z3.RealVal("17976931348623157" + "0" * 292)


@contract("bml_add_dense", ["C04"], **D)
def _(v):
    A, B = v.dense("A", mod=True), v.dense("B")
    al, be = v.real("alpha"), v.real("beta")
    a0, b0 = v.view(A), v.view(B)
    v.call(A.obj, B.obj, al, be)
    v.post_view("C04", "A = alpha*A + beta*B", A, lambda i, j: vadd(vmul(v.nar(al), a0(i, j)), vmul(v.nar(be), b0(i, j))))


@contract("bml_add_norm_dense", ["C04"], **D)
def _(v):
    A, B = v.dense("A", mod=True), v.dense("B")
    al, be = v.real("alpha"), v.real("beta")
    a0, b0 = v.view(A), v.view(B)
    r = v.call(A.obj, B.obj, al, be)
    v.post_view("C04", "A = alpha*A + beta*B", A, lambda i, j: vadd(vmul(v.nar(al), a0(i, j)), vmul(v.nar(be), b0(i, j))))
    v.post("C04", "returned norm is the sum of squares of B", r == vre(v.sum2(B.N, B.N, lambda i, j: vmul(b0(i, j), b0(i, j)))))


@contract("bml_add_identity_dense", ["C04"], **D)
def _(v):
    A = v.dense("A", mod=True)
    be = v.real("beta")
    a0 = v.view(A)
    v.call(A.obj, be)
    v.post_view("C04", "A = A + beta*I", A, lambda i, j: If(i == j, vadd(a0(i, j), v.nar(be)), a0(i, j)))


@contract("bml_scale_add_identity_dense", ["C04"], **D)
def _(v):
    A = v.dense("A", mod=True)
    al, be = v.real("alpha"), v.real("beta")
    a0 = v.view(A)
    v.call(A.obj, al, be)
    v.post_view("C04", "A = alpha*A + beta*I", A,
                lambda i, j: vadd(vmul(v.nar(al), a0(i, j)), If(i == j, v.one(v.nar(be)), v.zero())))


@contract("bml_scale_inplace_dense", ["C05"], **D)
def _(v):
    A = v.dense("A", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj)
    v.post_view("C05", "A = s*A", A, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_scale_dense", ["C05"], **D)
def _(v):
    A, B = v.dense("A"), v.dense("B", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj, B.obj)
    v.post_view("C05", "B = s*A", B, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_scale_dense", ["C05"], cid="bml_scale_dense#same", **D)
def _(v):
    A = v.dense("A", mod=True)
    s = v.elem("s")
    a0 = v.view(A)
    v.call(v.cell("scale", s), A.obj, A.obj)
    v.post_view("C05", "A = s*A when source and target are one matrix", A, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_scale_dense_new", ["C05"], **D)
def _(v):
    A = v.dense("A")
    s = v.elem("s")
    a0 = v.view(A)
    r = v.call(v.cell("scale", s), A.obj)
    R = v.out(r)
    v.post_new("C05", R, A.N, mode=A.mode)
    v.post_view("C05", "result = s*A", R, lambda i, j: vmul(s, a0(i, j)))


@contract("bml_trace_dense", ["C11"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C11", "result is the sum of the diagonal", r == vre(OPS.sum(0, A.N, K, a0(K, K))))


@contract("bml_trace_mult_dense", ["C11"], **D)
def _(v):
    A, B = v.dense("A"), v.dense("B")
    a0, b0 = v.view(A), v.view(B)
    r = v.call(A.obj, B.obj)
    v.post("C11", "result is the sum of A(i,j)*B(j,i)", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), b0(j, i)))))


@contract("bml_adjungate_triangle_dense", ["C08"], **D)
def _(v):
    A = v.dense("A", mod=True)
    t = v.enum("triangle", 0, 127)
    v.assume(Or(t == ord("u"), t == ord("l")))
    a0 = v.view(A)
    v.call(A.obj, v.cell("tri", t, CHAR))
    v.post_view("C08", "upper fills lower conjugated, and conversely", A,
                lambda i, j: If(Or(i == j, And(t == ord("u"), i < j), And(t == ord("l"), i > j)), a0(i, j), vconj(a0(j, i))))


@contract("bml_transpose_triangle_dense", ["C08"], **D)
def _(v):
    A = v.dense("A", mod=True)
    t = v.enum("triangle", 0, 127)
    v.assume(Or(t == ord("u"), t == ord("l")))
    a0 = v.view(A)
    v.call(A.obj, t)
    v.post_view("C08", "upper fills lower, and conversely", A,
                lambda i, j: If(Or(i == j, And(t == ord("u"), i < j), And(t == ord("l"), i > j)), a0(i, j), a0(j, i)))


@contract("bml_transpose_dense", ["C08"], **D)
def _(v):
    A = v.dense("A", mod=True)
    a0 = v.view(A)
    v.call(A.obj)
    v.post_view("C08", "A(i,j) = old A(j,i)", A, lambda i, j: a0(j, i))


@contract("bml_transpose_new_dense", ["C08"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    R = v.out(v.call(A.obj))
    v.post_new("C08", R, A.N, mode=A.mode)
    v.post_view("C08", "result(i,j) = A(j,i)", R, lambda i, j: a0(j, i))


# ---------------------------------------------------------------- constructors
@contract("bml_noinit_matrix_dense", ["C15"], **D)
def _(v):
    N, d = v.size(), v.mode_arg()
    R = v.out(v.call(v.dims(N_rows=N, N_cols=N, N_nz_max=z3.Int("M")), d))
    v.post_new("C15", R, N, mode=d)


@contract("bml_zero_matrix_dense", ["C15"], **D)
def _(v):
    N, d = v.size(), v.mode_arg()
    R = v.out(v.call(v.dims(N_rows=N, N_cols=N, N_nz_max=z3.Int("M")), d))
    v.post_new("C15", R, N, mode=d)
    v.post_view("C15", "every entry is zero", R, lambda i, j: v.zero())


@contract("bml_identity_matrix_dense", ["C15"], **D)
def _(v):
    N, d = v.size(), v.mode_arg()
    R = v.out(v.call(N, d))
    v.post_new("C15", R, N, mode=d)
    v.post_view("C15", "ones exactly on the diagonal", R, lambda i, j: If(i == j, v.one(), v.zero()))


@contract("bml_banded_matrix_dense", ["C15"], **D)
def _(v):
    N, d = v.size(), v.mode_arg()
    M = v.int("M", 0)
    v.assume(M <= N)
    R = v.out(v.call(N, M, d))
    v.post_new("C15", R, N, mode=d)
    i, j, rng = v.ij(N)
    f = v.view(R, v.final)
    v.post("C15", "entries only within the band", veq(f(i, j), v.zero()), extra=rng + [Or(i - j > M, j - i > M)])


@contract("bml_random_matrix_dense", ["C15"], **D)
def _(v):
    N, d = v.size(), v.mode_arg()
    R = v.out(v.call(N, d))
    v.post_new("C15", R, N, mode=d)


@contract("bml_clear_dense", ["C15"], **D)
def _(v):
    A = v.dense("A", mod=True)
    v.call(A.obj)
    v.post_view("C15", "every entry is zero", A, lambda i, j: v.zero())


@contract("bml_deallocate_dense", ["C16"], **D)
def _(v):
    A = v.dense("A", mod=True)
    v.owned(A)
    v.call(A.obj)
    v.post_released(A)


# ---------------------------------------------------------------- copy
@contract("bml_copy_dense_new", ["C09"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    R = v.out(v.call(A.obj))
    v.post_new("C09", R, A.N, mode=A.mode)
    v.post_view("C09", "copy has the entries of the source", R, lambda i, j: a0(i, j))
    v.post("C09", "copy has its own storage", z3.BoolVal(R.reg is not A.reg))


@contract("bml_copy_dense", ["C09"], **D)
def _(v):
    A, B = v.dense("A"), v.dense("B", mod=True)
    a0 = v.view(A)
    v.call(A.obj, B.obj)
    v.post_view("C09", "target has exactly the entries of the source", B, lambda i, j: a0(i, j))


@contract("bml_reorder_dense", ["C09"], **D)
def _(v):
    A = v.dense("A", mod=True)
    p, pf, pi = v.perm("perm", A.N)
    a0 = v.view(A)
    v.call(A.obj, p)
    i, j, rng = v.ij(A.N)
    f = v.view(A, v.final)
    v.post("C09", "entry (i,j) moves to (perm i, perm j)", veq(f(pf(i), pf(j)), a0(i, j)), extra=rng)


# ---------------------------------------------------------------- element-wise, import/export, accessors
@contract("bml_element_multiply_AB_dense", ["C07"], **D)
def _(v):
    A, B, C = v.dense("A"), v.dense("B"), v.dense("C", mod=True)
    a0, b0 = v.view(A), v.view(B)
    v.call(A.obj, B.obj, C.obj)
    v.post_view("C07", "C(i,j) = A(i,j)*B(i,j)", C, lambda i, j: vmul(a0(i, j), b0(i, j)))


@contract("bml_export_to_dense_dense", ["C02"], **D)
def _(v):
    A = v.dense("A")
    o = v.enum("order", 0, 1)
    a0 = v.view(A)
    r = v.call(A.obj, o)
    b = v.block2(r, A.N, A.N)
    i, j, rng = v.ij(A.N)
    v.post("C02", "row-major array holds the entries", veq(b(i, j), a0(i, j)), extra=rng + [o == 0])
    v.post("C02", "column-major array holds the entries", veq(b(j, i), a0(i, j)), extra=rng + [o == 1])


@contract("bml_import_from_dense_dense", ["C02"], **D)
def _(v):
    N, d = v.size(), v.mode_arg()
    o = v.enum("order", 0, 1)
    r = v.region("array", v.ety, [N, N])
    c = v.eng.content(v.st, r)
    R = v.out(v.call(o, N, Ptr(r, ety=v.ety), d))
    v.post_new("C02", R, N, mode=d)
    v.post_view("C02", "matrix holds the array's entries", R, lambda i, j: If(o == 0, c.read([i, j]), c.read([j, i])))


@contract("bml_get_element_dense", ["C03"], **D)
def _(v):
    A = v.dense("A")
    i, j = v.int("i", 0), v.int("j", 0)
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    r = v.call(A.obj, i, j)
    v.post("C03", "returned cell holds A(i,j)", veq(v.deref(r, 0), a0(i, j)))


@contract("bml_get_row_dense", ["C03"], **D)
def _(v):
    A = v.dense("A")
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    b = v.block1(v.call(A.obj, i), A.N)
    j = fint("j")
    v.post("C03", "returned row holds A(i,*)", veq(b(j), a0(i, j)), extra=[And(j >= 0, j < A.N)])


@contract("bml_get_diagonal_dense", ["C03"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    b = v.block1(v.call(A.obj), A.N)
    j = fint("j")
    v.post("C03", "returned array holds the diagonal", veq(b(j), a0(j, j)), extra=[And(j >= 0, j < A.N)])


@contract("bml_set_element_dense", ["C03"], **D)
def _(v):
    A = v.dense("A", mod=True)
    i, j, x = v.int("i", 0), v.int("j", 0), v.elem("x")
    v.assume(And(i < A.N, j < A.N))
    a0 = v.view(A)
    v.call(A.obj, i, j, v.cell("value", x))
    v.post_view("C03", "entry (i,j) is the value, all others are as before", A,
                lambda p, q: If(And(p == i, q == j), x, a0(p, q)))


@contract("bml_set_row_dense", ["C03"], **D)
def _(v):
    A = v.dense("A", mod=True)
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    row = v.array("row", v.ety, [A.N])
    rc = v.eng.content(v.st, row.reg)
    v.call(A.obj, i, row)
    v.post_view("C03", "row i holds the given values, other rows are as before", A,
                lambda p, q: If(p == i, rc.read([q]), a0(p, q)))


@contract("bml_set_diagonal_dense", ["C03"], **D)
def _(v):
    A = v.dense("A", mod=True)
    a0 = v.view(A)
    d = v.array("diagonal", v.ety, [A.N])
    rc = v.eng.content(v.st, d.reg)
    v.call(A.obj, d)
    v.post_view("C03", "diagonal holds the given values, other entries are as before", A,
                lambda p, q: If(p == q, rc.read([q]), a0(p, q)))


# ---------------------------------------------------------------- introspection
def nonzero(x, thr=None):
    return vabs(x) > (R0 if thr is None else thr)


@contract("bml_get_row_bandwidth_dense", ["C14"], **D)
def _(v):
    A = v.dense("A")
    i = v.int("i", 0)
    v.assume(i < A.N)
    a0 = v.view(A)
    r = v.call(A.obj, i)
    v.post("C14", "number of nonzero entries of the row", r == v.count(A.N, lambda k: nonzero(a0(i, k))))


@contract("bml_get_bandwidth_dense", ["C14"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    cnt = v.count(A.N, lambda k: nonzero(a0(L, k)))
    v.post("C14", "maximum number of nonzero entries of a row", r == loops.extremum_term("max", z3.IntVal(0), z3.IntVal(0), A.N, L, cnt))


@contract("bml_get_sparsity_dense", ["C14"], **D)
def _(v):
    A = v.dense("A")
    t = v.real("threshold")
    a0 = v.view(A)
    r = v.call(A.obj, t)
    n = v.sum2(A.N, A.N, lambda i, j: If(nonzero(a0(i, j), t), R1, R0))
    v.post("C14", "one minus the fraction of entries above the threshold",
           r == rsub(R1, rdiv(z3.ToReal(terms._trunc(n)), rmul(z3.ToReal(A.N), z3.ToReal(A.N)))))


# ---------------------------------------------------------------- multiply
@contract("bml_multiply_dense", ["C06"], **D)
def _(v):
    A, B, C = v.dense("A"), v.dense("B"), v.dense("C", mod=True)
    al, be = v.real("alpha"), v.real("beta")
    a0, b0, c0 = v.view(A), v.view(B), v.view(C)
    v.call(A.obj, B.obj, C.obj, al, be)
    v.post_view("C06", "C = alpha*A*B + beta*C", C,
                lambda i, j: vadd(vmul(al, OPS.sum(0, A.N, K, vmul(a0(i, K), b0(K, j)))), vmul(be, c0(i, j))))


@contract("bml_multiply_AB_dense", ["C06"], **D)
def _(v):
    A, B, C = v.dense("A"), v.dense("B"), v.dense("C", mod=True)
    a0, b0 = v.view(A), v.view(B)
    v.call(A.obj, B.obj, C.obj)
    v.post_view("C06", "C = A*B", C, lambda i, j: OPS.sum(0, A.N, K, vmul(a0(i, K), b0(K, j))))


@contract("bml_multiply_adjust_AB_dense", ["C06"], **D)
def _(v):
    A, B, C = v.dense("A"), v.dense("B"), v.dense("C", mod=True)
    a0, b0 = v.view(A), v.view(B)
    v.call(A.obj, B.obj, C.obj)
    v.post_view("C06", "C = A*B", C, lambda i, j: OPS.sum(0, A.N, K, vmul(a0(i, K), b0(K, j))))


@contract("bml_multiply_x2_dense", ["C06"], **D)
def _(v):
    X, X2 = v.dense("X"), v.dense("X2", mod=True)
    x0 = v.view(X)
    r = v.call(X.obj, X2.obj)
    v.post_view("C06", "X2 = X*X", X2, lambda i, j: OPS.sum(0, X.N, K, vmul(x0(i, K), x0(K, j))))
    b = v.block1(r, 2, R64)
    x2 = v.view(X2, v.final)
    v.post("C06", "first result is the trace of X", b(0) == vre(OPS.sum(0, X.N, K, x0(K, K))))
    v.post("C06", "second result is the trace of X2", b(1) == vre(OPS.sum(0, X.N, K, x2(K, K))))


# ---------------------------------------------------------------- norms
@contract("bml_sum_squares_dense", ["C12"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C12", "sum of the squared entries", r == vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), a0(i, j)))))


@contract("bml_sum_squares_submatrix_dense", ["C12"], **D)
def _(v):
    A = v.dense("A")
    c = v.int("core_size", 0)
    v.assume(c <= A.N)
    a0 = v.view(A)
    r = v.call(A.obj, c)
    v.post("C12", "sum of the squared entries of the core rows", r == vre(v.sum2(c, A.N, lambda i, j: vmul(a0(i, j), a0(i, j)))))


@contract("bml_sum_AB_dense", ["C12"], **D)
def _(v):
    A, B = v.dense("A"), v.dense("B")
    al, t = v.real("alpha"), v.real("threshold")
    a0, b0 = v.view(A), v.view(B)
    r = v.call(A.obj, B.obj, al, t)
    f = lambda i, j: vmul(vmul(al, a0(i, j)), b0(i, j))
    v.post("C12", "sum of alpha*A(i,j)*B(i,j) above the threshold",
           r == vre(v.sum2(A.N, A.N, lambda i, j: If(vabs(f(i, j)) > t, f(i, j), v.zero()))))


@contract("bml_sum_squares2_dense", ["C12"], **D)
def _(v):
    A, B = v.dense("A"), v.dense("B")
    al, be, t = v.real("alpha"), v.real("beta"), v.real("threshold")
    a0, b0 = v.view(A), v.view(B)
    r = v.call(A.obj, B.obj, al, be, t)
    f = lambda i, j: vadd(vmul(al, a0(i, j)), vmul(be, b0(i, j)))
    v.post("C12", "sum of squares of alpha*A+beta*B above the threshold",
           r == vre(v.sum2(A.N, A.N, lambda i, j: If(vabs(f(i, j)) > t, vmul(f(i, j), f(i, j)), v.zero()))))


@contract("bml_fnorm_dense", ["C12"], **D)
def _(v):
    A = v.dense("A")
    a0 = v.view(A)
    r = v.call(A.obj)
    v.post("C12", "square root of the sum of squares", r == v.sqrt(vre(v.sum2(A.N, A.N, lambda i, j: vmul(a0(i, j), a0(i, j))))))


@contract("bml_fnorm2_dense", ["C12"], **D)
def _(v):
    A, B = v.dense("A"), v.dense("B")
    a0, b0 = v.view(A), v.view(B)
    r = v.call(A.obj, B.obj)
    f = lambda i, j: vsub(a0(i, j), b0(i, j))
    v.post("C12", "square root of the sum of squared differences", r == v.sqrt(vre(v.sum2(A.N, A.N, lambda i, j: vmul(f(i, j), f(i, j))))))


# ---------------------------------------------------------------- normalize
@contract("bml_normalize_dense", ["C13"], **D)
def _(v):
    A = v.dense("A", mod=True)
    lo, hi = v.real("mineval"), v.real("maxeval")
    v.assume(lo < hi)
    a0 = v.view(A)
    v.call(A.obj, lo, hi)
    d = rsub(hi, lo)
    v.post_view("C13", "A = (maxeval*I - A)/(maxeval - mineval)", A,
                lambda i, j: vsub(If(i == j, v.one(rdiv(hi, d)), v.zero()), vdiv(a0(i, j), d)))


@contract("bml_accumulate_offdiag_dense", ["C13"], **D)
def _(v):
    A = v.dense("A")
    inc = z3.Int("include_diag")
    a0 = v.view(A)
    b = v.block1(v.call(A.obj, inc), A.N)
    i = fint("i")
    v.post("C13", "row sum of magnitudes", veq(b(i), OPS.sum(0, A.N, K, If(Or(K != i, inc != 0), vabs(a0(i, K)), R0))),
           extra=[And(i >= 0, i < A.N)])


def gersh(v, A, n, r):
    a0 = v.view(A)
    b = v.block1(r, 2, R64)
    rad = lambda i: OPS.sum(0, A.N, K, If(K == i, R0, vabs(a0(i, K))))
    for idx, op, sgn in ((0, "min", -1), (1, "max", 1)):
        t = vadd(vre(a0(L, L)), rad(L)) if sgn > 0 else vsub(vre(a0(L, L)), rad(L))
        e = OPS.ext(op, 0, n, L, t)
        fin = And(e >= -DBLMAX, e <= DBLMAX)
        v.post("C13", f"{op} over rows of diagonal {'plus' if sgn > 0 else 'minus'} radius", b(idx) == e, extra=[fin])


@contract("bml_gershgorin_dense", ["C13"], **D)
def _(v):
    A = v.dense("A")
    v.s0 = None
    gersh_pre(v, A)
    r = v.call(A.obj)
    gersh(v, A, A.N, r)


def gersh_pre(v, A):
    pass


@contract("bml_gershgorin_partial_dense", ["C13"], **D)
def _(v):
    A = v.dense("A")
    n = v.int("nrows", 1)
    v.assume(n <= A.N)
    r = v.call(A.obj, n)
    gersh(v, A, n, r)


# ---------------------------------------------------------------- submatrix, threshold
@contract("bml_extract_submatrix_dense", ["C18"], **D)
def _(v):
    A = v.dense("A")
    r0, c0, n = v.int("irow", 0), v.int("icol", 0), v.int("B_N", 1)
    v.assume(And(r0 + n <= A.N, c0 + n <= A.N))
    a0 = v.view(A)
    R = v.out(v.call(A.obj, r0, c0, n, v.int("B_M", 1)))
    v.post_new("C18", R, n, mode=A.mode)
    v.post_view("C18", "result(i,j) = A(irow+i, icol+j)", R, lambda i, j: a0(simp_int(i + r0), simp_int(j + c0)), N=n)


@contract("bml_assign_submatrix_dense", ["C18"], **D)
def _(v):
    A = v.dense("A", mod=True)
    n = v.int("B_N", 1)
    B = v.dense("B", N=n)
    r0, c0 = v.int("irow", 0), v.int("icol", 0)
    v.assume(And(r0 + n <= A.N, c0 + n <= A.N))
    a0, b0 = v.view(A), v.view(B)
    v.call(A.obj, B.obj, r0, c0)
    v.post_view("C18", "the block is overwritten and nothing else", A,
                lambda i, j: If(And(i >= r0, i < r0 + n, j >= c0, j < c0 + n), b0(simp_int(i - r0), simp_int(j - c0)), a0(i, j)))


@contract("bml_threshold_new_dense", ["C10"], **D)
def _(v):
    A = v.dense("A")
    t = v.real("threshold")
    a0 = v.view(A)
    R = v.out(v.call(A.obj, t))
    v.post_new("C10", R, A.N, mode=A.mode)
    v.post_view("C10", "exactly the entries above the threshold remain", R,
                lambda i, j: If(vabs(a0(i, j)) > t, a0(i, j), v.zero()))


@contract("bml_threshold_dense", ["C10"], **D)
def _(v):
    A = v.dense("A", mod=True)
    t = v.real("threshold")
    a0 = v.view(A)
    v.call(A.obj, t)
    v.post_view("C10", "exactly the entries above the threshold remain", A,
                lambda i, j: If(vabs(a0(i, j)) > t, a0(i, j), v.zero()))
