"""Contracts of submatrix extraction and assignment in the sparse formats."""
from verify import *

E_ = dict(fmt="ellpack")
C_ = dict(fmt="csr")


def in_block(i, j, r0, c0, n):
    return And(i >= r0, i < r0 + n, j >= c0, j < c0 + n)


@contract("bml_extract_submatrix_ellpack", ["C18"], **E_)
def _(v):
    A = v.ell("A")
    r0, c0, n, m = v.int("irow", 0), v.int("icol", 0), v.int("B_N", 1), v.int("B_M", 1)
    v.assume(And(r0 + n <= A.N, c0 + n <= A.N, m <= n))
    a0 = v.view(A)
    # precondition: the entries stored in a row of the block fit into a row of the result
    q, nnz, ind = z3.Int("fit#k"), v.eng.content(v.st, A.nnz), v.eng.content(v.st, A.ind)
    fit = lambda i: OPS.sum(0, nnz.read([simp_int(i + r0)]), q, If(And(ind.read([simp_int(i + r0), q]) >= c0, ind.read([simp_int(i + r0), q]) < c0 + n), R1, R0)) <= z3.ToReal(m)
    v.eng.newrows = (n, m, fit)
    R = v.out(v.call(A.obj, r0, c0, n, m))
    R.fit = fit
    v.post_new("C18", R, n, m, mode=A.mode)
    v.post_wf(R)
    v.post_view("C18", "result(i,j) = A(irow+i, icol+j)", R, lambda i, j: a0(simp_int(i + r0), simp_int(j + c0)), N=n)


@contract("bml_assign_submatrix_ellpack", ["C18"], **E_)
def _(v):
    A = v.ell("A", mod=True)
    n = v.int("B_N", 1)
    B = v.ell("B", N=n)
    r0, c0 = v.int("irow", 0), v.int("icol", 0)
    v.assume(And(r0 + n <= A.N, c0 + n <= A.N))
    a0, b0 = v.view(A), v.view(B)
    # precondition: what stays of a row and the row of the block fit into the row
    q, nnz, ind, bn = z3.Int("fit#k"), v.eng.content(v.st, A.nnz), v.eng.content(v.st, A.ind), v.eng.content(v.st, B.nnz)
    A.fit = lambda i: Implies(And(i >= r0, i < r0 + n), OPS.sum(0, nnz.read([i]), q, If(Or(ind.read([i, q]) < c0, ind.read([i, q]) >= c0 + n), R1, R0))
                              + z3.ToReal(bn.read([simp_int(i - r0)])) <= z3.ToReal(A.M))
    for r in (A.val, A.ind):
        r.rowfact = A.fit
    v.call(A.obj, B.obj, r0, c0)
    v.post_wf(A)
    v.post_view("C18", "the block is overwritten and nothing else", A,
                lambda i, j: If(in_block(i, j, r0, c0, n), b0(simp_int(i - r0), simp_int(j - c0)), a0(i, j)))


@contract("bml_extract_submatrix_csr", ["C18"], **C_)
def _(v):
    A = v.csr("A")
    r0, c0, n, m = v.int("irow", 0), v.int("icol", 0), v.int("B_N", 1), v.int("B_M", 1)
    v.assume(And(r0 + n <= A.N, c0 + n <= A.N))
    a0 = v.view(A)
    R = v.out(v.call(A.obj, r0, c0, n, m))
    v.post_new("C18", R, n, mode=A.mode)
    v.post_wf(R)
    v.post_view("C18", "result(i,j) = A(irow+i, icol+j)", R, lambda i, j: a0(simp_int(i + r0), simp_int(j + c0)), N=n)


Q, J = z3.Int("q!b"), z3.Int("j!b")


@contract("bml_assign_submatrix_csr", ["C18"], **C_)
def _(v):
    from s_csr import Row, OldRow, row_shape
    A = v.csr("A", mod=True)
    n = v.int("B_N", 1)
    B = v.csr("B", N=n)
    r0, c0 = v.int("irow", 0), v.int("icol", 0)
    v.assume(And(r0 + n <= A.N, c0 + n <= A.N))
    a0, b0 = v.view(A), v.view(B)
    outside = lambda j: Or(j < c0, j >= c0 + n)

    def rows(e, i):
        return Row(v, e, "A", simp_int(i + r0)), OldRow(v, A, simp_int(i + r0)), OldRow(v, B, i)

    def append(e):
        r, a, b = rows(e, e.loc("i"))
        old, cnt = OldRow(v, A, simp_int(e.loc("i") + r0), e.entry), e.loc("count")
        return row_shape(v, r, A.N) + [
            ("number of entries", r.nnz == cnt + e.k),
            ("entries kept stay", fall([Q], Implies(And(Q >= 0, Q < cnt), And(r.ind(Q) == old.ind(Q), veq(r.val(Q), old.val(Q)), outside(r.ind(Q)))), r.ind(Q))),
            ("entries appended are those of the block", fall([Q], Implies(And(Q >= cnt, Q < cnt + e.k), And(r.ind(Q) == b.ind(simp_int(Q - cnt)) + c0, veq(r.val(Q), b.val(simp_int(Q - cnt))))), r.ind(Q))),
            ("columns kept are found", fall([J], Implies(And(a.has(J), outside(J)), And(r.inv(J) >= 0, r.inv(J) < cnt, r.has(J), veq(r.val(r.inv(J)), a.val(a.inv(J))))), r.inv(J), a.inv(J))),
            ("columns of the block are found", fall([J], Implies(And(b.has(simp_int(J - c0)), b.inv(simp_int(J - c0)) < e.k), r.inv(J) == cnt + b.inv(simp_int(J - c0))), r.inv(J)))]

    def result(e):
        r, a, b = rows(e, e.k)
        return row_shape(v, r, A.N) + [
            ("entries outside the block stay", fall([J], Implies(And(a.has(J), outside(J)), And(r.has(J), veq(r.val(r.inv(J)), a.val(a.inv(J))))), r.inv(J), a.inv(J))),
            ("entries of the block are stored", fall([J], Implies(b.has(simp_int(J - c0)), And(r.has(J), veq(r.val(r.inv(J)), b.val(b.inv(simp_int(J - c0)))))), r.inv(J))),
            ("nothing else is stored", fall([Q], Implies(And(Q >= 0, Q < r.nnz), Or(And(outside(r.ind(Q)), a.has(r.ind(Q))), b.has(simp_int(r.ind(Q) - c0)))), r.ind(Q)))]

    v.call(A.obj, B.obj, r0, c0, loops_={("i", "arow", "avals"): LoopSpec(rowwise=True, shift=lambda e: r0, post=result),
                                         ("j", "vals", "icol", "!arow"): LoopSpec(inv=append)})
    v.post_wf(A)
    v.post_view("C18", "the block is overwritten and nothing else", A,
                lambda i, j: If(in_block(i, j, r0, c0, n), b0(simp_int(i - r0), simp_int(j - c0)), a0(i, j)))


@contract("bml_matrix2submatrix_ellpack", ["C18"], **E_)
def _(v):
    A = v.ell("A")
    n = v.int("lsize", 1)
    B = v.dense("B", N=v.int("B_N", 1), mod=True)
    v.assume(And(n <= B.N, n <= A.N))
    p, ch, inv = v.indices("core_halo_index", n, A.N)
    a0, b0 = v.view(A), v.view(B)
    v.call(A.obj, B.obj, p, n)
    v.post_view("C18", "the submatrix has the entries of the rows and columns listed", B,
                lambda i, j: If(And(i < n, j < n), a0(ch(i), ch(j)), b0(i, j)))


@contract("bml_submatrix2matrix_ellpack", ["C18"], **E_)
def _(v):
    A = v.dense("A", N=v.int("A_N", 1))
    B = v.ell("B", mod=True)
    n, c = v.int("lsize", 1), v.int("llsize", 0)
    v.assume(And(c <= n, n <= A.N, n <= B.N))
    p, ch, inv = v.indices("core_halo_index", n, B.N)
    t = v.real("threshold")
    v.assume(t >= 0)
    a0, b0 = v.view(A), v.view(B)
    # precondition: the entries above the threshold fit into the rows
    q, k = z3.Int("fit#k"), z3.Int("fit#i")
    row = OPS.sum(0, n, q, If(vabs(a0(k, q)) > t, R1, R0))
    v.assume(z3.ForAll([k], Implies(And(k >= 0, k < c), row <= z3.ToReal(B.M)), patterns=[row]))
    v.call(A.obj, B.obj, p, n, c, t)
    v.post_wf(B)
    hit = lambda k, m: And(inv(k) >= 0, inv(k) < m, ch(inv(k)) == k)
    x = lambda i, j: a0(inv(i), inv(j))
    v.post_view("C18", "rows of the core get the entries above the threshold, other rows stay", B,
                lambda i, j: If(hit(i, c), If(And(hit(j, n), vabs(x(i, j)) > t), x(i, j), v.zero()), b0(i, j)))
