"""Contracts for conversion between formats at the same precision (C23).  The source is read through the
format-independent entry points, which are executed with the source's tags."""
from verify import *


def conv(src, dst):
    @contract("bml_convert_" + dst, ["C23"], fmt=dst, cid=f"bml_convert_{dst}#{src}", cross=("C16", "C20", "C21", "C17"))
    def _(v):
        A = {"dense": v.dense, "ellpack": v.ell, "csr": v.csr}[src]("A")
        N, d = A.N, v.mode_arg()
        a0 = v.view(A)
        p = z3.IntVal(PENUM[v.prec])
        if dst == "dense":
            r = v.call(A.obj, p, d)
            M = N
        else:
            M = v.int("M", 1 if dst == "ellpack" else 0)
            if dst == "ellpack":
                v.assume(M <= N)
                # precondition: the non-zero entries of every row fit into the M slots of a row of the result
                j = z3.Int("fit#k")
                fit = lambda i: OPS.sum(0, N, j, If(vabs(a0(i, j)) > 0, R1, R0)) <= z3.ToReal(M)
                v.eng.newrows = (N, M, fit)
            r = v.call(A.obj, p, M, d)
        R = v.out(r)
        if dst == "ellpack":
            R.fit = fit
        v.post_new("C23", R, N, M, mode=d)
        v.post_wf(R)
        i, j, rng = v.ij(N)
        x = a0(i, j)
        # (the magnitude is named so that the solver relates it to the entry)
        v.post("C23", "the result has the entries of the source", veq(v.view(R, v.final)(i, j), x), extra=rng + [vabs(x) >= 0])


for s_ in ("dense", "ellpack", "csr"):
    for d_ in ("dense", "ellpack", "csr"):
        conv(s_, d_)
