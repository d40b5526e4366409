"""Contracts assumed for code outside the repository (libc, math, BLAS, OpenMP run time) and for the allocator."""
import z3
from terms import *
from memory import *
import cfront
from symex import *
from cfront import T, INT, R32, R64, C32, C64, sizeof

TABLE = {}
STEMS = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def lookup(eng, name, stem):
    return TABLE.get(name)


# ------------------------------------------------------------------ logging / termination
@model("bml_log_location", "bml_log")
def m_log(eng, st, args, n):
    lvl = args[0]
    err = eng.tu.enums.get("BML_LOG_ERROR", 3)
    if is_num(lvl) and num(lvl) < err:
        return VOIDV
    if eng.allow_error_if is not None:
        st.assume(Not(eng.allow_error_if))
    eng.oblige(st, "noerror", "error exit is not taken on valid input", z3.BoolVal(False))
    raise Abort()


@model("__assert_fail", "abort", "exit", "_exit")
def m_abort(eng, st, args, n):
    eng.oblige(st, "noerror", "abort/exit/assert is not taken on valid input", z3.BoolVal(False))
    raise Abort()


@model("printf", "fprintf", "fflush", "puts", "putchar", "perror", "snprintf", "sprintf")
def m_io(eng, st, args, n):
    return z3.IntVal(0)


# ------------------------------------------------------------------ allocation
def alloc(eng, st, nbytes, zeroed, name="blk"):
    r = Region(fresh_name(name), None, None, None, bytes_=simp_int(eng.as_int(nbytes)))
    r.born = len(eng.frames)
    st.mem[r] = "zero" if zeroed else "fresh"
    st.alive[r] = z3.BoolVal(True)
    eng.all_blocks.append(r)
    return Ptr(r)


@model("bml_allocate_memory")
def m_alloc(eng, st, args, n):
    return alloc(eng, st, args[0], True)


@model("bml_noinit_allocate_memory", "malloc")
def m_malloc(eng, st, args, n):
    return alloc(eng, st, args[0], False)


@model("calloc")
def m_calloc(eng, st, args, n):
    return alloc(eng, st, eng.as_int(args[0]) * eng.as_int(args[1]), True)


@model("realloc", "bml_reallocate_memory")
def m_realloc(eng, st, args, n):
    p = args[0]
    fam = getattr(p.reg, "family", None) if isinstance(p, Ptr) and p.reg is not None else None
    if fam is None:
        raise Undecided("reallocation of a plain block")
    return fam.realloc(eng, st, p, eng.as_int(args[1]))


@model("bml_free_memory", "free", "bml_free_ptr_x")
def m_free(eng, st, args, n):
    free(eng, st, args[0])
    return VOIDV


@model("bml_free_ptr")
def m_free_ptr(eng, st, args, n):
    raise Undecided("bml_free_ptr")


def free(eng, st, p, g=None):
    g = g if g is not None else z3.BoolVal(True)
    if isinstance(p, PIte):
        for gg, q in p.alts:
            free(eng, st, q, And(g, gg))
        return
    if isinstance(p, Poison):
        raise Undecided("free of an uninitialised pointer")
    if isinstance(p, Ptr):
        if p.reg is None:
            return
        fam = getattr(p.reg, "family", None)
        if fam is not None:
            return fam.free_block(eng, st, p, g)
        eng.oblige(st, "memory", f"free of the start of block {eng.rname(p.reg)}", Implies(g, And(p.off == 0, *[]) if not p.idx else z3.BoolVal(False)))
        if p.reg.kind != "heap":
            eng.oblige(st, "memory", "free of heap memory", Not(g))
        k = p.reg
        if getattr(p.reg, "asobj", None) is not None:
            k2 = p.reg.asobj.name
            st.alive[k2] = If(g, z3.BoolVal(False), st.alive.get(k2, z3.BoolVal(True)))
    elif isinstance(p, Obj):
        k = p.name
        fam = eng.families.get(p.name)
        if fam is not None:
            return fam.free_obj(eng, st, p, g)
        rg = st.ghost.get(("objreg", p.name))
        if rg is not None:
            st.alive[rg[1]] = If(g, z3.BoolVal(False), st.alive.get(rg[1], z3.BoolVal(True)))
        if p.name in eng.frozen:
            eng.oblige(st, "frame", "input object is not freed", Not(g))
    else:
        raise Undecided("free of a non-pointer")
    al = st.alive.get(k, z3.BoolVal(True))
    eng.oblige(st, "memory", f"block freed once ({k if isinstance(k, str) else eng.rname(k)})", Implies(g, al))
    if isinstance(k, Region) and k.readonly:
        eng.oblige(st, "frame", f"input block {eng.rname(k)} is not freed", Not(g))
    st.alive[k] = If(g, z3.BoolVal(False), al)


# ------------------------------------------------------------------ bulk memory
def flat(eng, st, p, n, what):
    """Coordinates of n consecutive elements from p: (params, range, locs, relative kind)."""
    if isinstance(p, PIte):
        raise Undecided("bulk access through a conditional pointer")
    if isinstance(p, Poison) or isinstance(p, Obj):
        raise Undecided("bulk access to an object")
    r = p.reg
    if r is None:
        eng.oblige(st, "memory", f"{what}: pointer is not null", n <= 0)
        raise Undecided("bulk access through null")
    if r.ety is None:
        raise Undecided("bulk access to an untyped block")
    n = simp_int(n)
    eng.fix_shape(r, n if len(poly(n)) and any(len(m) > 1 for m in poly(n)) else p.off)
    al = st.alive.get(r, z3.BoolVal(True))
    if not z3.is_true(al):
        eng.oblige(st, "memory", f"{what} of live block {eng.rname(r)}", al)
    if p.gen is not None:
        eng.oblige(st, "memory", f"{what} through a pointer not invalidated by reallocation ({eng.rname(r)})",
                   p.gen == eng.fam_gen(st, r, p.idx))
    for x, (lo, hi) in zip(p.idx, eng.lead_bounds(st, r, p.idx)):
        eng.oblige(st, "memory", f"{what} leading index within {eng.rname(r)}", And(x >= lo, x < hi))
    ln = eng.rname(r)
    if len(r.shape) == 1:
        ext = r.shape[0]
        ext = ext(st, p.idx) if callable(ext) else ext
        if peq(p.off, z3.IntVal(0)) and peq(ext, n):
            pass
        else:
            eng.oblige(st, "memory", f"{what} in bounds of {ln}", Implies(n > 0, And(p.off >= 0, p.off + n <= ext)))
        t = fint("t")
        return [t], [And(t >= 0, t < n)], list(p.idx) + [simp_int(p.off + t)], "lin"
    R, S = r.shape
    R = R(st, p.idx) if callable(R) else R
    S = S(st, p.idx) if callable(S) else S
    row0, col0 = split_stride(simp_int(p.off), S)
    q, rem = split_stride(n, S)
    if peq(rem, z3.IntVal(0)) and peq(col0, z3.IntVal(0)) and not (peq(q, z3.IntVal(1))):
        eng.oblige(st, "memory", f"{what} in bounds of {ln}", Implies(q > 0, And(row0 >= 0, row0 + q <= R)))
        a, b = fint("r"), fint("c")
        return [a, b], [And(a >= 0, a < q), And(b >= 0, b < S)], list(p.idx) + [simp_int(row0 + a), b], ("mat", S)
    eng.bound(st, what + " row", r, row0, R, None)
    eng.oblige(st, "memory", f"{what} within a row of {ln}", Implies(n > 0, And(col0 >= 0, col0 + n <= S)))
    t = fint("t")
    return [t], [And(t >= 0, t < n)], list(p.idx) + [row0, simp_int(col0 + t)], "lin"


def unshared(eng, r):
    if eng.locked is not None and r in eng.locked["regs"]:
        raise Undecided("block operation on rows shared under locks")


def log_read(eng, st, r, ps, rng, locs):
    unshared(eng, r)
    if st.rlog is not None:
        st.rlog.append(Rec(r, ps, And([st.guard_since(eng.logbase[-1])] + rng), locs, None, st.atomic))


def whole(st, r, ps, rng, locs):
    """the written cells are the whole block"""
    if r.nlead or len(locs) != len(r.shape) or len(ps) != len(locs) or any(callable(n) for n in r.shape):
        return False
    return all(l.eq(p) and z3.is_true(z3.simplify(g == And(p >= 0, p < n))) for l, p, n, g in zip(locs, ps, r.shape, rng))


def bulk_write(eng, st, r, ps, rng, locs, val):
    unshared(eng, r)
    if r.readonly:
        eng.oblige(st, "frame", f"{eng.rname(r)} is not written", z3.BoolVal(False))
    old = eng.content(st, r)
    st.mem[r] = MapStore(old, ps, And(rng), locs, val)
    if whole(st, r, ps, rng, locs) and not any(depends(x, p) for p in ps for x in ([val.re, val.im] if isinstance(val, Cx) else [val])):
        # every cell of the block is set to one value; cells outside the block are never read (bounds obligations)
        st.mem[r] = Const(val)
    if r.ety.k == "int":
        import loops
        st.inv[r] = loops.inv_map(eng, st, eng.inv_content(st, r), ps, And(rng), locs, val)
    if st.wlog is not None:
        st.wlog.append(Rec(r, ps, And([st.guard_since(eng.logbase[-1])] + rng), locs, val, st.atomic))


def elems(eng, nbytes, sz, st):
    p = poly(simp_int(eng.as_int(nbytes)))
    if any(c % sz for c in p.values()):
        eng.oblige(st, "memory", "byte count is a whole number of elements", z3.BoolVal(False))
    return poly_term({m: c // sz for m, c in p.items() if c // sz})


@model("memset", "__builtin_memset", "__builtin___memset_chk")
def m_memset(eng, st, args, n):
    p, v, nb = args[0], args[1], args[2]
    if isinstance(p, Ptr) and p.reg is not None and p.reg.ety is None:
        if is_num(eng.as_int(v)) and num(eng.as_int(v)) == 0 and peq(p.reg.bytes, nb):
            st.mem[p.reg] = "zero"
            return p
    if isinstance(p, Obj):
        raise Undecided("memset of an object")
    cnt = elems(eng, nb, sizeof(p.reg.ety), st)
    ps, rng, locs, kind = flat(eng, st, p, cnt, "memset")
    vi = eng.as_int(v)
    if not (is_num(vi) and num(vi) == 0):
        if z3.is_real(vi) and is_num(vi) and num(vi) == 0:
            pass
        else:
            raise Undecided("memset with a nonzero byte")
    bulk_write(eng, st, p.reg, ps, rng, locs, zero(p.reg.ety.k))
    return p


@model("memcpy", "memmove", "__builtin_memcpy")
def m_memcpy(eng, st, args, n):
    d, s, nb = args[0], args[1], args[2]
    if isinstance(d, Obj) or isinstance(s, Obj):
        raise Undecided("memcpy of objects")
    if isinstance(d, PIte) or isinstance(s, PIte):
        raise Undecided("memcpy through conditional pointers")
    if d.reg is None or s.reg is None:
        raise Undecided("memcpy with null")
    if s.reg.ety is None and d.reg.ety is not None:
        eng.set_type(st, s.reg, d.reg.ety)
    if d.reg.ety is None and s.reg.ety is not None:
        eng.set_type(st, d.reg, s.reg.ety)
    if d.reg.ety.k != s.reg.ety.k or sizeof(d.reg.ety) != sizeof(s.reg.ety):
        eng.oblige(st, "memory", "memcpy between blocks of the same element type", z3.BoolVal(False))
        raise Undecided("memcpy between element types")
    cnt = elems(eng, nb, sizeof(d.reg.ety), st)
    copy_elems(eng, st, d, s, cnt, "memcpy")
    return d


def copy_elems(eng, st, d, s, cnt, what, f=None):
    if d.reg.shape is None and s.reg.shape is not None and len(s.reg.shape) == 2 and not callable(s.reg.shape[0]):
        if peq(d.reg.size, simp_int(s.reg.shape[0] * s.reg.shape[1])):
            d.reg.shape = list(s.reg.shape)
    if s.reg.shape is None and d.reg.shape is not None and len(d.reg.shape) == 2 and not callable(d.reg.shape[0]):
        if peq(s.reg.size, simp_int(d.reg.shape[0] * d.reg.shape[1])):
            s.reg.shape = list(d.reg.shape)
    ps, rng, locs, kind = flat(eng, st, s, cnt, what + " source")
    pd, rd, ld, kd = flat(eng, st, d, cnt, what + " destination")
    if len(ps) != len(pd) or (kind != "lin" and not peq(kind[1], kd[1])):
        raise Undecided(f"{what} between differently shaped blocks")
    sub = list(zip(pd, ps))
    ld = [z3.substitute(x, *sub) for x in ld]
    if d.reg is s.reg:
        # overlapping copies
        if what != "memmove":
            eng.oblige(st, "memory", f"{what} blocks do not overlap", Implies(cnt > 0, Or(d.off + cnt <= s.off, s.off + cnt <= d.off)))
    val = eng.content(st, s.reg).read(locs)
    log_read(eng, st, s.reg, ps, rng, locs)
    if f is not None:
        val = f(val, ps, ld)
    bulk_write(eng, st, d.reg, ps, rng, ld, val)


# ------------------------------------------------------------------ math
def one(f):
    return lambda eng, st, a, n: f(a[0])


for nm in ("fabs", "fabsf", "fabsl"):
    TABLE[nm] = one(lambda x: rabs(x))
for nm in ("cabs", "cabsf"):
    TABLE[nm] = one(lambda x: vabs(tocx(x)))
for nm in ("creal", "crealf"):
    TABLE[nm] = one(vre)
for nm in ("cimag", "cimagf"):
    TABLE[nm] = one(vim)
for nm in ("conj", "conjf"):
    TABLE[nm] = one(lambda x: vconj(tocx(x)))
for nm in ("sqrt", "sqrtf"):
    TABLE[nm] = one(lambda x: R0 if is_num(x) and num(x) == 0 else __import__("terms")._sqrt(poly_term(poly(x), True)))
TABLE["abs"] = lambda eng, st, a, n: z3.If(eng.as_int(a[0]) >= 0, eng.as_int(a[0]), -eng.as_int(a[0]))
for nm in ("pow", "powf"):
    TABLE[nm] = lambda eng, st, a, n: rmul(a[0], a[0]) if is_num(a[1]) and num(a[1]) == 2 else __import__("terms")._pow(a[0], a[1])


@model("ceil", "ceilf")
def m_ceil(eng, st, a, n):
    r = fint("ceil")
    st.assume(And(z3.ToReal(r) >= a[0], z3.ToReal(r) < a[0] + 1))
    return z3.ToReal(r)


@model("floor", "floorf")
def m_floor(eng, st, a, n):
    r = fint("floor")
    st.assume(And(z3.ToReal(r) <= a[0], z3.ToReal(r) > a[0] - 1))
    return z3.ToReal(r)


@model("rand")
def m_rand(eng, st, a, n):
    r = fint("rand")
    st.assume(And(r >= 0, r <= 2147483647))
    return r


@model("srand", "omp_set_num_threads")
def m_nop(eng, st, a, n):
    return VOIDV


@model("omp_get_max_threads", "omp_get_num_threads", "omp_get_num_procs")
def m_thr(eng, st, a, n):
    r = fint("nthreads")
    st.assume(r >= 1)
    return r


@model("omp_get_thread_num")
def m_tid(eng, st, a, n):
    r = fint("tid")
    st.assume(r >= 0)
    return r


def lock_cell(eng, st, p, what):
    from cfront import LOCK
    if not isinstance(p, Ptr) or p.reg is None:
        raise Undecided("lock that is not a cell of a block")
    eng.oblige(st, "race", f"{what}: the lock is initialised", eng.load(st, p, LOCK) == 0)
    return eng.locate(st, p, "read", None)


@model("omp_init_lock")
def m_lock_init(eng, st, a, n):
    from cfront import LOCK
    eng.store(st, a[0], z3.IntVal(0), LOCK)
    return VOIDV


@model("omp_destroy_lock")
def m_lock_destroy(eng, st, a, n):
    from cfront import LOCK
    lock_cell(eng, st, a[0], "omp_destroy_lock")
    eng.store(st, a[0], z3.IntVal(1), LOCK)
    return VOIDV


@model("omp_set_lock")
def m_lock_set(eng, st, a, n):
    L = eng.locked
    if L is None or st.wlog is not None and not eng.dry:
        raise Undecided("omp_set_lock outside a loop with an annotation for locks")
    r, loc = lock_cell(eng, st, a[0], "omp_set_lock")
    if not eng.dry and not eng.prove_now(st, st.ghost["#sets"] == 0):
        raise Undecided("a second lock in one iteration")
    if r not in L["before"] or len(loc) != 1 or L.setdefault("lock", r) is not r or r in L["private"]:
        raise Undecided("locks of different arrays, or private to a thread")
    eng.oblige(st, "race", "no lock is held when one is set", st.ghost["#lock"] == -1)
    st.ghost["#lock"], st.ghost["#sets"] = loc[0], simp_int(st.ghost["#sets"] + 1)
    return VOIDV


@model("omp_unset_lock")
def m_lock_unset(eng, st, a, n):
    if eng.locked is None or st.wlog is not None and not eng.dry:
        raise Undecided("omp_unset_lock outside a loop with an annotation for locks")
    r, loc = lock_cell(eng, st, a[0], "omp_unset_lock")
    eng.oblige(st, "race", "the lock that is unset is held", And(z3.BoolVal(eng.locked.get("lock") is r), st.ghost["#lock"] == loc[0]))
    st.ghost["#lock"] = z3.IntVal(-1)
    return VOIDV


@model("omp_is_initial_device")
def m_dev(eng, st, a, n):
    return z3.IntVal(1)


@model("omp_get_num_devices")
def m_ndev(eng, st, a, n):
    return z3.IntVal(0)


# ------------------------------------------------------------------ BLAS (assumed contracts)
_BT = {"s": R32, "d": R64, "c": C32, "z": C64}


def ival(eng, st, p):
    return eng.as_int(eng.load(st, p, INT))


def sval(eng, st, p, t):
    return eng.load(st, p, t)


def m_scal(eng, st, args, n, t):
    cnt, a = ival(eng, st, args[0]), sval(eng, st, args[1], t)
    inc = ival(eng, st, args[3])
    x = args[2]
    if not (is_num(inc) and num(inc) == 1):
        raise Undecided("scal with a stride")
    eng.settle(st, x.reg, t)
    if not eng.type_ok(st, x.reg, t, "scal", None):
        return VOIDV
    ps, rng, locs, kind = flat(eng, st, x, cnt, "scal")
    old = eng.content(st, x.reg).read(locs)
    log_read(eng, st, x.reg, ps, rng, locs)
    bulk_write(eng, st, x.reg, ps, rng, locs, vmul(a, old))
    return VOIDV


def m_axpy(eng, st, args, n, t):
    cnt, a = ival(eng, st, args[0]), sval(eng, st, args[1], t)
    x, incx, y, incy = args[2], ival(eng, st, args[3]), args[4], ival(eng, st, args[5])
    if not (is_num(incx) and num(incx) == 1 and is_num(incy) and num(incy) == 1):
        raise Undecided("axpy with a stride")
    if not (eng.type_ok(st, x.reg, t, "axpy", None) and eng.type_ok(st, y.reg, t, "axpy", None)):
        return VOIDV

    def f(val, ps, ld):
        old = eng.content(st, y.reg).read(ld)
        log_read(eng, st, y.reg, ps, [], ld)
        return vadd(vmul(a, val), old)
    if x.reg is y.reg and same_ptr(x, y):
        ps, rng, locs, kind = flat(eng, st, x, cnt, "axpy")
        old = eng.content(st, x.reg).read(locs)
        log_read(eng, st, x.reg, ps, rng, locs)
        bulk_write(eng, st, x.reg, ps, rng, locs, vadd(vmul(a, old), old))
        return VOIDV
    copy_elems(eng, st, y, x, cnt, "axpy", f)
    return VOIDV


def m_gemm(eng, st, args, n, t):
    """column-major gemm on square matrices stored as 2D blocks: element (i,j) of op(X) lives at offset i + j*ld."""
    ta, tb = args[0], args[1]

    def ch(p):
        v = p.s.strip('"') if isinstance(p, StrV) else None
        if v is None and isinstance(p, Ptr):
            x = eng.load(st, p, cfront.CHAR)
            if is_num(x):
                v = chr(num(x))
        if v is None:
            raise Undecided("gemm transpose flag")
        return v.lower()
    ta, tb = ch(ta), ch(tb)
    m, nn, k = (ival(eng, st, args[i]) for i in (2, 3, 4))
    alpha = sval(eng, st, args[5], t)
    A, lda, B, ldb = args[6], ival(eng, st, args[7]), args[8], ival(eng, st, args[9])
    beta, C, ldc = sval(eng, st, args[10], t), args[11], ival(eng, st, args[12])
    for x in (A, B, C):
        eng.settle(st, x.reg, t)
        if not eng.type_ok(st, x.reg, t, "gemm", None):
            return VOIDV

    def elem(X, ld, log=True):
        eng.fix_shape(X.reg, ld * ld)
        R, S = X.reg.shape
        if not (peq(ld, S)):
            raise Undecided("gemm leading dimension")
        r0, c0 = split_stride(simp_int(X.off), S)
        c = eng.content(st, X.reg)
        return (lambda i, j: c.read([simp_int(r0 + j), simp_int(c0 + i)])), r0, c0, R, S

    ea, ra, ca, RA, SA = elem(A, lda)
    eb, rb, cb, RB, SB = elem(B, ldb)
    ec, rc, cc, RC, SC = elem(C, ldc)
    oa = ea if ta == "n" else (lambda i, j: ea(j, i)) if ta == "t" else (lambda i, j: vconj(ea(j, i)))
    ob = eb if tb == "n" else (lambda i, j: eb(j, i)) if tb == "t" else (lambda i, j: vconj(eb(j, i)))
    # bounds
    for X, (r0, c0, R, S), (rows, cols) in ((A, (ra, ca, RA, SA), (m, k) if ta == "n" else (k, m)),
                                            (B, (rb, cb, RB, SB), (k, nn) if tb == "n" else (nn, k)),
                                            (C, (rc, cc, RC, SC), (m, nn))):
        eng.oblige(st, "memory", f"gemm operand {eng.rname(X.reg)} in bounds",
                   Implies(And(rows > 0, cols > 0), And(r0 >= 0, c0 >= 0, r0 + cols <= R, c0 + rows <= S)))
    if C.reg is A.reg or C.reg is B.reg:
        eng.oblige(st, "memory", "gemm result does not alias an operand", z3.BoolVal(False))
    i, j, l = fint("i"), fint("j"), fint("l")
    prod = OPS.sum(0, k, l, vmul(oa(i, l), ob(l, j)))
    val = vmul(alpha, prod)
    if not (not isinstance(beta, Cx) and is_num(beta) and num(beta) == 0):
        val = vadd(val, vmul(beta, ec(i, j)))
    rng = [And(i >= 0, i < m), And(j >= 0, j < nn)]
    bulk_write(eng, st, C.reg, [i, j], rng, [simp_int(rc + j), simp_int(cc + i)], val)
    return VOIDV


for _c, _t in _BT.items():
    TABLE[_c + "scal_"] = (lambda t: lambda eng, st, a, n: m_scal(eng, st, a, n, t))(_t)
    TABLE[_c + "axpy_"] = (lambda t: lambda eng, st, a, n: m_axpy(eng, st, a, n, t))(_t)
    TABLE[_c + "gemm_"] = (lambda t: lambda eng, st, a, n: m_gemm(eng, st, a, n, t))(_t)
