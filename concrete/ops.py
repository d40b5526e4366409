"""Operations under test: inputs, call, oracle."""
from harness import *

SP = ("ellpack", "ellblock", "csr")


def conj(c, a):
    return np.conj(a)


def rd(c, x):
    """a double argument as the library may use it (in the element type)"""
    return float(np.float32(x)) if c.single else x


# ------------------------------------------------------------------ add
def add_setup(c):
    a, b = c.dense_array(), c.dense_array()
    M = c.capM(c.need((a != 0) | (b != 0)))
    zs = c.fmt != "ellpack" or M == c.N
    return a, b, M, zs


@op("C04")
def op_add(c):
    a, b, M, zs = add_setup(c)
    A, B = c.mat(a, M, zeros=zs), c.mat(b, M, zeros=zs)
    c.modified(A)
    al, be, t = c.dbl(), c.dbl(), c.thr()
    c.call("bml_add", A, B, al, be, t)
    c.dropped("C04", A, al * a + be * b, t, mag=np.abs(al * a) + np.abs(be * b))


@op("C04", fmts=("dense", "ellpack", "ellblock"))
def op_add_norm(c):
    a, b, M, zs = add_setup(c)
    A, B = c.mat(a, M, zeros=zs), c.mat(b, M, zeros=zs)
    c.modified(A)
    al, be, t = c.dbl(), c.dbl(), c.thr()
    r = c.call("bml_add_norm", A, B, al, be, t, ret=ct.c_double)
    c.dropped("C04", A, al * a + be * b, t, mag=np.abs(al * a) + np.abs(be * b))
    if c.fmt == "dense":
        c.eq("C04", "returned norm", r, np.sum(b * b).real, mag=np.sum(np.abs(b) ** 2))
    elif c.fmt == "ellpack":
        # sum over the union of the patterns of (A-B)^2 contributions
        c.eq("C04", "returned norm", r, np.sum((a - b) * (a - b)).real, mag=np.sum(np.abs(a - b) ** 2))
    else:
        c.eq("C04", "returned norm", r, np.sum(np.abs(a - b) ** 2))


@op("C04")
def op_add_identity(c):
    a = c.dense_array()
    M = c.capM(c.need((a != 0) | np.eye(c.N, dtype=bool)))
    A = c.mat(a, M, inp=False, zeros=(M == c.N))
    be, t = c.dbl(), c.thr()
    c.call("bml_add_identity", A, be, t)
    c.dropped("C04", A, a + be * np.eye(c.N), t)


@op("C04")
def op_scale_add_identity(c):
    a = c.dense_array()
    M = c.capM(c.need((a != 0) | np.eye(c.N, dtype=bool)))
    A = c.mat(a, M, inp=False, zeros=(M == c.N))
    al, be, t = c.dbl(), c.dbl(), c.thr()
    c.call("bml_scale_add_identity", A, al, be, t)
    c.dropped("C04", A, al * a + be * np.eye(c.N), t)


# ------------------------------------------------------------------ scale
def anymat(c, inp=True, a=None):
    a = c.dense_array() if a is None else a
    M = c.capM(c.need(a != 0))
    return c.mat(a, M, inp=inp), a, M


@op("C05")
def op_scale_new(c):
    A, a, M = anymat(c)
    s = c.val(nz=False)
    n0 = c.stored_count(A)
    B = c.adopt(c.call("bml_scale_new", c.scalar(s), A))
    c.eqm("C05", B, s * a)
    c.newmat("C05", B, c.N, M)
    if c.fmt in ("ellpack", "csr") and c.stored_count(B) != n0:
        raise Fail("C05", "sparsity structure changed")


@op("C05")
def op_scale(c):
    A, a, M = anymat(c)
    same = c.rng.random() < 0.25
    B = A if same else c.mat(c.dense_array(0.3) if c.fmt != "ellpack" else None if M == c.N else np.zeros((c.N, c.N)), M, inp=False)
    if same:
        c.modified(A)
    s = c.val(nz=False)
    c.call("bml_scale", c.scalar(s), A, B)
    c.eqm("C05", B, s * a)


@op("C05")
def op_scale_inplace(c):
    A, a, M = anymat(c, inp=False)
    s = c.val(nz=False)
    n0 = c.stored_count(A)
    c.call("bml_scale_inplace", c.scalar(s), A)
    c.eqm("C05", A, s * a)
    if c.fmt in ("ellpack", "csr") and c.stored_count(A) != n0:
        raise Fail("C05", "sparsity structure changed")


# ------------------------------------------------------------------ multiply
def mul_pat(a, b):
    return ((a != 0).astype(int) @ (b != 0).astype(int)) > 0


@op("C06", weight=2)
def op_multiply(c):
    a, b, d = c.dense_array(), c.dense_array(), c.dense_array()
    M = c.capM(c.need(mul_pat(a, b) | (d != 0), a != 0, b != 0, d != 0, np.eye(c.N, dtype=bool)))
    z = M == c.N
    A = c.mat(a, M, zeros=z)
    if c.rng.random() < 0.2:
        B, b = A, a
        M2 = c.need(mul_pat(a, b) | (d != 0))
        if c.fmt == "ellpack" and M2 > M:
            raise Skip()
    else:
        B = c.mat(b, M, zeros=z)
    C = c.mat(d, M, inp=False, zeros=z)
    al, be, t = c.dbl(), c.dbl(), c.thr()
    if c.fmt != "dense" and t > 0.25:
        t = 0.25
    c.call("bml_multiply", A, B, C, al, be, t)
    w = al * (a @ b) + be * d
    if c.fmt == "dense":
        c.eqm("C06", C, w, mag=np.abs(al) * (np.abs(a) @ np.abs(b)) + np.abs(be * d))
    else:
        # the intermediate product may lose entries not above the threshold as well
        g = c.read(C)
        p = a @ b
        pm = np.abs(a) @ np.abs(b)
        c.clear_of(p, t, pm)
        lo = np.where(np.abs(p) <= t, 0, p)
        w2 = al * lo + be * d
        for i in range(c.N):
            for j in range(c.N):
                x = g[i, j]
                for y in (w[i, j], w2[i, j]):
                    m = c.tol() * (1 + abs(y) + abs(al) * pm[i, j] + abs(be * d[i, j]))
                    if abs(x - y) <= m or (x == 0 and abs(y) <= t + m):
                        break
                else:
                    raise Fail("C06", f"entry ({i},{j}) is {x}, expected {w[i, j]} (threshold {t}); result {g.tolist()}")


def mulAB(c, name):
    a, b = c.dense_array(), c.dense_array()
    d = c.dense_array()
    M = c.capM(c.need(mul_pat(a, b), a != 0, b != 0, d != 0))
    z = M == c.N
    A, B = c.mat(a, M, zeros=z), c.mat(b, M, zeros=z)
    C = c.mat(d, M, inp=False, zeros=z)
    t = c.thr()
    c.call(name, A, B, C, t)
    if c.fmt == "dense":
        c.eqm("C06", C, a @ b, mag=np.abs(a) @ np.abs(b))
    else:
        c.dropped("C06", C, a @ b, t, mag=np.abs(a) @ np.abs(b))


@op("C06", weight=2)
def op_multiply_AB(c):
    mulAB(c, "bml_multiply_AB")


@op("C06", weight=1.5)
def op_multiply_adjust_AB(c):
    mulAB(c, "bml_multiply_adjust_AB")


@op("C06", weight=1.5)
def op_multiply_x2(c):
    a, d = c.dense_array(), c.dense_array()
    M = c.capM(c.need(mul_pat(a, a), a != 0, d != 0))
    z = M == c.N
    A = c.mat(a, M, zeros=z)
    C = c.mat(d, M, inp=False, zeros=z)
    t = c.thr()
    tr = c.ret(c.call("bml_multiply_x2", A, C, t), 2, np.float64, "C06")
    if c.fmt == "dense":
        c.eqm("C06", C, a @ a, mag=np.abs(a) @ np.abs(a))
    else:
        c.dropped("C06", C, a @ a, t, mag=np.abs(a) @ np.abs(a))
    g = c.read(C)
    c.eq("C06", "trace of X", tr[0], np.trace(a).real, mag=np.sum(np.abs(np.diag(a))))
    if c.fmt == "ellblock" or t == 0:
        c.eq("C06", "trace of X2", tr[1], np.trace(a @ a).real, mag=np.trace(np.abs(a) @ np.abs(a))) if t == 0 else None
    else:
        full, dropped_ = np.trace(a @ a).real, np.trace(g).real
        m = np.trace(np.abs(a) @ np.abs(a))
        if not (c.same(tr[1], full, m) or c.same(tr[1], dropped_, m)):
            raise Fail("C06", f"trace of X2: got {tr[1]}, expected {full}")


@op("C07", fmts=("dense", "ellpack", "csr"))
def op_element_multiply_AB(c):
    a, b, d = c.dense_array(), c.dense_array(), c.dense_array()
    M = c.capM(c.need(a != 0, b != 0, d != 0))
    z = M == c.N
    A, B = c.mat(a, M, zeros=z), c.mat(b, M, zeros=z)
    C = c.mat(d, M, inp=False, zeros=z)
    t = c.thr()
    c.call("bml_element_multiply_AB", A, B, C, t)
    if c.fmt == "dense":
        c.eqm("C07", C, a * b)
    else:
        c.dropped("C07", C, a * b, t)


# ------------------------------------------------------------------ transpose
@op("C08")
def op_transpose_new(c):
    a = c.dense_array()
    M = c.capM(c.need(a != 0, a.T != 0))
    A = c.mat(a, M, zeros=(M == c.N))
    B = c.adopt(c.call("bml_transpose_new", A))
    c.eqm("C08", B, a.T)
    c.newmat("C08", B, c.N, M)


@op("C08", weight=1.5)
def op_transpose(c):
    a = c.dense_array()
    # the in-place algorithm exchanges entries pairwise: capacity for the union is required
    M = c.capM(c.need((a != 0) | (a.T != 0)))
    A = c.mat(a, M, inp=False, zeros=(M == c.N))
    c.call("bml_transpose", A)
    c.eqm("C08", A, a.T)


def tri(c, conj_):
    a = c.dense_array()
    M = c.capM(c.need((a != 0) | (a.T != 0)))
    A = c.mat(a, M, inp=False, zeros=(M == c.N))
    u = c.rng.choice("ul")
    if conj_:
        b = c.arr(np.frombuffer(u.encode() + b"\0", dtype=np.uint8), u)
        c.call("bml_adjungate_triangle", A, b)
    else:
        c.call("bml_transpose_triangle", A, ct.c_char(u.encode()))
    f = np.conj if conj_ else (lambda x: x)
    if u == "u":
        w = np.triu(a) + f(np.triu(a, 1)).T
    else:
        w = np.tril(a) + f(np.tril(a, -1)).T
    return A, a, w, u


@op("C08", fmts=("dense", "ellpack"))
def op_adjungate_triangle(c):
    A, a, w, u = tri(c, True)
    c.eqm("C08", A, w, f"triangle {u}")


@op("C08", fmts=("dense",))
def op_transpose_triangle(c):
    A, a, w, u = tri(c, False)
    c.eqm("C08", A, w, f"triangle {u}")


# ------------------------------------------------------------------ copy
@op("C09")
def op_copy_new(c):
    A, a, M = anymat(c)
    B = c.adopt(c.call("bml_copy_new", A))
    c.eqm("C09", B, a)
    c.newmat("C09", B, c.N, M)
    # independent storage: changing the copy leaves the source alone
    c.call("bml_clear", B)
    c.eqm("C09", A, a, "source after clearing the copy")


@op("C09")
def op_copy(c):
    a, b = c.dense_array(), c.dense_array()
    M = c.capM(c.need(a != 0, b != 0))
    A, B = c.mat(a, M, zeros=(M == c.N)), c.mat(b, M, inp=False, zeros=(M == c.N))
    c.call("bml_copy", A, B)
    c.eqm("C09", B, a)
    c.call("bml_clear", B)
    c.eqm("C09", A, a, "source after clearing the copy")


@op("C09", fmts=("dense", "ellpack"))
def op_reorder(c):
    A, a, M = anymat(c, inp=False)
    p = list(range(c.N))
    c.rng.shuffle(p)
    c.call("bml_reorder", A, c.arr(np.array(p, np.int32), "perm"))
    w = np.zeros_like(a)
    for i in range(c.N):
        for j in range(c.N):
            w[p[i], p[j]] = a[i, j]
    c.eqm("C09", A, w, f"perm {p}")


# ------------------------------------------------------------------ threshold
@op("C10")
def op_threshold_new(c):
    A, a, M = anymat(c)
    t = c.thr()
    B = c.adopt(c.call("bml_threshold_new", A, t))
    c.eqm("C10", B, np.where(np.abs(a) > t, a, 0), f"threshold {t}")
    c.newmat("C10", B, c.N, M)


@op("C10")
def op_threshold(c):
    A, a, M = anymat(c, inp=False)
    t = c.thr()
    c.call("bml_threshold", A, t)
    c.eqm("C10", A, np.where(np.abs(a) > t, a, 0), f"threshold {t}")


# ------------------------------------------------------------------ trace, norms
@op("C11")
def op_trace(c):
    A, a, M = anymat(c)
    c.eq("C11", "trace", c.call("bml_trace", A, ret=ct.c_double), np.trace(a).real, mag=np.sum(np.abs(np.diag(a))))


@op("C11")
def op_trace_mult(c):
    a, b = c.dense_array(), c.dense_array()
    M = c.capM(c.need(a != 0, b != 0))
    z = M == c.N
    A, B = c.mat(a, M, zeros=z), c.mat(b, M, zeros=z)
    c.eq("C11", "trace of the product", c.call("bml_trace_mult", A, B, ret=ct.c_double), np.trace(a @ b).real, mag=np.trace(np.abs(a) @ np.abs(b)))


@op("C12")
def op_sum_squares(c):
    A, a, M = anymat(c)
    c.eq("C12", "sum of squares", c.call("bml_sum_squares", A, ret=ct.c_double), np.sum(a * a).real, mag=np.sum(np.abs(a) ** 2))


@op("C12", fmts=("dense", "ellpack", "csr"))
def op_sum_squares_submatrix(c):
    A, a, M = anymat(c)
    k = c.rng.randint(0, c.N)
    s = a[:k, :] if c.fmt == "dense" else a[:k, :k]
    c.eq("C12", f"sum of squares, core {k}", c.call("bml_sum_squares_submatrix", A, k, ret=ct.c_double), np.sum(s * s).real, mag=np.sum(np.abs(s) ** 2))


def blockwise(c, a, keep):
    """mask of the blocks of a that satisfy keep (ellblock applies its thresholds to whole blocks)"""
    m = np.zeros(a.shape, bool)
    o = [sum(c.layout[1][:k]) for k in range(len(c.layout[1]) + 1)]
    for p in range(len(o) - 1):
        for q in range(len(o) - 1):
            b = (slice(o[p], o[p + 1]), slice(o[q], o[q + 1]))
            m[b] = keep(a[b])
    return m


def blocknorm(c, a):
    o = [sum(c.layout[1][:k]) for k in range(len(c.layout[1]) + 1)]
    return np.array([[np.sqrt(np.sum(np.abs(a[o[p]:o[p + 1], o[q]:o[q + 1]]) ** 2)) for q in range(len(o) - 1)] for p in range(len(o) - 1)])


def two(c):
    a, b = c.dense_array(), c.dense_array()
    M = c.capM(c.need(a != 0, b != 0))
    z = M == c.N
    return c.mat(a, M, zeros=z), c.mat(b, M, zeros=z), a, b


@op("C12", fmts=("dense", "ellpack", "csr"))
def op_sum_AB(c):
    A, B, a, b = two(c)
    al, t = c.dbl(), c.thr()
    x = al * a * b
    c.clear_of(x, t, np.abs(x))
    c.eq("C12", f"sum of products alpha={al} threshold={t}", c.call("bml_sum_AB", A, B, al, t, ret=ct.c_double),
         np.sum(np.where(np.abs(x) > t, x, 0)).real, mag=np.sum(np.abs(x)))


@op("C12")
def op_sum_squares2(c):
    A, B, a, b = two(c)
    al, be, t = c.dbl(), c.dbl(), c.thr()
    x = al * a + be * b
    m = np.abs(al * a) + np.abs(be * b)
    c.clear_of(x, t, m)
    if c.fmt == "ellblock":
        c.clear_of(blocknorm(c, x), t, np.max(m))
    c.eq("C12", f"sum of squares of {al}*A+{be}*B, threshold {t}", c.call("bml_sum_squares2", A, B, al, be, t, ret=ct.c_double),
         np.sum(np.where(blockwise(c, x, lambda b: np.sum(np.abs(b) ** 2) > t * t) if c.fmt == "ellblock" else np.abs(x) > t,
                         np.abs(x) ** 2 if c.fmt == "ellblock" else x * x, 0)).real, mag=np.sum(m ** 2))


@op("C12", precs=("single_real", "double_real"))
def op_fnorm(c):
    A, a, M = anymat(c)
    c.eq("C12", "Frobenius norm", c.call("bml_fnorm", A, ret=ct.c_double), np.sqrt(np.sum(a * a).real))


@op("C12", fmts=("dense", "ellpack"), precs=("single_real", "double_real"))
def op_fnorm2(c):
    A, B, a, b = two(c)
    c.eq("C12", "Frobenius norm of the difference", c.call("bml_fnorm2", A, B, ret=ct.c_double), np.sqrt(np.sum((a - b) ** 2).real))


# ------------------------------------------------------------------ Gershgorin, normalize
def gersh(a, n):
    r = np.sum(np.abs(a), axis=1) - np.abs(np.diag(a))
    d = np.diag(a).real
    return [float(np.min((d - r)[:n])), float(np.max((d + r)[:n]))]


@op("C13")
def op_gershgorin(c):
    A, a, M = anymat(c)
    c.eq("C13", "Gershgorin bounds", c.ret(c.call("bml_gershgorin", A), 2, np.float64, "C13"), gersh(a, c.N), mag=np.max(np.sum(np.abs(a), axis=1)))


@op("C13", fmts=("dense", "ellpack", "csr"))
def op_gershgorin_partial(c):
    A, a, M = anymat(c)
    n = c.rng.randint(1, c.N)
    c.eq("C13", f"Gershgorin bounds of {n} rows", c.ret(c.call("bml_gershgorin_partial", A, n), 2, np.float64, "C13"), gersh(a, n), mag=np.max(np.sum(np.abs(a), axis=1)))


@op("C13", fmts=("dense", "ellpack", "ellblock", "csr"))
def op_accumulate_offdiag(c):
    A, a, M = anymat(c)
    fl = c.rng.choice([0, 1])
    r = c.ret(c.call("bml_accumulate_offdiag", A, fl), c.N, c.dt, "C13").real
    w = np.sum(np.abs(a), axis=1) - (0 if fl else np.abs(np.diag(a)))
    c.eq("C13", f"row sums, include diagonal {fl}", r, w, mag=np.sum(np.abs(a), axis=1))


@op("C13")
def op_normalize(c):
    a = c.dense_array()
    M = c.capM(c.need((a != 0) | np.eye(c.N, dtype=bool)))
    A = c.mat(a, M, inp=False, zeros=(M == c.N))
    lo = c.rng.randint(-40, 40) / 8
    hi = lo + c.rng.randint(1, 40) / 8
    c.call("bml_normalize", A, lo, hi)
    c.eqm("C13", A, (hi * np.eye(c.N) - a) / (hi - lo), f"normalised with {lo}, {hi}", mag=(np.abs(a) + abs(hi)) / (hi - lo))


# ------------------------------------------------------------------ accessors
@op("C03")
def op_get_element(c):
    A, a, M = anymat(c)
    i, j = c.rng.randrange(c.N), c.rng.randrange(c.N)
    p = c.call("bml_get_element", A, i, j)
    if not p:
        raise Fail("C03", "null pointer")
    c.lib.l.vp_range(ct.c_void_p(p), ct.c_size_t(c.es), 0)
    g = np.frombuffer(ct.string_at(p, c.es), dtype=c.dt)[0]
    c.eq("C03", f"element ({i},{j})", g, a[i, j])


@op("C03")
def op_get_row(c):
    A, a, M = anymat(c)
    i = c.rng.randrange(c.N)
    c.eq("C03", f"row {i}", c.ret(c.call("bml_get_row", A, i), c.N), a[i])


@op("C03")
def op_get_diagonal(c):
    A, a, M = anymat(c)
    c.eq("C03", "diagonal", c.ret(c.call("bml_get_diagonal", A), c.N), np.diag(a))


@op("C03", weight=2)
def op_set_element(c):
    a = c.dense_array()
    A = c.mat(a, c.N, inp=False)
    w = a.copy()
    for _ in range(c.rng.randint(1, 6)):
        i, j, v = c.rng.randrange(c.N), c.rng.randrange(c.N), c.val(nz=False)
        c.call("bml_set_element", A, i, j, c.scalar(v))
        w[i, j] = v
        c.eqm("C03", A, w, f"after setting ({i},{j})")


@op("C03")
def op_set_element_new(c):
    a = c.dense_array(0.4)
    A = c.mat(a, c.N, inp=False, zeros=False)
    w = a.copy()
    for _ in range(c.rng.randint(1, 6)):
        free = [(i, j) for i in range(c.N) for j in range(c.N) if w[i, j] == 0]
        if not free:
            break
        i, j = c.rng.choice(free)
        v = c.val()
        c.call("bml_set_element_new", A, i, j, c.scalar(v))
        w[i, j] = v
        c.eqm("C03", A, w, f"after setting ({i},{j})")


@op("C03", fmts=("csr",))
def op_row_growth(c):
    """rows of a csr matrix grow past the space they were created with"""
    N = c.rng.choice([5, 14, 30])
    A = c.raw(N, c.rng.choice([1, 2, N]))
    w = np.zeros((N, N), dtype=np.complex128 if c.cx else np.float64)
    for i in {0, N - 1, c.rng.randrange(N)}:
        cols = list(range(N))
        c.rng.shuffle(cols)
        for j in cols[:c.rng.choice([N, N, 10, 11, 13, 14])]:
            v = c.val()
            c.call(c.rng.choice(["bml_set_element_new", "bml_set_element"]), A, i, j, c.scalar(v))
            w[i, j] = v
    c.eqm("C03", A, w, "after setting the elements one by one")
    B = c.adopt(c.call("bml_copy_new", A))
    c.eqm(["C03", "C09"], B, w, "copy of the grown matrix")
    C = c.raw(N, N)
    c.call("bml_copy", A, C)
    c.eqm(["C03", "C09"], C, w, "copy of the grown matrix into another")


@op("C03")
def op_set_row(c):
    a = c.dense_array()
    A = c.mat(a, c.N, inp=False)
    w = a.copy()
    for _ in range(c.rng.randint(1, 3)):
        i, t = c.rng.randrange(c.N), c.thr()
        row = np.array([c.val(nz=False) if c.rng.random() < 0.6 else 0 for _ in range(c.N)], dtype=c.dt)
        c.call("bml_set_row", A, i, c.arr(row, "row"), t)
        w[i] = row if c.fmt == "dense" else np.where(np.abs(row) > t, row, 0)
        c.eqm("C03", A, w, f"after setting row {i} threshold {t}")


@op("C03")
def op_set_diagonal(c):
    a = c.dense_array()
    A = c.mat(a, c.N, inp=False)
    t = c.thr()
    d = np.array([c.val(nz=False) if c.rng.random() < 0.7 else 0 for _ in range(c.N)], dtype=c.dt)
    c.call("bml_set_diagonal", A, c.arr(d, "diagonal"), t)
    w = a.copy()
    np.fill_diagonal(w, d if c.fmt == "dense" else np.where(np.abs(d) > t, d, 0))
    if c.fmt == "ellblock":
        np.fill_diagonal(w, np.where(np.diag(blockwise(c, np.diag(d), lambda b: np.max(np.abs(b)) > t)), d, 0))
    c.eqm("C03", A, w, f"threshold {t}")


# ------------------------------------------------------------------ import / export
@op("C02")
def op_export_to_dense(c):
    A, a, M = anymat(c)
    o = c.rng.choice([0, 1])
    g = c.ret(c.call("bml_export_to_dense", A, o), c.N * c.N).reshape(c.N, c.N)
    c.eq("C02", f"exported array, order {o}", g if o == 0 else g.T, a)


@op("C02")
def op_import_from_dense(c):
    a = c.dense_array()
    o, t, mode = c.rng.choice([0, 1]), c.thr(), c.rng.choice([0, 1])
    w = a if c.fmt == "dense" else np.where(np.abs(a) > t, a, 0)
    if c.fmt == "ellblock":
        w = np.where(blockwise(c, a, lambda b: np.max(np.abs(b)) > t), a, 0)
    M = c.capM(c.need(w != 0))
    b = c.arr((a if o == 0 else a.T).astype(c.dt), "dense array")
    c.log.append(str(a.tolist()))
    A = c.adopt(c.call("bml_import_from_dense", F[c.fmt], P[c.prec], o, c.N, M, b, t, mode))
    c.eqm("C02", A, w, f"imported with threshold {t} order {o}")
    c.newmat("C02", A, c.N, M, mode)


# ------------------------------------------------------------------ introspection
@op("C14")
def op_introspection(c):
    a = c.dense_array()
    M = c.capM(c.need(a != 0))
    mode = c.rng.choice([0, 1])
    A = c.mat(a, M, mode=mode)
    g = lambda f, *x: c.call(f, A, *x, ret=ct.c_int)
    c.eq("C14", "type", g("bml_get_type"), F[c.fmt])
    c.eq("C14", "deep type", g("bml_get_deep_type"), F[c.fmt])
    c.eq("C14", "precision", g("bml_get_precision"), P[c.prec])
    c.eq("C14", "N", g("bml_get_N"), c.N)
    if c.fmt in ("dense", "ellpack"):
        c.eq("C14", "M", g("bml_get_M"), c.N if c.fmt == "dense" else M)
    if c.fmt == "ellblock":
        return
    c.eq("C14", "distribution mode", g("bml_get_distribution_mode"), mode)
    n = c.stored_count(A) if c.fmt != "dense" else (a != 0).sum(axis=1).tolist()
    if c.fmt in ("dense", "ellpack", "csr"):
        for i in range(c.N):
            c.eq("C14", f"bandwidth of row {i}", g("bml_get_row_bandwidth", i), n[i])
        c.eq("C14", "bandwidth", g("bml_get_bandwidth"), max(n))
    t = c.thr()
    c.eq("C14", f"sparsity at {t}", c.call("bml_get_sparsity", A, t, ret=ct.c_double), 1 - (np.abs(a) > t).sum() / c.N ** 2)


@op("C14", weight=0.5)
def op_introspect_null(c):
    if c.call("bml_get_type", None, ret=ct.c_int) != 0:
        raise Fail("C14", "type of no matrix")
    if c.call("bml_get_precision", None, ret=ct.c_int) != 0:
        raise Fail("C14", "precision of no matrix")


# ------------------------------------------------------------------ constructors
def ctor(c, name, extra=None):
    mode = c.rng.choice([0, 1])
    M = c.rng.randint(1, c.N) if c.fmt == "ellpack" else c.N
    A = c.adopt(c.call(name, F[c.fmt], P[c.prec], c.N, M, mode))
    if c.fmt == "ellblock":
        if c.lib.l.vp_rawmode(A.p) != mode:
            raise Fail(["C15", "C14"], "distribution mode")
    c.newmat("C15", A, c.N, M, mode)
    return A, M, mode


@op("C15")
def op_zero_matrix(c):
    A, M, mode = ctor(c, "bml_zero_matrix")
    c.eqm("C15", A, np.zeros((c.N, c.N)))


@op("C15", weight=0.5)
def op_noinit_matrix(c):
    mode = c.rng.choice([0, 1])
    M = c.rng.randint(1, c.N) if c.fmt == "ellpack" else c.N
    A = c.adopt(c.call("bml_noinit_matrix", F[c.fmt], P[c.prec], c.N, M, mode))
    c.newmat("C15", A, c.N, M, mode)
    if c.fmt == "dense":
        c.mats.remove(A)
        q = ct.c_void_p(A.p)
        c.lib.call("bml_deallocate", ct.byref(q))


@op("C15")
def op_identity_matrix(c):
    A, M, mode = ctor(c, "bml_identity_matrix")
    c.eqm("C15", A, np.eye(c.N))


@op("C15")
def op_random_matrix(c):
    A, M, mode = ctor(c, "bml_random_matrix")
    g = c.read(A)
    if not np.all(np.isfinite(g)):
        raise Fail("C15", "entries are not numbers")


@op("C15")
def op_banded_matrix(c):
    mode = c.rng.choice([0, 1])
    M = c.rng.randint(1, c.N)
    if c.fmt == "ellblock":
        M = c.N
    A = c.adopt(c.call("bml_banded_matrix", F[c.fmt], P[c.prec], c.N, M, mode))
    c.newmat("C15", A, c.N, M, mode)
    g = c.read(A)
    for i in range(c.N):
        for j in range(c.N):
            if not i - M // 2 <= j < i - M // 2 + M and g[i, j] != 0:
                raise Fail("C15", f"entry ({i},{j}) outside the bandwidth {M}")
    if not np.all(np.isfinite(g)):
        raise Fail("C15", "entries are not numbers")


@op("C15")
def op_clear(c):
    A, a, M = anymat(c, inp=False)
    c.call("bml_clear", A)
    c.eqm("C15", A, np.zeros((c.N, c.N)))


@op("C16")
def op_deallocate(c):
    A, a, M = anymat(c, inp=False)
    c.mats.remove(A)
    q = ct.c_void_p(A.p)
    c.call("bml_deallocate", ct.byref(q))
    if q.value:
        raise Fail("C16", "the handle still points to the freed matrix")


# ------------------------------------------------------------------ submatrix
@op("C18", fmts=("dense", "ellpack", "csr"))
def op_extract_submatrix(c):
    a = c.dense_array()
    n = c.rng.randint(1, c.N)
    r0, c0 = c.rng.randint(0, c.N - n), c.rng.randint(0, c.N - n)
    sub = a[r0:r0 + n, c0:c0 + n]
    zeros = c.fmt != "ellpack"
    A = c.mat(a, c.N, zeros=zeros)
    BM = c.rng.choice([min(n, c.need(sub != 0)), n]) if c.fmt == "ellpack" else n
    B = c.adopt(c.call("bml_extract_submatrix", A, r0, c0, n, BM))
    c.eqm("C18", B, sub, f"block ({r0},{c0}) size {n}")
    c.newmat("C18", B, n, BM)


@op("C18", fmts=("dense", "ellpack", "csr"))
def op_assign_submatrix(c):
    a = c.dense_array()
    n = c.rng.randint(1, c.N)
    r0, c0 = c.rng.randint(0, c.N - n), c.rng.randint(0, c.N - n)
    A = c.mat(a, c.N, inp=False)
    b = c.dense_array(N=n)
    B = c.mat(b, n)
    c.call("bml_assign_submatrix", A, B, r0, c0)
    w = a.copy()
    w[r0:r0 + n, c0:c0 + n] = b
    c.eqm("C18", A, w, f"block ({r0},{c0}) size {n}")


@op("C18", fmts=("dense", "ellpack", "csr"))
def op_assign_submatrix_free(c):
    """assignment into a block that holds nothing yet"""
    a = c.dense_array()
    n = c.rng.randint(1, c.N)
    r0, c0 = c.rng.randint(0, c.N - n), c.rng.randint(0, c.N - n)
    a[r0:r0 + n, c0:c0 + n] = 0
    A = c.mat(a, c.N, inp=False, zeros=False)
    b = c.dense_array(N=n)
    B = c.mat(b, n)
    c.call("bml_assign_submatrix", A, B, r0, c0)
    w = a.copy()
    w[r0:r0 + n, c0:c0 + n] = b
    c.eqm("C18", A, w, f"block ({r0},{c0}) size {n}")


@op("C18", fmts=("ellpack",))
def op_matrix2submatrix(c):
    a = c.dense_array()
    M = c.capM(c.need(a != 0))
    A = c.mat(a, M)
    k = c.rng.randint(1, c.N)
    idx = c.rng.sample(range(c.N), k)
    B = c.mat(np.zeros((k, k)), fmt="dense", inp=False)
    c.call("bml_matrix2submatrix", A, B, c.arr(np.array(idx, np.int32), "core_halo_index"), k)
    c.eqm("C18", B, a[np.ix_(idx, idx)], f"indices {idx}")


@op("C18", fmts=("ellpack",))
def op_submatrix2matrix(c):
    a = c.dense_array()
    k = c.rng.randint(1, c.N)
    idx = c.rng.sample(range(c.N), k)
    ll = c.rng.randint(1, k)
    B = c.mat(a, c.N, inp=False)
    s = c.dense_array(N=k)
    A = c.mat(s, fmt="dense")
    t = c.thr()
    c.call("bml_submatrix2matrix", A, B, c.arr(np.array(idx, np.int32), "core_halo_index"), k, ll, t)
    w = a.copy()
    for p in range(ll):
        w[idx[p]] = 0
        for q in range(k):
            if abs(s[p, q]) > t:
                w[idx[p], idx[q]] = s[p, q]
    c.eqm("C18", B, w, f"indices {idx}, {ll} core rows, threshold {t}")


def storedpat(c, A):
    l = c.lib.l
    N = l.vp_rawN(A.p)
    cap = 4 * N + 16
    cols, vals = np.zeros(cap, np.int32), np.zeros(cap, DT[A.prec])
    out = []
    for i in range(N):
        n = l.vp_row(A.p, i, cap, cols.ctypes.data, vals.ctypes.data)
        out.append([int(x) for x in cols[:n]])
    return out


@op("C18", fmts=("ellpack",))
def op_matrix2submatrix_index(c):
    a, b = c.dense_array(), c.dense_array()
    A, B = c.mat(a, c.N), c.mat(b, c.N)
    k = c.rng.randint(1, c.N)
    nodes = c.rng.sample(range(c.N), k)
    graph = c.rng.random() < 0.5
    dj = c.rng.choice([0, 1])
    out, vs = c.outarr(c.N, np.int32), c.outarr(2, np.int32)
    nl = c.arr(np.array(nodes, np.int32), "nodelist")
    if graph:
        c.call("bml_matrix2submatrix_index_graph", B, nl, k, out, vs, dj)
    else:
        c.call("bml_matrix2submatrix_index", A, B, nl, k, out, vs, dj)
    pa, pb = storedpat(c, A), storedpat(c, B)
    l, ll = c.getout(vs)
    got = c.getout(out)[:max(0, min(int(l), c.N))].tolist()
    halo = set(nodes)
    for n in nodes:
        halo |= set(pb[n])
        if not graph:
            halo |= set(pa[n])
    if dj:
        for n in list(halo):
            halo |= set(pb[n])
    if ll != k or got[:k] != nodes or sorted(got) != sorted(halo):
        raise Fail("C18", f"core-halo set {got} (core {ll}), expected core {nodes} and set {sorted(halo)}")


@op(["C18", "C20"], fmts=("ellpack",))
def op_group_matrix(c):
    a = c.dense_array()
    A = c.mat(a, c.N)
    g = c.rng.randint(1, c.N)
    st = [1] + sorted(c.rng.sample(range(2, c.N + 1), g - 1))
    t = c.thr()
    B = c.adopt(c.call("bml_group_matrix", A, c.arr(np.array(st, np.int32), "hindex"), g, t))
    grp = [max(k for k in range(g) if st[k] - 1 <= i) for i in range(c.N)]
    pat = storedpat(c, A)
    w = np.zeros((g, g))
    for i in range(g):
        w[i, i] = 1
    for i in range(c.N):
        for j in pat[i]:
            gi, gj = grp[i], grp[j]
            if gi == gj:
                continue
            if abs(a[i, j]) > t:
                w[gi, gj] = 1
            elif any(grp[l] == gi and abs(a[j, l]) > t for l in pat[j]):
                w[gi, gj] = 1
    c.eqm(["C18", "C20"], B, w, f"group graph of hindex {st} threshold {t}")


@op("C18", fmts=("ellpack", "csr"), weight=0.7)
def op_adjacency(c):
    if c.fmt != "ellpack":
        raise Skip()
    a = c.dense_array()
    A = c.mat(a, c.N, zeros=False)
    pat = storedpat(c, A)
    base = c.rng.choice([0, 1])
    want, xadj = [], [0]
    for i in range(c.N):
        want += sorted(j for j in pat[i] if j != i)
        xadj.append(len(want))
    x, y = c.outarr(c.N + 1, np.int32), c.outarr(c.N * c.N + 1, np.int32)
    c.call("bml_adjacency", A, x, y, base)
    gx, gy = c.getout(x).tolist(), c.getout(y).tolist()[:len(want)]
    if gx != [v + base for v in xadj] or gy != [v + base for v in want]:
        raise Fail("C18", f"adjacency {gx} {gy}, expected {xadj} {want} (base {base})")


# ------------------------------------------------------------------ convert
@op("C23", fmts=("dense", "ellpack", "ellblock", "csr"), weight=2)
def op_convert(c):
    a = c.dense_array()
    M = c.capM(c.need(a != 0))
    A = c.mat(a, M, zeros=(M == c.N))
    dst = c.rng.choice(["dense", "ellpack", "csr"] if c.fmt != "ellblock" else ["dense", "ellpack", "csr", "ellblock"])
    M2 = c.rng.choice([c.N if M == c.N and c.fmt != "dense" else c.need(a != 0), c.N]) if dst == "ellpack" else c.N
    B = c.adopt(c.call("bml_convert", A, F[dst], P[c.prec], M2, 0), fmt=dst)
    c.eqm("C23", B, a, f"converted to {dst}")
    c.newmat("C23", B, c.N, M2)


# ------------------------------------------------------------------ domains
@op("C19", fmts=("dense", "ellpack"), precs=("double_real",))
def op_domain(c):
    A, a, M = anymat(c)
    mode = c.rng.choice([0, 1])
    p = c.call("bml_default_domain", c.N, M, mode)
    q = Ptr(p)
    ints = np.frombuffer(ct.string_at(p, 32), dtype=np.int32).tolist()
    ptrs = np.frombuffer(ct.string_at(p + 32, 40), dtype=np.uint64).tolist()
    loc = [int(np.frombuffer(ct.string_at(int(x), 4), dtype=np.int32)[0]) for x in ptrs]
    if ints[:6] != [1, c.N, M, 0, c.N, c.N] or loc != [0, c.N, c.N, c.N * M, 0]:
        raise Fail("C19", f"default domain of {c.N}x{M}: {ints} {loc}")
    c.call("bml_deallocate_domain", q)


@op("C19", fmts=("dense", "ellpack"), precs=("double_real", "single_complex"))
def op_domain_update(c):
    A, a, M = anymat(c)
    c.call("bml_save_domain", A)
    d0 = c.domain(A, 0)
    cut = sorted(c.rng.sample(range(1, c.N), c.rng.randint(0, c.N - 1)))
    parts = [y - x for x, y in zip([0] + cut, cut + [c.N])]
    ia = lambda v: c.arr(np.array(v, np.int32), str(v))
    c.call("bml_update_domain", A, ia([1]), ia([len(parts)]), ia(parts))
    d = c.domain(A, 0)
    if d["localRowMin"] != 0 or d["localRowMax"] != c.N or d["localRowExtent"] != c.N or d["localDispl"] != 0 or \
            d["localElements"] != c.N * (c.N if c.fmt == "dense" else M):
        raise Fail("C19", f"updated domain {d}")
    c.call("bml_restore_domain", A)
    d = c.domain(A, 0)
    if any(d[k] != d0[k] for k in d if k.startswith("local")):
        raise Fail("C19", "restored domain differs from the saved one")


# ------------------------------------------------------------------ csr row index table
@op("C22", fmts=("csr",), precs=("double_real",), weight=6)
def op_csr_table(c):
    size = c.rng.choice([1, 4, 6, 11, 20, 40])
    t = Ptr(c.call("csr_noinit_table", size))
    model = {}
    keys = []
    for _ in range(c.rng.randint(1, 3)):
        cap = size
        pool = c.rng.choice([range(0, 3 * size + 2), [k * 16 for k in range(size * 2)], [k * 8 + 1 for k in range(size * 3)]])
        ks = c.rng.sample(list(pool), min(cap, len(pool), c.rng.randint(0, size)))
        for n, k in enumerate(ks):
            c.call("csr_table_insert", t, k)
            model[k] = n
        for k in list(model) + [c.rng.randrange(0, 60 * size) for _ in range(10)]:
            p = c.call("csr_table_lookup", t, k)
            if (p is None or p == 0) != (k not in model):
                raise Fail("C22", f"key {k} {'not found' if k in model else 'found'} after inserting {ks}")
            if k in model:
                g = int(np.frombuffer(ct.string_at(p, 4), dtype=np.int32)[0])
                if g != model[k]:
                    raise Fail("C22", f"key {k} has value {g}, expected {model[k]}")
        c.call("csr_reset_table", t)
        for k in ks:
            if c.call("csr_table_lookup", t, k):
                raise Fail("C22", f"key {k} found after reset")
        model = {}
    c.call("csr_deallocate_table", t)


# ------------------------------------------------------------------ files
@op("C24", weight=0.7)
def op_write_read(c):
    import tempfile
    A, a, M = anymat(c)
    d = tempfile.mkdtemp(prefix="vp-")
    f = os.path.join(d, "m.mtx")
    try:
        s = ct.create_string_buffer(f.encode())
        s.name = "file"
        c.call("bml_write_bml_matrix", A, s)
        b = np.zeros((c.N, c.N)) if c.fmt == "ellblock" else c.dense_array()
        B = c.mat(b, c.N, inp=False)
        c.call("bml_read_bml_matrix", B, s)
        c.eqm("C24", B, a, "matrix read back")
    finally:
        if os.path.exists(f):
            os.unlink(f)
        os.rmdir(d)


# ------------------------------------------------------------------ dense linear algebra
@op("C25", weight=0.7)
def op_diagonalize(c):
    a = c.dense_array()
    a = (a + a.conj().T) / 2
    A = c.mat(a, c.N)
    V = c.raw(c.N, c.N)
    ev = c.outarr(c.N, c.dt)
    c.lib.l.vp_races(0)
    c.call("bml_diagonalize", A, ev, V)
    c.lib.l.vp_races(1)
    e, v = c.getout(ev).real, c.read(V)
    t = (1e-3 if c.single else 1e-8) * max(1, np.max(np.abs(a)) if a.size else 1)
    w = np.linalg.eigvalsh(a)
    if np.max(np.abs(e - w)) > t:
        raise Fail("C25", f"eigenvalues {e.tolist()}, expected {w.tolist()}")
    if np.max(np.abs(a @ v - v * e)) > t * 10 or np.max(np.abs(v.conj().T @ v - np.eye(c.N))) > t * 10:
        raise Fail("C25", "eigenvectors do not satisfy A v = lambda v or are not orthonormal")


@op("C25", weight=0.7)
def op_inverse(c):
    a = c.dense_array() + 40 * np.eye(c.N)
    A = c.mat(a, c.N)
    B = c.adopt(c.call("bml_inverse", A))
    g = c.read(B)
    if np.max(np.abs(g @ a - np.eye(c.N))) > (1e-4 if c.single else 1e-11) * (1 + np.linalg.cond(a)):
        raise Fail("C25", "product with the inverse is not the identity")
