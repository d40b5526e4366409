"""Concrete execution of the real library (instrumented build): case generation, oracle and checks.

A case is identified by (operation, format, precision, layout, seed); everything in it is derived from that, so a
replay file only needs these and prints the inputs it built."""
import os, sys, ctypes as ct, json, random, mmap, struct, signal, time, traceback, multiprocessing as mp
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

P = {"single_real": 1, "double_real": 2, "single_complex": 3, "double_complex": 4}
F = {"dense": 1, "ellpack": 2, "ellblock": 3, "csr": 4}
DT = {"single_real": np.float32, "double_real": np.float64, "single_complex": np.complex64, "double_complex": np.complex128}
LAYOUTS = {"ellblock": [(4, (2, 2)), (5, (2, 1, 2)), (3, (1, 1, 1)), (6, (3, 3)), (4, (1, 3)), (3, (3,)), (9, (5, 1, 3)), (7, (1, 6)), (12, (3, 2, 4, 1, 2)), (20, (8, 12))]}


THRS = [0.0, 0.25, 0.5, 1.0, 3.0, 0.00048828125, 0.3, 50.0]


class Fail(Exception):
    def __init__(self, prop, msg):
        self.prop, self.msg = prop, msg


class Skip(Exception):
    pass


class Lib:
    def __init__(self, so):
        self.l = ct.CDLL(so)
        self.l.vp_msg.restype = ct.c_char_p
        self.l.vp_live.restype = ct.c_long
        self.l.vp_malloc.restype = ct.c_void_p
        self.l.vp_malloc.argtypes = [ct.c_size_t]
        self.l.vp_rawdomain.restype = ct.c_void_p
        for f in ("vp_rawN", "vp_rawM", "vp_rawtype", "vp_rawprec", "vp_rawmode", "vp_ellblock_nb", "vp_poison"):
            getattr(self.l, f).argtypes = [ct.c_void_p]
        self.l.vp_rawdomain.argtypes = [ct.c_void_p, ct.c_int]
        self.l.vp_row.argtypes = [ct.c_void_p, ct.c_int, ct.c_int, ct.c_void_p, ct.c_void_p]
        self.l.vp_put.argtypes = [ct.c_void_p, ct.c_int, ct.c_int, ct.c_void_p]
        self.l.vp_ellblock_row.argtypes = [ct.c_void_p, ct.c_int, ct.c_void_p]
        self.l.vp_fill_set.argtypes = [ct.c_int]

    def call(self, name, *args, ret=ct.c_void_p):
        f = getattr(self.l, name)
        f.restype = ret
        a = []
        for x in args:
            if isinstance(x, (float, np.floating)):
                a.append(ct.c_double(float(x)))
            elif isinstance(x, Ptr):
                a.append(ct.c_void_p(x.p))
            elif isinstance(x, (int, np.integer)):
                a.append(ct.c_int(int(x)))
            elif x is None:
                a.append(ct.c_void_p(None))
            else:
                a.append(x)
        return f(*a)


class Ptr:
    def __init__(self, p):
        self.p = p


class Case:
    """One generated case; ops build inputs with it, call the library, and compare."""

    def __init__(self, lib, op, fmt, prec, layout, seed, threads, fill):
        self.lib, self.op, self.fmt, self.prec, self.layout, self.seed = lib, op, fmt, prec, layout, seed
        self.rng = random.Random(f"{op}|{fmt}|{prec}|{layout}|{seed}")
        self.cx = "complex" in prec
        self.dt = DT[prec]
        self.es = np.dtype(self.dt).itemsize
        self.single = "single" in prec
        self.threads, self.fill = threads, fill
        self.log = []
        self.mats = []        # live matrices (deallocated at the end)
        self.bufs = []        # returned memory
        self.inputs = []      # (Mat, snapshot)
        self.arrs = []        # (numpy array, copy) passed as input
        if layout:
            self.N = layout[0]
        else:
            self.N = self.rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 6, 9, 17]) if fmt != "csr" else self.rng.choice([1, 2, 3, 4, 5, 13, 22])
            if seed % 23 == 11:
                self.N = [33, 47, 66, 75, 90][(seed // 23) % 5]      # a few large ones: rows longer than any internal initial capacity
        self.fills = None

    # ---- values
    def val(self, nz=True):
        # a few entries are tiny or large so thresholds and scales are exercised
        r = self.rng
        def x():
            k = r.random()
            if k < 0.06:
                return r.choice([-1, 1]) * r.randint(1, 31) / 2 ** 15
            if k < 0.1:
                return r.randint(-3000, 3000) / 8
            return r.randint(-16, 16) / 8
        while True:
            v = complex(x(), x()) if self.cx else x()
            # |z| of a complex entry is rounded by the library: keep it away from every threshold it may be compared with
            if self.cx and any(abs(abs(v) - t) < 1e-4 * t and v.real * v.imag != 0 for t in THRS):
                continue
            if not nz or v != 0:
                return v

    def dbl(self):
        return self.rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -0.75, 1.5, 1.0, 3.25, -4.0, 100.0, self.rng.randint(-64, 64) / 16])

    def thr(self):
        return self.rng.choice([0.0, 0.0] + THRS)

    def dense_array(self, density=None, N=None):
        N = N or self.N
        d = density if density is not None else self.rng.choice([0.0, 0.3, 0.6, 0.6, 0.9, 1.0])
        a = np.zeros((N, N), dtype=np.complex128 if self.cx else np.float64)
        for i in range(N):
            dd = self.rng.choice([d, d, d, 0.0, 1.0])
            for j in range(N):
                if self.rng.random() < dd:
                    a[i, j] = self.val()
        return a

    # ---- matrices
    def mat(self, a=None, M=None, inp=True, fmt=None, zeros=True, prec=None, mode=0, name=None):
        """builds a matrix holding a: entries stored in random order, possibly with stored zeros"""
        fmt = fmt or self.fmt
        a = self.dense_array() if a is None else a
        N = a.shape[0]
        A = self.raw(N, N if M is None else M, fmt, prec, mode)
        M = N if M is None else M
        stored = np.zeros((N, N), bool)
        for i in range(N):
            cols = [j for j in range(N) if a[i, j] != 0]
            room = M - len(cols) if fmt == "ellpack" else N
            if zeros and fmt != "dense":
                for j in range(N):
                    if a[i, j] == 0 and room > 0 and self.rng.random() < 0.15:
                        cols.append(j)
                        room -= 1
            self.rng.shuffle(cols)
            for j in (range(N) if fmt == "dense" else cols):
                b = np.array([a[i, j]], dtype=DT[prec or self.prec])
                if not self.lib.l.vp_put(A.p, i, j, b.ctypes.data):
                    raise Skip("does not fit")
                stored[i, j] = True
        if fmt == "ellpack":
            self.lib.l.vp_poison(A.p)
        A.a0, A.stored = a, stored
        A.name = name or "ABCDEFG"[len(self.log) % 7]
        self.log.append(f"{A.name} = {fmt} N={N} M={M} {np.array2string(a, separator=',').replace(chr(10), '')}")
        if inp:
            self.inputs.append((A, self.read(A)))
        return A

    def need(self, *pats):
        """largest number of entries in a row of the given boolean patterns"""
        return max([1] + [int(p.sum(axis=1).max()) for p in pats if p.size])

    def capM(self, n, N=None):
        """a capacity between the needed one and N"""
        N = N or self.N
        if self.fmt == "csr":
            return N
        return max(1, self.rng.choice([min(max(n, 1), N), N, N]))

    def raw(self, N, M, fmt=None, prec=None, mode=0):
        p = self.lib.call("bml_zero_matrix", F[fmt or self.fmt], P[prec or self.prec], N, M, mode)
        A = Ptr(p)
        A.fmt, A.prec = fmt or self.fmt, prec or self.prec
        self.mats.append(A)
        return A

    def adopt(self, p, fmt=None, prec=None):
        if not p:
            raise Fail(None, "a null matrix was returned")
        A = Ptr(p)
        A.fmt, A.prec = fmt or self.fmt, prec or self.prec
        self.mats.append(A)
        return A

    def read(self, A):
        """dense array of the matrix, checking that it is well formed (C17)"""
        l = self.lib.l
        N = l.vp_rawN(A.p)
        if N < 0 or N > 400:
            raise Fail("C14", f"matrix reports size {N}")
        dt = DT.get({v: k for k, v in P.items()}.get(l.vp_rawprec(A.p)), None)
        if dt is None:
            raise Fail("C14", "precision tag of the matrix is invalid")
        a = np.zeros((N, N), dtype=np.complex128 if np.issubdtype(dt, np.complexfloating) else np.float64)
        cap = 4 * N + 16
        cols = np.zeros(cap, np.int32)
        vals = np.zeros(cap, dt)
        for i in range(N):
            n = l.vp_row(A.p, i, cap, cols.ctypes.data, vals.ctypes.data)
            if n < 0:
                raise Fail(self.wfp(), f"row {i} is not well formed (occupancy outside 0..capacity or invalid block)")
            seen = set()
            for k in range(min(n, cap)):
                j = int(cols[k])
                if not 0 <= j < N:
                    raise Fail(self.wfp(), f"row {i} stores column index {j} outside [0,{N})")
                if j in seen:
                    raise Fail(self.wfp(), f"row {i} stores column {j} twice")
                seen.add(j)
                a[i, j] = vals[k]
        return a

    def wfp(self):
        return ["C17"] + [p for p in OPS[self.op]["props"] if p != "C17"]

    def stored_count(self, A):
        l = self.lib.l
        N = l.vp_rawN(A.p)
        cap = 4 * N + 16
        cols = np.zeros(cap, np.int32)
        vals = np.zeros(cap, DT[A.prec])
        return [l.vp_row(A.p, i, cap, cols.ctypes.data, vals.ctypes.data) for i in range(N)]

    # ---- calling
    def call(self, name, *args, ret=ct.c_void_p):
        def s(x):
            return getattr(x, "name", None) or (str(x) if isinstance(x, (int, float)) else type(x).__name__)
        self.log.append(f"{name}({', '.join(s(x) for x in args)})")
        l = self.lib.l
        l.vp_fill_set(self.fill)
        l.vp_threads(*self.threads)
        r = self.lib.call(name, *args, ret=ret)
        l.vp_threads(1, 0)
        return r

    def scalar(self, v):
        b = np.array([v], dtype=self.dt)
        return self.arr(b, f"&{v}")

    def arr(self, b, name="array"):
        b = np.ascontiguousarray(b)
        p = Ptr(self.lib.l.vp_malloc(max(b.nbytes, 1)))
        if b.nbytes:
            ct.memmove(p.p, b.ctypes.data, b.nbytes)
        p.name = name if b.size > 8 else f"{name}{b.tolist()}"
        p.b = b
        self.arrs.append(p)
        self.bufs.append(p.p)
        return p

    def outarr(self, n, dt):
        p = Ptr(self.lib.l.vp_malloc(n * np.dtype(dt).itemsize))
        p.name = "out"
        p.n, p.dt = n, dt
        self.bufs.append(p.p)
        return p

    def getout(self, p):
        return np.frombuffer(ct.string_at(p.p, p.n * np.dtype(p.dt).itemsize), dtype=p.dt).copy()

    def ret(self, p, n, dt=None, prop=None):
        """array returned by the library (owned by the caller)"""
        if not p:
            raise Fail(prop, "a null pointer was returned")
        dt = dt or self.dt
        self.bufs.append(p)
        self.lib.l.vp_range(ct.c_void_p(p), ct.c_size_t(n * np.dtype(dt).itemsize), 0)
        return np.frombuffer(ct.string_at(p, n * np.dtype(dt).itemsize), dtype=dt).copy()

    # ---- checks
    def tol(self):
        return 2e-5 if self.single else 1e-11

    def same(self, x, y, mag=0):
        """equal up to rounding; mag is the sum of the magnitudes of the terms that were added up"""
        x, y = np.asarray(x), np.asarray(y)
        with np.errstate(all="ignore"):
            d = np.abs(x - y)
            return bool(np.all(np.isfinite(d)) and np.all(d <= self.tol() * (1 + np.abs(y) + mag)))

    def clear_of(self, x, t, mag=0):
        """skips a case in which rounding decides whether a computed value exceeds the threshold"""
        x = np.asarray(x)
        d = np.abs(np.abs(x) - t)
        ex = (d == 0) & ((x.real == 0) | (x.imag == 0)) if self.cx else d == 0
        if np.any((d <= 10 * self.tol() * (t + mag)) & ~ex & (np.abs(x) > 0)):
            raise Skip("borderline")

    def eq(self, prop, what, got, want, mag=0):
        if not self.same(got, want, mag):
            raise Fail(prop, f"{what}: got {np.asarray(got).tolist()}, expected {np.asarray(want).tolist()}")

    def eqm(self, prop, A, want, what="result matrix", mag=0):
        g = self.read(A)
        if g.shape != np.asarray(want).shape:
            raise Fail(prop, f"{what} has size {g.shape}, expected {np.asarray(want).shape}")
        self.eq(prop, what, g, want, mag)

    def dropped(self, prop, A, want, thr, what="result matrix", mag=0):
        g = self.read(A)
        want = np.asarray(want)
        if g.shape != want.shape:
            raise Fail(prop, f"{what} has size {g.shape}, expected {want.shape}")
        t = self.tol()
        mag = np.broadcast_to(mag, g.shape)
        for i in range(g.shape[0]):
            for j in range(g.shape[1]):
                x, w = g[i, j], want[i, j]
                if np.isfinite(x) and abs(x - w) <= t * (1 + abs(w) + mag[i, j]):
                    continue
                if x == 0 and abs(w) <= thr * (1 + t) + t * mag[i, j]:
                    continue
                raise Fail(prop, f"{what} entry ({i},{j}) is {x}, expected {w} (threshold {thr}); matrix {g.tolist()}")

    def modified(self, A):
        """A is specified to be updated"""
        self.inputs = [(m, s) for m, s in self.inputs if m is not A]

    def newmat(self, prop, A, N, M=None, mode=0):
        l = self.lib.l
        if l.vp_rawtype(A.p) != F[A.fmt]:
            raise Fail([prop, "C01", "C14"], "format of the new matrix")
        if l.vp_rawprec(A.p) != P[A.prec]:
            raise Fail([prop, "C01", "C14"], "precision of the new matrix")
        if l.vp_rawN(A.p) != N:
            raise Fail([prop, "C14", "C15"], f"new matrix has size {l.vp_rawN(A.p)}, expected {N}")
        if M is not None and A.fmt == "ellpack" and l.vp_rawM(A.p) != M:
            raise Fail([prop, "C14", "C15"], f"new matrix has row capacity {l.vp_rawM(A.p)}, expected {M}")
        if l.vp_rawmode(A.p) != mode:
            raise Fail([prop, "C14", "C15"], f"new matrix has distribution mode {l.vp_rawmode(A.p)}, expected {mode}")
        for w in (0, 1):
            self.check_domain(A, N, prop, w)

    def check_domain(self, A, N, prop="C19", w=0):
        if A.fmt not in ("dense", "ellpack"):
            return
        d = self.domain(A, w)
        if d["totalProcs"] != 1 or d["totalRows"] != N or d["localRowMin"] != 0 or d["localRowMax"] != N or d["localRowExtent"] != N \
                or d["localDispl"] != 0:
            raise Fail([prop, "C19"], f"domain of the matrix does not cover its rows: {d}")

    def domain(self, A, w=0):
        p = self.lib.l.vp_rawdomain(A.p, w)
        ints = np.frombuffer(ct.string_at(p, 32), dtype=np.int32)
        ptrs = np.frombuffer(ct.string_at(p + 32, 40), dtype=np.uint64)
        d = dict(zip(("totalProcs", "totalRows", "totalCols", "globalRowMin", "globalRowMax", "globalRowExtent", "maxLocalExtent",
                      "minLocalExtent"), ints.tolist()))
        for n, q in zip(("localRowMin", "localRowMax", "localRowExtent", "localElements", "localDispl"), ptrs.tolist()):
            d[n] = int(np.frombuffer(ct.string_at(q, 4), dtype=np.int32)[0])
        return d

    def finish(self):
        l = self.lib.l
        for m, s in self.inputs:
            g = self.read(m)
            if g.shape != s.shape or not np.array_equal(g, s):
                raise Fail("C21", f"input matrix {m.name} changed from {s.tolist()} to {g.tolist()}")
        for p in self.arrs:
            if ct.string_at(p.p, p.b.nbytes) != p.b.tobytes():
                raise Fail("C21", f"input array {p.name} was modified")
        for m in self.mats:
            self.read(m)
        for m in self.mats:
            q = ct.c_void_p(m.p)
            self.lib.call("bml_deallocate", ct.byref(q))
        for b in self.bufs:
            self.lib.call("bml_free_memory", Ptr(b))
        self.messages()
        n = l.vp_live()
        if n:
            raise Fail("C16", f"{n} block(s) allocated during the call are never released (leak)")

    def messages(self):
        l = self.lib.l
        for i in range(l.vp_nmsg()):
            m = l.vp_msg(i).decode()
            raise Fail("C20" if m.startswith("race") else "C16", m)


OPS = {}


def op(props, fmts=("dense", "ellpack", "ellblock", "csr"), precs=tuple(P), weight=1.0, covers=()):
    def deco(f):
        OPS[f.__name__[3:]] = dict(fn=f, props=[props] if isinstance(props, str) else list(props), fmts=fmts, precs=precs, weight=weight)
        return f
    return deco


CFG = [((1, 0), 0x7F), ((3, 0), 0xFF), ((3, 1), 0x7F), ((8, 2), 0x00), ((2, 0), 0x7F)]


def one(lib, opn, fmt, prec, layout, seed):
    """runs one case; returns None or (props, message, log)"""
    threads, fill = CFG[seed % len(CFG)]
    c = Case(lib, opn, fmt, prec, layout, seed, threads, fill)
    lib.l.vp_begin()
    o = OPS[opn]
    try:
        try:
            o["fn"](c)
            c.finish()
        except Skip:
            return "skip"
        except Fail as x:
            # an access or race report explains a wrong value better than the value does
            try:
                c.messages()
            except Fail as y:
                x = Fail([y.prop] + (x.prop if isinstance(x.prop, list) else [x.prop] if x.prop else o["props"]), y.msg + "; " + x.msg)
            p = x.prop if x.prop else o["props"]
            p = p if isinstance(p, list) else [p]
            return (p, x.msg, c.log + [f"threads={threads[0]} order={threads[1]} fill={fill:#x}"])
        return None
    finally:
        lib.l.vp_reset()


def child(so, group, cases, start, shm, wfd, tmo):
    """one process per (format, layout): loads the library, runs the cases from index start"""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    lib = Lib(so)
    lib.l.vp_threads(1, 0)
    fmt, layout = group
    if layout:
        b = (ct.c_int * len(layout[1]))(*layout[1])
        lib.call("bml_set_block_sizes", b, len(layout[1]), len(layout[1]), ret=None)
    for k in range(start, len(cases)):
        shm[0:8] = struct.pack("q", k)
        opn, prec, seed = cases[k]
        signal.setitimer(signal.ITIMER_REAL, tmo)
        try:
            r = one(lib, opn, fmt, prec, layout, seed)
        except Exception:
            r = (["HARNESS"], traceback.format_exc()[-800:], [])
        signal.setitimer(signal.ITIMER_REAL, 0)
        if r == "skip":
            os.write(wfd, (json.dumps({"k": k, "skip": 1}) + "\n").encode())
        elif r is not None:
            m = json.dumps({"k": k, "props": r[0], "msg": r[1][:1500], "log": [str(x)[:1500] for x in r[2]][:20]}) + "\n"
            os.write(wfd, m.encode())
    shm[0:8] = struct.pack("q", len(cases))
    os._exit(0)


def run_group(so, group, cases, maxfail=6, tmo=10.0, deadline=None):
    """returns (number run, number skipped, failures)"""
    shm = mmap.mmap(-1, 16)
    start, fails, skips = 0, [], 0
    perop = {}
    while start < len(cases):
        if deadline and time.time() > deadline:
            break
        r, w = os.pipe()
        shm[0:8] = struct.pack("q", start)
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                child(so, group, cases, start, shm, w, tmo)
            finally:
                os._exit(98)
        os.close(w)
        buf = b""
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
        os.close(r)
        _, stt = os.waitpid(pid, 0)
        at = struct.unpack("q", shm[0:8])[0]
        for line in buf.decode().splitlines():
            d = json.loads(line)
            if "skip" in d:
                skips += 1
                continue
            opn, prec, seed = cases[d["k"]]
            fails.append(dict(op=opn, fmt=group[0], layout=group[1], prec=prec, seed=seed, props=d["props"], msg=d["msg"], log=d["log"]))
        if at < len(cases):
            opn, prec, seed = cases[at]
            if os.WIFSIGNALED(stt):
                sg = os.WTERMSIG(stt)
                msg = "the call does not return" if sg == signal.SIGALRM else f"the call dies with signal {sg}"
            else:
                rc = os.WEXITSTATUS(stt)
                msg = "the library reports an error and exits on a valid call" if rc == 97 else f"process exited with {rc}"
            props = OPS[opn]["props"] + (["C16"] if os.WIFSIGNALED(stt) else [])
            fails.append(dict(op=opn, fmt=group[0], layout=group[1], prec=prec, seed=seed, props=props, msg=msg, log=[]))
            start = at + 1
            # do not let one crashing operation dominate
            perop[opn] = perop.get(opn, 0) + 1
            if perop[opn] >= maxfail:
                cases = cases[:start] + [c for c in cases[start:] if c[0] != opn]
        else:
            start = len(cases)
    return start, skips, fails


def plan(ops, seed0, per, fmts=None, precs=None):
    """cases grouped by (format, layout)"""
    groups = {}
    for o in ops:
        d = OPS[o]
        for f in d["fmts"]:
            if fmts and f not in fmts:
                continue
            lays = LAYOUTS.get(f, [None])
            for li, lay in enumerate(lays):
                n = max(1, int(per * d["weight"] / (len(lays) ** 0.5)))
                for p in d["precs"]:
                    if precs and p not in precs:
                        continue
                    for s in range(n):
                        groups.setdefault((f, lay), []).append((o, p, seed0 * 100003 + s))
    return groups


def _job(a):
    so, g, cases, deadline = a
    return g, run_group(so, g, cases, deadline=deadline)


def run(ops, seed0=1, per=25, fmts=None, precs=None, jobs=8, deadline=None):
    so = build.build()
    groups = plan(ops, seed0, per, fmts, precs)
    jl = []
    for g, cs in groups.items():
        # interleave operations, split into chunks
        k = max(1, min(16, len(cs) // 150))
        for i in range(k):
            jl.append((so, g, cs[i::k], deadline))
    n = sk = 0
    fails = []
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as pool:
        for g, (r, s, f) in pool.imap_unordered(_job, jl):
            n += r
            sk += s
            fails += f
    return dict(cases=n - sk, skipped=sk, fails=fails)


sys.modules.setdefault("harness", sys.modules[__name__])
import ops  # noqa: E402  (registers the operations)

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("ops", nargs="?", default="all")
    ap.add_argument("--fmt")
    ap.add_argument("--prec")
    ap.add_argument("--per", type=int, default=25)
    ap.add_argument("--width", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    W = a.width
    t = time.time()
    r = run(list(OPS) if a.ops == "all" else a.ops.split(","), a.seed, a.per, a.fmt and a.fmt.split(","), a.prec and a.prec.split(","))
    seen = {}
    for f in r["fails"]:
        k = (f["op"], f["fmt"], tuple(f["props"]))
        seen.setdefault(k, []).append(f)
    for k, v in sorted(seen.items(), key=str):
        f = v[0]
        print(f"{f['op']}/{f['fmt']} x{len(v)} {f['props']} precs={sorted(set(x['prec'] for x in v))} seed={f['seed']} lay={f['layout']}: {f['msg'][:W]}")
    print(r["cases"], "cases", r["skipped"], "skipped", time.time() - t, "s")
