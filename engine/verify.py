"""Verification context: builds the symbolic pre-state of one function, executes the real function, states
postconditions and collects the obligations."""
import z3, time, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from terms import *
import terms
from memory import *
import cfront
from cfront import T, INT, R32, R64, C32, C64, CHAR, PRECS
import inspect
from symex import *
import models, loops, solver as solvermod
from family import RowFamily, SlotFamily, SlotRef, PLONG

ETY = {"single_real": R32, "double_real": R64, "single_complex": C32, "double_complex": C64}
PENUM = {"single_real": 1, "double_real": 2, "single_complex": 3, "double_complex": 4}
FENUM = {"dense": 1, "ellpack": 2, "ellblock": 3, "csr": 4, "distributed2d": 5}
FMT_STRUCT = {"dense": "bml_matrix_dense_t", "ellpack": "bml_matrix_ellpack_t", "ellblock": "bml_matrix_ellblock_t",
              "csr": "bml_matrix_csr_t"}

REG = {}      # contract id -> Contract


class ContractDef:
    typed = True

    def fname(self, prec):
        return self.stem + ("_" + prec if prec and self.typed else "")

    def __init__(self, cid, fn, stem, fmt, precs, props, fns, note):
        self.cid, self.fn, self.stem, self.fmt, self.precs, self.props, self.fns, self.note = \
            cid, fn, stem, fmt, precs, props, fns, note
        self.cross = tuple(fns)
        if fmt in ("ellpack", "ellblock", "csr"):
            self.cross += ("C17",)
        try:
            if "post_new" in inspect.getsource(fn):
                self.cross += ("C14", "C15")
        except OSError:
            pass


def contract(stem, props, fmt=None, precs=PRECS, cid=None, cross=("C16", "C20", "C21"), note="", typed=True):
    """Register a contract for the function family `stem` (typed functions get the precision appended)."""
    def deco(f):
        c = cid or stem
        if c in REG:
            raise RuntimeError(f"contract {c} registered twice")
        REG[c] = ContractDef(c, f, stem, fmt, precs if precs else [None], list(props), tuple(cross), note)
        REG[c].typed = typed
        return f
    return deco


KIND_PROP = {"memory": "C16", "leak": "C16", "arith": "C16", "frame": "C21", "race": "C20", "wf": "C17", "dispatch": "C01"}


class Mat:
    """A symbolic input matrix (or an output object) and its abstract view."""
    pass


def fall(vs, body, *pats):
    """quantified annotation; the triggers are the array reads inside the given terms"""
    names = {x.decl().name() for x in vs}
    out = []
    for t in pats:
        for x in collect_apps([t.re, t.im] if isinstance(t, Cx) else [t], lambda x: x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and names <= free_syms(x)):
            if all(y.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM) for y in x.children()) and not any(x.eq(o) for o in out):
                out.append(x)
    return z3.ForAll(vs, body, patterns=out) if out else z3.ForAll(vs, body)


class V:
    def __init__(self, cdef, prec):
        self.cdef, self.prec = cdef, prec
        self.fmt = cdef.fmt
        self.fname = cdef.fname(prec)
        self.ety = ETY.get(prec)
        self.isc = bool(prec) and "complex" in prec
        self.kind = "cx" if self.isc else "real"
        tu, fd = cfront.find_function(self.fname)
        if fd is None:
            raise Undecided(f"{self.fname} not found in the sources")
        e = self.eng = Engine(self.fname, tu, fd, prec, {}, None, solvermod.Solver())
        e.names = {}
        e.all_blocks = []
        e.families = {}
        e.logbase = [0]
        e.frames = []
        e.spec = {}
        e.frozen = set()
        self.st = State()
        self.inputs = []        # regions of the pre-state
        self.mods = set()       # regions the contract lets the function modify
        self.modfields = set()
        self.ret = None
        self.s0 = None
        self.N = None
        self.posts = []
        self.mats = []
        self.aborts = False
        e.frames.append((tu, fd, ()))   # type context for the set-up
        self._ctx = True
        self.final = None
        self.hints = []

    # -------------------------------------------------------------- scalars
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, name):
        return z3.Real(name)

    def elem(self, name):
        if self.isc:
            return Cx(z3.Real(name + ".re"), z3.Real(name + ".im"))
        return z3.Real(name)

    def cell(self, name, v, ety=None):
        """pointer to one value (void* scalar argument)"""
        r = self.region(name, ety or self.ety, [z3.IntVal(1)], Const(v))
        return Ptr(r, ety=r.ety)

    def assume(self, f):
        self.st.assume(f)

    def case(self, f):
        """this contract covers the inputs with f only (a sibling contract covers the others)"""
        self.eng.split_syms |= set(free_syms(f))
        self.assume(f)

    def nar(self, x):
        """a double argument as it is used in the element type (single precision: rounded in double builds only)"""
        return x

    def one(self, x=None):
        x = R1 if x is None else x
        return tocx(x) if self.isc else x

    def zero(self):
        return zero(self.kind)

    # -------------------------------------------------------------- spec terms
    def sum2(self, n, m, f, lo=0, lo2=0):
        i, j = z3.Int("i!s"), z3.Int("j!s")
        return OPS.sum(lo, n, i, OPS.sum(lo2, m, j, f(i, j)))

    def count(self, n, f):
        k = z3.Int("c!s")
        return terms._trunc(OPS.sum(0, n, k, If(f(k), R1, R0)))

    def sqrt(self, x):
        return terms._sqrt(poly_term(poly(x), True))

    def owned(self, m):
        """the function consumes the matrix: its blocks may be freed"""
        self.consumed = [m]
        self.eng.frozen -= {m.name, m.name + ".domain", m.name + ".domain2"}
        for r in self.inputs:
            self.mods.add(r)

    def post_released(self, m):
        st = self.final
        fam = getattr(m, "fam", None)
        if fam is not None:
            i = fint("i")
            self.post("C16", "all rows are released", fam.released(self.eng, st, i), extra=[And(i >= 0, i < m.N)], kind="leak")
        for r in self.inputs:
            if fam is None or r not in fam.regions():
                self.post("C16", f"{r.name} is released", Not(st.alive.get(r, z3.BoolVal(True))), kind="leak")
        for o in (m.name, m.name + ".domain", m.name + ".domain2")[:1 if fam is not None else 3]:
            self.post("C16", f"object {o} is released", Not(st.alive.get(o, z3.BoolVal(True))), kind="leak")

    # -------------------------------------------------------------- memory
    def region(self, name, ety, shape, content=None, mod=False, **kw):
        r = Region(name, ety, shape, kind=kw.pop("kind", "heap"), **kw)
        self.st.mem[r] = content if content is not None else Fresh(name, ety.k)
        if ety.k == "int":
            self.st.inv[r] = Fresh(name + "#inv", "int")
            if isinstance(self.st.mem[r], Fresh):
                loops.register_inverse(self.st.mem[r], self.st.inv[r])
        self.st.alive[r] = z3.BoolVal(True)
        self.inputs.append(r)
        if mod:
            self.mods.add(r)
        return r

    def array(self, name, ety, shape, mod=False, content=None):
        return Ptr(self.region(name, ety, shape, content, mod), ety=ety)

    def obj(self, name, tname, **fields):
        o = Obj(name, tname)
        self.st.alive[name] = z3.BoolVal(True)
        for k, v in fields.items():
            self.st.fields[(name, k)] = v
        self.eng.frozen.add(name)
        return o

    def size(self):
        if self.N is None:
            self.N = z3.Int("N")
            self.assume(self.N >= 1)
        return self.N

    # -------------------------------------------------------------- domain
    def domain(self, name, N, M):
        """Partition of an N-row matrix over one process (this build has no MPI): the invariant established by
        bml_default_domain (property C19)."""
        nR = z3.Int("nRanks!")
        one = z3.IntVal(1)
        arrs = {}
        for f, val in (("localRowMin", z3.IntVal(0)), ("localRowMax", N), ("localRowExtent", N),
                       ("localElements", simp_int(N * M)), ("localDispl", z3.IntVal(0))):
            arrs[f] = self.array(f"{name}.{f}", INT, [one], content=Const(val))
        o = self.obj(name, "bml_domain_t", totalProcs=one, totalRows=N, totalCols=M, globalRowMin=z3.IntVal(0),
                     globalRowMax=N, globalRowExtent=N, maxLocalExtent=N, minLocalExtent=N, **arrs)
        return o

    def dims(self, **f):
        o = self.obj("dimension", "bml_matrix_dimension_t")
        for k in ("N_rows", "N_cols", "N_nz_max", "NB"):
            self.st.fields[("dimension", k)] = f.get(k, z3.IntVal(0))
        self.st.fields[("dimension", "bsizes")] = f.get("bsizes", NULL)
        return o

    def mode_arg(self):
        d = z3.Int("distrib_mode")
        self.assume(And(d >= 0, d <= 1))
        return d

    def enum(self, name, lo, hi):
        d = z3.Int(name)
        self.assume(And(d >= lo, d <= hi))
        return d

    def perm(self, name="perm", N=None):
        """a permutation array with its inverse function"""
        N = N if N is not None else self.size()
        r = self.region(name, INT, [N])
        c, iv = self.eng.content(self.st, r), self.eng.inv_content(self.st, r)
        i = z3.Int("pi!")
        x = c.read([i])
        import memory
        self.assume(z3.ForAll([i], Implies(And(i >= 0, i < N), And(x >= 0, x < N, iv.read([x]) == i)), patterns=[x]))
        y = iv.read([i])
        self.assume(z3.ForAll([i], Implies(And(i >= 0, i < N), And(y >= 0, y < N, c.read([y]) == i)), patterns=[y]))
        return Ptr(r, ety=INT), (lambda k: c.read([k])), (lambda k: iv.read([k]))

    def indices(self, name, n, N):
        """an array of n different indices below N, with the position of each"""
        r = self.region(name, INT, [n])
        c, iv = self.eng.content(self.st, r), self.eng.inv_content(self.st, r)
        i = z3.Int("pi!")
        x = c.read([i])
        self.assume(z3.ForAll([i], Implies(And(i >= 0, i < n), And(x >= 0, x < N, iv.read([x]) == i)), patterns=[x]))
        return Ptr(r, ety=INT), (lambda k: c.read([k])), (lambda k: iv.read([k]))

    def deref(self, p, *ix, ety=None, st=None):
        """value behind a returned pointer"""
        st = st or self.final
        if isinstance(p, PIte):
            alts = [(g, self.deref(q, *ix, ety=ety, st=st)) for g, q in p.alts]
            r = alts[-1][1]
            for g, x in reversed(alts[:-1]):
                r = self.eng.ite(g, x, r)
            return r
        if not isinstance(p, Ptr) or p.reg is None:
            raise Undecided("returned pointer is not a block")
        r = p.reg
        if r.ety is None:
            self.eng.set_type(st, r, ety or self.ety)
        if r.shape is None:
            if len(ix) == 2:
                raise Undecided("shape of a returned block")
            self.eng.fix_shape(r, z3.IntVal(0))
        loc = list(p.idx)
        if len(r.shape) == 2 and len(ix) == 1:
            row, col = split_stride(simp_int(p.off + ix[0]), r.shape[1])
            loc += [row, col]
        elif len(r.shape) == 2:
            loc += list(ix)
        else:
            loc.append(simp_int(p.off + I(ix[0])))
        return self.eng.content(st, r).read(loc)

    def block2(self, p, n, m, ety=None):
        """returned block read as n x m row-major array"""
        st = self.final
        if isinstance(p, PIte) or not isinstance(p, Ptr) or p.reg is None:
            raise Undecided("returned pointer is not a block")
        r = p.reg
        if r.ety is None:
            self.eng.set_type(st, r, ety or self.ety)
        self.post("C16", "returned block has its element type", z3.BoolVal(r.ety == (ety or self.ety)))
        if r.shape is None:
            self.post("C16", "returned block has room for the whole array", r.size >= simp_int(I(n) * I(m)))
            r.shape = [I(n), I(m)]
        if len(r.shape) != 2 or not peq(r.shape[1], I(m)):
            raise Undecided("stride of a returned block")
        self.post("C16", "returned block is live", st.alive.get(r, z3.BoolVal(True)))
        c = self.eng.content(st, r)
        return lambda i, j: c.read([i, j])

    def block1(self, p, n, ety=None):
        st = self.final
        if isinstance(p, PIte) or not isinstance(p, Ptr) or p.reg is None:
            raise Undecided("returned pointer is not a block")
        r = p.reg
        if r.ety is None:
            self.eng.set_type(st, r, ety or self.ety)
        self.post("C16", "returned block has its element type", z3.BoolVal(r.ety == (ety or self.ety)))
        if r.shape is None:
            r.shape = [r.size]
        if len(r.shape) != 1:
            raise Undecided("stride of a returned block")
        self.post("C16", "returned block has room for the whole array", r.shape[0] >= I(n))
        self.post("C16", "returned block is live", st.alive.get(r, z3.BoolVal(True)))
        c = self.eng.content(st, r)
        return lambda i: c.read([I(i)])

    # -------------------------------------------------------------- matrices
    def mode(self, name):
        d = z3.Int(name + ".distribution_mode")
        self.assume(And(d >= 0, d <= 1))   # graph_distributed matrices cannot be created
        return d

    def dense(self, name, N=None, mod=False, prec=None):
        N = N if N is not None else self.size()
        prec = prec or self.prec
        m = Mat()
        m.name, m.N, m.fmt, m.prec = name, N, "dense", prec
        m.reg = self.region(name + ".matrix", ETY[prec], [N, N], mod=mod)
        m.mode = self.mode(name)
        m.obj = self.obj(name, "bml_matrix_dense_t", matrix_type=z3.IntVal(FENUM["dense"]),
                         matrix_precision=z3.IntVal(PENUM[prec]), distribution_mode=m.mode, N=N, ld=N,
                         matrix=Ptr(m.reg, ety=ETY[prec]), domain=self.domain(name + ".domain", N, N),
                         domain2=self.domain(name + ".domain2", N, N))
        self.mats.append(m)
        if mod:
            self.domain_mods(name)
        return m

    def ell(self, name, N=None, M=None, mod=False, prec=None):
        N = N if N is not None else self.size()
        prec = prec or self.prec
        m = Mat()
        m.name, m.N, m.fmt, m.prec = name, N, "ellpack", prec
        if M is None:
            M = z3.Int(name + ".M")
            self.assume(And(M >= 1, M <= N))
        m.M = M
        m.val = self.region(name + ".value", ETY[prec], [N, M], mod=mod)
        m.ind = self.region(name + ".index", INT, [N, M], mod=mod)
        m.nnz = self.region(name + ".nnz", INT, [N], mod=mod)
        m.mode = self.mode(name)
        m.obj = self.obj(name, "bml_matrix_ellpack_t", matrix_type=z3.IntVal(FENUM["ellpack"]),
                         matrix_precision=z3.IntVal(PENUM[prec]), distribution_mode=m.mode, N=N, M=M,
                         value=Ptr(m.val, ety=ETY[prec]), index=Ptr(m.ind, ety=INT), nnz=Ptr(m.nnz, ety=INT),
                         domain=self.domain(name + ".domain", N, M), domain2=self.domain(name + ".domain2", N, M))
        self.mats.append(m)
        if mod:
            self.domain_mods(name)
        self.ell_wf_assume(m)
        return m

    def row_space(self):
        """smallest capacity a csr row is created with"""
        import re
        try:
            t = open(os.path.join(cfront.REPO, "src/C-interface/csr/bml_types_csr.h")).read()
            return int(re.search(r"#define\s+INIT_ROW_SPACE\s+(\d+)", t).group(1))
        except (OSError, AttributeError):
            raise Undecided("initial capacity of a csr row not found")

    def csr(self, name, N=None, mod=False, prec=None):
        N = N if N is not None else self.size()
        prec = prec or self.prec
        m = Mat()
        m.name, m.N, m.fmt, m.prec = name, N, "csr", prec
        fam = RowFamily(self.eng, self.st, name + ".row", N, ETY[prec], INT)
        self.eng.families[fam.name] = fam
        m.fam, m.nnz, m.ind, m.val, m.alloc = fam, fam.nnz, fam.ind, fam.val, fam.alloc
        st = self.st
        for r in fam.regions():
            st.mem[r] = Fresh(r.name, r.ety.k) if r is not fam.live else Const(z3.IntVal(1))
            if r.ety.k == "int":
                st.inv[r] = Fresh(r.name + "#inv", "int")
                if r is not fam.live:
                    loops.register_inverse(st.mem[r], st.inv[r])
            st.alive[r] = z3.BoolVal(True)
            self.inputs.append(r)
            if mod:
                self.mods.add(r)
        m.data = self.region(name + ".data", T("ptr", to=T("struct", name="csr_sparse_row_t")), [N], content=Fn(lambda l: fam.obj(l[0])))
        m.mode = self.mode(name)
        m.M = z3.Int(name + ".NZMAX")
        self.assume(m.M >= 0)
        m.obj = self.obj(name, "bml_matrix_csr_t", matrix_type=z3.IntVal(FENUM["csr"]), matrix_precision=z3.IntVal(PENUM[prec]),
                         distribution_mode=m.mode, N_=N, NZMAX_=m.M, TOTNNZ_=z3.Int(name + ".TOTNNZ"), table_=NULL, lvarsgid_=NULL,
                         data_=Ptr(m.data, ety=m.data.ety))
        self.mats.append(m)
        self.csr_wf_assume(m)
        return m

    def csr_wf_assume(self, m):
        """well-formed rows: at least the initial capacity, both blocks as large as alloc_size_ says, entries within, columns in
        range and pairwise different"""
        st, e = self.st, self.eng
        i = z3.Int("wi!")
        al = e.content(st, m.alloc).read([i])
        cc, cv = (e.content(st, m.fam.cap[f]).read([i]) for f in ("cols_", "vals_"))
        rng = And(i >= 0, i < m.N)
        for t in (al, cc, cv):
            self.assume(z3.ForAll([i], Implies(rng, And(t == al, t >= self.row_space())), patterns=[t]))
        n = e.content(st, m.nnz).read([i])
        self.assume(z3.ForAll([i], Implies(rng, And(n >= 0, n <= al)), patterns=[n]))
        ind, inv = e.content(st, m.ind), e.inv_content(st, m.ind)
        import memory
        memory.NNZOF[e.content(st, m.nnz).name] = (ind, inv)
        p = z3.Int("wp!")
        x = ind.read([i, p])
        self.assume(z3.ForAll([i, p], Implies(And(rng, p >= 0, p < n), And(x >= 0, x < m.N, inv.read([i, x]) == p)), patterns=[x]))

    def fits(self, m, cond):
        """precondition: every row of the result (entries with cond) fits into the M slots of a row of m"""
        j = z3.Int("fit#k")
        m.fit = lambda i: OPS.sum(0, m.N, j, If(cond(i, j), z3.RealVal(1), z3.RealVal(0))) <= z3.ToReal(m.M)
        for r in (m.val, m.ind):
            r.rowfact = m.fit

    def ell_wf_assume(self, m):
        st = self.st
        i, p = z3.Int("wi!"), z3.Int("wp!")
        ind, inv, nnz = self.eng.content(st, m.ind), self.eng.inv_content(st, m.ind), self.eng.content(st, m.nnz)
        n = nnz.read([i])
        if isinstance(nnz, Fresh):
            import memory
            memory.NNZOF[nnz.name] = (ind, inv)
        self.assume(z3.ForAll([i], Implies(And(i >= 0, i < m.N), And(n >= 0, n <= m.M)), patterns=[n]))
        x = ind.read([i, p])
        self.assume(z3.ForAll([i, p], Implies(And(i >= 0, i < m.N, p >= 0, p < n),
                                              And(x >= 0, x < m.N, inv.read([i, x]) == p)), patterns=[x]))

    def view(self, m, st=None):
        """abstract entry function (i,j) -> value of matrix m in state st (default: entry state)"""
        st = st or self.s0 or self.st
        e = self.eng
        if m.fmt == "dense":
            c = e.content(st, m.reg)
            return lambda i, j: c.read([i, j])
        if m.fmt in ("ellpack", "csr"):
            v, ix, iv, nz = e.content(st, m.val), e.content(st, m.ind), e.inv_content(st, m.ind), e.content(st, m.nnz)

            def f(i, j):
                p = iv.read([i, j])
                return If(has(i, j), v.read([i, p]), zero(self.kind_of(m)))

            def has(i, j):
                p = iv.read([i, j])
                return And(p >= 0, p < nz.read([i]), ix.read([i, p]) == j)
            f.has = has
            return f
        raise Undecided("view")

    def kind_of(self, m):
        return "cx" if "complex" in m.prec else "real"

    def out(self, ptr, st=None, fmt=None, prec=None):
        """Interpret an object reachable in the final state as a matrix."""
        st = st or self.final
        fmt = fmt or self.fmt
        if isinstance(ptr, PIte):
            raise Undecided("result object depends on the path")
        if not isinstance(ptr, Obj):
            raise Undecided(f"result is not a matrix object ({ptr})")
        m = Mat()
        m.name, m.fmt, m.prec, m.obj = "result", fmt, prec or self.prec, ptr
        g = lambda f: st.fields.get((ptr.name, f))
        m.N = g("N") if fmt != "csr" else g("N_")
        m.fields = g

        def region_of(f, ety, shape):
            p = g(f)
            if not isinstance(p, Ptr) or p.reg is None:
                raise Undecided(f"field {f} of the result is not a block")
            r = p.reg
            if r.ety is None:
                self.eng.set_type(st, r, ety)
            self.post("C16", f"result block {f} has its element type", z3.BoolVal(r.ety == ety))
            if not peq(p.off, z3.IntVal(0)):
                self.post("C16", f"result field {f} points to the start of its block", p.off == 0)
            if r.shape is None:
                n = poly_term(pprod(shape))
                self.post("C16", f"result block {f} has room for the whole matrix", r.size >= n)
                if peq(r.size, n):
                    r.shape = list(shape)
                else:
                    r.shape = list(shape)
            else:
                tot = poly_term(pprod([x for x in r.shape]))
                if not peq(tot, poly_term(pprod(shape))):
                    self.post("C16", f"result block {f} has room for the whole matrix", tot >= poly_term(pprod(shape)))
                if len(r.shape) == len(shape) and any(not peq(a, b) for a, b in zip(r.shape[1:], shape[1:])):
                    raise Undecided(f"stride of result block {f}")
            self.post("C16", f"result block {f} is live", st.alive.get(r, z3.BoolVal(True)))
            return r
        if fmt == "dense":
            m.reg = region_of("matrix", ETY[m.prec], [m.N, m.N])
        elif fmt == "ellpack":
            m.M = g("M")
            m.val = region_of("value", ETY[m.prec], [m.N, m.M])
            m.ind = region_of("index", INT, [m.N, m.M])
            m.nnz = region_of("nnz", INT, [m.N])
        elif fmt == "csr":
            m.M = g("NZMAX_")
            m.data = region_of("data_", T("ptr", to=T("struct", name="csr_sparse_row_t")), [m.N])
            i = fint("i")
            o = self.eng.content(st, m.data).read([i])
            fam = self.eng.families.get(o.name) if isinstance(o, Obj) else None
            if fam is None or not peq(o.idx[0], i):
                raise Undecided("rows of the result are not one row object per row")
            if not peq(fam.N, m.N):
                self.post("C16", "the result has a row object for every row", fam.N == m.N)
            m.fam, m.nnz, m.ind, m.val, m.alloc = fam, fam.nnz, fam.ind, fam.val, fam.alloc
            for r in fam.regions():
                if r.kind != "ghost":
                    self.post("C16", f"rows of the result are live ({r.name})", st.alive.get(r, z3.BoolVal(True)))
        return m

    # -------------------------------------------------------------- execution
    def allow(self, *mats, fields=()):
        for m in mats:
            for r in ([m.reg] if m.fmt == "dense" else [m.val, m.ind, m.nnz] if m.fmt == "ellpack" else m.fam.regions() if m.fmt == "csr" else []):
                self.mods.add(r)
            self.domain_mods(m.name)

    def domain_mods(self, name):
        for r in self.inputs:
            if r.name.startswith(name + ".domain"):
                self.mods.add(r)

    def call(self, *args, fname=None, loops_=None):
        e = self.eng
        if loops_:
            e.spec = loops_
        for r in self.inputs:
            if r not in self.mods:
                r.readonly = True
        if self.s0 is None:
            self.s0 = self.st.clone()
        self.s1 = self.st.clone()
        e.frames = []
        st = self.st.clone()
        try:
            rv = e.inline(fname or self.fname, list(args), st)
        except Abort:
            self.aborts = True
            raise Undecided("the function never returns normally on valid input")
        self.final = st
        self.ret = rv
        tu, fd = cfront.find_function(self.fname)
        e.frames = [(tu, fd, ())]
        return rv

    # -------------------------------------------------------------- postconditions
    def post(self, prop, label, goal, extra=(), kind="post"):
        e = self.eng
        st = self.final.clone()
        for f in extra:
            st.assume(f)
        n = len(e.obls)
        e.oblige(st, kind, label, goal)
        for o in e.obls[n:]:
            o.props = [prop] if isinstance(prop, str) else list(prop)

    def ij(self, N, tag=""):
        i, j = fint("i" + tag), fint("j" + tag)
        return i, j, [And(i >= 0, i < N), And(j >= 0, j < N)]

    def post_view(self, prop, label, m, spec, N=None, st=None, extra=()):
        N = N if N is not None else m.N
        i, j, rng = self.ij(N)
        f = self.view(m, st or self.final)
        self.post(prop, label, veq(f(i, j), spec(i, j)), extra=rng + list(extra))

    def post_dropped(self, prop, label, m, spec, thr, N=None, st=None, extra=()):
        """view = spec, or the entry was dropped to zero because |spec| <= threshold"""
        N = N if N is not None else m.N
        i, j, rng = self.ij(N)
        f = self.view(m, st or self.final)
        x, s = f(i, j), spec(i, j)
        self.post(prop, label, Or(veq(x, s), And(veq(x, zero(self.kind_of(m))), vabs(s) <= thr)), extra=rng + list(extra))

    def post_new(self, prop, m, N=None, M=None, mode=None):
        """a freshly created matrix: identity fields and default domain"""
        g = m.fields
        st = self.final
        N = N if N is not None else self.N
        P = [prop, "C14", "C15"] if prop not in ("C14", "C15") else ["C14", "C15"]
        fN = "N" if m.fmt != "csr" else "N_"
        self.post(P, "new matrix has its format tag", g("matrix_type") == FENUM[m.fmt])
        self.post(P, "new matrix has its precision tag", g("matrix_precision") == PENUM[m.prec])
        self.post(P, "new matrix has the requested size", g(fN) == N)
        if mode is not None:
            self.post(P, "new matrix has the requested distribution mode", g("distribution_mode") == mode)
        if m.fmt == "dense":
            self.post(P, "leading dimension of the new matrix", g("ld") == N)
        if M is not None and m.fmt in ("ellpack", "ellblock"):
            self.post(P, "new matrix has the requested row capacity", g("M") == M)
        if m.fmt in ("dense", "ellpack", "ellblock"):
            for d in ("domain", "domain2"):
                self.post_domain(P, g(d), N, (M if m.fmt != "dense" else N), d)

    def post_domain(self, prop, o, N, M, nm):
        st = self.final
        if not isinstance(o, Obj):
            raise Undecided(f"{nm} of the result is not an object")
        for f, val in (("localRowMin", 0), ("localRowMax", N), ("localRowExtent", N), ("localDispl", 0),
                       ("localElements", None if M is None else simp_int(N * M))):
            if val is None:
                continue
            p = st.fields.get((o.name, f))
            if not isinstance(p, Ptr) or p.reg is None:
                self.post(prop, f"{nm}.{f} of the result exists", z3.BoolVal(False))
                continue
            r = p.reg
            if r.ety is None:
                self.eng.set_type(st, r, INT)
            self.eng.fix_shape(r, z3.IntVal(0))
            self.post(prop, f"{nm}.{f} of the result covers all rows", self.eng.content(st, r).read([z3.IntVal(0)]) == val)

    def post_wf(self, m, st=None):
        st = st or self.final
        if m.fmt not in ("ellpack", "csr"):
            return
        e = self.eng
        i, p = fint("i"), fint("p")
        nz = e.content(st, m.nnz).read([i])
        ri = And(i >= 0, i < m.N)
        if getattr(m, "fit", None) is not None:
            ri = And(ri, m.fit(i))
        cap = m.M
        if m.fmt == "csr":
            cap = e.content(st, m.alloc).read([i])
            for f in ("cols_", "vals_"):
                self.post("C16", f"block {f} of a row of the result has the recorded capacity", And(e.content(st, m.fam.cap[f]).read([i]) == cap, cap >= self.row_space()), extra=[ri])
        self.post("C17", "row occupancy of the result within 0..capacity", And(nz >= 0, nz <= cap), extra=[ri], kind="wf")
        x = e.content(st, m.ind).read([i, p])
        rp = And(p >= 0, p < nz)
        self.post("C17", "stored column indices of the result in range", And(x >= 0, x < m.N), extra=[ri, rp], kind="wf")
        self.post("C17", "no column stored twice in a row of the result", e.inv_content(st, m.ind).read([i, x]) == p,
                  extra=[ri, rp], kind="wf")

    def finish(self):
        """frame and leak obligations"""
        e, st = self.eng, self.final
        for r in self.inputs:
            if r in self.mods:
                continue
            c0, c1 = self.s0.mem.get(r), st.mem.get(r)
            if c0 is c1 or c1 is None:
                self.post("C21", f"{r.name} is unchanged", z3.BoolVal(True), kind="frame")
                continue
            n = r.nlead + len(r.shape)
            loc = [fint("q") for _ in range(n)]
            self.post("C21", f"{r.name} is unchanged", veq(c1.read(loc), c0.read(loc)), kind="frame")
        for r in self.inputs:
            al = st.alive.get(r)
            if not getattr(self, "consumed", None):
                self.post("C16", f"{r.name} is not freed", al, kind="memory")
        for (o, f), v in list(self.s0.fields.items()):
            if o in e.frozen and (o, f) not in self.modfields:
                v1 = st.fields.get((o, f))
                same = v1 is v or (is_ptr(v) and is_ptr(v1) and same_ptr(v, v1))
                if not same:
                    g = veq(v, v1) if not is_ptr(v) and not is_ptr(v1) else z3.BoolVal(False)
                    self.post("C21", f"field {f} of {o} is unchanged", g, kind="frame")
        # leaks
        reach = set()

        def walk(v):
            if isinstance(v, PIte):
                for _, p in v.alts:
                    walk(p)
            elif isinstance(v, Ptr) and v.reg is not None:
                if v.reg in reach:
                    return
                reach.add(v.reg)
                if getattr(v.reg, "asobj", None) is not None:
                    walk(v.reg.asobj)
                if v.reg.ety is not None and v.reg.ety.k == "ptr" and v.reg.shape is not None:
                    x = e.content(st, v.reg).read([fint("w") for _ in range(v.reg.nlead + len(v.reg.shape))])
                    fam = e.families.get(x.name) if isinstance(x, Obj) else None
                    if fam is not None:
                        reach.update(fam.regions())
            elif isinstance(v, Obj):
                if v.name in reach:
                    return
                reach.add(v.name)
                rg = st.ghost.get(("objreg", v.name))
                if rg:
                    reach.add(rg[1])
                for (o, f), x in st.fields.items():
                    if o == v.name and is_ptr(x):
                        walk(x)
        walk(self.ret)
        for (o, f), x in list(st.fields.items()):
            if o in e.frozen and is_ptr(x):
                walk(x)
        for fam in e.families.values():
            if not isinstance(fam, RowFamily):
                continue
            if fam.nnz not in reach and fam.nnz not in self.inputs:
                i = fint("i")
                self.post("C16", "rows of a temporary matrix are released", fam.released(e, st, i), extra=[And(i >= 0, i < fam.N)], kind="leak")
        n = 0
        for r in e.all_blocks:
            if r in reach or r in self.inputs:
                continue
            al = st.alive.get(r)
            if al is None:
                continue
            n += 1
            self.post("C16", f"temporary block {n} is released", Not(al), kind="leak")
        self.post("C16", "no unreachable block remains", z3.BoolVal(True), kind="leak")


def pprod(ts):
    p = {(): 1}
    for t in ts:
        p = pmul(p, poly(t))
    return p


# ---------------------------------------------------------------------------------------------- running
def run_contract(cid, prec, props=None, discharge=True, verbose=False):
    """Returns a dict describing the verification of one function instance."""
    cdef = REG[cid]
    t0 = time.time()
    res = {"contract": cid, "prec": prec, "function": cdef.fname(prec), "obligations": [],
           "status": "ok", "reason": "", "inlined": [], "models": [], "notes": []}
    v = None
    try:
        terms._nodes.clear()
        solvermod.reset()
        loops.prefix_vars_val.clear()
        v = V(cdef, prec)
        cdef.fn(v)
        if v.final is None:
            raise Undecided("contract did not execute the function")
        v.finish()
    except (Undecided, cfront.FrontEndError) as x:
        res["status"], res["reason"] = "undecided", str(x)
        if verbose and os.environ.get("TB"):
            traceback.print_exc()
    except Exception as x:      # engine limitation: never a verdict
        res["status"], res["reason"] = "undecided", "engine: " + repr(x)[:300]
        if verbose and os.environ.get("TB"):
            traceback.print_exc()
    res["sym_s"] = time.time() - t0
    if v is None:
        return res
    e = v.eng
    res["inlined"] = sorted(e.inlined)
    res["models"] = sorted(e.models_used)
    res["contracts_used"] = sorted(e.used_contracts)
    res["notes"] = e.notes
    s = e.solver
    if res["status"] == "ok":
        # vacuity: the entry facts and the exit path condition are satisfiable
        for nm, stt in (("precondition", v.s0), ("exit path", v.final)):
            r, _ = s.check(stt.facts(), z3.BoolVal(False), tmo=4000)
            if r == "proved":
                res["status"], res["reason"] = "undecided", f"vacuous: {nm} is unsatisfiable"
    seen = {}
    for o in e.obls:
        ps = o.props or [KIND_PROP.get(o.kind)] if (o.props or o.kind in KIND_PROP) else cdef.props
        if o.kind in ("noerror", "invariant", "termination") and not o.props:
            ps = list(cdef.props) + (["C16"] if o.kind == "noerror" else [])
            if o.kind == "invariant":
                ps = list(cdef.props) + ["C16", "C17"]
        if props is not None and not (set(ps) & set(props)):
            continue
        d = {"kind": o.kind, "label": o.label, "props": ps, "line": o.line}
        if discharge:
            key = (o.goal.get_id(), tuple(f.get_id() for f in o.facts))
            if key in seen:
                o.status, o.info = seen[key]
            else:
                t1 = time.time()
                solvermod.discharge(o, s)
                d["t"] = round(time.time() - t1, 3)
                seen[key] = (o.status, o.info)
        d["status"], d["by"] = o.status, o.info
        if verbose and o.status != "proved":
            d["ob"] = o
        res["obligations"].append(d)
    if os.environ.get("VERIF_SMOKE") and discharge:
        # smoke test: a proved obligation whose negation is provable too comes from contradictory facts
        left = 12
        for o in reversed(e.obls):
            if left and o.kind not in ("noerror", "termination") and o.status == "proved" and o.info not in ("simplifier", "trivial") and not z3.is_true(o.goal):
                left -= 1
                r, _ = s.check(o.facts, Not(o.goal), tmo=3000)
                if r == "proved" and not (res["status"] != "ok"):
                    res["status"], res["reason"] = "undecided", f"vacuous: contradictory facts at '{o.label}' line {o.line}"
    res["solver_s"] = s.time
    res["wall_s"] = time.time() - t0
    res["_v"] = v if verbose else None
    return res


def report(r):
    ok = sum(1 for o in r["obligations"] if o["status"] == "proved")
    print(f"{r['function']}: {r['status']} {r['reason']}  {ok}/{len(r['obligations'])} proved  "
          f"sym {r.get('sym_s', 0):.2f}s wall {r.get('wall_s', 0):.2f}s inlined {r['inlined']} models {r['models']}")
    for o in r["obligations"]:
        if o["status"] != "proved":
            print(f"   FAILED [{o['kind']}] {o['label']} line {o['line']} -> {o['status']} {o['props']}")


if __name__ == "__main__":
    sys.modules["verify"] = sys.modules["__main__"]
    import specs_all
    pat = sys.argv[1]
    precs = sys.argv[2].split(",") if len(sys.argv) > 2 else ["double_real", "single_complex"]
    import re
    for c in REG:
        if re.fullmatch(pat, c):
            for p in REG[c].precs:
                if p is None or p in precs:
                    report(run_contract(c, p, verbose=True))
