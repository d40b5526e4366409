"""Families of row objects: the csr format keeps an array of pointers to row structs, each with its own two blocks.
A family models all rows of a matrix at once: the field NNZ_ of row i is entry i of an integer array, the block cols_ of
row i is row i of a ragged two-dimensional region whose extent in row i is a ghost capacity that only allocation and
reallocation change.  Rows of different index are different objects (a precondition of every contract on a csr matrix,
and what the engine's own summary of row allocation establishes)."""
import z3
from terms import *
from memory import *
from cfront import T, INT, sizeof

INTS = ("NNZ_", "alloc_size_")
BLOCKS = ("cols_", "vals_")


class RowFamily:
    def __init__(self, eng, st, name, N, ety, INT, alive=None):
        self.name, self.N, self.ety = name, N, ety
        mk = lambda f, e, **kw: Region(f"{name}.{f}", e, **kw)
        self.nnz, self.alloc = mk("NNZ_", INT, shape=[N]), mk("alloc_size_", INT, shape=[N])
        self.cap = {f: mk(f + "#capacity", INT, shape=[N], kind="ghost") for f in BLOCKS}
        self.gen = {f: mk(f + "#generation", INT, shape=[N], kind="ghost") for f in BLOCKS}
        self.live = mk("#live", INT, shape=[N], kind="ghost")     # 1 until the row object is freed
        ext = lambda f: (lambda st, idx: eng.content(st, self.cap[f]).read([idx[0]]))
        self.ind = mk("cols_", INT, nlead=1, lead=[N], shape=[ext("cols_")])
        self.val = mk("vals_", ety, nlead=1, lead=[N], shape=[ext("vals_")])
        self.block = {"cols_": self.ind, "vals_": self.val}
        for f, r in self.block.items():
            r.family, r.famfield = self, f
        self.field = {"NNZ_": self.nnz, "alloc_size_": self.alloc}

    def regions(self):
        return [self.nnz, self.alloc, self.ind, self.val] + [x for d in (self.cap, self.gen) for x in d.values()] + [self.live]

    def obj(self, i):
        return Obj(self.name, "csr_sparse_row_t", (i,))

    def cell(self, r, i):
        return Ptr(r, (), i, r.ety)

    def check_live(self, eng, st, o, what):
        c = st.mem.get(self.live)
        if not isinstance(c, Const):        # some row was freed
            eng.oblige(st, "memory", what, c.read([o.idx[0]]) == 1)

    def get(self, eng, st, o, f):
        self.check_live(eng, st, o, "row object is not freed")
        if f in self.field:
            return eng.load(st, self.cell(self.field[f], o.idx[0]), self.field[f].ety)
        if f in self.block:
            r = self.block[f]
            eng.guarded(st, self.gen[f], [o.idx[0]], "read")
            g = eng.content(st, self.gen[f]).read([o.idx[0]])
            return Ptr(r, o.idx, z3.IntVal(0), r.ety, g)
        raise Undecided(f"field {f} of a row")

    def set(self, eng, st, o, f, v):
        self.check_live(eng, st, o, "row object is not freed")
        if f in self.field:
            return eng.store(st, self.cell(self.field[f], o.idx[0]), v, self.field[f].ety)
        if f in self.block:
            if isinstance(v, Ptr) and v.reg is self.block[f] and len(v.idx) == 1 and peq(v.idx[0], o.idx[0]) and is_num(v.off) and num(v.off) == 0:
                # the block this field already has (after reallocation)
                eng.oblige(st, "memory", f"{f} of a row points to the current block", v.gen == eng.content(st, self.gen[f]).read([o.idx[0]]))
                return
        raise Undecided(f"field {f} of a row is replaced")

    def realloc(self, eng, st, p, nbytes):
        """bml_reallocate_memory of a row block: contents up to the smaller capacity are kept"""
        f = p.reg.famfield
        sz = sizeof(p.reg.ety)
        i = p.idx[0]
        eng.oblige(st, "memory", f"reallocation of the start of block {eng.rname(p.reg)}", And(p.off == 0, p.gen == eng.content(st, self.gen[f]).read([i])))
        bp = poly(nbytes)
        if any(c % sz for c in bp.values()):
            raise Undecided("reallocation to a size that is no multiple of the element size")
        n = poly_term({m: c // sz for m, c in bp.items()})
        eng.oblige(st, "memory", "allocation size is not negative", n >= 0)
        old = eng.content(st, p.reg)
        oldcap = eng.content(st, self.cap[f]).read([i])
        junk = Fresh(p.reg.name + "~new", p.reg.ety.k)
        st.mem[p.reg] = Fn(lambda l, old=old: If(And(l[0] == i, l[1] >= oldcap), junk.read(l), old.read(l)))
        for r, v in ((self.cap[f], n), (self.gen[f], simp_int(p.gen + 1))):
            eng.raw_store(st, r, [i], v)
            self.log(eng, st, r, i, v)
        return Ptr(p.reg, p.idx, z3.IntVal(0), p.ety, simp_int(p.gen + 1))

    def log(self, eng, st, r, i, v):
        from symex import Rec
        eng.guarded(st, r, [i], "write")
        if st.wlog is not None:
            st.wlog.append(Rec(r, [], st.guard_since(eng.logbase[-1]), [i], v, st.atomic, None))

    def free_block(self, eng, st, p, g):
        """the block has no elements afterwards"""
        f, i = p.reg.famfield, p.idx[0]
        gen, cap = (eng.content(st, d[f]).read([i]) for d in (self.gen, self.cap))
        eng.oblige(st, "memory", f"block {eng.rname(p.reg)} is freed once, from its start", Implies(g, And(p.off == 0, p.gen == gen, cap > 0)))
        for r, v, old in ((self.cap[f], z3.IntVal(0), cap), (self.gen[f], simp_int(p.gen + 1), gen)):
            v = If(g, v, old)
            eng.raw_store(st, r, [i], v)
            self.log(eng, st, r, i, v)

    def free_obj(self, eng, st, o, g):
        i = o.idx[0]
        l = eng.content(st, self.live).read([i])
        eng.oblige(st, "memory", f"row object of {self.name} is freed once", Implies(g, l == 1))
        v = If(g, z3.IntVal(0), l)
        eng.raw_store(st, self.live, [i], v)
        self.log(eng, st, self.live, i, v)

    def released(self, eng, st, i):
        return And([eng.content(st, self.live).read([i]) == 0] + [eng.content(st, self.cap[f]).read([i]) == 0 for f in BLOCKS])


PLONG = T("int", name="long")


class SlotFamily:
    """An array of structs of int fields with one pointer field to an element of the same array: element i's field f is
    entry i of an integer array; pointers to elements are encoded as their index, null as -1."""

    def __init__(self, eng, st, name, n, tname, ints=("key", "value"), links=("link",)):
        self.name, self.tname, self.n = name, tname, n
        self.reg = {f: Region(f"{name}.{f}", INT, [n]) for f in ints}
        self.link = {f: Region(f"{name}.{f}", PLONG, [n]) for f in links}
        for r in self.regions():
            st.mem[r] = Fresh(r.name, "int")
            st.inv[r] = Fresh(r.name + "#inv", "int")
            st.alive[r] = z3.BoolVal(True)
            r.slotfield = self
        st.alive[name] = z3.BoolVal(True)

    def regions(self):
        return list(self.reg.values()) + list(self.link.values())

    def obj(self, i):
        return Obj(self.name, self.tname, (i,))

    def dec(self, t):
        if is_num(t):
            return NULL if num(t) == -1 else self.obj(t)
        return PIte([(t == -1, NULL), (t != -1, self.obj(t))])

    def enc(self, v):
        if isinstance(v, Ptr) and v.reg is None:
            return z3.IntVal(-1)
        if isinstance(v, Obj) and v.name == self.name:
            return v.idx[0]
        if isinstance(v, PIte):
            r = None
            for g, q in reversed(v.alts):
                x = self.enc(q)
                r = x if r is None else If(g, x, r)
            return r
        raise Undecided("pointer to something else where an element of one array is expected")

    def cell(self, r, o):
        return Ptr(r, (), o.idx[0], r.ety)

    def get(self, eng, st, o, f):
        if f in self.reg:
            return eng.load(st, self.cell(self.reg[f], o), INT)
        if f in self.link:
            return self.dec(eng.load(st, self.cell(self.link[f], o), PLONG))
        raise Undecided(f"field {f} of {self.tname}")

    def set(self, eng, st, o, f, v):
        if f in self.reg:
            return eng.store(st, self.cell(self.reg[f], o), v, INT)
        if f in self.link:
            return eng.store(st, self.cell(self.link[f], o), self.enc(v), PLONG)
        raise Undecided(f"field {f} of {self.tname}")

    def free_obj(self, eng, st, o, g):
        al = st.alive[self.name]
        eng.oblige(st, "memory", f"array {self.name.split('!')[0]} is freed once, from its start", Implies(g, And(al, o.idx[0] == 0)))
        new = If(g, z3.BoolVal(False), al)
        for r in self.regions():
            st.alive[r] = new
        st.alive[self.name] = new
        rg = st.ghost.get(("objreg", self.name))
        if rg is not None:
            st.alive[rg[1]] = new


class SlotRef:
    """which family the pointers of an array point into (unknown until one is stored)"""

    def __init__(self, fam=None, tname="csr_hash_slot_t"):
        self.fam, self.tname = fam, tname

    def enc(self, eng, v):
        if self.fam is None:
            fams = {q.name for q in ([v] if isinstance(v, Obj) else [q for _, q in v.alts if isinstance(q, Obj)] if isinstance(v, PIte) else [])}
            if len(fams) == 1:
                self.fam = eng.families.get(fams.pop())
            elif not fams and isinstance(v, Ptr) and v.reg is None:
                return z3.IntVal(-1)
        if not isinstance(self.fam, SlotFamily):
            raise Undecided("array of pointers to different objects")
        return self.fam.enc(v)

    def dec(self, eng, t):
        if self.fam is None:
            # only pointers into one array can have been stored: storing others is refused
            fams = [f for f in eng.families.values() if isinstance(f, SlotFamily) and f.tname == self.tname]
            if len(fams) != 1:
                raise Undecided("pointer read from an array no pointer was stored into")
            self.fam = fams[0]
        return self.fam.dec(t)


def slot_family(eng, v):
    """the family all non-null alternatives of a pointer value point into"""
    alts = [q for _, q in v.alts] if isinstance(v, PIte) else [v]
    fams = {q.name if isinstance(q, Obj) else "?" for q in alts if not (isinstance(q, Ptr) and q.reg is None)}
    fam = eng.families.get(fams.pop()) if len(fams) == 1 else None
    return fam if isinstance(fam, SlotFamily) else None


def parts(eng, st, o):
    """what belongs to one row object"""
    out = [o.name]
    g = st.ghost.get(("objreg", o.name))
    if g:
        out.append(g[1])
    for f in BLOCKS:
        p = st.fields.get((o.name, f))
        if isinstance(p, Ptr) and p.reg is not None:
            out.append(p.reg)
    return out


def created(eng, end, res, o, N, k, skl):
    from symex import Poison
    """the family of the row objects allocated by the iterations k = 0..N-1 of a loop; o is the one of iteration k"""
    if o.tname != "csr_sparse_row_t":
        raise Undecided(f"array of pointers to {o.tname}")
    from verify import ETY
    from cfront import INT
    fam = RowFamily(eng, res, fresh_name("row"), N, ETY[eng.prec], INT)
    eng.families[fam.name] = fam

    def fn(read, n):
        ps = [fint("fp") for _ in range(n)]
        t = skl(read(ps), ps)
        return Fn(lambda l: subst(t, (k, l[0]), *zip(ps, l[1:])))

    def scalar(f):
        v = end.fields.get((o.name, f))
        if v is None or isinstance(v, Poison):
            return Fresh(f"{fam.name}.{f}", "int")      # never set
        return fn(lambda ps: v, 0)
    content, inv = {}, {}
    for f, r in fam.field.items():
        content[r] = scalar(f)
    for f, r in fam.block.items():
        p = end.fields.get((o.name, f))
        if not isinstance(p, Ptr) or p.reg is None or not (is_num(p.off) and num(p.off) == 0):
            raise Undecided(f"field {f} of a new row is not the start of a block")
        q = p.reg
        if q.ety is None:
            eng.set_type(end, q, r.ety)
        if q.ety != r.ety:
            eng.oblige(end, "memory", f"block {f} of a new row has its element type", z3.BoolVal(False))
            raise Undecided("element type of a row block")
        if q.shape is None:
            eng.fix_shape(q, z3.IntVal(0))
        if len(q.shape) != 1:
            raise Undecided("shape of a row block")
        eng.oblige(end, "memory", f"block {f} of a new row is live", end.alive.get(q, z3.BoolVal(True)))
        size = q.shape[0]
        content[fam.cap[f]] = fn(lambda ps: size, 0)
        content[fam.gen[f]] = Const(z3.IntVal(0))
        content[r] = fn(lambda ps: eng.content(end, q).read(ps), 1)
        if r.ety.k == "int":
            inv[r] = fn(lambda ps: eng.inv_content(end, q).read(ps), 1)
    content[fam.live] = Const(z3.IntVal(1))
    for r in fam.regions():
        res.mem[r] = content[r]
        if r.ety.k == "int":
            res.inv[r] = inv.get(r) or Fresh(r.name + "#inv", "int")
        res.alive[r] = z3.BoolVal(True)
        r.shape = r.shape
    res.alive[fam.name] = z3.BoolVal(True)
    return fam
