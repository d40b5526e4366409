"""Contracts of the row index table of the csr format (a chained hash table over one array of slots)."""
from verify import *
import loops

T_ = dict(fmt="csr", precs=None, typed=False)
S, U, B = z3.Int("s!t"), z3.Int("u!t"), z3.Int("b!t")
_and = z3.Function("bitand", z3.IntSort(), z3.IntSort(), z3.IntSort())


class View:
    """a table object in one state"""

    def __init__(self, eng, st, o):
        f = lambda nm: st.fields[(o.name, nm)]
        self.n, self.space, self.mask = f("size_"), f("space_"), f("space_minus1_")
        sp = f("slot_ptr_")
        fam = self.fam = eng.families[sp.name]
        self.C, self.ptr = fam.n, sp.idx[0]
        self.storage = f("slot_storage_")
        self.slots = f("Slots_").reg
        rd = lambda r: (lambda i: eng.content(st, r).read([i]))
        self.key, self.val, self.link, self.head = rd(fam.reg["key"]), rd(fam.reg["value"]), rd(fam.link["link"]), rd(self.slots)
        self.bucket = lambda s: _and(self.key(s), self.mask)

    def wf(self):
        n, C, K, L, H, b = self.n, self.C, self.key, self.link, self.head, self.bucket
        s, u = And(S >= 0, S < n), And(U >= 0, U < S)
        return [("sizes", And(n >= 0, n <= C, self.space >= 1, self.mask == self.space - 1, self.ptr == n)),
                ("stored values are insertion positions", fall([S], Implies(s, self.val(S) == S), self.val(S))),
                ("links lead to an earlier slot of the same chain",
                 fall([S], Implies(s, And(L(S) >= -1, L(S) < S, Implies(L(S) >= 0, b(L(S)) == b(S)))), L(S))),
                ("links skip no slot of their chain", fall([S, U], Implies(And(s, u, b(U) == b(S)), U <= L(S)), L(S), K(U))),
                ("heads lie in their chain", fall([B], Implies(And(B >= 0, B < self.space), And(H(B) >= -1, H(B) < n, Implies(H(B) >= 0, b(H(B)) == B))), H(B))),
                ("heads are the newest slot of their chain", fall([S], Implies(s, S <= H(b(S))), K(S)))]


def rng_and(v, mask):
    """definition of the bit mask operation: for a mask >= 0 the result lies between 0 and the mask"""
    x = z3.Int("x!a")
    v.assume(z3.ForAll([x], And(_and(x, mask) >= 0, _and(x, mask) <= mask), patterns=[_and(x, mask)]))


def table(v, name="t", wf=True):
    e, st = v.eng, v.st
    C, space = v.int(name + ".capacity", 1), v.int(name + ".space", 1)
    fam = SlotFamily(e, st, name + ".slots", C, "csr_hash_slot_t")
    e.families[fam.name] = fam
    for r in fam.regions():
        v.inputs.append(r)
    heads = v.region(name + ".Slots_", PLONG, [space])
    heads.slots = SlotRef(fam)
    n = v.int(name + ".size", 0)
    o = v.obj(name, "csr_row_index_hash_t", Slots_=Ptr(heads, ety=T("ptr", to=T("ptr", to=T("struct", name="csr_hash_slot_t")))),
              space_=space, space_minus1_=simp_int(space - 1), size_=n, slot_ptr_=fam.obj(n), slot_storage_=fam.obj(z3.IntVal(0)),
              slot_storage_space_=C, capacity_=C)
    rng_and(v, simp_int(space - 1))
    t = View(e, st, o)
    if wf:
        for _, g in t.wf():
            v.assume(g)
    v.heads, v.slotfam = heads, fam
    return o, t


def changes(v, o):
    v.mods.update(v.slotfam.regions() + [v.heads])
    v.eng.frozen.discard(o.name)


def size_spec(v):
    """doubling of the number of buckets"""
    return LoopSpec(inv=lambda e: [("number of buckets", e.loc("space") >= 16)],
                    variant=lambda e: simp_int(e.loc("alloc_size") - v.eng.idiv(e.loc("space"), z3.IntVal(3), e.st)[0] * 2))


def lookup_spec(v, view):
    """walk along the chain of a key"""
    def inv(e):
        t = view(e)
        p, key = t.fam.enc(e.loc("p")), e.loc("key")
        return [("inside the chain of the key", And(p >= -1, p < t.n, Implies(p >= 0, t.bucket(p) == _and(key, t.mask)))),
                ("no newer slot has the key", fall([S], Implies(And(S > p, S >= 0, S < t.n), t.key(S) != key), t.key(S)))]
    return LoopSpec(inv=inv, variant=lambda e: simp_int(view(e).fam.enc(e.loc("p")) + 1))


@contract("csr_noinit_table", ["C22"], **T_)
def _(v):
    n = v.int("tsize", 0)

    r = v.call(n, loops_={(None, "space", "alloc_size"): size_spec(v)})
    t = View(v.eng, v.final, r)
    for lab, g in t.wf():
        v.post("C22", "new table: " + lab, g)
    v.post("C22", "a new table is empty", t.n == 0)
    v.post("C22", "a new table has room for the requested number of keys", t.C >= n)
    v.post("C22", "storage starts at the first slot", And(t.storage.idx[0] == 0, z3.BoolVal(t.storage.name == t.fam.name)))
    b = fint("b")
    v.post("C16", "bucket array of the new table has an entry for every bucket", t.slots.shape[0] >= t.space)


@contract("csr_table_insert", ["C22"], **T_)
def _(v):
    o, t0 = table(v)
    key = v.int("key")
    v.assume(t0.n < t0.C)
    changes(v, o)
    v.call(o, key)
    t = View(v.eng, v.final, o)
    for lab, g in t.wf():
        v.post("C22", "after the insertion: " + lab, g)
    s = fint("s")
    v.post("C22", "one more key", t.n == t0.n + 1)
    v.post("C22", "the new key is stored at the next position", t.key(t0.n) == key)
    v.post("C22", "earlier keys keep their position", t.key(s) == t0.key(s), extra=[And(s >= 0, s < t0.n)])
    v.post("C22", "table geometry is unchanged", And(t.space == t0.space, t.mask == t0.mask, z3.BoolVal(t.fam is t0.fam and t.slots is t0.slots)))


def alts(r):
    return r.alts if isinstance(r, PIte) else [(z3.BoolVal(True), r)]


@contract("csr_table_lookup", ["C22"], **T_)
def _(v):
    o, t0 = table(v)
    key = v.int("key")
    fam = t0.fam

    r = v.call(o, key, loops_={(None, "link"): lookup_spec(v, lambda e: View(v.eng, e.st, o))})
    s = fint("s")
    for g, p in alts(r):
        if isinstance(p, Ptr) and p.reg is None:
            v.post("C22", "null is returned only if no stored key is the one looked up", t0.key(s) != key, extra=[g, And(s >= 0, s < t0.n)])
        else:
            ob, f = p.reg.fieldref
            x = ob.idx[0]
            v.post("C22", "the result points to the value of a slot of this table", z3.BoolVal(ob.name == fam.name and f == "value"), extra=[g])
            v.post("C22", "the slot found is in use and has the key", And(x >= 0, x < t0.n, t0.key(x) == key, p.off == 0), extra=[g])
            v.post("C22", "the value found is the position the key was inserted at", t0.val(x) == x, extra=[g])
            v.post("C22", "the newest of equal keys is found", Implies(And(s > x, s < t0.n), t0.key(s) != key), extra=[g])


@contract("csr_reset_table", ["C22"], **T_)
def _(v):
    o, t0 = table(v)
    changes(v, o)
    v.call(o)
    t = View(v.eng, v.final, o)
    for lab, g in t.wf():
        v.post("C22", "after the reset: " + lab, g)
    v.post("C22", "a table is empty after the reset", t.n == 0)
    v.post("C22", "table geometry is unchanged", And(t.space == t0.space, t.mask == t0.mask, z3.BoolVal(t.fam is t0.fam and t.slots is t0.slots)))


@contract("csr_deallocate_table", ["C22"], **T_)
def _(v):
    o, t0 = table(v)
    changes(v, o)
    v.consumed = True
    v.call(o)
    st = v.final
    v.post("C16", "everything the table owns is released", Not(Or(st.alive[o.name], st.alive[v.slotfam.name], st.alive[v.heads])), kind="leak")
