"""Symbolic executor / obligation generator over clang's AST of the real functions."""
import z3, re, sys, family
from terms import *
from memory import *
import cfront
from cfront import T, INT, VOID, R32, R64, C32, C64, parse_type, sizeof, PRECS

BR, FACT = 0, 1


class Obligation:
    __slots__ = ("fn", "kind", "label", "facts", "goal", "line", "loop", "status", "info", "props", "tries")

    def __init__(self, fn, kind, label, facts, goal, line=None):
        self.fn, self.kind, self.label, self.facts, self.goal, self.line = fn, kind, label, facts, goal, line
        self.status, self.info, self.props, self.tries = None, "", None, 0

    def key(self):
        return f"{self.fn}:{self.kind}:{self.label}"


class Rec:
    """A write (or read) record inside a loop being summarised."""
    __slots__ = ("reg", "params", "guard", "locs", "val", "atomic", "line")

    def __init__(self, reg, params, guard, locs, val, atomic, line=None):
        self.reg, self.params, self.guard, self.locs, self.val, self.atomic, self.line = \
            reg, params, guard, locs, val, atomic, line


class State:
    def __init__(self):
        self.pc = []          # list of (BR|FACT, formula)
        self.env = {}         # variable key -> value
        self.mem = {}         # Region -> Content
        self.inv = {}         # Region -> Content (ghost: last position of a value in an int row)
        self.fields = {}      # (objname, field) -> value
        self.alive = {}       # Region/obj name -> z3 bool
        self.wlog = None      # list[Rec] when inside a summarised loop
        self.rlog = None
        self.atomic = False
        self.ret = None
        self.log = ()         # ghost call trace
        self.ghost = {}

    def clone(self):
        s = State()
        s.pc = list(self.pc)
        s.env, s.mem, s.inv = dict(self.env), dict(self.mem), dict(self.inv)
        s.fields, s.alive, s.ghost = dict(self.fields), dict(self.alive), dict(self.ghost)
        s.wlog = list(self.wlog) if self.wlog is not None else None
        s.rlog = list(self.rlog) if self.rlog is not None else None
        s.atomic, s.ret, s.log = self.atomic, self.ret, self.log
        return s

    def assume(self, f, kind=FACT):
        if z3.is_true(f):
            return
        self.pc.append((kind, f))

    def facts(self):
        return [f for _, f in self.pc]

    def guard_since(self, n):
        return And([f for k, f in self.pc[n:] if k == BR])

    def infeasible(self):
        return any(z3.is_false(f) for _, f in self.pc)


class Abort(Exception):
    """This path ends here (noreturn call)."""


NORMAL, BREAK, CONT, RET = "normal", "break", "continue", "return"


class LoopSpec:
    """Annotation for one loop, addressed by its position in the dynamic loop nest of the verified function."""

    def __init__(self, inv=None, rowwise=False, post=None, scratch=None, lemmas=None, unroll=None, needs=(),
                 race=None, keep=(), finish=None, step=None, scan=None, variant=None, hints=None, shift=None, locked=None, stable=None):
        self.inv, self.rowwise, self.post, self.scratch = inv, rowwise, post, scratch
        self.lemmas, self.unroll, self.needs, self.race = lemmas, unroll, needs, race
        self.keep, self.finish, self.step, self.scan, self.variant = keep, finish, step, scan, variant
        self.hints = hints
        self.shift = shift      # row-wise: iteration k owns row k + shift
        self.locked = locked    # iterations add entries to shared rows under the lock of the row: which entries (r,c)
        self.stable = stable    # ... cells of shared rows that are never written, hence readable without the lock


class Engine:
    def __init__(self, fname, tu, fd, prec, contracts, spec=None, solver=None, rl=None):
        self.root, self.prec, self.contracts, self.spec = fname, prec, contracts, spec
        self.rtu, self.rfd = tu, fd
        self.obls = []
        self.solver = solver
        self.dry = 0
        self.split_syms = set()
        self.frames = []          # list of (tu, fd, callchain)
        self.nest = []            # current loop nest path
        self.loopids = {}         # (parent path, static id) -> index
        self.counts = {}
        self.inlined = set()
        self.used_contracts = set()
        self.models_used = set()
        self.loopinfo = []
        self.sizeconsts = {}
        self.strlits = {}
        self.depth = 0
        self.notes = []
        self.entry = None
        self.cur_line = None
        self.prove_cache = {}
        self.leak_check = True
        self.newrows = None
        self.allow_error_if = None
        self.trusted = set()
        self.locked = None        # the lock-protected parallel loop being verified

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, kind, label, goal, line=None):
        if self.dry:
            return
        if z3.is_true(goal):
            self.obls.append(Obligation(self.root, kind, label, [], goal, line))
            self.obls[-1].status = "trivial"
            return
        self.obls.append(Obligation(self.root, kind, label, st.facts(), goal, line or self.cur_line))

    def prove_now(self, st, goal, extra=()):
        """Immediate query, used to choose between loop rules; True only if valid."""
        if z3.is_true(goal):
            return True
        return self.solver.valid(st.facts() + list(extra), goal)

    # ------------------------------------------------------------------ variables
    def vkey(self, declid):
        return (len(self.frames), declid)

    def lookup(self, st, ref):
        declid = ref["id"]
        for d in range(len(self.frames), 0, -1):
            if (d, declid) in st.env:
                return (d, declid)
            # only the current frame is visible (C scoping); captured statements share the frame
            break
        return None

    def var_by_name(self, st, name):
        for d in range(len(self.frames), 0, -1):
            k = self.names.get((d, name))
            if k is not None and k in st.env:
                return k
        raise Undecided(f"no local variable named '{name}' for the loop annotation")

    names = None

    # ------------------------------------------------------------------ types
    def ty(self, node):
        t = node.get("type", {})
        q = t.get("desugaredQualType", t.get("qualType", ""))
        r = parse_type(q, self.tu)
        if r.k == "named":
            r = parse_type(t.get("qualType", ""), self.tu)
        return r

    @property
    def tu(self):
        return self.frames[-1][0]

    def narrowing_matters(self):
        return self.prec is None or self.prec.startswith("double")

    # ------------------------------------------------------------------ value conversion
    def as_bool(self, v):
        if is_ptr(v):
            return Not(self.is_null(v))
        if isinstance(v, Cx):
            return Not(And(v.re == 0, v.im == 0))
        if z3.is_bool(v):
            return v
        if is_num(v):
            return z3.BoolVal(num(v) != 0)
        return v != 0

    def as_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if z3.is_bool(v):
            if z3.is_true(v):
                return z3.IntVal(1)
            if z3.is_false(v):
                return z3.IntVal(0)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def is_null(self, v):
        if isinstance(v, PIte):
            return Or([And(g, self.is_null(p)) for g, p in v.alts])
        if isinstance(v, Ptr):
            return z3.BoolVal(v.reg is None)
        return z3.BoolVal(False)

    def ptr_eq(self, a, b):
        if isinstance(a, PIte):
            return Or([And(g, self.ptr_eq(p, b)) for g, p in a.alts])
        if isinstance(b, PIte):
            return Or([And(g, self.ptr_eq(a, p)) for g, p in b.alts])
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is not b.reg:
                return z3.BoolVal(False)
            if a.reg is None:
                return z3.BoolVal(True)
            return And([x == y for x, y in zip(a.idx, b.idx)] + [a.off == b.off])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.name != b.name:
                return z3.BoolVal(False)
            return And([x == y for x, y in zip(a.idx, b.idx)])
        return z3.BoolVal(False)

    # ------------------------------------------------------------------ memory access
    def new_region(self, st, name, ety, shape=None, size=None, content=None, kind="heap", **kw):
        r = Region(fresh_name(name) if not kw.pop("exact", False) else name, ety, shape, size, kind=kind, **kw)
        if content is not None:
            st.mem[r] = content
        st.alive[r] = z3.BoolVal(True)
        return r

    def content(self, st, r):
        c = st.mem.get(r)
        if c == "zero":
            return Const(zero(r.ety.k))
        if c == "fresh" or c is None:
            c = Fresh(r.name, r.ety.k)
            st.mem[r] = c
        return c

    def inv_content(self, st, r):
        c = st.inv.get(r)
        if c is None:
            c = Fresh(r.name + "#inv", "int")
            st.inv[r] = c
        return c

    def fix_shape(self, r, off):
        if r.shape is not None:
            return
        if r.size is None:
            raise Undecided(f"access to a block of unknown size ({r.name})")
        sp = poly(r.size)
        po = poly(off)
        deg2 = [m for m in po if len(m) >= 2]
        if len(sp) == 1:
            (m, c), = sp.items()
            if len(m) == 2 and c == 1:
                cand = []
                for a in m:
                    if any(a in mm for mm in deg2):
                        cand.append(a)
                S = cand[0] if cand else m[-1]
                if getattr(r, "hint", None) is not None and r.hint in m:
                    S = r.hint
                other = m[0] if m[1] == S and m[0] != m[1] else (m[1] if m[0] == S else m[0])
                r.shape = [terms_atom(other), terms_atom(S)]
                return
        r.shape = [poly_term(sp)]

    def locate(self, st, p, what, line=None):
        """Resolve pointer to (region, loc); emits validity obligations."""
        r = p.reg
        off = simp_int(p.off)
        self.fix_shape(r, off)
        al = st.alive.get(r, z3.BoolVal(True))
        if not z3.is_true(al):
            self.oblige(st, "memory", f"{what} of live block {self.rname(r)}", al, line)
        if p.gen is not None:
            self.oblige(st, "memory", f"{what} through a pointer not invalidated by reallocation ({self.rname(r)})",
                        p.gen == self.fam_gen(st, r, p.idx), line)
        loc = list(p.idx)
        for x, (lo, hi) in zip(p.idx, self.lead_bounds(st, r, p.idx)):
            self.oblige(st, "memory", f"{what} leading index within {self.rname(r)}", And(x >= lo, x < hi), line)
        if len(r.shape) == 1:
            n = r.shape[0]
            n = n(st, p.idx) if callable(n) else n
            self.bound(st, what, r, off, n, line)
            loc.append(off)
        else:
            R, S = r.shape
            R = R(st, p.idx) if callable(R) else R
            S = S(st, p.idx) if callable(S) else S
            row, col = split_stride(off, S)
            self.bound(st, what + " row", r, row, R, line)
            rf = getattr(r, "rowfact", None)
            if rf is None and self.newrows is not None and r.kind == "heap" and peq(R, self.newrows[0]) and peq(r.shape[1], self.newrows[1]):
                rf = self.newrows[2]      # precondition about the rows of the source, at this row
            if rf is not None and not (is_num(col) and num(col) == 0):
                st.assume(Implies(And(row >= 0, row < R), rf(row)))
            self.bound(st, what + " column", r, col, S, line)
            loc += [row, col]
        return r, loc

    def bound(self, st, what, r, x, n, line):
        if is_num(x) and is_num(n) and 0 <= num(x) < num(n):
            return
        self.oblige(st, "memory", f"{what} in bounds of {self.rname(r)}", And(x >= 0, x < n), line)

    def rname(self, r):
        return r.name.split("!")[0]

    def lead_bounds(self, st, r, idx):
        return [(z3.IntVal(0), b(st, idx) if callable(b) else b) for b in r.lead]

    def fam_gen(self, st, r, idx):
        fam = getattr(r, "family", None)
        if fam is None:
            raise Undecided("generation of a plain region")
        return self.content(st, fam.gen[r.famfield]).read([idx[0]])

    def load(self, st, p, want=None, line=None):
        if isinstance(p, PIte):
            v = None
            for g, q in reversed(p.alts):
                s2 = st
                if isinstance(q, Ptr) and q.reg is None:
                    self.oblige(st, "memory", "no null pointer dereference", Not(g), line)
                    continue
                st.pc.append((BR, g))
                x = self.load(st, q, want, line)
                st.pc.pop()
                v = x if v is None else self.ite(g, x, v)
            if v is None:
                raise Undecided("load through null")
            return v
        if not isinstance(p, Ptr):
            raise Undecided("load through a struct pointer")
        if p.reg is None:
            self.oblige(st, "memory", "no null pointer dereference", z3.BoolVal(False), line)
            raise Abort()
        if getattr(p.reg, "fieldref", None):
            self.bound(st, "read", p.reg, simp_int(p.off), z3.IntVal(1), line)
            return self.get_field(st, p.reg.fieldref[0], p.reg.fieldref[1], p.reg.ety)
        self.settle(st, p.reg, want)
        if not self.type_ok(st, p.reg, want, "read", line):
            return self.fresh_val(want, "pun")
        r, loc = self.locate(st, p, "read", line)
        self.guarded(st, r, loc, "read", line)
        v = self.content(st, r).read(loc)
        if st.rlog is not None:
            st.rlog.append(Rec(r, [], st.guard_since(self.logbase[-1]), loc, None, st.atomic, line))
        return v

    def guarded(self, st, r, loc, what, line=None):
        """inside a loop whose iterations share rows under locks: the lock of the row is held"""
        if self.locked is None or r not in self.locked["regs"]:
            return
        held = st.ghost["#lock"] == loc[0]
        stable = self.locked["stable"]
        if stable is not None:
            fix = stable(r, loc)
            if fix is not None and what == "read":
                held = Or(held, fix)
            elif fix is not None:
                held = And(held, Not(fix))
        self.oblige(st, "race", f"{what} of a shared row of {self.rname(r)} under its lock", held, line)

    def settle(self, st, r, want):
        if r.ety is None:
            if want is None or want.k not in ("int", "real", "cx"):
                raise Undecided(f"untyped block {r.name}")
            self.set_type(st, r, want)

    def type_ok(self, st, r, want, what, line):
        if want is None or want.k not in ("int", "real", "cx"):
            return True
        e = r.ety
        if e.k == want.k and (e.bits == want.bits) and (e.k != "int" or sizeof(e) == sizeof(want)):
            return True
        self.oblige(st, "memory", f"{what} of {self.rname(r)} with its own element type ({e} accessed as {want})",
                    z3.BoolVal(False), line)
        return False

    def store(self, st, p, v, want=None, line=None):
        if isinstance(p, PIte):
            for g, q in p.alts:
                if isinstance(q, Ptr) and q.reg is None:
                    self.oblige(st, "memory", "no null pointer dereference", Not(g), line)
                    continue
                st.pc.append((BR, g))
                old = self.load(st, q, want, line)
                st.pc.pop()
                self.store(st, q, self.ite(g, v, old), want, line)
            return
        if not isinstance(p, Ptr):
            raise Undecided("store through a struct pointer")
        if p.reg is None:
            self.oblige(st, "memory", "no null pointer dereference", z3.BoolVal(False), line)
            raise Abort()
        if getattr(p.reg, "fieldref", None):
            self.bound(st, "write", p.reg, simp_int(p.off), z3.IntVal(1), line)
            return self.set_field(st, p.reg.fieldref[0], p.reg.fieldref[1], v, p.reg.ety)
        self.settle(st, p.reg, want)
        if not self.type_ok(st, p.reg, want, "write", line):
            st.mem[p.reg] = Fresh(p.reg.name, p.reg.ety.k)
            return
        r, loc = self.locate(st, p, "write", line)
        if r.readonly:
            self.oblige(st, "frame", f"{self.rname(r)} is not written", z3.BoolVal(False), line)
        if r.ety.k == "cx":
            v = tocx(v)
        elif r.ety.k == "int":
            v = self.as_int(v)
        self.guarded(st, r, loc, "write", line)
        self.raw_store(st, r, loc, v)
        if st.wlog is not None:
            st.wlog.append(Rec(r, [], st.guard_since(self.logbase[-1]), loc, v, st.atomic, line))

    def raw_store(self, st, r, loc, v):
        st.mem[r] = Store(self.content(st, r), loc, v)
        if r.ety.k == "int":
            st.inv[r] = Store(self.inv_content(st, r), loc[:-1] + [v], loc[-1])

    def ite(self, c, a, b):
        if z3.is_expr(c) and z3.is_true(c):
            return a
        if z3.is_expr(c) and z3.is_false(c):
            return b
        if is_ptr(a) or is_ptr(b):
            return merge_ptr(c, a, b)
        if isinstance(a, str) or isinstance(b, str):
            return a if a == b else "?"
        return If(c, a, b)

    def fresh_val(self, t, base="v"):
        if t is None or t.k == "int":
            return fint(base)
        if t.k == "real":
            return freal(base)
        if t.k == "cx":
            return Cx(freal(base + ".re"), freal(base + ".im"))
        if t.k == "ptr":
            return Poison(base)
        raise Undecided(f"fresh value of type {t}")

    logbase = [0]

    # ------------------------------------------------------------------ merging
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a.infeasible():
            return b
        if b.infeasible():
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or
                                                   (a.pc[n][0] == b.pc[n][0] and a.pc[n][1].eq(b.pc[n][1]))):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        ca, cb = And([f for k, f in ra if k == BR]), And([f for k, f in rb if k == BR])
        s = State()
        s.pc = a.pc[:n]
        full = Or(ca, cb)
        bra, brb = [f for k, f in ra if k == BR], [f for k, f in rb if k == BR]
        if not (bra and brb and len(bra) == 1 and len(brb) == 1 and Not(bra[0]).eq(brb[0])):
            if bra and brb and (Not(bra[0]).eq(brb[0]) or bra[0].eq(Not(brb[0]))):
                if len(bra) > 1 or len(brb) > 1:
                    s.pc.append((BR, full))
            elif bra and brb:
                s.pc.append((BR, full))
        for k, f in ra:
            if k == FACT:
                s.pc.append((FACT, Implies(ca, f)))
        for k, f in rb:
            if k == FACT:
                s.pc.append((FACT, Implies(cb, f)))
        c = ca
        for k in list(a.env.keys()):
            if k in b.env:
                va, vb = a.env[k], b.env[k]
                s.env[k] = va if va is vb else self.merge_val(c, va, vb)
        for r in set(a.mem) | set(b.mem):
            x, y = a.mem.get(r), b.mem.get(r)
            if x is None or y is None:
                s.mem[r] = x if y is None else y
            elif x is y or (isinstance(x, str) and x == y):
                s.mem[r] = x
            else:
                s.mem[r] = IteC(c, self.content(a, r), self.content(b, r))
        for r in set(a.inv) | set(b.inv):
            x, y = a.inv.get(r), b.inv.get(r)
            if x is None or y is None:
                s.inv[r] = x if y is None else y
            else:
                s.inv[r] = x if x is y else IteC(c, x, y)
        for k in set(a.fields) | set(b.fields):
            x, y = a.fields.get(k), b.fields.get(k)
            if x is None or y is None:
                s.fields[k] = x if y is None else y
            else:
                s.fields[k] = x if x is y else self.merge_val(c, x, y)
        for r in set(a.alive) | set(b.alive):
            x, y = a.alive.get(r), b.alive.get(r)
            fa = z3.BoolVal(False)
            if x is None:
                s.alive[r] = And(cb, y)
            elif y is None:
                s.alive[r] = And(ca, x)
            else:
                s.alive[r] = x if x.eq(y) else z3.If(c, x, y)
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            s.ghost[k] = x if y is None or x is y else (y if x is None else self.merge_val(c, x, y))
        if a.wlog is not None:
            m = 0
            while m < len(a.wlog) and m < len(b.wlog) and a.wlog[m] is b.wlog[m]:
                m += 1
            s.wlog = a.wlog + b.wlog[m:]
            m = 0
            while m < len(a.rlog) and m < len(b.rlog) and a.rlog[m] is b.rlog[m]:
                m += 1
            s.rlog = a.rlog + b.rlog[m:]
        s.atomic = a.atomic
        if a.ret is None and b.ret is None:
            s.ret = None
        elif a.ret is None or b.ret is None:
            s.ret = a.ret if b.ret is None else b.ret
        else:
            s.ret = a.ret if a.ret is b.ret else self.merge_val(c, a.ret, b.ret)
        s.log = a.log if a.log == b.log else (("?merge", a.log, b.log),)
        return s

    def merge_val(self, c, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            if isinstance(a, Poison) and isinstance(b, Poison):
                return a
            return b if isinstance(a, Poison) else a
        if is_ptr(a) or is_ptr(b):
            if not is_ptr(a) or not is_ptr(b):
                raise Undecided("merge of pointer and scalar")
            return merge_ptr(c, a, b)
        if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
            return a
        if isinstance(a, Content):
            return IteC(c, a, b)
        if not isinstance(a, Cx) and not isinstance(b, Cx):
            if z3.is_bool(a) and not z3.is_bool(b):
                a = self.as_int(a)
            if z3.is_bool(b) and not z3.is_bool(a):
                b = self.as_int(b)
        return If(c, a, b)

    def merge_outs(self, o1, o2):
        r = {}
        for k in (NORMAL, BREAK, CONT, RET):
            m = self.merge(o1.get(k), o2.get(k))
            if m is not None:
                r[k] = m
        return r

    # ------------------------------------------------------------------ statements
    def exec(self, node, st):
        """returns dict outcome-kind -> State"""
        k = node.get("kind")
        if k is None:
            return {NORMAL: st}
        ln = node.get("range", {}).get("begin", {}).get("line")
        if ln:
            self.cur_line = ln
        m = getattr(self, "s_" + k, None)
        try:
            if m is not None:
                return m(node, st)
            # expression statement
            self.ev(node, st)
            return {NORMAL: st}
        except Abort:
            return {}

    def s_CompoundStmt(self, n, st):
        outs = {}
        cur = st
        for c in n.get("inner", []):
            o = self.exec(c, cur)
            cur = o.pop(NORMAL, None)
            for k, s in o.items():
                outs[k] = self.merge(outs.get(k), s)
            if cur is None:
                break
        if cur is not None:
            outs[NORMAL] = cur
        return outs

    def s_NullStmt(self, n, st):
        return {NORMAL: st}

    def s_AttributedStmt(self, n, st):
        return self.exec(n["inner"][-1], st)

    def s_DeclStmt(self, n, st):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                self.declare(d, st)
        return {NORMAL: st}

    def declare(self, d, st):
        key = self.vkey(d["id"])
        self.names[(len(self.frames), d["name"])] = key
        q = d["type"].get("desugaredQualType", d["type"]["qualType"])
        t = self.ty(d)
        if t.k == "arr":
            n = self.array_extent(d, t, st)
            r = self.new_region(st, d["name"], t.to, shape=[n], content="fresh", kind="local")
            st.env[key] = Ptr(r, ety=t.to)
            inits = [c for c in d.get("inner", []) if c.get("kind") == "InitListExpr"]
            if inits:
                il = inits[0]
                vals = il.get("inner", [])
                st.mem[r] = Const(zero(t.to.k))
                for i, c in enumerate(vals):
                    if c.get("kind") == "ImplicitValueInitExpr":
                        continue
                    self.raw_store(st, r, [z3.IntVal(i)], self.ev(c, st))
            return
        if t.k == "struct":
            o = Obj(fresh_name(d["name"]), t.name)
            st.env[key] = o
            il = [c for c in d.get("inner", []) if c.get("kind") == "InitListExpr"]
            if il:
                fl = self.tu.records.get(t.name) or []
                vals = il[0].get("inner", [])
                for i, (f, q) in enumerate(fl):
                    ft = parse_type(q, self.tu)
                    if i < len(vals) and vals[i].get("kind") != "ImplicitValueInitExpr":
                        v = self.ev(vals[i], st)
                        st.fields[(o.name, f)] = v if is_ptr(v) else self.coerce(v, ft)
                    elif ft.k == "ptr":
                        st.fields[(o.name, f)] = NULL
                    elif ft.k in ("int", "real", "cx"):
                        st.fields[(o.name, f)] = zero(ft.k)
            elif d.get("init"):
                src = self.ev([c for c in d["inner"]][-1], st)
                if not isinstance(src, Obj):
                    raise Undecided("struct initialised from an expression")
                for (on, f), v in list(st.fields.items()):
                    if on == src.name:
                        st.fields[(o.name, f)] = v
            return
        init = [c for c in d.get("inner", []) if c.get("kind") not in ("FullComment",) and "Attr" not in c.get("kind", "Attr")]
        if d.get("init") and init:
            v = self.ev(init[-1], st)
        else:
            v = self.fresh_val(t, d["name"])
        if not isinstance(v, Poison):
            v = self.coerce(v, t)
        if d["id"] in self.addrtaken():
            r = self.new_region(st, d["name"], t, shape=[z3.IntVal(1)], content=Const(v) if not is_ptr(v) else None, kind="local")
            if is_ptr(v) or isinstance(v, Poison):
                st.fields[(r.name, "*")] = v
                r.ptrcell = True
            st.env[key] = ("cell", r, t)
        else:
            st.env[key] = v

    def coerce(self, v, t):
        if t.k == "int" and not is_ptr(v) and not isinstance(v, Cx):
            return self.as_int(v)
        if t.k == "cx" and not is_ptr(v):
            return tocx(v)
        return v

    def array_extent(self, d, t, st):
        s = t.n.strip()
        if re.fullmatch(r"\d+", s):
            return z3.IntVal(int(s))
        # variable length array: the extent expression is printed by clang in the type
        return self.parse_extent(s, st)

    def parse_extent(self, s, st):
        toks = re.findall(r"\d+|\w+|->|[()*+\-]", s)
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def nxt():
            pos[0] += 1
            return toks[pos[0] - 1]

        def atom():
            t = nxt()
            if t == "(":
                v = expr()
                nxt()
                return v
            if t.isdigit():
                return z3.IntVal(int(t))
            k = self.var_by_name(st, t)
            v = st.env[k]
            if isinstance(v, tuple) and v[0] == "cell":
                v = self.content(st, v[1]).read([z3.IntVal(0)])
            while peek() == "->":
                nxt()
                f = nxt()
                v = self.get_field(st, v, f)
            return v

        def term():
            v = atom()
            while peek() == "*":
                nxt()
                v = v * atom()
            return v

        def expr():
            v = term()
            while peek() in ("+", "-"):
                o = nxt()
                w = term()
                v = v + w if o == "+" else v - w
            return v
        try:
            return simp_int(expr())
        except (IndexError, KeyError, AttributeError):
            raise Undecided(f"array extent '{s}'")

    _addr = {}

    def addrtaken(self):
        fd = self.frames[-1][1]
        key = fd["id"] + fd["name"]
        if key not in Engine._addr:
            s = set()

            def walk(n):
                if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
                    x = n["inner"][0]
                    while x.get("kind") == "ParenExpr":
                        x = x["inner"][0]
                    if x.get("kind") == "DeclRefExpr":
                        s.add(x["referencedDecl"]["id"])
                for c in n.get("inner", []):
                    if isinstance(c, dict):
                        walk(c)
            walk(fd)
            Engine._addr[key] = s
        return Engine._addr[key]

    def s_ReturnStmt(self, n, st):
        if n.get("inner"):
            st.ret = self.ev(n["inner"][0], st)
        return {RET: st}

    def s_BreakStmt(self, n, st):
        return {BREAK: st}

    def s_ContinueStmt(self, n, st):
        return {CONT: st}

    def s_IfStmt(self, n, st):
        inner = n["inner"]
        c = self.as_bool(self.ev(inner[0], st))
        if z3.is_true(c):
            return self.exec(inner[1], st)
        if z3.is_false(c):
            return self.exec(inner[2], st) if len(inner) > 2 else {NORMAL: st}
        if self.split_syms and free_syms(c) and set(free_syms(c)) <= self.split_syms:
            # a condition over the parameters the contract distinguishes cases of
            if self.prove_now(st, c):
                return self.exec(inner[1], st)
            if self.prove_now(st, Not(c)):
                return self.exec(inner[2], st) if len(inner) > 2 else {NORMAL: st}
        s2 = st.clone()
        st.assume(c, BR)
        s2.assume(Not(c), BR)
        o1 = self.exec(inner[1], st)
        o2 = self.exec(inner[2], s2) if len(inner) > 2 else {NORMAL: s2}
        return self.merge_outs(o1, o2)

    def s_SwitchStmt(self, n, st):
        v = self.as_int(self.ev(n["inner"][0], st))
        if not z3.is_expr(v):
            raise Undecided(f"switch on {v!r}")
        body = n["inner"][-1]
        # flatten into list of (labels, stmt)
        items = []

        def flat(s, labels):
            if s["kind"] == "CaseStmt":
                val = self.ev(s["inner"][0], st)
                flat(s["inner"][-1], labels + [val])
            elif s["kind"] == "DefaultStmt":
                flat(s["inner"][-1], labels + ["default"])
            else:
                items.append((labels, s))
        for s in body.get("inner", []):
            flat(s, [])
        allv = [l for ls, _ in items for l in ls if not isinstance(l, str)]
        outs = {}
        starts = [(i, l) for i, (ls, _) in enumerate(items) for l in ls]
        conds = []
        hasdef = False
        for i, l in starts:
            if isinstance(l, str):
                hasdef = True
                c = And([v != x for x in allv])
            else:
                c = v == x if False else (v == l)
            conds.append((i, z3.simplify(c)))
        if not hasdef:
            conds.append((len(items), z3.simplify(And([v != x for x in allv]))))
        for i, c in conds:
            if z3.is_false(c):
                continue
            s = st.clone()
            s.assume(c, BR)
            cur = s
            o = {}
            for _, stm in items[i:]:
                oo = self.exec(stm, cur)
                cur = oo.pop(NORMAL, None)
                for k, x in oo.items():
                    o[k] = self.merge(o.get(k), x)
                if cur is None:
                    break
            if cur is not None:
                o[NORMAL] = cur
            b = o.pop(BREAK, None)
            if b is not None:
                o[NORMAL] = self.merge(o.get(NORMAL), b)
            outs = self.merge_outs(outs, o)
        return {k: s for k, s in outs.items() if s is not None}

    def s_DoStmt(self, n, st):
        body, cond = n["inner"][0], n["inner"][1]
        o = self.exec(body, st)
        s = self.merge(o.pop(NORMAL, None), o.pop(CONT, None))
        b = o.pop(BREAK, None)
        if s is not None:
            c = self.as_bool(self.ev(cond, s))
            if z3.is_false(c):
                o[NORMAL] = self.merge(s, b)
                return o
            import loops
            return loops.while_loop(self, n, cond, body, s, first=b, outs=o)
        if b is not None:
            o[NORMAL] = b
        return o

    def s_ForStmt(self, n, st):
        import loops
        return loops.for_loop(self, n, st, None)

    def s_WhileStmt(self, n, st):
        import loops
        return loops.while_loop(self, n, n["inner"][0], n["inner"][1], st)

    # OpenMP
    def omp_body(self, n):
        for c in n.get("inner", []):
            if c.get("kind") == "CapturedStmt":
                x = c["inner"][0]
                if x.get("kind") == "CapturedDecl":
                    x = x["inner"][0]
                return x
        # atomic/critical have associated stmts possibly without capture
        return n["inner"][-1]

    def omp_for(self, n, st):
        import loops
        return loops.for_loop(self, self.omp_body(n), st, self.tu.pragma_text(n))

    s_OMPParallelForDirective = omp_for
    s_OMPParallelForSimdDirective = omp_for
    s_OMPForDirective = omp_for

    par_entry = None      # what existed when the current parallel region was entered

    def s_OMPParallelDirective(self, n, st):
        """Every thread executes the block; its worksharing loops distribute their iterations.  The block is executed once;
        statements outside of worksharing loops may not change anything that existed before the region."""
        b = self.omp_body(n)
        if b.get("kind") != "CompoundStmt" or self.par_entry is not None:
            raise Undecided("nested parallel region")
        clauses = self.tu.pragma_text(n)
        if re.search(r"\b(private|firstprivate|reduction|lastprivate)\s*\(", clauses):
            raise Undecided("data-sharing clauses of a parallel region")
        self.par_entry = set(st.alive) | set(st.mem)
        vars0 = set(st.env)
        try:
            cur = st
            for c in b.get("inner", []):
                before = cur.clone()
                outs = self.exec(c, cur)
                cur = outs.pop(NORMAL, None)
                if outs or cur is None:
                    raise Undecided("exit from a parallel region")
                if c.get("kind", "").startswith("OMPFor"):
                    continue
                same = all(cur.env.get(v) is before.env.get(v) for v in vars0) and \
                    all(cur.mem.get(r) is before.mem.get(r) and cur.alive.get(r) is before.alive.get(r) for r in self.par_entry) and \
                    all(cur.fields.get(kf) is x for kf, x in before.fields.items() if kf[0] in self.par_entry)
                if not same:
                    self.oblige(cur, "race", "code executed by every thread does not change shared data", z3.BoolVal(False))
        finally:
            self.par_entry = None
        for v in set(cur.env) - vars0:
            del cur.env[v]
        return {NORMAL: cur}

    def s_OMPSimdDirective(self, n, st):
        b = self.omp_body(n)
        return self.exec(b, st)

    def s_OMPAtomicDirective(self, n, st):
        old, st.atomic = st.atomic, True
        o = self.exec(self.omp_body(n), st)
        for s in o.values():
            s.atomic = old
        return o

    s_OMPCriticalDirective = s_OMPAtomicDirective

    def s_OMPBarrierDirective(self, n, st):
        return {NORMAL: st}

    # ------------------------------------------------------------------ lvalues
    def lv(self, n, st):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lv(n["inner"][0], st)
        if k == "DeclRefExpr":
            ref = n["referencedDecl"]
            key = self.lookup(st, ref)
            if key is not None:
                v = st.env[key]
                if isinstance(v, tuple) and v[0] == "cell":
                    return ("mem", Ptr(v[1], ety=v[2]), v[2])
                if isinstance(v, Ptr) and self.ty(n).k == "arr":
                    return ("arr", v)
                if isinstance(v, Obj) and self.ty(n).k == "struct":
                    return ("obj", v)
                return ("var", key, self.ty(n))
            return ("glob", ref["name"], self.ty(n))
        if k == "ArraySubscriptExpr":
            b = self.ev(n["inner"][0], st)
            i = self.as_int(self.ev(n["inner"][1], st))
            return self.deref_lv(self.padd(b, i, st, n), self.ty(n), st)
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref_lv(self.ev(n["inner"][0], st), self.ty(n), st)
        if k == "MemberExpr":
            if n.get("isArrow"):
                o = self.ev(n["inner"][0], st)
            else:
                x = self.lv(n["inner"][0], st)
                o = x[1]
            if isinstance(o, Ptr) and o.reg is not None and o.reg.ety is None:
                raise Undecided("member access through an untyped block")
            return ("field", o, n["name"], self.ty(n))
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lv(n["inner"][0], st)
        raise Undecided(f"lvalue {k}")

    def first_field(self, tname):
        return ("matrix_type", INT) if tname.startswith("bml_matrix_") and "dim" not in tname else None

    def deref_lv(self, p, t, st):
        if isinstance(p, Poison):
            raise Undecided("dereference of an uninitialised pointer")
        if isinstance(p, Obj):
            if t.k in ("int", "named"):
                # first member of a matrix struct read through an enum pointer (bml_get_type)
                fs = self.first_field(p.tname)
                if fs is None:
                    raise Undecided(f"scalar access to struct {p.tname}")
                return ("field", p, fs[0], fs[1])
            return ("obj", p)
        if t.k == "ptr" and isinstance(p, Ptr) and getattr(p.reg, "ptrcell", False):
            return ("pcell", p.reg)
        return ("mem", p, t)

    def rd(self, l, st, n=None):
        if l[0] == "var":
            return st.env[l[1]]
        if l[0] == "mem":
            if l[2].k == "ptr" and isinstance(l[1], Ptr) and getattr(l[1].reg, "ptrcell", False):
                return st.fields[(l[1].reg.name, "*")]
            if l[2].k in ("ptr", "struct") and isinstance(l[1], Ptr) and l[1].reg is not None and hasattr(l[1].reg, "elemptr"):
                return self.load_elemptr(st, l[1])
            if l[2].k == "ptr" and isinstance(l[1], Ptr) and getattr(l[1].reg, "slots", None):
                return l[1].reg.slots.dec(self, self.load(st, l[1], l[1].reg.ety))
            if l[2].k == "ptr" and isinstance(l[1], PIte):
                r = None
                for g, q in reversed(l[1].alts):
                    if q.reg is None:
                        self.oblige(st, "memory", "no null pointer dereference", Not(g))
                        continue
                    x = self.rd(("mem", q, l[2]), st)
                    r = x if r is None else merge_ptr(g, x, r)
                return r
            return self.load(st, l[1], l[2])
        if l[0] == "field":
            return self.get_field(st, l[1], l[2], l[3])
        if l[0] == "arr":
            return l[1]
        if l[0] == "obj":
            return l[1]
        if l[0] == "pcell":
            return st.fields[(l[1].name, "*")]
        if l[0] == "glob":
            return self.global_value(l[1], st)
        raise Undecided(f"read of {l[0]}")

    def load_elemptr(self, st, p):
        """array of pointers: element pointer is a family member"""
        r, loc = self.locate(st, p, "read")
        return r.elemptr(self, st, loc)

    def wr(self, l, v, st):
        if l[0] == "var":
            st.env[l[1]] = self.coerce(v, l[2]) if not isinstance(v, Poison) else v
            return
        if l[0] == "mem":
            if l[2].k == "ptr" and isinstance(l[1], Ptr) and getattr(l[1].reg, "ptrcell", False):
                st.fields[(l[1].reg.name, "*")] = v
                return
            if isinstance(l[1], Ptr) and l[1].reg is not None and hasattr(l[1].reg, "elemptr"):
                r, loc = self.locate(st, l[1], "write")
                return r.elemset(self, st, loc, v)
            if l[2].k == "ptr" and isinstance(l[1], Ptr) and getattr(l[1].reg, "slots", None):
                return self.store(st, l[1], l[1].reg.slots.enc(self, v), l[1].reg.ety)
            return self.store(st, l[1], v, l[2])
        if l[0] == "field":
            return self.set_field(st, l[1], l[2], v, l[3])
        if l[0] == "pcell":
            st.fields[(l[1].name, "*")] = v
            return
        raise Undecided(f"write to {l[0]}")

    def get_field(self, st, o, f, t=None):
        if isinstance(o, PIte):
            r = None
            for g, q in reversed(o.alts):
                if isinstance(q, Ptr) and q.reg is None:
                    self.oblige(st, "memory", "no null pointer dereference", Not(g))
                    continue
                st.pc.append((BR, g))
                x = self.get_field(st, q, f, t)
                st.pc.pop()
                r = x if r is None else self.ite(g, x, r)
            if r is None:
                raise Undecided("field of null")
            return r
        if isinstance(o, Poison):
            raise Undecided("field of an uninitialised pointer")
        if not isinstance(o, Obj):
            if isinstance(o, Ptr) and o.reg is None:
                self.oblige(st, "memory", "no null pointer dereference", z3.BoolVal(False))
                raise Abort()
            if isinstance(o, Ptr) and getattr(o.reg, "asobj", None):
                o = o.reg.asobj
            else:
                raise Undecided(f"field {f} of a non-struct pointer {o}")
        al = st.alive.get(o.name)
        if al is not None and not z3.is_true(al):
            self.oblige(st, "memory", f"use of live object", al)
        fam = self.families.get(o.name)
        if fam is not None:
            return fam.get(self, st, o, f)
        v = st.fields.get((o.name, f))
        if v is None:
            if t is None or t.k == "struct":
                raise Undecided(f"unset field {f} of {o}")
            v = self.fresh_val(t, f"{o.name}.{f}")
            st.fields[(o.name, f)] = v
        return v

    families = {}

    def set_field(self, st, o, f, v, t=None):
        if isinstance(o, PIte):
            raise Undecided("field write through a conditional pointer")
        if isinstance(o, Ptr) and o.reg is None:
            self.oblige(st, "memory", "no null pointer dereference", z3.BoolVal(False))
            raise Abort()
        if not isinstance(o, Obj):
            raise Undecided(f"field write to a non-struct pointer")
        fam = self.families.get(o.name)
        if fam is not None:
            return fam.set(self, st, o, f, v)
        if o.name in self.frozen:
            self.oblige(st, "frame", f"field {f} of an input object is not changed", z3.BoolVal(False))
        if isinstance(v, Ptr) and v.reg is not None and v.reg.kind == "heap":
            self.field_hint(st, o, f, v)
        st.fields[(o.name, f)] = self.coerce(v, t) if t is not None and not isinstance(v, Poison) else v
        if st.wlog is not None:
            st.wlog.append(Rec(("field", o.name, f), [], st.guard_since(self.logbase[-1]), list(o.idx), v, st.atomic))

    frozen = frozenset()

    def field_hint(self, st, o, f, v):
        tn = o.tname
        if tn == "bml_matrix_ellpack_t" and f in ("value", "index"):
            M = st.fields.get((o.name, "M"))
            if M is not None and len(poly(M)) == 1:
                (m, c), = poly(M).items()
                if len(m) == 1:
                    v.reg.hint = m[0]
        if v.reg.ety is None:
            t = dict(self.tu.records.get(tn, [])).get(f)
            if t:
                t = parse_type(t, self.tu)
                if t.k == "ptr" and t.to.k in ("int", "real", "cx"):
                    self.set_type(st, v.reg, t.to)

    def global_value(self, name, st):
        d = self.tu.globals.get(name)
        if d is None:
            # maybe an extern defined elsewhere
            return fint("glob_" + name)
        key = ("glob", name)
        if key in st.fields:
            return st.fields[key]
        # never assigned in this translation unit -> initial value
        if d.get("init") and not self.assigned_in_tu(name):
            return self.ev([c for c in d["inner"]][-1], st)
        t = self.ty(d)
        v = self.fresh_val(t, "glob_" + name)
        st.fields[key] = v
        return v

    _assigned = {}

    def assigned_in_tu(self, name):
        tu = self.tu
        key = (tu.path, tu.prec)
        if key not in Engine._assigned:
            s = set()

            def walk(n):
                kk = n.get("kind")
                if kk in ("BinaryOperator", "CompoundAssignOperator") and (n.get("opcode", "").endswith("=") and
                                                                           n["opcode"] not in ("==", "!=", "<=", ">=")):
                    x = n["inner"][0]
                    while x.get("kind") in ("ParenExpr", "ArraySubscriptExpr", "ImplicitCastExpr"):
                        x = x["inner"][0]
                    if x.get("kind") == "DeclRefExpr":
                        s.add(x["referencedDecl"]["name"])
                if kk == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
                    x = n["inner"][0]
                    if x.get("kind") == "DeclRefExpr":
                        s.add(x["referencedDecl"]["name"])
                for c in n.get("inner", []):
                    if isinstance(c, dict):
                        walk(c)
            for f in tu.funcs.values():
                walk(f)
            Engine._assigned[key] = s
        return name in Engine._assigned[key]

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + n["kind"], None)
        if m is None:
            raise Undecided(f"expression {n['kind']}")
        return m(n, st)

    def e_ParenExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, n, st):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n, st):
        return z3.IntVal(int(n["value"]))

    def e_FloatingLiteral(self, n, st):
        from fractions import Fraction
        v = n["value"]
        if "inf" in v or "nan" in v:
            return freal("inf")
        return z3.RealVal(Fraction(v))

    def e_ImaginaryLiteral(self, n, st):
        return Cx(R0, self.ev(n["inner"][0], st))

    def e_StringLiteral(self, n, st):
        return StrV(n.get("value", ""))

    def e_PredefinedExpr(self, n, st):
        return StrV("func")

    def e_DeclRefExpr(self, n, st):
        ref = n["referencedDecl"]
        if ref["kind"] == "EnumConstantDecl":
            return z3.IntVal(self.tu.enums[ref["name"]])
        if ref["kind"] == "FunctionDecl":
            return FnV(ref["name"])
        return self.rd(self.lv(n, st), st)

    def e_MemberExpr(self, n, st):
        return self.rd(self.lv(n, st), st)

    def e_ArraySubscriptExpr(self, n, st):
        return self.rd(self.lv(n, st), st)

    def e_ImplicitCastExpr(self, n, st):
        ck = n["castKind"]
        x = n["inner"][0]
        while x.get("kind") == "UnaryOperator" and x.get("opcode") == "__extension__":
            x = x["inner"][0]
        if ck in ("LValueToRValue",):
            return self.rd(self.lv(x, st), st)
        if ck in ("ArrayToPointerDecay",):
            if x["kind"] in ("StringLiteral", "PredefinedExpr") or x["kind"] == "ParenExpr":
                return self.ev(x, st)
            l = self.lv(x, st)
            if l[0] == "arr":
                return l[1]
            if l[0] == "field":
                return self.get_field(st, l[1], l[2], l[3])
            if l[0] == "glob":
                return StrV(l[1])
            raise Undecided("array decay")
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(x, st)
        v = self.ev(x, st)
        return self.cast(v, ck, self.ty(n), self.ty(x), st, n)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def cast(self, v, ck, to, frm, st, n):
        if ck in ("NoOp", "LValueBitCast", "ToVoid"):
            if ck == "LValueBitCast":
                raise Undecided("lvalue bit cast")
            return v
        if ck == "NullToPointer":
            return NULL
        if ck == "BitCast":
            if isinstance(v, Ptr):
                if v.reg is not None and to.k == "ptr":
                    return self.retype(v, to.to, st)
            return v
        if ck == "IntegralCast":
            return self.as_int(v)
        if ck in ("IntegralToFloating", "IntegralToFloatingComplex"):
            v = self.as_int(v)
            return z3.RealVal(num(v)) if is_num(v) else z3.ToReal(v)
        if ck == "IntegralRealToComplex":
            v = self.as_int(v)
            return tocx(z3.RealVal(num(v)) if is_num(v) else z3.ToReal(v))
        if ck == "FloatingRealToComplex":
            return tocx(v)
        if ck in ("FloatingCast", "FloatingComplexCast"):
            if to.bits == 32 and frm.bits == 64 and self.narrowing_matters():
                if isinstance(v, Cx):
                    return Cx(self.rnd(v.re), self.rnd(v.im))
                return self.rnd(v)
            return v
        if ck == "FloatingComplexToReal":
            return vre(v)
        if ck == "FloatingToIntegral":
            if is_num(v):
                return z3.IntVal(int(num(v)))
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return terms_trunc(v)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "FloatingComplexToBoolean"):
            return self.as_bool(v)
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            raise Undecided(ck)
        raise Undecided(f"cast {ck}")

    def rnd(self, v):
        if is_num(v):
            f = num(v)
            import struct
            try:
                if struct.unpack("f", struct.pack("f", float(f)))[0] == f:
                    return v
            except OverflowError:
                pass
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v
        from terms import _rnd32
        return _rnd32(v)

    def retype(self, p, to, st):
        """A pointer cast: fixes the element type of fresh allocations."""
        r = p.reg
        if isinstance(p, Ptr) and r.ety is None and getattr(r, "asobj", None) is None:
            if to.k in ("int", "real", "cx"):
                if r.size is None and r.bytes is not None:
                    pass
                self.set_type(st, r, to)
            elif to.k in ("struct", "named"):
                return self.to_object(st, p, to)
            elif to.k == "ptr":
                return self.to_ptrarray(st, p, to)
        elif getattr(r, "asobj", None) is not None and to.k in ("struct", "named"):
            return r.asobj
        return Ptr(r, p.idx, p.off, to, p.gen)

    def set_type(self, st, r, t):
        r.ety = t
        sz = sizeof(t)
        bp = poly(r.bytes)
        q = {}
        for m, c in bp.items():
            if c % sz:
                self.oblige(st, "memory", f"allocation size of {self.rname(r)} is a multiple of its element size {t}",
                            z3.BoolVal(False))
                q[m] = c // sz
            else:
                q[m] = c // sz
        r.size = poly_term(q)

    def to_object(self, st, p, to):
        name = to.name
        if name.startswith("struct "):
            name = name[7:]
        bp = poly(p.reg.bytes)
        want = poly(self.sizeof_struct(name))
        if padd(bp, want, -1):
            # array of structs or wrong size
            fs = {f: parse_type(q, self.tu) for f, q in self.tu.records.get(name, [])}
            if fs and all(t.k == "int" or t.k == "ptr" and t.to.k in ("struct", "named") and (t.to.name or "").replace("struct ", "") == name for t in fs.values()):
                (sym, one), = want.items()
                if all(sym[0] in m and sum(x == sym[0] for x in m) == 1 for m in bp):
                    fam = family.SlotFamily(self, st, p.reg.name, poly_term({tuple(x for x in m if x != sym[0]): c for m, c in bp.items()}), name,
                                            [f for f, t in fs.items() if t.k == "int"], [f for f, t in fs.items() if t.k == "ptr"])
                    self.families[fam.name] = fam
                    p.reg.asobj = fam.obj(z3.IntVal(0))
                    st.ghost.setdefault(("objreg", fam.name), ("reg", p.reg))
                    return p.reg.asobj
            if any(m for m in bp if len(m) > 1):
                raise Undecided(f"array of {name}")
            self.oblige(st, "memory", f"allocation of a {name} has the size of that type", z3.BoolVal(False))
        o = Obj(p.reg.name, name)
        p.reg.asobj = o
        if st.mem.get(p.reg) == "zero":
            for f, q in self.tu.records.get(name, []):
                t = parse_type(q, self.tu)
                if t.k == "ptr":
                    st.fields[(o.name, f)] = NULL
                elif t.k in ("int", "real", "cx"):
                    st.fields[(o.name, f)] = zero(t.k)
        st.alive[o.name] = st.alive.get(p.reg, z3.BoolVal(True))
        st.ghost.setdefault(("objreg", o.name), ("reg", p.reg))
        return o

    def to_ptrarray(self, st, p, to):
        r = p.reg
        if to.to.k in ("struct", "named"):
            nm = (to.to.name or "").replace("struct ", "")
            fs = {f: parse_type(q, self.tu) for f, q in self.tu.records.get(nm, [])}
            if any(t.k == "ptr" and t.to.k in ("struct", "named") and (t.to.name or "").replace("struct ", "") == nm for t in fs.values()):
                # pointers to elements of one array, as indices
                self.set_type(st, r, family.PLONG)
                r.slots = family.SlotRef(tname=nm)
                st.mem[r], st.inv[r] = Fresh(r.name, "int"), Fresh(r.name + "#inv", "int")
                return Ptr(r, p.idx, p.off, to, p.gen)
        self.set_type(st, r, to)
        st.mem[r] = Const(Poison("row pointer"))
        return Ptr(r, p.idx, p.off, to, p.gen)

    def sizeof_struct(self, name):
        if name not in self.sizeconsts:
            self.sizeconsts[name] = z3.Int("sizeof!" + name)
        return self.sizeconsts[name]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if "argType" in n:
            q = n["argType"].get("desugaredQualType", n["argType"]["qualType"])
            t = parse_type(q, self.tu)
            if t.k == "named":
                t = parse_type(n["argType"]["qualType"], self.tu)
        else:
            x = n["inner"][0]
            t = self.ty(x)
            q = x["type"]["qualType"]
        if t.k == "struct":
            return self.sizeof_struct(t.name)
        if t.k == "arr":
            e = sizeof(t.to)
            return z3.IntVal(int(t.n) * e)
        s = sizeof(t, q)
        if s is None:
            if t.k == "named":
                return self.sizeof_struct(t.name)
            raise Undecided(f"sizeof {t}")
        return z3.IntVal(s)

    def padd(self, p, i, st, n):
        if isinstance(p, Poison):
            raise Undecided("arithmetic on an uninitialised pointer")
        if isinstance(p, PIte):
            return PIte([(g, self.padd(q, i, st, n)) for g, q in p.alts])
        if isinstance(p, Ptr):
            if p.reg is None:
                return p
            # pointer type at this point decides the element size
            return Ptr(p.reg, p.idx, simp_int(p.off + i), p.ety, p.gen)
        if isinstance(p, Obj):
            if is_num(i) and num(i) == 0:
                return p
            fam = self.families.get(p.name)
            if isinstance(fam, family.SlotFamily):
                return fam.obj(simp_int(p.idx[0] + i))
            raise Undecided("array of structs")
        raise Undecided(f"pointer arithmetic on {p}")

    def voidarith(self, n, st):
        t = self.ty(n)
        return t.k == "ptr" and t.to.k == "void"

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "&":
            y = x
            while y["kind"] == "ParenExpr":
                y = y["inner"][0]
            if y["kind"] == "UnaryOperator" and y["opcode"] == "*":
                return self.ev(y["inner"][0], st)
            if y["kind"] == "ArraySubscriptExpr":
                b = self.ev(y["inner"][0], st)
                i = self.as_int(self.ev(y["inner"][1], st))
                return self.padd(b, i, st, n)
            l = self.lv(y, st)
            if l[0] == "mem":
                return l[1]
            if l[0] == "obj":
                return l[1]
            if l[0] == "arr":
                return l[1]
            if l[0] == "field":
                return self.addr_field(st, l)
            if l[0] == "pcell":
                return Ptr(l[1], ety=T("ptr"))
            raise Undecided(f"address of {l[0]}")
        if op == "*":
            return self.rd(self.lv(n, st), st)
        if op in ("++", "--"):
            l = self.lv(x, st)
            v = self.rd(l, st)
            d = 1 if op == "++" else -1
            if is_ptr(v):
                nv = self.padd(v, z3.IntVal(d), st, n)
            elif z3.is_int(self.as_int(v)):
                nv = simp_int(self.as_int(v) + d)
            else:
                nv = vadd(v, z3.RealVal(d))
            self.wr(l, nv, st)
            return v if n.get("isPostfix") else nv
        v = self.ev(x, st)
        if op == "-":
            if isinstance(v, Cx) or z3.is_real(v):
                return vneg(v)
            return simp_int(-self.as_int(v))
        if op == "+":
            return v
        if op == "!":
            return Not(self.as_bool(v))
        if op == "__extension__":
            return v
        if op == "__real":
            return vre(v)
        if op == "__imag":
            return vim(v)
        if op == "~":
            if self.ty(n).k == "cx":
                return vconj(v)
            return simp_int(-self.as_int(v) - 1)
        raise Undecided(f"unary {op}")

    def addr_field(self, st, l):
        o, f, t = l[1], l[2], l[3]
        if isinstance(o, PIte):
            for g, q in o.alts:
                if isinstance(q, Ptr) and q.reg is None:
                    self.oblige(st, "memory", "no null pointer dereference", Not(g))
            rest = [q for g, q in o.alts if not (isinstance(q, Ptr) and q.reg is None)]
            if len(rest) == 1:
                o = rest[0]
        if not isinstance(o, Obj) or t.k not in ("int", "real", "cx"):
            raise Undecided("address of a struct field")
        r = Region(f"&{o.name}.{f}", t, [z3.IntVal(1)], kind="field")
        r.fieldref = (o, f)
        return Ptr(r, ety=t)

    def arith(self, op, a, b, st, n, t=None):
        if op in ("&&", "||"):
            raise AssertionError
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Undecided("uninitialised pointer used")
        if op in ("==", "!="):
            if is_ptr(a) or is_ptr(b):
                if not is_ptr(a):
                    a = NULL
                if not is_ptr(b):
                    b = NULL
                r = self.ptr_eq(a, b)
            else:
                if z3.is_expr(a) and z3.is_bool(a):
                    a = self.as_int(a)
                if z3.is_expr(b) and z3.is_bool(b):
                    b = self.as_int(b)
                if not isinstance(a, Cx) and not isinstance(b, Cx) and is_num(a) and is_num(b):
                    r = z3.BoolVal(num(a) == num(b))
                elif not isinstance(a, Cx) and not isinstance(b, Cx) and z3.is_int(a) and z3.is_int(b) and pdiff_const(a, b) is not None:
                    r = z3.BoolVal(pdiff_const(a, b) == 0)
                else:
                    r = veq(a, b)
            return r if op == "==" else Not(r)
        if is_ptr(a) or is_ptr(b):
            if op == "+":
                if self.voidarith(n, st):
                    return self.byte_add(a if is_ptr(a) else b, b if is_ptr(a) else a, st, n)
                return self.padd(a, self.as_int(b), st, n) if is_ptr(a) else self.padd(b, self.as_int(a), st, n)
            if op == "-" and not is_ptr(b):
                return self.padd(a, -self.as_int(b), st, n)
            if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
                return simp_int(a.off - b.off)
            raise Undecided(f"pointer operation {op}")
        if isinstance(a, Cx) or isinstance(b, Cx) or z3.is_real(a) or z3.is_real(b):
            if op == "+":
                return vadd(a, b)
            if op == "-":
                return vsub(a, b)
            if op == "*":
                return vmul(a, b)
            if op == "/":
                return vdiv(a, b)
            if isinstance(a, Cx) or isinstance(b, Cx):
                raise Undecided(f"complex {op}")
            if is_num(a) and is_num(b):
                x, y = num(a), num(b)
                return z3.BoolVal({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        a, b = self.as_int(a), self.as_int(b)
        if op == "+":
            return simp_int(a + b)
        if op == "-":
            return simp_int(a - b)
        if op == "*":
            return simp_int(a * b)
        if op in ("/", "%"):
            if is_num(a) and is_num(b) and num(b) != 0:
                x, y = num(a), num(b)
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return z3.IntVal(q if op == "/" else x - q * y)
            self.oblige(st, "arith", "no division by zero", b != 0)
            q, r = self.idiv(a, b, st)
            return q if op == "/" else r
        if op in ("<", "<=", ">", ">="):
            d = pdiff_const(a, b)
            if d is not None:
                return z3.BoolVal({"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[op])
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if op in ("&", "|", "^", "<<", ">>"):
            return self.bitop(op, a, b, st)
        raise Undecided(f"operator {op}")

    def idiv(self, a, b, st):
        q = _idiv(a, b)
        r = simp_int(a - b * q)
        # C semantics for a truncating division, nonnegative operands are what the code uses
        st.assume(z3.Implies(And(b > 0, a >= 0), And(q * b <= a, a < q * b + b, q >= 0)))
        st.assume(z3.Implies(And(b > 0, a < 0), And(q * b >= a, q * b < a + b, q <= 0)))
        return q, r

    def bitop(self, op, a, b, st):
        if is_num(a) and is_num(b):
            x, y = num(a), num(b)
            return z3.IntVal({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
        if op == "<<" and is_num(b):
            return simp_int(a * (2 ** num(b)))
        f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], z3.IntSort(),
                        z3.IntSort(), z3.IntSort())
        r = f(a, b)
        if op == "&":
            st.assume(Implies(b >= 0, And(r >= 0, r <= b)))
        return r

    def byte_add(self, p, i, st, n):
        """arithmetic on void*: byte offsets"""
        if isinstance(p, Ptr) and p.reg is not None and p.reg.ety is not None:
            if is_num(i) and num(i) == 0:
                return p
            sz = sizeof(p.reg.ety)
            bp = poly(self.as_int(i))
            if all(c % sz == 0 for c in bp.values()):
                return Ptr(p.reg, p.idx, simp_int(p.off + poly_term({m: c // sz for m, c in bp.items()})), p.ety, p.gen)
            if self.prove_now(st, self.as_int(i) == 0):
                return p
            q = fint("byteoff")
            self.oblige(st, "memory", "byte offset on void* is a whole number of elements", z3.BoolVal(False))
            return Ptr(p.reg, p.idx, q, p.ety, p.gen)
        raise Undecided("void pointer arithmetic")

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        if op == "=":
            v = self.ev(n["inner"][1], st)
            l = self.lv(n["inner"][0], st)
            self.wr(l, v, st)
            return v
        if op == ",":
            self.ev(n["inner"][0], st)
            return self.ev(n["inner"][1], st)
        if op in ("&&", "||"):
            a = self.as_bool(self.ev(n["inner"][0], st))
            if z3.is_true(a):
                return self.as_bool(self.ev(n["inner"][1], st)) if op == "&&" else a
            if z3.is_false(a):
                return a if op == "&&" else self.as_bool(self.ev(n["inner"][1], st))
            mark = len(st.pc)
            st.pc.append((BR, a if op == "&&" else Not(a)))
            gen = st.pc[mark]
            b = self.as_bool(self.ev(n["inner"][1], st))
            # drop the short-circuit guard, keep facts (weakened)
            rest = st.pc[mark + 1:]
            st.pc = st.pc[:mark] + [(k, Implies(gen[1], f)) for k, f in rest]
            return And(a, b) if op == "&&" else Or(a, b)
        a = self.ev(n["inner"][0], st)
        b = self.ev(n["inner"][1], st)
        return self.arith(op, a, b, st, n)

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        b = self.ev(n["inner"][1], st)
        l = self.lv(n["inner"][0], st)
        a = self.rd(l, st)
        t = self.ty(n["inner"][0])
        if not is_ptr(a) and t.k == "int" and not isinstance(b, Cx) and z3.is_real(b):
            a2 = z3.ToReal(self.as_int(a))
            v = terms_trunc(self.arith(op, a2, b, st, n))
        else:
            v = self.arith(op, a, self.as_int(b) if z3.is_expr(b) and z3.is_bool(b) else b, st, n)
            if t.k == "real" and isinstance(v, Cx):
                v = v.re
        if t.k == "real" and t.bits == 32 and self.narrowing_matters():
            ct = n.get("computeLHSType", {}).get("qualType", "")
            if "double" in ct:
                v = self.rnd(v)
        self.wr(l, v, st)
        return v

    def e_ConditionalOperator(self, n, st):
        c = self.as_bool(self.ev(n["inner"][0], st))
        if z3.is_true(c):
            return self.ev(n["inner"][1], st)
        if z3.is_false(c):
            return self.ev(n["inner"][2], st)
        # both sides evaluated under their guard; side effects are rejected
        def side(x, g):
            mark = len(st.pc)
            env0, mem0 = dict(st.env), dict(st.mem)
            st.pc.append((BR, g))
            try:
                v = self.ev(x, st)
            except Abort:
                # this side ends in the error exit: only the other side continues
                st.pc = st.pc[:mark] + [(FACT if self.prove_now(self._upto(st, mark), Not(g)) else BR, Not(g))]
                return None
            rest = st.pc[mark + 1:]
            st.pc = st.pc[:mark] + [(k, Implies(g, f)) for k, f in rest]
            if any(st.env.get(k) is not v0 for k, v0 in env0.items()):
                raise Undecided("side effect in conditional expression")
            return v
        a = side(n["inner"][1], c)
        b = side(n["inner"][2], Not(c))
        if a is None and b is None:
            raise Abort()
        if a is None or b is None:
            return a if b is None else b
        return self.ite(c, a, b)

    def _upto(self, st, mark):
        s = st.clone()
        s.pc = s.pc[:mark]
        return s

    def e_InitListExpr(self, n, st):
        if len(n.get("inner", [])) == 1:
            return self.ev(n["inner"][0], st)
        raise Undecided("initialiser list")

    def e_StmtExpr(self, n, st):
        raise Undecided("statement expression")

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, n, st):
        f = self.ev(n["inner"][0], st)
        if not isinstance(f, FnV):
            raise Undecided("indirect call")
        args = [self.ev(a, st) for a in n["inner"][1:]]
        return self.call(f.name, args, st, n)

    def call(self, name, args, st, n=None):
        import models
        stem, prec = name, None
        for q in PRECS:
            if name.endswith("_" + q):
                stem, prec = name[:-len(q) - 1], q
        h = models.lookup(self, name, stem)
        if h is not None:
            self.models_used.add(name)
            return h(self, st, args, n)
        if self.hook is not None:
            r = self.hook(self, name, stem, prec, args, st, n)
            if r is not NotImplemented:
                return r
        c = self.contracts.get(stem) if self.contracts else None
        if c is not None and not (name == self.root and self.depth == 0 and len(self.frames) == 0):
            r = c.apply(self, st, args, prec, name)
            if r is not NotImplemented:
                self.used_contracts.add(stem)
                return r
        return self.inline(name, args, st, n)

    hook = None

    def inline(self, name, args, st, n=None):
        tu, fd = cfront.find_function(name, near=self.frames[-1][0] if self.frames else None)
        if fd is None:
            raise Undecided(f"call of {name}, which has neither a body nor a contract")
        if len(self.frames) > 14 or sum(1 for f in self.frames if f[1]["name"] == name) > 1:
            raise Undecided(f"recursion through {name}")
        if name != self.root:
            self.inlined.add(name)
        cc = (self.frames[-1][2] if self.frames else ()) + ((n or {}).get("id", name),)
        self.frames.append((tu, fd, cc))
        saved_prec = self.prec
        if tu.prec:
            self.prec = tu.prec
        params = [c for c in fd["inner"] if c["kind"] == "ParmVarDecl"]
        body = [c for c in fd["inner"] if c["kind"] == "CompoundStmt"][0]
        at = self.addrtaken()
        for p, a in zip(params, args):
            t = self.ty(p)
            key = self.vkey(p["id"])
            self.names[(len(self.frames), p.get("name", "_"))] = key
            if not is_ptr(a) and not isinstance(a, (Poison, StrV, FnV)):
                a = self.coerce(a, t)
            elif isinstance(a, Ptr) and a.reg is not None and t.k == "ptr" and a.reg.ety is None and t.to.k in ("int", "real", "cx"):
                a = self.retype(a, t.to, st)
            if p["id"] in at:
                r = self.new_region(st, p["name"], t, shape=[z3.IntVal(1)],
                                    content=Const(a) if not is_ptr(a) else None, kind="local")
                if is_ptr(a):
                    st.fields[(r.name, "*")] = a
                    r.ptrcell = True
                st.env[key] = ("cell", r, t)
            else:
                st.env[key] = a
        st.ret = None
        d = len(self.frames)
        outs = self.exec(body, st)
        self.frames.pop()
        self.prec = saved_prec
        final = self.merge(outs.get(NORMAL), outs.get(RET))
        if final is None:
            raise Abort()
        # write the merged state back into st (callers hold a reference to st)
        for k in [k for k in final.env if isinstance(k, tuple) and k[0] == d]:
            del final.env[k]
        st.__dict__.update(final.__dict__)
        rv = st.ret
        st.ret = None
        return rv if rv is not None else VOIDV


class Poison:
    def __init__(self, name="?"):
        self.name = name


class StrV:
    def __init__(self, s):
        self.s = s


class FnV:
    def __init__(self, name):
        self.name = name


VOIDV = StrV("void")

_idiv = z3.Function("cdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())


def terms_trunc(v):
    from terms import _trunc
    return _trunc(v)


def terms_atom(i):
    from terms import _atoms
    return _atoms[i]


def split_stride(off, S):
    """off = row*S + col by polynomial division with the atom (or numeral) S."""
    p = poly(off)
    if is_num(S):
        s = num(S)
        row, col = {}, {}
        for m, c in p.items():
            q, r = (c // s, c % s) if m != () or True else (0, c)
            if q:
                row[m] = q
            if r:
                col[m] = r
        return poly_term(row), poly_term(col)
    sp = poly(S)
    if len(sp) != 1:
        # composite stride: only handle exact multiples through the leading monomial
        raise Undecided("composite stride")
    (sm, sc), = sp.items()
    row, col = {}, {}
    for m, c in p.items():
        mm = list(m)
        ok = True
        for a in sm:
            if a in mm:
                mm.remove(a)
            else:
                ok = False
                break
        if ok and sc == 1:
            k = tuple(mm)
            row[k] = row.get(k, 0) + c
        else:
            col[m] = c
    return poly_term(row), poly_term(col)
