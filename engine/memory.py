"""Memory model: separated regions; region contents are functions from locations to values, built up by
stores, map-stores (summaries of loops) and merges; reads are resolved symbolically."""
import z3
from terms import *


class Undecided(Exception):
    """The engine cannot produce a verdict for this function (never reported as proved)."""


class Region:
    def __init__(self, name, ety, shape=None, size=None, nlead=0, lead=None, bytes_=None, kind="heap"):
        self.name, self.ety = name, ety      # ety: cfront.T or None (untyped fresh allocation)
        self.shape = shape                   # list of extents [R,S] or [n]; None = not fixed yet
        self.size = size                     # number of elements (term) when shape is None
        self.nlead, self.lead = nlead, lead or []
        self.bytes = bytes_
        self.kind = kind
        self.readonly = False
        self.gen0 = None

    def __repr__(self):
        return f"<{self.name}>"

    @property
    def arity(self):
        return self.nlead + len(self.shape)

    def k(self):
        return self.ety.k


class Content:
    def read(self, loc):
        raise NotImplementedError


class Fresh(Content):
    """Arbitrary contents (uninitialised or havocked)."""

    def __init__(self, name, kind):
        self.name, self.kind, self.fs = fresh_name(name), kind, {}

    def fn(self, n):
        if n not in self.fs:
            ins = [z3.IntSort()] * n
            if self.kind == "cx":
                self.fs[n] = (z3.Function(self.name + ".re", *ins, z3.RealSort()),
                              z3.Function(self.name + ".im", *ins, z3.RealSort()))
            else:
                s = z3.RealSort() if self.kind == "real" else z3.IntSort()
                self.fs[n] = (z3.Function(self.name, *ins, s),)
        return self.fs[n]

    def read(self, loc):
        f = self.fn(len(loc))
        loc = [simp_int(x) for x in loc]
        if self.kind == "cx":
            return Cx(f[0](*loc), f[1](*loc))
        return f[0](*loc)


class Const(Content):
    def __init__(self, v):
        self.v = v

    def read(self, loc):
        return self.v


class Fn(Content):
    def __init__(self, f):
        self.f = f

    def read(self, loc):
        return self.f(loc)


def loc_eq(a, b):
    cs = []
    for x, y in zip(a, b):
        d = pdiff_const(x, y)
        if d == 0:
            continue
        if d is not None:
            return z3.BoolVal(False)
        cs.append(x == y)
    return And(cs)


class Store(Content):
    def __init__(self, base, loc, val):
        self.base, self.loc, self.val = base, loc, val

    def read(self, loc):
        c = loc_eq(loc, self.loc)
        if z3.is_true(c):
            return self.val
        if z3.is_false(c):
            return self.base.read(loc)
        return If(c, self.val, self.base.read(loc))


INV = {}      # name of an index function f(lead.., p) -> (lead, t) -> candidate p with f(lead.., p) = t (ghost inverse)


NNZOF = {}    # name of a row length function -> (index content, ghost inverse content)
PIGEON = {}   # name of a prefix count -> (contents of the array filled at the counted positions, loop end, array extent)
INVOF = {}    # name of a ghost inverse function -> index function (lead, q) -> term


def inverse_of(l, p, t):
    """p with l(p) = t, when l = R(lead.., p + c) for an index function R with a registered inverse"""
    if not (z3.is_app(l) and l.num_args() >= 1 and l.decl().name() in INV):
        # R(lead.., p + c) + d
        pl = poly(l)
        ms = [m for m in pl if depends(poly_term({m: 1}), p)] if len(pl) > 1 else []
        if len(ms) == 1 and len(ms[0]) == 1 and pl[ms[0]] == 1:
            rest = poly_term({m: c for m, c in pl.items() if m != ms[0]})
            return inverse_of(poly_term({ms[0]: 1}), p, simp_int(t - rest))
        return None
    a = l.children()
    if any(depends(x, p) for x in a[:-1]):
        return None
    d = poly_term(padd(poly(a[-1]), poly(p), -1))
    if depends(d, p):
        return None
    return simp_int(INV[l.decl().name()](a[:-1], t) - d)


def uses_inverse(params, locs):
    """some parameter is only recovered through an index function's inverse"""
    for l in locs:
        for p in params:
            if inverse_of(l, p, l) is not None:
                return True
    return False


def solve_params(params, locs, target):
    """Solve locs(params) = target for the parameters (each occurs with coefficient +-1 in some component).
    Returns (substitution list, residual equations) or None."""
    todo = list(params)
    sub = []
    eqs = list(zip(locs, target))
    resid = []
    progress = True
    while todo and progress:
        progress = False
        for i, (l, t) in enumerate(eqs):
            l2 = z3.substitute(l, *sub) if sub else l
            here = [p for p in todo if depends(l2, p)]
            if len(here) == 1:
                p = here[0]
                iv = inverse_of(l2, p, t)
                if iv is not None:
                    sub.append((p, iv))
                    todo.remove(p)
                    progress = True     # the equation stays as a residual
                    break
                pl = poly(l2)
                cf = pl.get((p.get_id(),))
                if cf not in (1, -1):
                    continue
                rest = {m: c for m, c in pl.items() if m != (p.get_id(),)}
                if any(p.get_id() in m for m in rest) or any(depends(poly_term({m: 1}), p) for m in rest if m):
                    continue
                # t = cf*p + rest  ->  p = cf*(t-rest)
                v = poly_term(padd(poly(t), rest, -1)) if cf == 1 else poly_term(padd(rest, poly(t), -1))
                sub.append((p, v))
                todo.remove(p)
                eqs.pop(i)
                progress = True
                break
    if todo:
        return None
    for l, t in eqs:
        resid.append((z3.substitute(l, *sub) if sub else l, t))
    return sub, resid


class MapStore(Content):
    """For all parameter values satisfying guard: cell locs(params) := val(params) (locations pairwise distinct)."""

    def __init__(self, base, params, guard, locs, val):
        self.base, self.params, self.guard, self.locs, self.val = base, params, guard, locs, val
        # try inversion once with placeholders, to fail early
        ts = [z3.Int(f"?t{i}") for i in range(len(locs))]
        if solve_params(params, locs, ts) is None:
            raise Undecided("map store with a non-invertible location")

    def read(self, loc):
        sub, resid = solve_params(self.params, self.locs, loc)
        cs = []
        for a, b in resid:
            d = pdiff_const(a, b)
            if d == 0:
                continue
            if d is not None:
                return self.base.read(loc)
            cs.append(a == b)
        g = z3.substitute(self.guard, *sub) if sub else self.guard
        c = And(cs + [g])
        if z3.is_false(c):
            return self.base.read(loc)
        v = subst(self.val, *sub) if sub else self.val
        return If(c, v, self.base.read(loc))


class IteC(Content):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, loc):
        return If(self.c, self.a.read(loc), self.b.read(loc))


# ------------------------------------------------------------- pointers and objects
class Ptr:
    __slots__ = ("reg", "idx", "off", "ety", "gen")

    def __init__(self, reg, idx=(), off=None, ety=None, gen=None):
        self.reg, self.idx, self.ety, self.gen = reg, tuple(idx), ety, gen
        self.off = off if off is not None else z3.IntVal(0)

    def __repr__(self):
        return f"Ptr({self.reg},{self.idx},{self.off})"


NULL = Ptr(None)


class Obj:
    """Pointer to a struct object."""
    __slots__ = ("name", "tname", "idx")

    def __init__(self, name, tname, idx=()):
        self.name, self.tname, self.idx = name, tname, tuple(idx)

    def __repr__(self):
        return f"Obj({self.name}{list(self.idx) if self.idx else ''})"


class PIte:
    """Guarded alternatives of pointer values: list of (guard, pointer)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"PIte({self.alts})"


def is_ptr(v):
    return isinstance(v, (Ptr, Obj, PIte))


def same_gen(a, b):
    return a is b or (a is not None and b is not None and peq(a, b))


def same_ptr(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and len(a.idx) == len(b.idx) and all(peq(x, y) for x, y in zip(a.idx, b.idx)) and \
            peq(a.off, b.off) and same_gen(a.gen, b.gen)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.name == b.name and all(peq(x, y) for x, y in zip(a.idx, b.idx))
    return False


def merge_ptr(c, a, b):
    if same_ptr(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.reg is not None and len(a.idx) == len(b.idx) == 1 and \
            peq(a.idx[0], b.idx[0]) and (a.gen is None) == (b.gen is None):
        return Ptr(a.reg, a.idx, If(c, a.off, b.off), a.ety or b.ety, If(c, a.gen, b.gen) if a.gen is not None else None)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.reg is not None and not a.idx and not b.idx:
        return Ptr(a.reg, (), If(c, a.off, b.off), a.ety or b.ety)
    al = a.alts if isinstance(a, PIte) else [(z3.BoolVal(True), a)]
    bl = b.alts if isinstance(b, PIte) else [(z3.BoolVal(True), b)]
    out = [(And(c, g), p) for g, p in al] + [(And(Not(c), g), p) for g, p in bl]
    return PIte(out)
